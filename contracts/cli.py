"""Contracts on the command line's handlers (P17): they print what the library computes."""
import sys

from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract, Iface, RefMethod, VList
from dv import lib
from .units import cls

T = None
MAIN = "pyudunits2.__main__"
SYSTEM = "pyudunits2._unit_system"
UNIT_TEXTS = ("__str__", "expanded", "dimensionality")
UNIT_FLAGS = ("is_dimensionless", "is_time_unit")


class AnyUnit(Iface):
    """Whatever the library gives for a unit string: only its public face may be used."""

    def __init__(self):
        self.kind = RefKind(self)

    def truth(self, ip, r):
        return True

    def getattr(self, ip, r, name):
        if name in UNIT_TEXTS + UNIT_FLAGS:
            return RefMethod(r, name)
        raise Unsupported(f"attribute {name} of a unit")

    def call(self, ip, r, name, args, kwargs):
        if args or kwargs:
            raise Unsupported(f"{name} with arguments")
        if name in UNIT_FLAGS:
            return ip.wrap_bool(T.cli_flag[name](r.t))
        t = text(name)(r.t)
        if name == "dimensionality":
            return SRef(T.cli_dim(r.t), DIMENSIONALITY)
        return SStr(t)


class AnyDimensionality(Iface):
    def __init__(self):
        self.kind = RefKind(self)

    def getattr(self, ip, r, name):
        if name == "__str__":
            return RefMethod(r, name)
        raise Unsupported(f"attribute {name} of a dimensionality")

    def call(self, ip, r, name, args, kwargs):
        return SStr(T.cli_dim_text(r.t))

    def eq(self, ip, r, o):
        if isinstance(o, SRef) and o.iface is self:
            return T.cli_same_dim(r.t, o.t)
        raise Unsupported("equality of a dimensionality")


UNIT, DIMENSIONALITY = AnyUnit(), AnyDimensionality()


def text(name):
    if name == "dimensionality":
        return lambda r: T.cli_dim_text(T.cli_dim(r))
    return T.cli_text[name]


class Args(Iface):
    """The parsed arguments: attributes are texts."""


class Handler(Contract):
    module = MAIN
    props = ("P17",)
    covers = True
    parameters = ()
    assumes = ("UnitSystem.from_udunits2_xml, UnitSystem.unit and Converter stand for themselves: functions of their arguments which return or raise",)

    def start(self, ip, case):
        p = ip.path
        import argparse
        self.texts = {n: p.fresh(n, String) for n in self.parameters}
        a = SObj(argparse.Namespace, {n: SStr(t) for n, t in self.texts.items()})
        ip.ghost = {"converted": []}
        _, f = self.resolve()
        return lambda: ip.call_function(f, [a], {})

    def unit(self, name):
        return T.cli_unit(self.texts[name])

    def lines(self, ip):
        out = []
        for parts, kw in ip.printed:
            if kw.get("file") is not None:
                continue
            if any(k not in ("end", "sep", "flush", "file") for k in kw):
                raise Unsupported("print")
            xs = []
            for i, x in enumerate(parts):
                if i:
                    xs.append(kw.get("sep", " "))
                xs.append(x)
            if any(isinstance(x, Opaque) for x in xs):
                raise Unsupported("printed text")
            out.append(lib.S(lib.concat(ip, xs)) if xs else z3.StringVal(""))
        return out

    def printed(self, ip, t):
        """Some line of the output has this text."""
        return z3.Or(*[z3.Contains(l, t) for l in self.lines(ip)]) if ip.printed else z3.BoolVal(False)

    def library(self, exc):
        return exc.args == ("the library",)


class Explain(Handler):
    name, method = "explain_handler", "explain_handler"
    parameters = ("unit",)

    def ensure(self, ip, r):
        u = self.unit("unit")
        for name, what in zip(UNIT_TEXTS, ("the unit", "its expansion", "its dimensionality")):
            ip.prove(f"{what} is printed as the library gives it", self.printed(ip, text(name)(u)))
        ip.prove("only a unit which the library accepts is explained", T.cli_ok(self.texts["unit"]))

    def raised(self, ip, exc):
        ip.prove("only a unit which the library refuses is refused", z3.Not(T.cli_ok(self.texts["unit"])) if self.library(exc) else z3.BoolVal(False))


class ConversionExpr(Handler):
    name, method = "conv_expr_handler", "conv_expr_handler"
    parameters = ("from_unit", "to_unit")

    def ensure(self, ip, r):
        a, b = self.unit("from_unit"), self.unit("to_unit")
        ip.prove("the expression is printed only for units which the library converts", T.cli_converts(a, b))
        ip.prove("the expression which is printed is the library's, from the first unit to the second", self.printed(ip, T.cli_expression(a, b)))

    def raised(self, ip, exc):
        a, b = self.unit("from_unit"), self.unit("to_unit")
        ok = z3.And(T.cli_ok(self.texts["from_unit"]), T.cli_ok(self.texts["to_unit"]))
        if issubclass(exc.cls, SystemExit):
            code = exc.args[0] if exc.args else 0
            ip.prove("it exits with status 1", code.t if isinstance(code, SBool) else code.t == 1 if isinstance(code, SInt) else z3.BoolVal(code == 1))
            ip.prove("it exits only where the library refuses the conversion", z3.And(ok, z3.Not(T.cli_converts(a, b))))
            ip.prove("it says so", z3.BoolVal(bool(ip.printed)))
            return
        ip.prove("only a unit which the library refuses is refused", z3.Not(ok) if self.library(exc) else z3.BoolVal(False))


class Main:
    """The same, from the command line's arguments on."""
    method = "main"
    command = None

    def start(self, ip, case):
        p = ip.path
        super().start(ip, case)
        for t in self.texts.values():
            # What begins with a dash is an option to argparse.
            p.add(z3.Not(z3.PrefixOf(z3.StringVal("-"), t)))
        _, f = self.resolve()

        def go():
            old = sys.argv
            sys.argv = VList(["pyudunits2", self.command] + [SStr(self.texts[n]) for n in self.parameters])
            try:
                return ip.call_function(f, [], {})
            finally:
                sys.argv = old
        return go
    assumes = Handler.assumes + ("argparse assigns the arguments to the positional parameters of the parser, then to those of the sub-command which they name, in the order "
                                 "of their declaration; a default which a sub-command sets overrides the parser's (an argument which begins with a dash is outside the property)",)


class MainExplain(Main, Explain):
    name, command = "main (explain-unit)", "explain-unit"


class MainConversion(Main, ConversionExpr):
    name, command = "main (conversion-expr)", "conversion-expr"


class ArgParser:
    """An argparse.ArgumentParser, or what add_subparsers returns."""

    def add_argument(self): pass
    def add_subparsers(self): pass
    def add_parser(self): pass
    def set_defaults(self): pass
    def parse_args(self): pass
    def print_help(self): pass
    def print_usage(self): pass


IGNORED = {"help", "description", "prog", "epilog", "title", "metavar", "usage", "formatter_class", "allow_abbrev"}


class ParserState:
    def __init__(self):
        self.actions, self.defaults = [], {}


def new_parser():
    o = SObj(ArgParser, {})
    o.state = ParserState()
    return o


def words_of(xs, what):
    if not all(isinstance(x, str) for x in xs):
        raise Unsupported(what)
    return list(xs)


def parser_call(ip, o, name, args, kwargs):
    kwargs = {k: v for k, v in kwargs.items() if k not in IGNORED}
    st = o.state
    if name == "add_argument":
        names = words_of(args, "names of an argument")
        if len(names) == 1 and not names[0].startswith("-"):
            if kwargs:
                raise Unsupported("argument with " + ", ".join(sorted(kwargs)))
            st.actions.append(("positional", names[0]))
        elif names and all(n.startswith("-") for n in names):
            dest = kwargs.pop("dest", next((n for n in names if n.startswith("--")), names[0]).lstrip("-").replace("-", "_"))
            action = kwargs.pop("action", "store")
            if action not in ("store", "store_true") or kwargs:
                raise Unsupported("optional argument")
            st.actions.append(("option", dest, False if action == "store_true" else None))
        else:
            raise Unsupported("names of an argument")
        return Opaque("an argument")
    if name == "add_subparsers" and not args:
        if set(kwargs) - {"dest", "required"}:
            raise Unsupported("sub-commands with " + ", ".join(sorted(kwargs)))
        s = new_parser()
        s.commands = {}
        st.actions.append(("commands", s.commands, kwargs.get("dest")))
        return s
    if name == "add_parser" and hasattr(o, "commands"):
        [c] = words_of(args, "name of a sub-command")
        if kwargs:
            raise Unsupported("sub-command with " + ", ".join(sorted(kwargs)))
        o.commands[c] = s = new_parser()
        return s
    if name == "set_defaults" and not args:
        st.defaults.update(kwargs)
        return None
    if name == "parse_args":
        xs = args[0] if args else kwargs.get("args")
        xs = list(sys.argv)[1:] if xs is None else xs
        if not isinstance(xs, (list, tuple)) or len(args) > 1:
            raise Unsupported("arguments of parse_args")
        import argparse
        ns = SObj(argparse.Namespace, {})
        rest = consume(st, list(xs), ns)
        if rest:
            ip.raise_(SystemExit, 2)
        return ns
    raise Unsupported(f"ArgumentParser.{name}")


def consume(st, xs, ns):
    """Assign the arguments."""
    ns.attrs.update(st.defaults)
    for a in st.actions:
        if a[0] == "option" and a[1] not in st.defaults:
            ns.attrs[a[1]] = a[2]
    for a in st.actions:
        if a[0] == "option":
            continue
        if not xs:
            if a[0] == "commands":
                if a[2] is not None:
                    ns.attrs.setdefault(a[2], None)
                continue
            raise Unsupported("missing arguments")
        x = xs.pop(0)
        if a[0] == "positional":
            ns.attrs[a[1]] = x
        else:
            if not isinstance(x, str) or x not in a[1]:
                raise Unsupported("unknown sub-command")
            if a[2] is not None:
                ns.attrs[a[2]] = x
            xs = consume(a[1][x].state, xs, ns)
    return xs


class FromXml(Contract):
    """The bundled unit system, in the handlers."""
    name = "UnitSystem.from_udunits2_xml (as used by the command line)"
    module, cls, method = SYSTEM, "UnitSystem", "from_udunits2_xml"
    props = ()

    def accepts(self, ip, s, args):
        return isinstance(ip.contract, Handler)

    def apply(self, ip, fn, args, kwargs):
        if len(args) > 1 or kwargs:
            raise Unsupported("from_udunits2_xml with a path")
        o = SObj(cls("UnitSystem", SYSTEM), {})
        o.bundled = True
        return o


class CliUnit(Contract):
    name = "UnitSystem.unit (as used by the command line)"
    module, cls, method = SYSTEM, "UnitSystem", "unit"
    props = ()

    def accepts(self, ip, s, args):
        return getattr(s, "bundled", False)

    def apply(self, ip, fn, args, kwargs):
        x = lib.S(ip.resolve(list(self.params(fn, args, kwargs).values())[1]))
        if not ip.path.branch(T.cli_ok(x)):
            ip.raise_(cls("UnresolvableUnitException", "pyudunits2._exceptions"), "the library")
        return SRef(T.cli_unit(x), UNIT)


class External:
    def construct(self, ip, c, args, kwargs):
        import argparse
        if c is argparse.ArgumentParser:
            if args or set(kwargs) - IGNORED:
                raise Unsupported("ArgumentParser")
            return new_parser()
        if not isinstance(ip.contract, Handler) or c is not cls("Converter"):
            return NotImplemented
        names = dict(zip(("from_unit", "to_unit"), args), **kwargs)
        a, b = names.get("from_unit"), names.get("to_unit")
        if len(names) != 2 or not all(isinstance(x, SRef) and x.iface is UNIT for x in (a, b)):
            raise Unsupported("arguments of Converter")
        if not ip.path.branch(T.cli_converts(a.t, b.t)):
            ip.raise_(cls("IncompatibleUnitsError", "pyudunits2._exceptions"), "the library")
        return SObj(c, {"expression": SStr(T.cli_expression(a.t, b.t)), "_from_unit": a, "_to_unit": b})

    def external(self, ip, f, args, kwargs):
        if f is sys.exit:
            ip.raise_(SystemExit, *args)
        if args and isinstance(args[0], SObj) and args[0].cls is ArgParser and getattr(f, "__module__", None) == __name__:
            return parser_call(ip, args[0], f.__name__, args[1:], kwargs)
        return NotImplemented


CONTRACTS = [Explain, ConversionExpr, MainExplain, MainConversion, FromXml, CliUnit]


def load(theory):
    global T
    T = theory
    B = z3.BoolSort()
    T.cli_ok = z3.Function("cli_ok", String, B)
    T.cli_unit = z3.Function("cli_unit", String, Ref)
    T.cli_text = {n: z3.Function("cli" + n, Ref, String) for n in UNIT_TEXTS}
    T.cli_flag = {n: z3.Function("cli_" + n, Ref, B) for n in UNIT_FLAGS}
    T.cli_dim = z3.Function("cli_dim", Ref, Ref)
    T.cli_same_dim = z3.Function("cli_same_dim", Ref, Ref, B)
    T.cli_dim_text = z3.Function("cli_dim_text", Ref, String)
    T.cli_converts = z3.Function("cli_converts", Ref, Ref, B)
    T.cli_expression = z3.Function("cli_expression", Ref, Ref, String)
    return [c() for c in CONTRACTS], [External()]
