"""Contracts on the grammar: the visitor of parse trees, rule by rule, and parsing.

A parse tree is an instance of the generated parser's context classes; its parts are known
only through the expression the grammar gives them (their contract), its tokens through
their type and text.  What a rule's alternatives are is read off udunits2Parser.g4.
"""
import importlib
import itertools

from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract, VList, zbool, SOptStr
from dv import lib
from .units import cls

T = None
GRAMMAR = "pyudunits2._grammar"

RULES = ("unit_spec", "shift_spec", "product", "power", "logarithm", "basic_spec", "number", "integer", "timestamp")
SUPERSCRIPTS = {"⁰": "0", "¹": "1", "²": "2", "³": "3", "⁴": "4", "⁵": "5", "⁶": "6", "⁷": "7", "⁸": "8", "⁹": "9", "⁻": "-", "⁺": "+"}


def parser_class():
    return importlib.import_module(GRAMMAR + ".parser.udunits2Parser").udunits2Parser


def context(rule, children=(), **attrs):
    c = getattr(parser_class(), rule[0].upper() + rule[1:] + "Context", None)
    if c is None:
        raise Unsupported(f"no context of {rule}")
    o = SObj(c, {"children": VList(children), "parentCtx": None, "invokingState": -1, "exception": None, "start": None, "stop": None})
    for x in children:
        x.attrs["parentCtx"] = o
    o.meaning = None
    o.rule = rule
    o.attrs.update(attrs)
    return o


def token(kind, text):
    tree = importlib.import_module(GRAMMAR + "._antlr4_runtime.tree.Tree")
    tok = importlib.import_module(GRAMMAR + "._antlr4_runtime.Token")
    t = -1 if kind == "EOF" else getattr(parser_class(), kind, None)
    if t is None:
        raise Unsupported(f"no token {kind}")
    sym = SObj(tok.CommonToken, {"type": t, "_text": text, "tokenIndex": -1, "channel": 0, "line": 1, "column": 0})
    return SObj(tree.TerminalNodeImpl, {"symbol": sym, "parentCtx": None})


def text_of(ip, o):
    """The text of a parse tree: of its tokens, in order."""
    if isinstance(o, SObj) and "symbol" in o.attrs:
        return o.attrs["symbol"].attrs["_text"]
    if getattr(o, "meaning", None) is not None or not isinstance(o.attrs.get("children"), VList):
        raise Unsupported("text of a part")
    return lib.concat(ip, [text_of(ip, x) for x in o.attrs["children"]])


def num(n):
    return T.ctors["Number"].recog(n)


def value(n):
    return T.ctors["Number"].acc[0](n)


def content(n):
    return T.ctors["Number"].acc[1](n)


def number_of(v, text):
    return T.ctors["Number"].make(v, OptStr.SomeStr(text))


class Part:
    """An arbitrary part of a parse tree: what it means, and what the grammar lets it be."""

    def __init__(self, ip, rule):
        p = ip.path
        n = p.fresh(rule, T.Node)
        if rule == "timestamp":
            p.add(T.ctors["Unhandled"].recog(n))
        elif rule in ("integer", "number"):
            p.add(num(n))
            p.know_ctor(n, "Number")
            p.add(OptStr.is_SomeStr(content(n)))
            if rule == "integer":
                p.add(Num.is_IntV(value(n)))
        else:
            p.add(T.WF(n))
        self.n = n
        self.tree = context(rule)
        self.tree.meaning = n
        self.tree.attrs["children"] = None


class Rule(Contract):
    frame = False
    module, cls = GRAMMAR, "UnitParseVisitor"
    rule = ""
    props = ("P01", "P03")
    assumes = ("a parse tree has the shape of an alternative of the grammar (ANTLR's generated parser)",)

    def matches(self, ip, fn, self_, args):
        # Whatever the method is called by, it is the one for this rule's nodes.
        return super().matches(ip, fn, self_, args) and len(args) == 2 and isinstance(args[1], SObj)

    def start(self, ip, case):
        v = ip.construct(cls("UnitParseVisitor", GRAMMAR), [], {})
        ip.ghost = {"expected": None, "fails": None}
        children, expected = self.tree(ip, case)
        ip.ghost["expected"] = expected
        t = context(self.rule, children)
        m = ip.getattr(v, "visit")
        return lambda: ip.call(m, [t], {})

    def ensure(self, ip, r):
        r = ip.resolve(r)
        if isinstance(r, T.graph.Node):
            r = SNode(ip.live_node(r))
        if not isinstance(r, SNode):
            return ip.prove("the result is an expression", False)
        ip.prove("the result is the expression which the grammar dictates", self.equal(ip, r.t, ip.ghost["expected"]))
        if self.rule not in ("timestamp", "unit_spec"):
            ip.prove("the expression is well-formed", T.WF(r.t))
        if ip.ghost["fails"] is not None:
            ip.prove("text which isn't a number is refused", z3.Not(ip.ghost["fails"]))

    def equal(self, ip, n, expected):
        return n == expected

    def raised(self, ip, exc):
        if issubclass(exc.cls, SyntaxError) and ip.ghost["fails"] is not None:
            return ip.prove("only text which isn't a number is refused", ip.ghost["fails"])
        ip.prove(f"no {exc.cls.__name__} is raised", False)

    def apply(self, ip, fn, args, kwargs):
        t = args[1]
        if getattr(t, "meaning", None) is None:
            return NotImplemented
        return SNode(t.meaning)

    # -- building parse trees
    def parts(self, ip, *rules):
        out = [Part(ip, r) for r in rules]
        return [x.tree for x in out] + [x.n for x in out]

    def text(self, ip, name):
        return SStr(ip.path.fresh(name, String))


SPACES = " "


class UnitSpec(Rule):
    name, rule, method = "UnitParseVisitor.visitUnit_spec", "unit_spec", "visitUnit_spec"
    cases = ("an expression", "nothing")

    def tree(self, ip, case):
        eof = token("EOF", "<EOF>")
        if case == "nothing":
            return [eof], T.ctors["Unhandled"].make(z3.StringVal(""))
        t, n = self.parts(ip, "shift_spec")
        return [t, eof], n


class ShiftSpec(Rule):
    name, rule, method = "UnitParseVisitor.visitShift_spec", "shift_spec", "visitShift_spec"
    props = ("P01", "P03", "P15")
    cases = ("product",) + tuple((a, b, what) for what in ("number", "timestamp") for a in (0, 1) for b in (0, 1))

    def tree(self, ip, case):
        if case == "product":
            t, n = self.parts(ip, "product")
            return [t], n
        a, b, what = case
        t, u, n, m = self.parts(ip, "product", what)
        ws = lambda k: [token("WS", " ") for _ in range(k)]
        return [t] + ws(a) + [token("SHIFT_OP", self.text(ip, "op"))] + ws(b) + [u], T.ctors["Shift"].make(n, m)


class Product(Rule):
    name, rule, method = "UnitParseVisitor.visitProduct", "product", "visitProduct"
    cases = ("power", "juxtaposed", "multiplied", "divided", 1, 2, 3, 4)
    bounded = "up to 4 consecutive spaces between factors"

    def tree(self, ip, case):
        if case == "power":
            t, n = self.parts(ip, "power")
            return [t], n
        t, u, n, m = self.parts(ip, "product", "power")
        M, D = T.ctors["Multiply"].make(n, m), T.ctors["Divide"].make(n, m)
        if case == "juxtaposed":
            return [t, u], M
        if case == "multiplied":
            return [t, token("MULTIPLY", self.text(ip, "op")), u], M
        if case == "divided":
            return [t, token("DIVIDE", self.text(ip, "op")), u], D
        return [t] + [token("WS", " ") for _ in range(case)] + [u], M


class Power(Rule):
    name, rule, method = "UnitParseVisitor.visitPower", "power", "visitPower"
    props = ("P01", "P02", "P03")
    cases = ("appended", "plain", "raised") + tuple(SUPERSCRIPTS)

    def tree(self, ip, case):
        if case == "plain":
            t, n = self.parts(ip, "logarithm")
            return [t], n
        R = T.ctors["Raise"]
        if case in SUPERSCRIPTS:
            t, n = self.parts(ip, "logarithm")
            d = SUPERSCRIPTS[case]
            if d in "+-":
                ip.ghost["fails"] = z3.BoolVal(True)
                return [t, token("UNICODE_EXPONENT", case)], n
            return [t, token("UNICODE_EXPONENT", case)], R.make(n, number_of(Num.IntV(int(d)), z3.StringVal(d)))
        t, u, n, m = self.parts(ip, "logarithm", "integer")
        if case == "appended":
            return [t, u], R.make(n, m)
        return [t, token("RAISE", self.text(ip, "op")), u], R.make(n, m)

    @property
    def covers(self):
        return False


class Superscripts(Rule):
    """Longer superscript exponents, one by one."""
    name, rule, method = "UnitParseVisitor.visitPower (superscripts)", "power", "visitPower"
    props = ("P02", "P03", "P01")
    bounded = "superscript exponents of up to 3 characters (of 12), and of 12 digits"

    def matches(self, ip, fn, self_, args):
        return False

    def start(self, ip, case):
        v = ip.construct(cls("UnitParseVisitor", GRAMMAR), [], {})
        texts = ["".join(x) for k in (2, 3) for x in itertools.product(SUPERSCRIPTS, repeat=k)] + ["⁻⁹⁸⁷⁶⁵⁴³²¹⁰¹", "⁰⁰⁰⁰⁰⁰⁰⁰⁰¹²³"]
        m = ip.getattr(v, "visit")
        t0, n = self.parts(ip, "logarithm")
        self.texts, self.n = texts, n

        def go():
            from dv.values import PyRaise
            out = []
            for x in texts:
                try:
                    out.append(ip.call(m, [context("power", [t0, token("UNICODE_EXPONENT", x)])], {}))
                except PyRaise as e:
                    out.append(e.exc)
            return out
        return go

    def ensure(self, ip, rs):
        R = T.ctors["Raise"]
        bad = []
        good = []
        for x, r in zip(self.texts, rs):
            plain = "".join(SUPERSCRIPTS[c] for c in x)
            isint = plain.lstrip("+-").isdigit() and len(plain) - len(plain.lstrip("+-")) <= 1
            if isinstance(r, ExcVal):
                if isint or not issubclass(r.cls, SyntaxError):
                    bad.append(x)
            elif not isint or not isinstance(r, SNode):
                bad.append(x)
            else:
                good.append(r.t == R.make(self.n, number_of(Num.IntV(int(plain)), z3.StringVal(plain))))
        ip.prove("a superscript exponent is the integer it writes, or refused where it writes none", z3.And(z3.BoolVal(not bad), *good))


class LogarithmRule(Rule):
    name, rule, method = "UnitParseVisitor.visitLogarithm", "logarithm", "visitLogarithm"
    bounded = "logarithm tokens with up to 2 spaces in each place"
    TEXTS = tuple(f"{f}{a}({b}{re}{colon}{c}" for f in ("log", "lg", "ln", "lb") for a in ("", " ", "  ") for b in ("", " ", "  ")
                  for re in ("re", "RE") for colon in ("", ":") for c in ("", " ", "  "))
    cases = ("basic_spec",) + TEXTS

    def tree(self, ip, case):
        if case == "basic_spec":
            t, n = self.parts(ip, "basic_spec")
            return [t], n
        t, n = self.parts(ip, "shift_spec")
        f = case.split("(")[0].replace(" ", "")
        return [token("LOG", case), t, token("CLOSE_PAREN", ")")], T.ctors["Logarithm"].make(z3.StringVal(f), n)


class BasicSpec(Rule):
    name, rule, method = "UnitParseVisitor.visitBasic_spec", "basic_spec", "visitBasic_spec"
    cases = ("identifier", "brackets", "number")

    def tree(self, ip, case):
        if case == "identifier":
            x = ip.path.fresh("text", String)
            return [token("ID", SStr(x))], T.ctors["Identifier"].make(x)
        if case == "brackets":
            t, n = self.parts(ip, "shift_spec")
            return [token("OPEN_PAREN", "("), t, token("CLOSE_PAREN", ")")], n
        t, n = self.parts(ip, "number")
        return [t], n


class NumberRule(Rule):
    name, rule, method = "UnitParseVisitor.visitNumber", "number", "visitNumber"
    props = ("P02", "P01", "P03")
    cases = ("integer", "decimal")
    assumes = Rule.assumes + ("Decimal(text) is exactly the number which the text writes, or raises InvalidOperation",)

    def tree(self, ip, case):
        if case == "integer":
            t, n = self.parts(ip, "integer")
            return [t], n
        x = ip.path.fresh("text", String)
        ip.ghost["fails"] = z3.Not(lib.isdec(x))
        return [token("FLOAT", SStr(x))], number_of(Num.DecV(lib.decval(x)), x)


class IntegerRule(Rule):
    name, rule, method = "UnitParseVisitor.visitInteger", "integer", "visitInteger"
    props = ("P02", "P01", "P03")
    cases = ("INT", "SIGNED_INT")
    assumes = Rule.assumes + ("int(text) is exactly the integer which the text writes, or raises ValueError",)

    def tree(self, ip, case):
        x = ip.path.fresh("text", String)
        ip.ghost["fails"] = z3.Not(lib.isint(x))
        return [token(case, SStr(x))], number_of(Num.IntV(lib.intval(x)), x)


class Timestamp(Rule):
    name, rule, method = "UnitParseVisitor.visitTimestamp", "timestamp", "visitTimestamp"
    props = ("P01", "P15", "P03")
    SHAPES = ((("DATE",),), (("DATE",), ("WS",), ("signed_clock", "HOUR_MINUTE")), (("DATE",), ("T",), ("signed_clock", "HOUR_MINUTE_SECOND"), ("WS",), ("timezone_offset", "integer")),
              (("integer", "INT"), ("TIMEZONE",)), (("TIMESTAMP",), ("WS",), ("timezone_offset", "HOUR_MINUTE")), (("integer", "SIGNED_INT"), ("WS",), ("TZ",)))
    cases = tuple(range(len(SHAPES)))
    bounded = "one timestamp of each of six shapes"

    def tree(self, ip, case):
        out, texts = [], []
        for s in self.SHAPES[case]:
            x = SStr(ip.path.fresh("text", String))
            texts.append(x)
            if s[-1] == "integer":
                t = context("integer", [token("INT", x)])
            else:
                t = token(s[-1], x)
            if s[0] != s[-1]:
                t = context(s[0], [t])
            out.append(t)
        return out, T.ctors["Unhandled"].make(lib.S(lib.concat(ip, texts)))

    def apply(self, ip, fn, args, kwargs):
        if getattr(args[1], "meaning", None) is None:
            return NotImplemented
        return SNode(args[1].meaning)


class External:
    """ANTLR: a text is recognised or not, and then has one parse tree."""

    def construct(self, ip, c, args, kwargs):
        name = c.__name__
        mod = c.__module__ or ""
        if not mod.startswith(GRAMMAR):
            return NotImplemented
        if name == "InputStream":
            x = ip.resolve(args[0])
            if not isinstance(x, (str, SStr)) or len(args) > 1 or kwargs:
                ip.raise_(TypeError, "InputStream")
            return self.stub(name, x)
        if name == "udunits2Lexer":
            return self.source(args, kwargs, "InputStream", name)
        if name == "CommonTokenStream":
            return self.source(args, kwargs, "udunits2Lexer", name)
        if name == "udunits2Parser":
            o = self.source(args, kwargs, "CommonTokenStream", name)
            o.listeners = VList(["console"])
            return o
        return NotImplemented

    def stub(self, name, x):
        o = SObj(Stub, {})
        o.name, o.text = name, x
        return o

    def source(self, args, kwargs, what, name):
        if len(args) != 1 or kwargs or not isinstance(args[0], SObj) or args[0].cls is not Stub or args[0].name != what:
            raise Unsupported(f"arguments of {name}")
        return self.stub(name, args[0].text)

    def external(self, ip, f, args, kwargs):
        if getattr(f, "__module__", None) != __name__ or not args or not isinstance(args[0], SObj) or args[0].cls is not Stub:
            return NotImplemented
        o, args, name = args[0], args[1:], f.__name__
        if o.name == "udunits2Parser" and not kwargs:
            if name == "removeErrorListeners" and not args:
                del o.listeners[:]
                return None
            if name == "addErrorListener" and len(args) == 1:
                o.listeners.append(args[0])
                return None
            if name == "unit_spec" and not args:
                return self.parse(ip, o)
        raise Unsupported(f"{o.name}.{name}")

    def parse(self, ip, o):
        x = lib.S(o.text)
        p = ip.path
        t = context("unit_spec")
        t.attrs["children"] = None
        if p.branch(T.recognised(x)):
            t.meaning = T.means(x)
            return t
        for l in o.listeners:
            if isinstance(l, SObj):
                where = [SInt(p.fresh(w, z3.IntSort())) for w in ("line", "column")]
                ip.call(ip.getattr(l, "syntaxError"), [Opaque("recognizer"), Opaque("token"), *where, SStr(p.fresh("message", String)), None], {})
        # Recovery: some tree.
        t.meaning = p.fresh("recovered", T.Node)
        return t


class Stub:
    """An object of ANTLR's."""

    def removeErrorListeners(self):
        pass

    def addErrorListener(self, listener):
        pass

    def unit_spec(self):
        pass


class Parse(Contract):
    name = "parse"
    module, method = GRAMMAR, "parse"
    props = ("P01", "P03")
    assumes = ("ANTLR's lexer and parser, given a text, either build its parse tree or report an error to the parser's listeners (for lexical errors too: every character is a token)",)

    def start(self, ip, case):
        x = ip.path.fresh("text", String)
        ip.ghost = {"x": x}
        _, f = self.resolve()
        return lambda: ip.call_function(f, [SStr(x)], {})

    def ensure(self, ip, r):
        x = lib.strip_fn(ip.ghost["x"])
        ip.prove("only text of the grammar is accepted, all of it (but for the whitespace around it)", T.recognised(x))
        r = ip.resolve(r)
        if not isinstance(r, SNode):
            return ip.prove("the result is an expression", False)
        ip.prove("the result is the expression which the grammar gives the text", r.t == T.means(x))

    def raised(self, ip, exc):
        x = lib.strip_fn(ip.ghost["x"])
        if not issubclass(exc.cls, SyntaxError):
            return ip.prove(f"no {exc.cls.__name__} is raised", False)
        ip.prove("only text which isn't of the grammar is refused", z3.Not(T.recognised(x)))

    def apply(self, ip, fn, args, kwargs):
        x = ip.lower(ip.resolve(list(self.params(fn, args, kwargs).values())[0]), KStr)
        p = ip.path
        if not p.branch(T.parses(x)):
            ip.raise_(SyntaxError, "no parse")
        n = T.parsed(x)
        p.add(T.WF(n))
        return SNode(n)


class Normalize(Contract):
    name = "normalize"
    module, method = GRAMMAR, "normalize"
    props = ("P04", "P03")
    assumes = ("the parser is a function of the text: an expression the grammar can produce, or a SyntaxError (its contract)",)

    def start(self, ip, case):
        x = ip.path.fresh("text", String)
        ip.ghost = {"x": x}
        _, f = self.resolve()
        return lambda: ip.call_function(f, [SStr(x)], {})

    def ensure(self, ip, r):
        x = ip.ghost["x"]
        if isinstance(r, Opaque):
            raise Unsupported("how the text is built")
        ip.prove("only text which parses has a canonical form", T.parses(x))
        if not isinstance(r, (str, SStr)):
            return ip.prove("the result is a text", False)
        ip.prove("the canonical form is the text of the parsed expression", lib.S(r) == T.nstr(T.parsed(x)))

    def raised(self, ip, exc):
        if not issubclass(exc.cls, SyntaxError):
            return ip.prove(f"no {exc.cls.__name__} is raised", False)
        ip.prove("only text which doesn't parse has no canonical form", z3.Not(T.parses(ip.ghost["x"])))


CONTRACTS = [Normalize, UnitSpec, ShiftSpec, Product, Power, Superscripts, LogarithmRule, BasicSpec, NumberRule, IntegerRule, Timestamp, Parse]


def load(theory):
    global T
    T = theory
    T.parses = z3.Function("parses", String, z3.BoolSort())
    T.parsed = z3.Function("parsed", String, T.Node)
    T.recognised = z3.Function("recognised", String, z3.BoolSort())
    T.means = z3.Function("means", String, T.Node)
    return [c() for c in CONTRACTS], [External()]
