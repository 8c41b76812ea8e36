"""Contracts on unit systems: lookups (P11), registrations (P12), lazily defined units, unit strings."""
from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract, VList, zbool
from dv import lib
from .visitors import render
from . import units
from .units import cls, kinds, fresh_names, fresh_refs, UnitContract, UnitDimensionality, UnitExpanded, time_condition

T = None
SYSTEM = "pyudunits2._unit_system"
TABLES = ("_names", "_alias_names", "_symbols", "_alias_symbols")
PREFIXES = ("_prefix_names", "_prefix_symbols")


class Table:
    """The contents of a table, as they are at one moment."""

    def __init__(self, ip, c):
        self.coll = c
        if c.py is not None and not c.py:
            self.dom, self.val = (lambda k: z3.BoolVal(False)), (lambda k: z3.Const("nothing", Ref))
            return
        lib.symbolic(ip, c)
        if c.K is not KStr or not isinstance(c.V, RefKind):
            raise Unsupported("representation of the unit system")
        self.dom, self.val = c.dom, c.val


def fresh_system(ip):
    """A unit system with arbitrary registrations."""
    p = ip.path
    s = ip.construct(cls("UnitSystem", SYSTEM), [], {})
    for name in TABLES + PREFIXES:
        c = s.attrs.get(name)
        if not isinstance(c, Coll) or c.what != "dict" or c.py is None or c.py:
            raise Unsupported(f"representation of the unit system: {name}")
        d, v = p.fresh_fn("in" + name, String, z3.BoolSort()), p.fresh_fn("at" + name, String, Ref)
        c.py, c.K, c.V, c.len_cache = None, KStr, T.KUnit, None
        c.dom, c.val = (lambda k, d=d: d(k)), (lambda k, v=v: v(k))
        what = (lambda r: T.isPrefix(r)) if name in PREFIXES else (lambda r: z3.Or(T.isLazy(r), z3.And(T.isUnit(r), T.isNamed(r))))
        p.forall(String, lambda k, d=d, v=v, what=what: z3.Implies(d(k), z3.And(what(v(k)), kinds(v(k)))))
    s.ghost = tables(ip, s)
    ip.roots.append(s)
    return s


def tables(ip, s):
    out = {}
    for name in TABLES + PREFIXES:
        c = s.attrs.get(name)
        if not isinstance(c, Coll):
            raise Unsupported(f"representation of the unit system: {name}")
        out[name] = Table(ip, c)
    return out


def unchanged(ip, s, what="the unit system is unchanged", only=TABLES + PREFIXES):
    """Every table has the entries it had."""
    p = ip.path
    if set(s.attrs) != s.before:
        raise Unsupported("attributes added to the unit system")
    k = p.ground(p.fresh("entry", String))
    new = tables(ip, s)
    for name in only:
        a, b = s.ghost[name], new[name]
        ip.prove(f"{what}: {name}", z3.And(a.dom(k) == b.dom(k), z3.Implies(a.dom(k), a.val(k) == b.val(k))))


def registered(s, k):
    return z3.Or(*[s.ghost[t].dom(k) for t in TABLES])


def entry(s, k):
    """What an identifier is registered as: names before symbols, primary before alias."""
    r = s.ghost[TABLES[-1]].val(k)
    for t in reversed(TABLES[:-1]):
        r = z3.If(s.ghost[t].dom(k), s.ghost[t].val(k), r)
    return r


def meaning(s, k):
    e = entry(s, k)
    return z3.If(T.isLazy(e), T.resolved(e), e)


def rest_of(k, s):
    return z3.SubString(s, z3.Length(k), z3.Length(s) - z3.Length(k))


def reading(system, table, k, s):
    """The identifier s reads as the prefix k of the table and a registered unit."""
    return z3.And(system.ghost[table].dom(k), z3.PrefixOf(k, s), registered(system, rest_of(k, s)))


class OfSystem(Contract):
    def system(self, ip):
        return fresh_system(ip)


class Lookup(OfSystem):
    name = "UnitSystem.unit_by_name_or_symbol"
    module, cls, method = SYSTEM, "UnitSystem", "unit_by_name_or_symbol"
    props = ("P11", "P10", "P13")
    assumes = ("LazilyDefinedUnit.resolve returns the same unit each time (its contract), or fails",)

    def start(self, ip, case):
        p = ip.path
        s = self.system(ip)
        s.before = set(s.attrs)
        x = p.ground(p.fresh("identifier", String))
        ip.ghost = {"system": s, "x": x}
        p.failed = []
        return lambda: ip.call(ip.getattr(s, self.method), [SStr(x)], {})

    def prefixed(self, ip, r, table, k):
        """r is the value of the prefix k times the unit which the remainder names."""
        s, x = ip.ghost["system"], ip.ghost["x"]
        U = UnitDimensionality()
        n, m = U.parts(ip, r)
        E = UnitExpanded().spec(ip, n, m)
        pre, rem = s.ghost[table].val(k), meaning(s, rest_of(k, x))
        M = T.ctors["Multiply"]
        return n, m, E, pre, rem

    def ensure(self, ip, r):
        p, s, x = ip.path, ip.ghost["system"], ip.ghost["x"]
        unchanged(ip, s, "a lookup doesn't change the unit system")
        if isinstance(r, SRef):
            ip.prove("a unit is only returned where the identifier is registered", registered(s, x))
            ip.prove("it is the unit registered under the identifier (names before symbols, primary before alias)", r.t == meaning(s, x))
            return
        if not isinstance(r, SObj) or r.cls is not cls("Unit"):
            return ip.prove("the result is a unit", False)
        ip.prove("a registered identifier never has a prefixed reading", z3.Not(registered(s, x)))
        U = UnitDimensionality()
        n, m = U.parts(ip, r)
        E = UnitExpanded().spec(ip, n, m)
        p.add(E == E)
        M = T.ctors["Multiply"]
        I = T.ctors["Identifier"]

        def means(table, k):
            pre, rem = s.ghost[table].val(k), meaning(s, rest_of(k, x))
            p.add(T.expand(pre) == T.expand(pre))
            p.add(T.expand(rem) == T.expand(rem))
            return z3.And(reading(s, table, k, x), z3.Or(E == M.make(T.expand(pre), T.expand(rem)), E == M.make(T.expand(rem), T.expand(pre))))

        def refers(table, k):
            # ... and it is the unit itself which is referred to.
            rem = meaning(s, rest_of(k, x))
            i = z3.Const("some_identifier", T.Node)
            return rem

        def some(table):
            mk = p.mark()
            try:
                p.forall(String, lambda k: z3.Not(means(table, k)))
                return p.valid(z3.BoolVal(False)) is True
            finally:
                p.reset(mk)
        by_name = some(PREFIXES[0])
        if not by_name:
            k = p.ground(p.fresh("prefix", String))
            ip.prove("a prefix's symbol is only used where no prefix's name applies", z3.Not(reading(s, PREFIXES[0], k, x)))
            mk = p.mark()
            p.forall(String, lambda k: z3.Not(means(PREFIXES[1], k)))
            ip.prove("the unit is the value of a prefix times the unit which the remainder names", False)
            p.reset(mk)
        else:
            ip.prove("the unit is the value of a prefix times the unit which the remainder names", True)
        # The references: only the unit which the remainder names (and perhaps the prefix).
        mk = p.mark()
        i = p.ground(p.fresh("reference", T.Node))
        u = T.rval(m, i)
        p.add(z3.And(T.rdom(m, i), T.isUnit(u)))
        table = PREFIXES[0] if by_name else PREFIXES[1]
        p.forall(String, lambda k: z3.Not(z3.And(reading(s, table, k, x), u == meaning(s, rest_of(k, x)))))
        ip.prove("it refers to no unit but the one which the remainder names", False)
        p.reset(mk)

    def raised(self, ip, exc):
        from pyudunits2._exceptions import UnresolvableUnitException
        p, s, x = ip.path, ip.ghost["system"], ip.ghost["x"]
        unchanged(ip, s, "a failing lookup doesn't change the unit system")
        if p.failed:
            # The definition of a unit it looked up failed.
            q = p.failed[-1]
            p.forall(String, lambda k: z3.Not(z3.Or(*[z3.And(reading(s, t, k, x), entry(s, rest_of(k, x)) == q) for t in PREFIXES])))
            return ip.prove("a definition which fails is that of the unit which the identifier names", z3.And(registered(s, x), entry(s, x) == q))
        if not issubclass(exc.cls, UnresolvableUnitException):
            return ip.prove(f"no {exc.cls.__name__} is raised", False)
        k = p.ground(p.fresh("prefix", String))
        ip.prove("only an identifier which isn't registered is unresolvable", z3.Not(registered(s, x)))
        ip.prove("an identifier with a prefixed reading isn't unresolvable", z3.Not(z3.Or(*[reading(s, t, k, x) for t in PREFIXES])))

    def apply(self, ip, fn, args, kwargs):
        """Within callers: a function of the identifier (the system doesn't change)."""
        a = list(self.params(fn, args, kwargs).values())
        x = ip.lower(ip.resolve(a[1]), KStr)
        p = ip.path
        if not p.branch(T.readable(x)):
            ip.raise_(units.failure(), "lookup")
        r = T.reading(x)
        p.add(z3.And(T.isUnit(r), kinds(r)))
        return SRef(r, T.iface)


class AddUnit(OfSystem):
    name = "UnitSystem.add_unit"
    frame = False
    module, cls, method = SYSTEM, "UnitSystem", "add_unit"
    props = ("P12", "P16")
    cases = tuple((kind, n, r) for kind in ("named unit", "lazy unit") for n in ("name", "symbols only") for r in ("default", "replace", "don't"))

    def accepts(self, ip, s, args):
        return not getattr(ip.contract, "registrations", False)

    def start(self, ip, case):
        kind, named, repl = case
        p = ip.path
        s = self.system(ip)
        s.before = set(s.attrs)
        nm = fresh_names(ip, named == "name")
        if kind == "lazy unit":
            u = ip.construct(cls("LazilyDefinedUnit", SYSTEM), [], {"unit_system": s, "definition": SStr(p.fresh("definition", String)), "names": nm})
        else:
            c, m = fresh_refs(ip)
            n = p.fresh("node", T.Node)
            p.add(T.WF(n))
            p.forall(T.Node, units.refs_cover(ip, n, c))
            u = ip.construct(cls("NamedUnit"), [], {"definition": UnitContract.normalised(self, ip, n), "identifier_references": c, "names": nm})
        # The unit may well be registered already.
        ip.lower(u, T.KUnit)
        ip.ghost = {"system": s, "u": u, "names": nm.ghost, "replace": repl == "replace"}
        args = [u] + {"default": [], "replace": [True], "don't": [False]}[repl]
        return lambda: ip.call(ip.getattr(s, self.method), args, {})

    def parts(self, ip):
        """(is k a primary name, a symbol, an alias name, an alias symbol)"""
        g = ip.ghost["names"]
        p = ip.path

        def of(sing, pl):
            return lambda k: z3.Or(k == sing, z3.And(OptStr.is_SomeStr(pl), OptStr.str_of(pl) != z3.StringVal(""), k == OptStr.str_of(pl)))
        name = of(*g["name"]) if g["name"] else (lambda k: z3.BoolVal(False))
        return name, g["symbols"], g["alias_names"], g["alias_symbols"], of

    def conflict(self, ip, k):
        s = ip.ghost["system"]
        name, sym, _, _, _ = self.parts(ip)
        return z3.Or(z3.And(name(k), s.ghost["_names"].dom(k)), z3.And(sym(k), s.ghost["_symbols"].dom(k)))

    def ensure(self, ip, r):
        p, g = ip.path, ip.ghost
        s = g["system"]
        me = ip.lower(g["u"], T.KUnit)
        if not g["replace"]:
            k = p.ground(p.fresh("identifier", String))
            ip.prove("a name or symbol which is taken is refused", z3.Not(self.conflict(ip, k)))
        name, sym, alias, asym, of = self.parts(ip)
        new = tables(ip, s)
        if set(s.attrs) != s.before:
            raise Unsupported("attributes added to the unit system")
        k = p.ground(p.fresh("entry", String))
        for t, mine, what in (("_names", name, "name"), ("_symbols", sym, "symbol"), ("_alias_symbols", asym, "alias symbol")):
            a, b = s.ghost[t], new[t]
            ip.prove(f"every {what} of the unit refers to it", z3.Implies(mine(k), z3.And(b.dom(k), b.val(k) == me)))
            ip.prove(f"every other {what} is as it was", z3.Implies(z3.Not(mine(k)), z3.And(a.dom(k) == b.dom(k), z3.Implies(a.dom(k), a.val(k) == b.val(k)))))
        a, b = s.ghost["_alias_names"], new["_alias_names"]
        q = p.ground(p.fresh("alias", T.NamePair))
        NP = T.NamePair
        mk = p.mark()
        p.add(z3.And(alias(q), of(NP.singular(q), NP.plural(q))(k)))
        ip.prove("every alias of the unit refers to it", z3.And(b.dom(k), b.val(k) == me))
        p.reset(mk)
        p.forall(NP, lambda q: z3.Not(z3.And(alias(q), of(NP.singular(q), NP.plural(q))(k))))
        ip.prove("every other alias is as it was", z3.And(a.dom(k) == b.dom(k), z3.Implies(a.dom(k), a.val(k) == b.val(k))))
        unchanged(ip, s, "a registration doesn't change the prefixes", PREFIXES)

    def raised(self, ip, exc):
        p, g = ip.path, ip.ghost
        if not issubclass(exc.cls, ValueError):
            return ip.prove(f"no {exc.cls.__name__} is raised", False)
        unchanged(ip, g["system"], "a refused registration doesn't change the unit system")
        if g["replace"]:
            return ip.prove("a replacement isn't refused", False)
        p.forall(String, lambda k: z3.Not(self.conflict(ip, k)))
        nm = ip.ghost["names"]["name"]
        if nm:
            p.ground(nm[0])
            p.ground(OptStr.str_of(nm[1]))
        ip.prove("only a name or symbol which is taken is refused", False)


class AddPrefix(OfSystem):
    name = "UnitSystem.add_prefix"
    frame = False
    module, cls, method = SYSTEM, "UnitSystem", "add_prefix"
    props = ("P12", "P16")

    def accepts(self, ip, s, args):
        return not getattr(ip.contract, "registrations", False)

    def start(self, ip, case):
        p = ip.path
        s = self.system(ip)
        s.before = set(s.attrs)
        sy = p.fresh_fn("symbol", String, z3.BoolSort())
        n, v = p.fresh("name", String), p.fresh("value", String)
        o = SObj(cls("Prefix", "pyudunits2._unit_reference"), {"name": SStr(n), "value": SStr(v), "symbols": units.seq(KStr, sy)})
        ip.ghost = {"system": s, "o": o, "sy": sy, "n": n}
        return lambda: ip.call(ip.getattr(s, self.method), [o], {})

    def ensure(self, ip, r):
        p, g = ip.path, ip.ghost
        s = g["system"]
        me = ip.lower(g["o"], T.KUnit)
        new = tables(ip, s)
        k = p.ground(p.fresh("entry", String))
        for t, mine, what in (("_prefix_names", lambda k: k == g["n"], "name"), ("_prefix_symbols", g["sy"], "symbol")):
            a, b = s.ghost[t], new[t]
            ip.prove(f"every {what} of the prefix refers to it", z3.Implies(mine(k), z3.And(b.dom(k), b.val(k) == me)))
            ip.prove(f"every other prefix {what} is as it was", z3.Implies(z3.Not(mine(k)), z3.And(a.dom(k) == b.dom(k), z3.Implies(a.dom(k), a.val(k) == b.val(k)))))
        unchanged(ip, s, "a prefix doesn't change the units", TABLES)


class FromText(OfSystem):
    """A unit of a text: what the text parses to, every identifier of which is looked up."""
    module = SYSTEM

    def pre(self, ip):
        p = ip.path
        s = self.system(ip)
        s.before = set(s.attrs)
        x = p.fresh("text", String)
        n = T.parsed(x)
        p.add(T.WF(n))
        ip.ghost = {"system": s, "x": x, "n": n}
        return s, x, n

    def readable(self, ip):
        """Every identifier of the expression is resolved: as its negation's witness and as a fact."""
        n = ip.ghost["n"]
        return lambda k: z3.Implies(z3.And(T.ids(n, k), T.is_("Identifier", k)), T.readable(T.ctors["Identifier"].acc[0](k)))

    def references(self, ip, n2, m2, of=None):
        """The references n2 has in m2 are what its identifiers are registered as."""
        p = ip.path
        k = p.ground(p.fresh("identifier", T.Node))
        p.add(z3.Implies(T.ids(n2, k), T.is_("Identifier", k)))
        c = T.ctors["Identifier"].acc[0](k)
        ip.prove("every identifier refers to the unit it resolves to", z3.Implies(T.ids(n2, k), z3.And(T.rdom(m2, k), T.rval(m2, k) == T.reading(c))))
        ip.prove("every identifier resolves", z3.Implies(T.ids(n2, k), T.readable(c)))

    def raised(self, ip, exc):
        p, g = ip.path, ip.ghost
        unchanged(ip, g["system"], "a failure doesn't change the unit system")
        if not issubclass(exc.cls, (SyntaxError, ValueError)):
            return ip.prove(f"no {exc.cls.__name__} is raised", False)
        # Unless the text doesn't parse, some identifier isn't resolved, or a date is nested.
        n = g["n"]
        p.forall(T.Node, self.readable(ip))
        if hasattr(p, "rmaps"):
            m = g.get("m")
        bad = [z3.Not(T.noBadShift(n, mp.m)) for mp in getattr(p, "rmaps", [])]
        ip.prove("only a text which doesn't parse, or has an unresolvable identifier or a nested date, is refused", z3.Or(z3.Not(T.parses(g["x"])), *bad))


class SystemUnit(FromText):
    name = "UnitSystem.unit"
    cls, method = "UnitSystem", "unit"
    props = ("P11", "P13", "P15")

    def accepts(self, ip, s, args):
        return not getattr(s, "bundled", False)
    assumes = ("the parser is a function of the text: an expression the grammar can produce, or a SyntaxError (its contract)",)

    def start(self, ip, case):
        s, x, n = self.pre(ip)
        return lambda: ip.call(ip.getattr(s, self.method), [SStr(x)], {})

    def ensure(self, ip, r):
        p, g = ip.path, ip.ghost
        unchanged(ip, g["system"], "a lookup doesn't change the unit system")
        ip.prove("only a text which parses is a unit", T.parses(g["x"]))
        n = g["n"]
        S = T.ctors["Shift"]
        if isinstance(r, SObj) and r.cls is cls("DateUnit"):
            d = ip.getattr(r, "unit")
            n2, m2 = UnitDimensionality().parts(ip, d)
            ip.prove("a date unit is a shift of the parsed expression", z3.And(S.recog(n), n2 == S.acc[0](n)))
            return self.references(ip, n2, m2)
        if not isinstance(r, SObj) or not issubclass(r.cls, cls("Unit")):
            return ip.prove("the result is a unit", False)
        n2, m2 = UnitDimensionality().parts(ip, r)
        ip.prove("the unit's definition is the parsed expression", n2 == n)
        self.references(ip, n2, m2)


class Resolve(FromText):
    name = "LazilyDefinedUnit.resolve"
    cls, method = "LazilyDefinedUnit", "resolve"
    props = ("P11", "P13", "P10", "P15")
    cases = ("first", "again")
    assumes = SystemUnit.assumes

    def start(self, ip, case):
        s, x, n = self.pre(ip)
        nm = fresh_names(ip, True)
        u = ip.construct(cls("LazilyDefinedUnit", SYSTEM), [], {"unit_system": s, "definition": SStr(x), "names": nm})
        ip.ghost["names_obj"] = nm

        def go():
            r = ip.call(ip.getattr(u, self.method), [], {})
            if case == "again":
                r2 = ip.call(ip.getattr(u, self.method), [], {})
                ip.prove("a unit keeps the meaning it took when it was first looked up", r2 is r)
            return r
        return go

    def ensure(self, ip, r):
        p, g = ip.path, ip.ghost
        unchanged(ip, g["system"], "resolving a unit doesn't change the unit system")
        ip.prove("only a definition which parses is a unit", T.parses(g["x"]))
        if not isinstance(r, SObj) or not issubclass(r.cls, cls("NamedUnit")):
            return ip.prove("the result is a named unit", False)
        ip.prove("it keeps its names", r.attrs.get("_names") is g["names_obj"])
        n2, m2 = UnitDimensionality().parts(ip, r)
        ip.prove("the unit's definition is the parsed expression", n2 == g["n"])
        ip.prove("a nested date is refused", T.noBadShift(n2, m2))
        self.references(ip, n2, m2)


CONTRACTS = [Lookup, AddUnit, AddPrefix, SystemUnit, Resolve]


def load(theory):
    global T
    T = theory
    T.readable = z3.Function("readable", String, z3.BoolSort())
    T.reading = z3.Function("reading", String, Ref)
    T.parses = z3.Function("parses", String, z3.BoolSort())
    T.parsed = z3.Function("parsed", String, T.Node)
    return [c() for c in CONTRACTS], []
