"""Contracts on what units mean as numbers: their symbolic definitions, converters, equality."""
from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract, VList, zbool
from dv import lib
from .visitors import render
from . import units, values
from .units import UnitContract, UnitDimensionality, UnitExpanded, cls, kinds, loops_forall
from .values import SArray, SExpr, quot, Env, ONES, VALUE, R, wfx, shape_of, Lemma

T = None
TERMS = "units whose logarithms are at the root (scaled logarithmic units are outside the property)"
NAMED_VALUE = "no basis unit is named \"value\""
DISTINCT = "basis units have distinct names (bname is injective)"


def ident(s):
    return T.ctors["Identifier"].make(s)


def well_formed_expansion(ip, n, m, E):
    """By the lemmas, the expansion of a unit is well-formed, as those of its references are."""
    p = ip.path
    k = p.ground(p.fresh("identifier", T.Node))
    r = T.rval(m, k)
    ip.prove("the expansions of the references are well-formed", z3.Implies(T.rdom(m, k), wfx(T.expand(r))))
    ip.prove("the definition is well-formed", z3.And(T.WF(n), T.noBadShift(n, m)))
    p.add(wfx(E))


def symbolic(ip, E):
    """(transformation, unit) as sympy expressions."""
    p = ip.path
    t = SExpr(lambda e: T.TRV(E, z3.Select(e, VALUE)), rest=lambda s: s == VALUE, fun=(VALUE, lambda v: T.TRV(E, v), lambda v: T.TINV(E, v)))
    cache = {}

    def ev(e):
        if e.get_id() not in cache:
            p.keep.append(e)
            # Lemma: the scale doesn't depend on a symbol which doesn't occur.
            cache[e.get_id()] = f = values.same_env(ip, z3.Store(e, VALUE, z3.RealVal(1)))
            p.add(T.SC(E, e) == T.SC(E, f))
        return T.SC(E, cache[e.get_id()])
    d = SExpr(ev, lambda s: T.dimN(E, ident(s)))
    return t, d


def domain(ip, E):
    return z3.And(T.TERM(E), z3.Not(T.ids(E, ident(VALUE))))


class Symbolic(UnitContract):
    name, method = "Unit._symbolic_definition", "_symbolic_definition"
    props = ("P07", "P08", "P09", "P14", "P13")
    cases = ("first", "again", "basis unit")
    assumes = (TERMS, NAMED_VALUE)

    def start(self, ip, case):
        p = ip.path
        if case == "basis unit":
            B = units.BasisIsTime()
            u = B.make(ip, "named")
            E = ident(ip.ghost["ref"])
            p.add(wfx(E))
        else:
            u, n, m, c = self.make(ip)
            E = UnitExpanded().spec(ip, n, m)
            ip.ghost = {"n": n, "m": m}
            well_formed_expansion(ip, n, m, E)
        p.add(domain(ip, E))
        g = ip.ghost
        g.update(E=E, self=u, e=p.ground(p.fresh("env", Env)), v=p.ground(p.fresh("value", R)), s=p.ground(p.fresh("symbol", String)))
        p.ground(ident(g["s"]))
        p.ground(z3.Select(g["e"], VALUE))
        f = ip.getattr(u, self.method)

        def go():
            r = ip.call(f, [], {})
            if case == "again":
                r = ip.call(ip.getattr(u, self.method), [], {})
            return r
        return go

    def hints(self, ip, model):
        return super().hints(ip, model) if "n" in ip.ghost else []

    def ensure(self, ip, r):
        E, e, v, s = (ip.ghost[k] for k in ("E", "e", "v", "s"))
        if not isinstance(r, tuple) or len(r) != 2 or not all(isinstance(x, SExpr) for x in r):
            return ip.prove("the result is a transformation and a unit, as sympy expressions", False)
        t, d = (shape_of(ip, x) for x in r)
        ip.prove("the transformation is that of the expanded unit", t.ev(e) == T.TRV(E, z3.Select(e, VALUE)))
        ip.prove("the transformation is of the value alone", z3.Implies(t.free(s), s == VALUE))
        ip.prove("the transformation is invertible", t.fun is not None)
        if t.fun is not None:
            ip.prove("its inverse is that of the expanded unit", z3.And(t.fun[0] == VALUE, t.fun[2](v) == T.TINV(E, v)))
        ip.prove("the unit's value is the scale of the expanded unit", d.ev(e) == T.SC(E, e))
        ip.prove("the unit's symbols have the orders of the expanded unit", z3.And(z3.Not(d.rest(s)), d.ords(s) == T.dimN(E, ident(s))))

    def apply(self, ip, fn, args, kwargs):
        u = args[0]
        if not isinstance(u, SObj) or u.cls is cls("BasisUnit"):
            return NotImplemented
        n, m = self.parts(ip, u)
        E = UnitExpanded().spec(ip, n, m)
        ip.prove("the domain of the symbolic definition", domain(ip, E))
        return symbolic(ip, E)


class OrdersOfExpansion(Lemma):
    """The orders of the symbols of an expansion are the orders of the basis units; other
    symbols are names of dimensionless basis units."""
    name, what = "lemma: orders of an expansion", ""
    props = ("P07", "P08", "P06", "P14")
    cases = ("unit", "basis unit", "prefix")
    assumes = (DISTINCT, "finite sums are linear: the order of an identifier in a substituted expression is the sum over the replaced identifiers of their order times "
               "its order in the replacement")

    def start(self, ip, case):
        p = ip.path
        s = p.ground(p.fresh("symbol", String))
        r = p.ground(p.fresh("reference", Ref))
        p.add(kinds(r))
        ip.ghost = {"s": s, "r": r}
        if case == "unit":
            U = UnitDimensionality()
            u, n, m, c = U.make(ip)
            E = UnitExpanded().spec(ip, n, m)
            D = units.spec_orders(ip, n, m)
            k = p.fn = None
            b = p.ground(T.owner(s))
            p.add(z3.And(T.isUnit(r), z3.Not(T.isBasis(r)), T.expand(r) == E, T.DIM(r, b) == D(b)))
            p.add(T.dnames(r, s) == T.DNAMES(n, m, s))
            units.names_facts(ip, n, m)
            # For the references.
            p.forall(T.Node, lambda k: z3.Implies(T.rdom(m, k), z3.And(*statement(T.rval(m, k), s))))
            # Both orders are sums over the identifiers of the definition.
            term1 = lambda i: z3.If(z3.And(T.is_("Identifier", i), T.ids(n, i)), T.dimN(n, i) * T.dimN(T.expand(T.rval(m, i)), ident(s)), z3.IntVal(0))
            term2 = lambda i: z3.If(z3.And(T.is_("Identifier", i), T.ids(n, i)), T.dimN(n, i) * T.DIM(T.rval(m, i), b), z3.IntVal(0))
            w = p.ground(p.fresh("summand", T.Node))
            p.add(z3.Implies(T.dimN(E, ident(s)) != 0, term1(w) != 0))
            ip.ghost["sums"] = (term1, term2, T.dimN(E, ident(s)), D(b))
        elif case == "basis unit":
            p.add(z3.And(T.isBasis(r), T.expand(r) == ident(T.bname(r)), T.dnames(r, s) == z3.And(T.dimless(r), s == T.bname(r))))
            p.add(T.owner(T.bname(r)) == r)
            p.know_ctor(T.expand(r), "Identifier")
        else:
            N = T.ctors["Number"].make(p.fresh("number", Num), p.fresh("raw", OptStr))
            p.add(z3.And(T.isPrefix(r), T.expand(r) == N))
            p.know_ctor(T.expand(r), "Number")
        return lambda: None

    def ensure(self, ip, res):
        p, g = ip.path, ip.ghost
        if ip.case == "unit":
            t1, t2, s1, s2 = g["sums"]
            m = p.mark()
            i = p.ground(p.fresh("identifier", T.Node))
            same = z3.Implies(T.dimensioned(g["s"]), t1(i) == t2(i))
            ok = ip.prove("the summands of the two orders are equal", same)
            p.reset(m)
            if ok:
                p.add(z3.Implies(T.dimensioned(g["s"]), s1 == s2))
        a, b = statement(g["r"], g["s"])
        ip.prove("the order of the symbol of a basis unit is that of the basis unit", a)
        ip.prove("any other symbol is the name of a dimensionless basis unit", b)


def statement(r, s):
    o = T.dimN(T.expand(r), ident(s))
    return (z3.Implies(T.dimensioned(s), o == T.DIM(r, T.owner(s))),
            z3.Implies(z3.And(o != 0, z3.Not(T.dimensioned(s))), z3.And(T.isUnit(r), T.dnames(r, s))))


class Conversion(Contract):
    """Converter: refuses exactly what isn't convertible; otherwise the expression (and the
    function) convert a value as the definitions say."""
    name = "Converter"
    module, cls, method = units.UNITS, "Converter", "__init__"
    props = ("P06", "P07", "P08", "P09", "P17")
    cases = ("units", "from a date", "to a date")
    assumes = (TERMS, NAMED_VALUE, DISTINCT,
               "sympy's invert_complex (or solve) of a composition of shifts and logarithms for its symbol is its inverse; subs, simplify, free_symbols and lambdify mean what they say",
               "numbers are real numbers (floats as reals)",
               "the scale of a unit isn't zero, nor is a value of which the reciprocal is taken",
               "numpy evaluates the function of lambdify element by element for arrays of floating-point numbers; nothing is assumed of arrays of integers, which wrap around")

    def start(self, ip, case):
        p = ip.path
        r = [p.ground(p.fresh(x, Ref)) for x in ("from_unit", "to_unit")]
        g = ip.ghost = {"r": r}
        for i, x in enumerate(r):
            date = (case, i) in (("from a date", 0), ("to a date", 1))
            p.add(z3.And(kinds(x), T.isDate(x) if date else T.isUnit(x)))
            if not date:
                E = T.expand(x)
                p.add(z3.And(wfx(E), domain(ip, E)))
                p.forall(String, lambda s, x=x: z3.And(*statement(x, s)))
                p.add(z3.Not(T.dnames(x, VALUE)))
        C = cls("Converter")
        g["u"] = [SRef(x, T.iface) for x in r]
        g["v"] = p.ground(p.fresh("value", R))
        g["s"] = p.ground(p.fresh("symbol", String))
        return lambda: ip.construct(C, g["u"], {})

    def conditions(self, ip):
        a, b = ip.ghost["r"]
        same = loops_forall(ip, lambda x: T.DIM(a, x) == T.DIM(b, x))
        inv = loops_forall(ip, lambda x: T.DIM(a, x) == -T.DIM(b, x))
        return zbool(ip.as_bool(same)), zbool(ip.as_bool(inv))

    def ensure(self, ip, c):
        p, g = ip.path, ip.ghost
        if ip.case != "units":
            return ip.prove("there is no converter to or from a date", False)
        same, inv = self.conditions(ip)
        ip.prove("only convertible units have a converter", z3.Or(same, inv))
        p.add(z3.Or(same, inv))
        v, s = g["v"], g["s"]
        a, b = (T.expand(x) for x in g["r"])
        w = T.TINV(a, v)
        s1, s2 = T.SC(a, ONES), T.SC(b, ONES)
        spec = lambda direct: T.TRV(b, quot(w * s1, s2) if direct else quot(1, w * s1 * s2))
        identical_at(ip, (ONES, z3.Store(ONES, VALUE, v)), v)
        p.add(z3.And(s1 != 0, s2 != 0))
        x = ip.getattr(c, "expression")
        if not isinstance(x, SExpr):
            return ip.prove("the converter has an expression", False)
        ip.prove("the expression has no other symbol than the value", z3.Implies(x.free(s), s == VALUE))
        y = x.ev(z3.Store(ONES, VALUE, v))
        z = ip.call(ip.getattr(c, "convert"), [SReal(v)], {})
        z = ip.lower(z, KReal)
        direct = p.branch(same)
        if not direct:
            p.add(w != 0)
        if direct:
            ip.prove("a value is converted by the ratio of the scales between the transformations", y == spec(True))
        else:
            ip.prove("a value is converted to the unit of inverse dimension by its reciprocal", y == spec(False))
        ip.prove("convert() gives the value of the expression", z == spec(direct))
        for kind, what in (("f", "floating-point numbers"), ("i", "integers"), ("u", "unsigned integers")):
            z = ip.call(ip.getattr(c, "convert"), [SArray(kind, v)], {})
            if not isinstance(z, SArray):
                ip.prove(f"an array of {what} is converted to an array", False)
            else:
                ip.prove(f"an array of {what} is converted element by element", z.value == spec(direct))

    def raised(self, ip, exc):
        from pyudunits2._exceptions import IncompatibleUnitsError
        if not issubclass(exc.cls, IncompatibleUnitsError):
            return ip.prove(f"no {exc.cls.__name__} is raised", False)
        if ip.case == "units":
            same, inv = self.conditions(ip)
            ip.prove("only units which aren't convertible are refused", z3.Not(z3.Or(same, inv)))


def identical_at(ip, envs, v):
    """What expressions which compare equal mean: the same in these environments; the same functions."""
    p = ip.path
    for b, x, y in getattr(p, "identical", []):
        for e in envs:
            p.add(z3.Implies(b, x.ev(e) == y.ev(e)))
        if x.fun and y.fun:
            p.add(z3.Implies(b, x.fun[2](v) == y.fun[2](v)))


class UnitEq(UnitContract):
    name, method = "Unit.__eq__", "__eq__"
    props = ("P14", "P13")
    cases = ("units", "itself", "anything else")
    assumes = (TERMS, NAMED_VALUE, DISTINCT, "the scale of a unit isn't zero", "expressions which print alike are alike (property P04)",
               "a product of integer powers of symbols determines its orders")

    def start(self, ip, case):
        p = ip.path
        u, n, m, c = self.make(ip)
        E = UnitExpanded().spec(ip, n, m)
        p.add(z3.And(wfx(E), domain(ip, E)))
        g = ip.ghost = {"n": n, "m": m, "self": u, "E": E}
        if case == "itself":
            v = u
        elif case == "units":
            v, n2, m2, c2 = self.make(ip, "other")
            E2 = UnitExpanded().spec(ip, n2, m2)
            p.add(z3.And(wfx(E2), domain(ip, E2)))
            g.update(n2=n2, m2=m2, E2=E2, v=p.ground(p.fresh("value", R)), e=p.ground(p.fresh("env", Env)), s=p.ground(p.fresh("symbol", String)))
            p.ground(ident(g["s"]))
            # Expressions which print alike mean the same (where their identifiers do).
            k = p.fresh_fn("differing", T.Node)()
            p.ground(k)
            alike = T.nstr(n) == T.nstr(n2)
            p.add(z3.Implies(alike, T.ids(n, k) == T.ids(n2, k)))
            agree = z3.Implies(z3.And(T.ids(n, k), T.is_("Identifier", k)), T.rval(m, k) == T.rval(m2, k))
            p.add(z3.Implies(z3.And(alike, agree), z3.And(T.SC(E, g["e"]) == T.SC(E2, g["e"]), T.TRV(E, g["v"]) == T.TRV(E2, g["v"]), T.TINV(E, g["v"]) == T.TINV(E2, g["v"]),
                                                           T.dimN(E, ident(g["s"])) == T.dimN(E2, ident(g["s"])))))
        else:
            v = SObj(cls("Dimensionality"), {})
        f = ip.getattr(u, self.method)
        return lambda: ip.call(f, [v], {})

    def ensure(self, ip, r):
        p, g = ip.path, ip.ghost
        if ip.case == "anything else":
            return ip.prove("only units are equal to a unit", r is NotImplemented or z3.Not(zbool(ip.as_bool(r))))
        t = zbool(ip.as_bool(r))
        if ip.case == "itself":
            return ip.prove("a unit is equal to itself", t)
        E, E2, v, e, s = (g[k] for k in ("E", "E2", "v", "e", "s"))
        identical_at(ip, (e, z3.Store(e, VALUE, v)), v)
        ip.prove("equal units have the same scale", z3.Implies(t, T.SC(E, e) == T.SC(E2, e)))
        ip.prove("equal units have the same transformation", z3.Implies(t, z3.And(T.TRV(E, v) == T.TRV(E2, v), T.TINV(E, v) == T.TINV(E2, v))))


CONTRACTS = [Symbolic, OrdersOfExpansion, Conversion, UnitEq]


def load(theory):
    global T
    T = theory
    T.owner = z3.Function("owner", String, Ref)

    def dim(p, s):
        b = T.owner(s)
        p.ground(b)
        return []
    T.dimensioned = lambda s: z3.And(T.isBasis(T.owner(s)), z3.Not(T.dimless(T.owner(s))), T.bname(T.owner(s)) == s)
    return [c() for c in CONTRACTS], []
