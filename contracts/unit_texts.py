"""Contracts on what is printed of units (P04, P10, P17): the text of their definition, of
their expansion, of their dimensionality; and on the rest of what a date unit says."""
from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract, VList, zbool
from dv import lib
from . import units
from .units import UnitContract, UnitDimensionality, UnitExpanded, BasisContract, DateContract, cls, orders, spec_orders

T = None


def is_text(ip, r, what="the result is a text"):
    if isinstance(r, Opaque):
        raise Unsupported("how the text is built")
    if not isinstance(r, (str, SStr)):
        ip.prove(what, False)
        return False
    return True


class UnitStr(UnitContract):
    name, method = "Unit.__str__", "__str__"
    props = ("P04", "P17", "P13")

    def ensure(self, ip, r):
        if is_text(ip, r):
            ip.prove("a unit is printed as its definition", lib.S(r) == T.nstr(ip.ghost["n"]))

    def result(self, ip, u):
        if u.cls is cls("BasisUnit"):
            return NotImplemented
        n, m = self.parts(ip, u)
        return SStr(T.nstr(n))


class UnitExpandedText(UnitContract):
    name, method = "Unit.expanded", "expanded"
    props = ("P10", "P17", "P13")

    def start(self, ip, case):
        t = super().start(ip, case)
        ip.ghost["spec"] = UnitExpanded().spec(ip, ip.ghost["n"], ip.ghost["m"])
        return t

    def ensure(self, ip, r):
        if is_text(ip, r):
            ip.prove("the expanded form is the text of the expansion", lib.S(r) == T.nstr(ip.ghost["spec"]))

    def result(self, ip, u):
        if u.cls is cls("BasisUnit"):
            return NotImplemented
        n, m = self.parts(ip, u)
        return SStr(T.nstr(UnitExpanded().spec(ip, n, m)))


class BasisStr(BasisContract):
    name, method = "BasisUnit.__str__", "__str__"
    props = ("P04", "P10")

    def ensure(self, ip, r):
        if is_text(ip, r):
            ip.prove("a basis unit is printed as its name, or else its first symbol", lib.S(r) == ip.ghost["ref"])


class BasisExpandedText(BasisContract):
    name, method = "BasisUnit.expanded", "expanded"
    props = ("P10",)

    def ensure(self, ip, r):
        if is_text(ip, r):
            ip.prove("the expanded form of a basis unit is its identifier", lib.S(r) == T.nstr(T.ctors["Identifier"].make(ip.ghost["ref"])))


class DateExpandedText(DateContract):
    name, method = "DateUnit.expanded", "expanded"
    props = ("P10", "P15", "P17")

    def ensure(self, ip, r):
        g = ip.ghost
        if not is_text(ip, r):
            return
        E = T.nstr(UnitExpanded().spec(ip, g["n"], g["m"]))
        ref = T.nstr(g["ref"].t)
        ip.prove("a date's expanded form has that of its unit, and its reference, in this order",
                 z3.And(z3.PrefixOf(E, lib.S(r)), z3.SuffixOf(ref, lib.S(r)), z3.Length(lib.S(r)) >= z3.Length(E) + z3.Length(ref)))


class DateIsTime(DateContract):
    name, method = "DateUnit.is_time_unit", "is_time_unit"
    props = ("P15",)

    def ensure(self, ip, r):
        ip.prove("a date unit is of time", zbool(ip.as_bool(r)))


class DateIsDimensionless(DateContract):
    name, method = "DateUnit.is_dimensionless", "is_dimensionless"
    props = ("P05", "P15")

    def start(self, ip, case):
        t = super().start(ip, case)
        units.time_condition(ip, ip.ghost["n"], ip.ghost["m"])
        return t

    def ensure(self, ip, r):
        D = spec_orders(ip, ip.ghost["n"], ip.ghost["m"])
        b = ip.path.ground(ip.path.fresh("basis", Ref))
        ip.prove("a dimensionless unit has no basis unit of non-zero order", z3.Implies(zbool(ip.as_bool(r)), D(b) == 0))
        mk = ip.path.mark()
        ip.path.forall(Ref, lambda b: D(b) == 0)
        ip.prove("a unit without basis units is dimensionless", zbool(ip.as_bool(r)))
        ip.path.reset(mk)


# ---------------------------------------------------------------- dimensionalities
class DimContract(Contract):
    """A method of Dimensionality: of arbitrary orders, none of which is zero."""
    module, cls = units.UNITS, "Dimensionality"
    props = ("P05",)

    def make(self, ip, tag="order"):
        p = ip.path
        f = p.fresh_fn(tag, Ref, z3.IntSort())
        d = units.dimensionality(ip, lambda b: f(b))
        p.forall(Ref, lambda b: z3.Implies(f(b) != 0, T.isBasis(b)))
        return d, f

    def start(self, ip, case):
        d, f = self.make(ip)
        ip.ghost = {"self": d, "f": f}
        return lambda: ip.call(ip.getattr(d, self.method), [], {})


class DimInverted(DimContract):
    name, method = "Dimensionality.inverted", "inverted"
    props = ("P05", "P06")

    def ensure(self, ip, r):
        o = orders(ip, r)
        if o is None:
            return ip.prove("the result is a Dimensionality of integer orders", False)
        b = ip.path.ground(ip.path.fresh("basis", Ref))
        ip.prove("every order is negated", z3.If(o[0](b), o[1](b), 0) == -ip.ghost["f"](b))
        ip.prove("no order is zero", z3.Implies(o[0](b), o[1](b) != 0))


class DimEq(DimContract):
    name, method = "Dimensionality.__eq__", "__eq__"
    props = ("P05", "P06")
    cases = ("another", "the empty dictionary", "something else")

    def start(self, ip, case):
        d, f = self.make(ip)
        ip.ghost = {"self": d, "f": f}
        if case == "another":
            o, g = self.make(ip, "other")
            ip.ghost["g"] = g
        elif case == "something else":
            o = 3
        else:
            o = ip.coll("dict", {})
        return lambda: ip.call(ip.getattr(d, self.method), [o], {})

    def ensure(self, ip, r):
        p = ip.path
        if ip.case == "something else":
            return ip.prove("not comparable with anything else", r is NotImplemented or z3.Not(zbool(ip.as_bool(r))))
        f, g = ip.ghost["f"], ip.ghost.get("g", lambda b: z3.IntVal(0))
        b = p.ground(p.fresh("basis", Ref))
        t = zbool(ip.as_bool(r))
        ip.prove("equal dimensionalities have equal orders", z3.Implies(t, f(b) == g(b)))
        p.forall(Ref, lambda b: f(b) == g(b))
        ip.prove("equal orders are equal dimensionalities", t)


class DimLen(DimContract):
    name, method = "Dimensionality.__len__", "__len__"

    def ensure(self, ip, r):
        p, f = ip.path, ip.ghost["f"]
        b = p.ground(p.fresh("basis", Ref))
        n = ip.lower(r, KInt)
        ip.prove("the length isn't negative", n >= 0)
        ip.prove("nothing but the empty dimensionality has the length zero", z3.Implies(n == 0, f(b) == 0))
        c = p.ground(p.fresh("basis", Ref))
        ip.prove("with two basis units, the length isn't one", z3.Implies(z3.And(f(b) != 0, f(c) != 0, b != c), n >= 2))
        c = Coll("set", T.KUnit, None, lambda b: f(b) != 0, None)
        c.py = None
        d = lib.coll_len(ip, c)
        ip.prove("the length is the number of basis units", n == d.t)


class DimView(DimContract):
    what = None

    def ensure(self, ip, r):
        p, f = ip.path, ip.ghost["f"]
        if not isinstance(r, View) or r.what != self.what:
            return ip.prove(f"the result is a view of the {self.what}", isinstance(r, Coll))
        b = p.ground(p.fresh("basis", Ref))
        if r.coll.py is not None and not r.coll.py:
            return ip.prove("it is of the orders", f(b) == 0)
        lib.symbolic(ip, r.coll)
        ip.prove("it is of the orders", z3.And(r.coll.dom(b) == (f(b) != 0), z3.Implies(r.coll.dom(b), r.coll.val(b) == f(b))))


class DimItems(DimView):
    name, method, what = "Dimensionality.items", "items", "items"


class DimKeys(DimView):
    name, method, what = "Dimensionality.keys", "keys", "keys"


class DimValues(DimView):
    name, method, what = "Dimensionality.values", "values", "values"


class DimNames(DimContract):
    name, method = "Dimensionality._name_form", "_name_form"
    props = ("P05", "P17")
    assumes = ("basis units have distinct names (bname is injective)",)

    def start(self, ip, case):
        t = super().start(ip, case)
        ip.path.forall(Ref, lambda b: z3.Implies(T.isBasis(b), z3.And(T.ustr(b) == T.bname(b), T.owner(T.bname(b)) == b)))
        return t

    def ensure(self, ip, r):
        self.names(ip, r)

    def names(self, ip, r):
        p, f = ip.path, ip.ghost["f"]
        if not isinstance(r, Coll) or r.what != "dict":
            return ip.prove("the result is a dictionary", False)
        b = p.ground(p.fresh("basis", Ref))
        if r.py is not None and not r.py:
            return ip.prove("it has the order of each basis unit", f(b) == 0)
        lib.symbolic(ip, r)
        n = T.bname(b)
        ip.prove("it has the order of each basis unit, under its name", z3.Implies(f(b) != 0, z3.And(r.dom(n), r.val(n) == f(b))))
        p.add(T.isBasis(b))
        p.add(f(b) == 0)
        ip.prove("it has nothing else", z3.Not(r.dom(n)))


class Texts:
    def to_str(self, ip, v):
        g = ip.ghost if isinstance(getattr(ip, "ghost", None), dict) else {}
        if "texts" not in g or not isinstance(v, Coll) or v.what != "dict":
            return NotImplemented
        t = ip.path.fresh("text", z3.StringSort())
        g["texts"].append((t, v))
        return SStr(t)


class DimStr(DimNames):
    """The text of a dictionary is Python's: what is shown is which dictionary it is of."""
    name, method = "Dimensionality.__str__", "__str__"

    def start(self, ip, case):
        t = super().start(ip, case)
        ip.ghost["texts"] = []
        return t

    def ensure(self, ip, r):
        of = [v for t, v in ip.ghost["texts"] if isinstance(r, SStr) and z3.eq(t, r.t)]
        if not of:
            raise Unsupported("the text of a dimensionality is put together")
        self.names(ip, of[0])


CONTRACTS = [UnitStr, UnitExpandedText, BasisStr, BasisExpandedText, DateExpandedText, DateIsTime, DateIsDimensionless, DimInverted, DimEq, DimLen,
             DimItems, DimKeys, DimValues, DimNames, DimStr]


def load(theory):
    global T
    T = theory
    return [c() for c in CONTRACTS], [Texts()]
