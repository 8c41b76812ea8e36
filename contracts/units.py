"""Contracts on units: dimensionality, expansion, time units, convertibility, dates."""
import inspect

from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract, Iface, RefMethod, VList, zbool
from dv import lib
from dv.interp import SOptNode
from .visitors import VisitorContract, render, named_map
from . import visitors

T = None
UNITS = "pyudunits2._unit"


def cls(name, module=UNITS):
    import importlib
    return getattr(importlib.import_module(module), name)


class UnitIface(Iface):
    """A unit, prefix or lazily defined unit which other code holds a reference to.

    Its methods do what the contracts of the classes say; the functions of the
    specification (expansion, DIM, ...) stand for the results."""

    def __init__(self):
        self.kind = RefKind(self)
        self.kind.name = "unit"

    def truth(self, ip, r):
        # Neither Unit, Prefix nor LazilyDefinedUnit defines __bool__ or __len__: checked.
        for c in self.classes():
            if hasattr(c, "__bool__") or hasattr(c, "__len__"):
                raise Unsupported("truth of a unit")
        return True

    def classes(self):
        return [cls("Unit"), cls("BasisUnit"), cls("Prefix", "pyudunits2._unit_reference"), cls("LazilyDefinedUnit", "pyudunits2._unit_system"), cls("DateUnit")]

    def eq(self, ip, r, o):
        t = ip.lower(o, self.kind) if isinstance(o, (SRef, SObj)) else None
        if t is None:
            return False
        # Equality of units in general is Unit.__eq__'s contract; of basis units, identity.
        if ip.path.valid(z3.And(T.isBasis(r.t), T.isBasis(t))) is True:
            return ip.simp(r.t == t)
        raise Unsupported("equality of units")

    def pred(self, c):
        n = c.__name__
        t = {"Prefix": T.isPrefix, "Unit": T.isUnit, "BasisUnit": T.isBasis, "NamedUnit": T.isNamed, "LazilyDefinedUnit": T.isLazy, "DateUnit": T.isDate}
        return t.get(n)

    def isinstance_(self, ip, r, c):
        p = self.pred(c)
        if p is None:
            raise Unsupported(f"isinstance of {c.__name__}")
        ip.path.add(kinds(r.t))
        return p(r.t)

    def type_of(self, ip, r):
        raise Unsupported("type of a unit")

    METHODS = ("dimensionality", "_expanded_expr", "is_time_unit", "is_dimensionless", "_dimensionless_basis_names", "resolve", "__str__",
               "_symbolic_definition", "is_convertible_to", "expanded")

    def getattr(self, ip, r, name):
        if name in self.METHODS:
            return RefMethod(r, name)
        ip.path.add(kinds(r.t))
        if name in ("_definition", "_identifier_references"):
            if ip.path.valid(T.isUnit(r.t)) is True:
                u = unit_parts(T.udef(r.t), lambda k: T.urdom(r.t, k), lambda k: T.urval(r.t, k))
                return u[0] if name == "_definition" else u[1]
        if name == "_names":
            return names_of(ip, r.t)
        if name == "_ref" and ip.path.valid(T.isBasis(r.t)) is True:
            return SStr(T.bname(r.t))
        if name == "_dimensionless" and ip.path.valid(T.isBasis(r.t)) is True:
            return SBool(T.dimless(r.t))
        if name in ("value", "name") and ip.path.valid(T.isPrefix(r.t)) is True:
            return SStr((T.pvalue if name == "value" else T.pname)(r.t))
        if name == "symbols" and ip.path.valid(T.isPrefix(r.t)) is True:
            return seq(KStr, lambda k: T.psym(r.t, k))
        raise Unsupported(f"attribute {name} of a unit")

    def call(self, ip, r, name, args, kwargs):
        p = ip.path
        p.add(kinds(r.t))
        if name == "is_convertible_to":
            o = (list(args) + list(kwargs.values()))[0]
            if not isinstance(o, SRef) or not isinstance(o.iface, UnitIface):
                raise Unsupported("is_convertible_to of something unknown")
            p.add(kinds(o.t))
            if not p.branch(z3.Or(T.isUnit(r.t), T.isDate(r.t))):
                ip.raise_(AttributeError, name)
            if not p.branch(z3.And(T.isUnit(r.t), T.isUnit(o.t))):
                return False
            same, inv = (loops_forall(ip, f) for f in (lambda b: T.DIM(r.t, b) == T.DIM(o.t, b), lambda b: T.DIM(r.t, b) == -T.DIM(o.t, b)))
            return ip.wrap_bool(z3.Or(zbool(ip.as_bool(same)), zbool(ip.as_bool(inv))))
        if args or kwargs:
            raise Unsupported(f"{name} with arguments")
        if name == "_symbolic_definition":
            if not p.branch(T.isUnit(r.t)):
                raise Unsupported("symbolic definition of a date")
            from . import converter
            E = T.expand(r.t)
            ip.prove("the domain of the symbolic definition", converter.domain(ip, E))
            return converter.symbolic(ip, E)
        if name == "_expanded_expr":
            if not p.branch(z3.Or(T.isUnit(r.t), T.isPrefix(r.t))):
                ip.raise_(AttributeError, name)
            if p.valid(T.isPrefix(r.t)) is True:
                p.know_ctor(T.expand(r.t), "Number")
            return SNode(T.expand(r.t))
        if name == "__str__":
            return SStr(T.ustr(r.t))
        if name == "resolve":
            if not p.branch(T.isLazy(r.t)):
                ip.raise_(AttributeError, name)
            # It may fail, with whatever its definition fails with.
            if p.branch(T.unresolvable(r.t)):
                if not hasattr(p, "failed"):
                    p.failed = []
                p.failed.append(r.t)
                ip.raise_(failure(), "unresolvable definition")
            q = T.resolved(r.t)
            p.add(z3.And(T.isUnit(q), T.isNamed(q)))
            return SRef(q, self)
        if not p.branch(z3.Or(T.isUnit(r.t), T.isDate(r.t))):
            ip.raise_(AttributeError, name)
        if name == "dimensionality":
            return dimensionality(ip, lambda b: T.DIM(r.t, b))
        if name == "is_time_unit":
            return ip.wrap_bool(T.TIME(r.t))
        if name == "is_dimensionless":
            return loops_forall(ip, lambda b: T.DIM(r.t, b) == 0)
        if name == "_dimensionless_basis_names":
            c = Coll("set", KStr, None, lambda k: T.dnames(r.t, k), None)
            c.py = None
            return c
        raise Unsupported(f"method {name} of a unit")


def failure():
    """What an unusable definition fails with: any of these, and so caught by a handler of any."""
    from pyudunits2._exceptions import UnresolvableUnitException
    return type("UnusableDefinition", (UnresolvableUnitException, SyntaxError), {})


def loops_forall(ip, pred):
    from dv import loops
    return loops.forall(ip, Ref, lambda b: z3.BoolVal(True), pred)


def seq(K, dom):
    c = Coll("seq", K, None, dom, None)
    c.py = None
    return c


def kinds(r):
    """Which classes exclude each other."""
    return z3.And(z3.Implies(T.isBasis(r), z3.And(T.isUnit(r), T.isNamed(r))), z3.Implies(T.isNamed(r), T.isUnit(r)),
                  z3.Not(z3.And(T.isPrefix(r), T.isUnit(r))), z3.Not(z3.And(T.isPrefix(r), T.isLazy(r))), z3.Not(z3.And(T.isLazy(r), T.isUnit(r))),
                  z3.Not(z3.And(T.isDate(r), z3.Or(T.isUnit(r), T.isLazy(r), T.isPrefix(r)))))


def dimensionality(ip, order):
    """A new Dimensionality of the given orders."""
    c = Coll("dict", T.KUnit, KInt, lambda b: order(b) != 0, order)
    c.py = None
    return ip.construct(cls("Dimensionality"), [c], {})


def orders(ip, d):
    """The orders of a Dimensionality: (membership, value) or None."""
    if not isinstance(d, SObj) or d.cls is not cls("Dimensionality"):
        return None
    cs = [v for v in d.attrs.values() if isinstance(v, Coll)]
    if len(cs) != 1:
        raise Unsupported("representation of Dimensionality")
    c = cs[0]
    if c.py is not None and not c.py:
        return (lambda b: z3.BoolVal(False)), (lambda b: z3.IntVal(0))
    lib.symbolic(ip, c)
    if c.K is not T.KUnit or c.V is not KInt:
        return None
    return c.dom, c.val


def unit_parts(n, dom, val):
    c = Coll("dict", T.KNode, T.KUnit, dom, val)
    c.py = None
    return SNode(n), c


class RMap:
    def __init__(self, dom, val, m):
        self.dom, self.val, self.m = dom, val, m


def rmap(ip, c, n):
    """The name of a mapping from identifiers to units, as far as the identifiers of n go."""
    p = ip.path
    if not hasattr(p, "rmaps"):
        p.rmaps = []
    if c.py is not None and not c.py:
        dom, val = (lambda k: z3.BoolVal(False)), None
    else:
        lib.symbolic(ip, c)
        if c.K is not T.KNode or not isinstance(c.V, RefKind):
            raise Unsupported("references of a unit")
        dom, val = c.dom, c.val
    k = p.fresh("identifier", T.Node)
    for mp in p.rmaps:
        if mp.dom is dom and mp.val is val:
            return mp
        mk = p.mark()
        try:
            p.ground(k)
            p.add(z3.And(T.ids(n, k), T.is_("Identifier", k)))
            if val is None:
                g = z3.Not(mp.dom(k))
            else:
                g = z3.And(dom(k) == mp.dom(k), z3.Implies(dom(k), val(k) == mp.val(k)))
            if p.valid(g) is True:
                return mp
        finally:
            p.reset(mk)
    m = p.fresh("references", T.RMapSort)
    mp = RMap(dom, val, m)
    p.rmaps.append(mp)
    p.forall(T.Node, lambda k: z3.And(T.rdom(m, k) == dom(k), z3.Implies(dom(k), T.rval(m, k) == val(k)) if val is not None else z3.BoolVal(True)))
    return mp


def fresh_refs(ip, prefixes=True):
    """An arbitrary mapping from identifiers to units (and prefixes)."""
    p = ip.path
    m = p.fresh("references", T.RMapSort)
    c = Coll("dict", T.KNode, T.KUnit, lambda k: T.rdom(m, k), lambda k: T.rval(m, k))
    c.py = None
    if not hasattr(p, "rmaps"):
        p.rmaps = []
    p.rmaps.append(RMap(c.dom, c.val, m))

    def fact(k):
        r = T.rval(m, k)
        return z3.Implies(T.rdom(m, k), z3.And(T.is_("Identifier", k), z3.Or(T.isUnit(r), T.isPrefix(r) if prefixes else False), kinds(r)))
    p.forall(T.Node, fact)
    return c, m


def refs_cover(ip, n, c):
    """Every identifier of n has a reference: a condition for all identifiers k."""
    return lambda k: z3.Implies(T.ids(n, k), c.dom(k) if c.py is None else z3.BoolVal(False))


def spec_orders(ip, n, m):
    """DIMU(n, m, b): the sum over the identifiers of n of their order times the
    order of b in what they refer to."""
    p = ip.path
    if not hasattr(p, "dimu"):
        p.dimu = set()
    key = (n.get_id(), m.get_id())
    if key not in p.dimu:
        p.dimu.add(key)
        p.keep.append(n)

        def term(b, k):
            return z3.If(z3.And(T.is_("Identifier", k), T.ids(n, k)), T.dimN(n, k) * T.DIM(T.rval(m, k), b), z3.IntVal(0))
        p.sums.append((Ref, T.Node, term, lambda b: T.DIMU(n, m, b)))
        w = p.fresh_fn("summand", Ref, T.Node)
        p.forall(Ref, lambda b: z3.Implies(T.DIMU(n, m, b) != 0, term(b, p.ground(w(b))) != 0))
    return lambda b: T.DIMU(n, m, b)


def time_condition(ip, n, m, name="time"):
    """TIMEU(n, m): one basis unit has order one and is a unit of time; no other has any."""
    p = ip.path
    D = spec_orders(ip, n, m)
    t = T.TIMEU(n, m)
    if not hasattr(p, "timeu"):
        p.timeu = set()
    key = (n.get_id(), m.get_id())
    if key not in p.timeu:
        p.timeu.add(key)
        w = p.ground(p.fresh("time_basis", Ref))
        other = p.fresh_fn("other_basis", Ref, Ref)
        p.add(z3.Implies(t, z3.And(D(w) == 1, T.TIME(w), T.isBasis(w))))

        def fact(b):
            o = other(b)
            return z3.And(z3.Implies(z3.And(t, b != w), D(b) == 0),
                          z3.Implies(z3.And(D(b) == 1, T.TIME(b), z3.Not(t)), z3.And(o != b, D(p_ground(p, o)) != 0)))

        def p_ground(p, o):
            # One level only: otherwise instantiation would not end.
            if o.arg(0).decl().name().split("!")[0] != "other_basis":
                p.ground(o)
            return o
        p.forall(Ref, fact)
    return t


class UnitContract(Contract):
    """A method of Unit: self is built by Unit's own constructor from an arbitrary
    well-formed definition and references for all of its identifiers."""
    module, cls = UNITS, "Unit"
    shifts_ok = False

    def make(self, ip, tag="node", prefixes=True):
        p = ip.path
        n = p.fresh(tag, T.Node)
        c, m = fresh_refs(ip, prefixes)
        p.add(T.WF(n))
        p.forall(T.Node, refs_cover(ip, n, c))
        norm = self.normalised(ip, n)
        u = ip.construct(cls(self.cls), [], {"definition": norm, "identifier_references": c})
        p.add(T.noBadShift(n, m))
        u.ghost = (n, m)
        return u, n, m, c

    def normalised(self, ip, n):
        """A definition which has passed normalisation: what every unit has."""
        N = cls("NormalisedNode", "pyudunits2._expr.normaliser")
        o = SObj(N)
        o.attrs["unit_expr"] = SNode(n)
        return o

    def start(self, ip, case):
        u, n, m, c = self.make(ip)
        ip.ghost = {"n": n, "m": m, "self": u, "refs": c}
        f = ip.getattr(u, self.method)
        return lambda: ip.call(f, [], {})

    def hints(self, ip, model):
        t = render(model.eval(ip.ghost["n"], model_completion=True))
        return [["expr", t]] if t else []

    def parts(self, ip, u):
        """The definition and references of a unit on the heap."""
        g = getattr(u, "ghost", None)
        ds = [ip.resolve(v) for v in u.attrs.values() if isinstance(v, (SNode, SOptNode))]
        ds = [v for v in ds if v is not None]
        cs = [v for v in u.attrs.values() if isinstance(v, Coll)]
        if len(ds) != 1 or len(cs) != 1:
            raise Unsupported("representation of Unit")
        n = ds[0].t
        return n, rmap(ip, cs[0], n).m

    def apply(self, ip, fn, args, kwargs):
        u = list(self.params(fn, args, kwargs).values())
        if not isinstance(u[0], SObj):
            return NotImplemented
        return self.result(ip, u[0], *u[1:])


class UnitDimensionality(UnitContract):
    name, method = "Unit.dimensionality", "dimensionality"
    props = ("P05", "P06", "P07", "P15", "P13")
    assumes = ("the references of a unit form no cycle (a unit is built from units that exist already)",
               "the sum over the identifiers of a definition is a finite sum (its value does not depend on the order of iteration)")

    def ensure(self, ip, r):
        p, g = ip.path, ip.ghost
        o = orders(ip, r)
        if o is None:
            return ip.prove("the result is a Dimensionality of integer orders", False)
        b = p.ground(p.fresh("basis", Ref))
        D = spec_orders(ip, g["n"], g["m"])
        ip.prove("the order of every basis unit is the sum over the references of their orders", z3.If(o[0](b), o[1](b), 0) == D(b))
        ip.prove("a basis unit whose orders cancel is absent", z3.Implies(o[0](b), D(b) != 0))

    def result(self, ip, u):
        n, m = self.parts(ip, u)
        return dimensionality(ip, spec_orders(ip, n, m))

    def start(self, ip, case):
        t = super().start(ip, case)
        # The specification's sum comes first, so that the code's sums are compared with it.
        spec_orders(ip, ip.ghost["n"], ip.ghost["m"])
        return t


class UnitIsDimensionless(UnitContract):
    name, method = "Unit.is_dimensionless", "is_dimensionless"
    props = ("P05", "P13")

    def ensure(self, ip, r):
        p, g = ip.path, ip.ghost
        D = spec_orders(ip, g["n"], g["m"])
        b = p.ground(p.fresh("basis", Ref))
        w = p.ground(p.fresh("order", Ref))
        t = zbool(ip.as_bool(r))
        ip.prove("a dimensionless unit has no basis unit of non-zero order", z3.Implies(t, D(b) == 0))
        # Contrapositive of: all orders zero => dimensionless.
        p.forall(Ref, lambda b: D(b) == 0)
        ip.prove("a unit without basis units is dimensionless", t)

    def result(self, ip, u):
        n, m = self.parts(ip, u)
        D = spec_orders(ip, n, m)
        return loops_forall(ip, lambda b: D(b) == 0)


class UnitIsTime(UnitContract):
    name, method = "Unit.is_time_unit", "is_time_unit"
    props = ("P15", "P05", "P13")

    def ensure(self, ip, r):
        g = ip.ghost
        t = time_condition(ip, g["n"], g["m"])
        ip.prove("a unit of time is one whose only basis unit is that of time, to the power one", zbool(ip.as_bool(r)) == t)

    def result(self, ip, u):
        n, m = self.parts(ip, u)
        return ip.wrap_bool(time_condition(ip, n, m))


class UnitExpanded(UnitContract):
    name, method = "Unit._expanded_expr", "_expanded_expr"
    props = ("P10", "P07", "P08", "P14", "P13")
    assumes = ("the references of a unit form no cycle (a unit is built from units that exist already)",)

    def spec(self, ip, n, m):
        mp = named_map(ip, lambda k: T.rdom(m, k), lambda k: T.expand(T.rval(m, k)), n)
        return T.subst(n, mp.m)

    def start(self, ip, case):
        t = super().start(ip, case)
        ip.ghost["spec"] = self.spec(ip, ip.ghost["n"], ip.ghost["m"])
        return t

    def ensure(self, ip, r):
        if not isinstance(r, SNode):
            return ip.prove("the result is an expression", False)
        ip.prove("it is the definition with every reference replaced by its expansion", r.t == ip.ghost["spec"])

    def result(self, ip, u):
        n, m = self.parts(ip, u)
        return SNode(self.spec(ip, n, m))


class UnitBasisNames(UnitContract):
    name, method = "Unit._dimensionless_basis_names", "_dimensionless_basis_names"
    props = ("P07", "P13")

    def ensure(self, ip, r):
        p, g = ip.path, ip.ghost
        if not isinstance(r, Coll):
            return ip.prove("the result is a set of names", False)
        s = p.ground(p.fresh("name", String))
        k = p.ground(p.fresh("identifier", T.Node))
        if r.py is not None and not r.py:
            d = z3.BoolVal(False)
        else:
            lib.symbolic(ip, r)
            d = r.dom(s)
        m = g["m"]
        u = T.rval(m, k)
        ip.prove("it has the dimensionless basis units of every reference", z3.Implies(z3.And(T.rdom(m, k), T.isUnit(u), T.dnames(u, s)), d))
        p.forall(T.Node, lambda k: z3.Not(z3.And(T.rdom(m, k), T.isUnit(T.rval(m, k)), T.dnames(T.rval(m, k), s))))
        ip.prove("it has no other name", z3.Not(d))

    def result(self, ip, u):
        n, m = self.parts(ip, u)
        names_facts(ip, n, m)
        c = Coll("set", KStr, None, lambda s: T.DNAMES(n, m, s), None)
        c.py = None
        return c


def names_facts(ip, n, m):
    """DNAMES(n, m, s): s is the name of a dimensionless basis unit of a reference."""
    p = ip.path
    w = p.fresh_fn("named_by", String, T.Node)
    has = lambda s, k: z3.And(T.rdom(m, k), T.isUnit(T.rval(m, k)), T.dnames(T.rval(m, k), s))

    def fact(s):
        p.forall(T.Node, lambda k: z3.Implies(has(s, k), T.DNAMES(n, m, s)))
        return z3.Implies(T.DNAMES(n, m, s), has(s, p.ground(w(s))))
    p.forall(String, fact)


class UnitConvertible(UnitContract):
    name, method = "Unit.is_convertible_to", "is_convertible_to"
    props = ("P06", "P13")
    cases = ("unit", "date", "anything else")

    def start(self, ip, case):
        u, n, m, c = self.make(ip)
        ip.ghost = {"n": n, "m": m, "self": u}
        if case == "unit":
            v, n2, m2, c2 = self.make(ip, "other")
            ip.ghost.update(n2=n2, m2=m2)
        elif case == "date":
            v = SObj(cls("DateUnit"), {"_unit": u})
        else:
            v = SObj(cls("Dimensionality"), {})
        f = ip.getattr(u, self.method)
        return lambda: ip.call(f, [v], {})

    def conditions(self, ip, n, m, n2, m2):
        A, B = spec_orders(ip, n, m), spec_orders(ip, n2, m2)
        e, i = loops_forall(ip, lambda b: A(b) == B(b)), loops_forall(ip, lambda b: A(b) == -B(b))
        return e.t, i.t

    def ensure(self, ip, r):
        g = ip.ghost
        t = zbool(ip.as_bool(r))
        if ip.case != "unit":
            return ip.prove("nothing but a unit is convertible", z3.Not(t))
        e, i = self.conditions(ip, g["n"], g["m"], g["n2"], g["m2"])
        ip.prove("convertible exactly when the dimensionalities are equal or inverse", t == z3.Or(e, i))

    def result(self, ip, u, v):
        if isinstance(v, SObj) and issubclass(v.cls, cls("Unit")):
            if v.cls is cls("BasisUnit") or u.cls is cls("BasisUnit"):
                return NotImplemented
            n, m = self.parts(ip, u)
            n2, m2 = self.parts(ip, v)
            e, i = self.conditions(ip, n, m, n2, m2)
            return ip.wrap_bool(z3.Or(e, i))
        return NotImplemented


# ---------------------------------------------------------------- basis units
def fresh_names(ip, has_name, tag="names"):
    """An arbitrary UnitReference."""
    p = ip.path
    UR, NM = cls("UnitReference", "pyudunits2._unit_reference"), cls("Name", "pyudunits2._unit_reference")
    sy = p.fresh_fn(tag + "_symbol", String, z3.BoolSort())
    al = p.fresh_fn(tag + "_alias", T.NamePair, z3.BoolSort())
    als = p.fresh_fn(tag + "_alias_symbol", String, z3.BoolSort())
    name = None
    if has_name:
        s, pl = p.fresh(tag + "_singular", String), p.fresh(tag + "_plural", OptStr)
        p.add(s != z3.StringVal(""))
        name = SObj(NM, {"singular": SStr(s), "plural": T.SOptStr(pl)})
    # Empty names are outside the properties.
    p.add(z3.And(z3.Not(sy(z3.StringVal(""))), z3.Not(als(z3.StringVal("")))))
    p.forall(T.NamePair, lambda q: z3.Implies(al(q), T.NamePair.singular(q) != z3.StringVal("")))
    symbols = seq(KStr, sy)
    alias_names = seq(T.KName, al)
    o = SObj(UR, {"name": name, "symbols": symbols, "alias_names": alias_names, "alias_symbols": seq(KStr, als), "description": ""})
    o.ghost = {"name": (s, pl) if has_name else None, "symbols": sy, "alias_names": al, "alias_symbols": als}
    return o


class NameIface(Iface):
    """A Name in an unknown sequence: a pair of singular and plural."""


def names_of(ip, r):
    raise Unsupported("names of an unknown unit")


class BasisContract(Contract):
    module, cls = UNITS, "BasisUnit"
    cases = ("named", "symbol only")

    def make(self, ip, case):
        p = ip.path
        nm = fresh_names(ip, case == "named")
        d, t = p.fresh("dimensionless", z3.BoolSort()), p.fresh("is_time", z3.BoolSort())
        if case == "named":
            # A name is never empty (the loader's own input is not checked for that).
            p.add(nm.ghost["name"][0] != z3.StringVal(""))
        else:
            n = lib.coll_len(ip, nm.attrs["symbols"])
            p.add(n.t >= 1)
        u = ip.construct(cls("BasisUnit"), [], {"names": nm, "dimensionless": SBool(d), "is_time_unit": SBool(t)})
        ip.ghost = {"self": u, "dimensionless": d, "time": t, "names": nm}
        if case == "named":
            ip.ghost["ref"] = nm.ghost["name"][0]
        else:
            ip.ghost["ref"] = lib.seq_item(ip, nm.attrs["symbols"], 0).t
        return u

    def start(self, ip, case):
        u = self.make(ip, case)
        f = ip.getattr(u, self.method)
        return lambda: ip.call(f, [], {})


class BasisDimensionality(BasisContract):
    name, method = "BasisUnit.dimensionality", "dimensionality"
    props = ("P05", "P06")

    def ensure(self, ip, r):
        o = orders(ip, r)
        if o is None:
            return ip.prove("the result is a Dimensionality of integer orders", False)
        b = ip.path.ground(ip.path.fresh("basis", Ref))
        me = ip.lower(ip.ghost["self"], T.KUnit)
        ip.prove("a basis unit has order one in itself, or nothing if dimensionless",
                 z3.If(o[0](b), o[1](b), 0) == z3.If(z3.And(b == me, z3.Not(ip.ghost["dimensionless"])), 1, 0))
        ip.prove("no order is zero", z3.Implies(o[0](b), o[1](b) != 0))


class BasisExpanded(BasisContract):
    name, method = "BasisUnit._expanded_expr", "_expanded_expr"
    props = ("P10", "P07", "P08")

    def ensure(self, ip, r):
        if not isinstance(r, SNode):
            return ip.prove("the result is an expression", False)
        ip.prove("a basis unit expands to its own identifier", r.t == T.ctors["Identifier"].make(ip.ghost["ref"]))


class BasisIsTime(BasisContract):
    name, method = "BasisUnit.is_time_unit", "is_time_unit"
    props = ("P15",)

    def ensure(self, ip, r):
        ip.prove("a basis unit is of time exactly when declared so", zbool(ip.as_bool(r)) == ip.ghost["time"])


class BasisNames(BasisContract):
    name, method = "BasisUnit._dimensionless_basis_names", "_dimensionless_basis_names"
    props = ("P07",)

    def ensure(self, ip, r):
        s = ip.path.ground(ip.path.fresh("name", String))
        if not isinstance(r, Coll):
            return ip.prove("the result is a set of names", False)
        d = lib.has(ip, r, SStr(s))
        ip.prove("its own identifier if it is dimensionless", zbool(d) == z3.And(ip.ghost["dimensionless"], s == ip.ghost["ref"]))


# ---------------------------------------------------------------- prefixes
class PrefixExpanded(Contract):
    name = "Prefix._expanded_expr"
    module, cls, method = "pyudunits2._unit_reference", "Prefix", "_expanded_expr"
    props = ("P02", "P10", "P07")
    assumes = ("decimal.Decimal(text) is exactly the number written (decimal_of_text)",)

    def start(self, ip, case):
        p = ip.path
        v, n = p.fresh("value", String), p.fresh("name", String)
        p.add(lib.isdec(v))
        o = SObj(cls(self.cls, self.module), {"name": SStr(n), "value": SStr(v), "symbols": seq(KStr, p.fresh_fn("symbol", String, z3.BoolSort()))})
        ip.ghost = {"v": v, "self": o}
        return lambda: ip.call(ip.getattr(o, self.method), [], {})

    def ensure(self, ip, r):
        if not isinstance(r, SNode):
            return ip.prove("the result is a number", False)
        v = ip.ghost["v"]
        N = T.ctors["Number"]
        ip.prove("the result is a number", N.recog(r.t))
        c = N.acc[0](r.t)
        # An integer literal denotes the same number as a decimal.
        ip.path.add(z3.Implies(lib.isint(v), z3.ToReal(lib.intval(v)) == lib.decval(v)))
        ip.prove("its value is exactly the declared decimal number", z3.If(Num.is_IntV(c), z3.ToReal(Num.int_of(c)), Num.dec_of(c)) == lib.decval(v))


# ---------------------------------------------------------------- date units
class DateContract(Contract):
    module, cls = UNITS, "DateUnit"
    what = None

    def make(self, ip, tag="node"):
        U = UnitDimensionality()
        u, n, m, c = U.make(ip)
        ip.path.add(time_condition(ip, n, m))
        ref = SNode(T.ctors["Unhandled"].make(ip.path.fresh("reference", String)))
        d = ip.construct(cls("DateUnit"), [], {"unit": u, "reference_date": ref})
        ip.ghost = {"n": n, "m": m, "unit": u, "ref": ref, "self": d}
        return d

    def start(self, ip, case):
        return self.thunk(ip, self.make(ip))

    def thunk(self, ip, d):
        return lambda: ip.call(ip.getattr(d, self.method), [], {})


class DateConvertible(DateContract):
    name, method = "DateUnit.is_convertible_to", "is_convertible_to"
    props = ("P06",)
    cases = ("unit", "date", "itself")

    def thunk(self, ip, d):
        if ip.case == "unit":
            o = ip.ghost["unit"]
        elif ip.case == "itself":
            o = d
        else:
            o = SObj(cls("DateUnit"), dict(d.attrs))
        return lambda: ip.call(ip.getattr(d, self.method), [o], {})

    def ensure(self, ip, r):
        ip.prove("a date unit is convertible to nothing", z3.Not(zbool(ip.as_bool(r))))


class DateDimensionality(DateContract):
    name, method = "DateUnit.dimensionality", "dimensionality"
    props = ("P05", "P15")

    def ensure(self, ip, r):
        o = orders(ip, r)
        b = ip.path.ground(ip.path.fresh("basis", Ref))
        D = spec_orders(ip, ip.ghost["n"], ip.ghost["m"])
        ip.prove("a date unit has the dimensionality of its unit", z3.If(o[0](b), o[1](b), 0) == D(b))


class DateUnitKept(DateContract):
    name, method = "DateUnit.unit", "unit"
    props = ("P15",)

    def thunk(self, ip, d):
        def go():
            return ip.getattr(d, "unit"), ip.getattr(d, "reference_date")
        return go

    def ensure(self, ip, r):
        ip.prove("the unit of a date is the unit it was made of", r[0] is ip.ghost["unit"])
        ip.prove("the reference of a date is kept", isinstance(r[1], SNode) and r[1].t.eq(ip.ghost["ref"].t))


# ---------------------------------------------------------------- normalisation, and dates at the top
class Normalise(VisitorContract):
    """Nested dates are refused; nothing else is changed."""
    name = "NormalisedExpressionGraph.visit"
    module, cls = "pyudunits2._expr.normaliser", "NormalisedExpressionGraph"
    props = ("P15", "P13")

    def make_self(self, ip):
        c, m = fresh_refs(ip)
        self_ = ip.construct(self.resolve()[0], [SNode(ip.path.fresh("root", T.Node)), c], {})
        self_.ghost = m
        return self_

    def refs(self, ip, self_, n):
        cs = [v for v in self_.attrs.values() if isinstance(v, Coll)]
        if len(cs) != 1:
            raise Unsupported("references of the normaliser")
        return cs[0], rmap(ip, cs[0], n).m

    def start(self, ip, case):
        n = ip.path.fresh("node", T.Node)
        self_ = self.make_self(ip)
        c, m = self.refs(ip, self_, n)
        ip.ghost = {"n": n, "self": self_, "m": m}
        ip.path.add(T.WF(n))
        ip.path.forall(T.Node, refs_cover(ip, n, c))
        ip.measure = T.sz(n)
        f = ip.getattr(self_, "visit")
        return lambda: ip.call(f, [SNode(n)], {})

    def apply(self, ip, fn, args, kwargs):
        self_, n = self.node_arg(fn, args, kwargs)
        n = ip.lower(n, T.KNode)
        c, m = self.refs(ip, self_, n)
        ip.prove(f"{self.name} is called on: a well-formed expression", T.WF(n))
        k = ip.path.ground(ip.path.fresh("identifier", T.Node))
        ip.prove(f"{self.name} is called with: references for every identifier", refs_cover(ip, n, c)(k))
        if ip.contract.name == self.name:
            ip.prove("recursion is on a part of the expression", T.sz(n) < ip.measure)
        if not ip.path.branch(T.noBadShift(n, m)):
            ip.raise_(ValueError, "a nested date")
        return SOptNode(n)

    def ensure(self, ip, r):
        n, m = ip.ghost["n"], ip.ghost["m"]
        if r is not None:
            if not isinstance(r, SNode):
                return ip.prove("the result is None or an expression", False)
            ip.prove("normalisation doesn't change the expression", r.t == n)
        ip.prove("a nested date, or a shift by something that isn't a number, is refused", T.noBadShift(n, m))

    def raised(self, ip, exc):
        if not issubclass(exc.cls, ValueError):
            return ip.prove(f"no {exc.cls.__name__} is raised", False)
        ip.prove("only nested dates and shifts by something that isn't a number are refused", z3.Not(T.noBadShift(ip.ghost["n"], ip.ghost["m"])))


class FromExpression(Contract):
    name = "_unit_from_expression_and_identifiers"
    module, method = UNITS, "_unit_from_expression_and_identifiers"
    props = ("P15",)

    def start(self, ip, case):
        p = ip.path
        n = p.fresh("node", T.Node)
        c, m = fresh_refs(ip)
        p.add(T.WF(n))
        p.forall(T.Node, refs_cover(ip, n, c))
        ip.ghost = {"n": n, "m": m, "c": c}
        _, f = self.resolve()
        return lambda: ip.call(f, [SNode(n), c], {})

    def conditions(self, ip):
        n, m = ip.ghost["n"], ip.ghost["m"]
        S = T.ctors["Shift"]
        u, x = S.acc[0](n), S.acc[1](n)
        date = z3.And(S.recog(n), time_condition(ip, u, m), T.noBadShift(u, m))
        # A shift of a unit which is itself refused is refused.
        return n, m, u, x, date

    def ensure(self, ip, r):
        n, m, u, x, date = self.conditions(ip)
        N, H = T.ctors["Number"], T.ctors["Unhandled"]
        if not isinstance(r, SObj):
            return ip.prove("the result is a unit", False)
        if r.cls is cls("DateUnit"):
            ip.prove("only a shift of a unit of time is a date", date)
            d, ref = ip.getattr(r, "unit"), ip.getattr(r, "reference_date")
            if not (isinstance(d, SObj) and issubclass(d.cls, cls("Unit")) and isinstance(ref, SNode)):
                return ip.prove("a date keeps its unit and reference", False)
            n2, m2 = UnitContract.parts(UnitDimensionality(), ip, d)
            ip.prove("a date keeps its unit", n2 == u)
            ip.prove("a date's unit has the same references", m2.eq(m))
            raw = z3.If(N.recog(x), N.acc[1](x), OptStr.SomeStr(H.acc[0](x)))
            ip.prove("a date keeps the reference as written", z3.And(H.recog(ref.t), OptStr.SomeStr(H.acc[0](ref.t)) == raw))
        elif issubclass(r.cls, cls("Unit")):
            ip.prove("a shift of a unit of time is a date", z3.Not(date))
            ip.prove("a unit with a nested date is refused", T.noBadShift(n, m))
            n2, m2 = UnitContract.parts(UnitDimensionality(), ip, r)
            ip.prove("a unit keeps its definition", n2 == n)
            ip.prove("a unit keeps its references", m2.eq(m))
        else:
            ip.prove("the result is a unit or a date", False)

    def raised(self, ip, exc):
        n, m, u, x, date = self.conditions(ip)
        if not issubclass(exc.cls, ValueError):
            return ip.prove(f"no {exc.cls.__name__} is raised", False)
        ip.prove("only nested dates and shifts by something that isn't a number are refused", z3.And(z3.Not(date), z3.Not(T.noBadShift(n, m))))

    def hints(self, ip, model):
        return [["expr", render(model.eval(ip.ghost["n"], model_completion=True))]]


CONTRACTS = [UnitDimensionality, UnitIsDimensionless, UnitIsTime, UnitExpanded, UnitBasisNames, UnitConvertible, BasisDimensionality, BasisExpanded,
             BasisIsTime, BasisNames, PrefixExpanded, DateConvertible, DateDimensionality, DateUnitKept, Normalise, FromExpression]


class Externals:
    """Units on the heap, as elements of collections."""

    def kind_of(self, ip, v):
        if isinstance(v, SObj) and (issubclass(v.cls, cls("Unit")) or v.cls is cls("LazilyDefinedUnit", "pyudunits2._unit_system") or v.cls is cls("Prefix", "pyudunits2._unit_reference")):
            return T.KUnit
        if isinstance(v, SObj) and v.cls is cls("Name", "pyudunits2._unit_reference"):
            return T.KName
        return NotImplemented

    def lower(self, ip, v, K):
        if K is T.KUnit and isinstance(v, SObj):
            r = getattr(v, "ref", None)
            if r is None:
                r = v.ref = z3.Const(f"object_{id(v)}", Ref)
                ip.path.keep.append(v)
            ip.path.ground(r)
            U = UnitIface()
            facts = [kinds(r)]
            for name, p in (("Unit", T.isUnit), ("BasisUnit", T.isBasis), ("NamedUnit", T.isNamed)):
                facts.append(p(r) == z3.BoolVal(issubclass(v.cls, cls(name))))
            facts.append(T.isPrefix(r) == z3.BoolVal(v.cls is cls("Prefix", "pyudunits2._unit_reference")))
            facts.append(T.isLazy(r) == z3.BoolVal(v.cls is cls("LazilyDefinedUnit", "pyudunits2._unit_system")))
            for f in facts:
                ip.path.add(f)
            return r
        if K is T.KName and isinstance(v, SObj):
            pl = v.attrs["plural"]
            pl = OptStr.NoStr if pl is None else pl.t if isinstance(pl, T.SOptStr) else OptStr.SomeStr(ip.lower(pl, KStr))
            return T.NamePair.name(ip.lower(v.attrs["singular"], KStr), pl)
        return NotImplemented


class NameKind(Kind):
    def lift(self, t):
        NM = cls("Name", "pyudunits2._unit_reference")
        return SObj(NM, {"singular": SStr(T.NamePair.singular(t)), "plural": T.SOptStr(T.NamePair.plural(t))})


def specs(th):
    N, I, B, S = th.Node, z3.IntSort(), z3.BoolSort(), String
    from dv.interp import SOptStr
    th.SOptStr = SOptStr
    th.iface = UnitIface()
    th.KUnit = th.iface.kind
    dt = z3.Datatype("NamePair")
    dt.declare("name", ("singular", S), ("plural", OptStr))
    th.NamePair = dt.create()
    th.KName = NameKind("name", th.NamePair, None)
    for p in ("isPrefix", "isUnit", "isBasis", "isNamed", "isLazy", "isDate", "dimless", "unresolvable"):
        setattr(th, p, z3.Function(p, Ref, B))
    th.pvalue, th.pname = z3.Function("pvalue", Ref, S), z3.Function("pname", Ref, S)
    th.psym = z3.Function("psym", Ref, S, B)
    th.resolved = z3.Function("resolved", Ref, Ref)
    th.ustr = z3.Function("ustr", Ref, S)
    th.udef = z3.Function("udef", Ref, N)
    th.urdom = z3.Function("urdom", Ref, N, B)
    th.urval = z3.Function("urval", Ref, N, Ref)
    th.bname = z3.Function("bname", Ref, S)
    th.RMapSort = z3.DeclareSort("References")
    th.rdom = z3.Function("rdom", th.RMapSort, N, B)
    th.rval = z3.Function("rval", th.RMapSort, N, Ref)

    # Orders: of a reference (DIM), and of an expression with given references (DIMU).
    def dim_facts(path, r, b):
        path.ground(b)
        return [z3.Implies(th.DIM(r, b) != 0, z3.And(th.isBasis(b), z3.Not(th.dimless(b)))),
                z3.Implies(th.isPrefix(r), th.DIM(r, b) == 0),
                z3.Implies(th.isBasis(r), th.DIM(r, b) == z3.If(z3.And(r == b, z3.Not(th.dimless(r))), 1, 0))]
    th.DIM = th.function("DIM", [Ref, Ref], I, dim_facts)
    th.DIMU = z3.Function("DIMU", N, th.RMapSort, Ref, I)
    th.TIME = z3.Function("TIME", Ref, B)
    th.TIMEU = z3.Function("TIMEU", N, th.RMapSort, B)
    # (A symbol of text is never one of sympy's dummies.)
    th.dnames = th.function("dnames", [Ref, S], B, lambda path, r, s: [z3.Implies(th.dnames(r, s), z3.Not(th.isDummy(s)))])
    th.DNAMES = z3.Function("DNAMES", N, th.RMapSort, S, B)

    def expand_facts(path, r):
        return [z3.Implies(th.isPrefix(r), th.is_("Number", th.expand(r))),
                z3.Implies(z3.Or(th.isPrefix(r), th.isUnit(r)), z3.And(th.WF(th.expand(r)), th.NUMSHIFT(th.expand(r))))]
    th.expand = th.function("expand", [Ref], N, expand_facts)

    # No date inside, and every shift is by a number.
    def bad(path, c, a, n, m):
        if c in ("Number", "Identifier", "Unhandled"):
            return z3.BoolVal(True)
        if c in ("Multiply", "Divide"):
            return z3.And(th.noBadShift(a[0], m), th.noBadShift(a[1], m))
        if c == "Raise":
            return th.noBadShift(a[0], m)
        if c == "Logarithm":
            return th.noBadShift(a[1], m)
        if c == "Shift":
            return z3.And(th.noBadShift(a[0], m), z3.Not(th.TIMEU(a[0], m)), th.is_("Number", a[1]))
    th.noBadShift = th.declare("noBadShift", [N, th.RMapSort], B, bad, general=lambda path, n, m: [
        z3.Implies(z3.Or(th.is_("Number", n), th.is_("Identifier", n)), th.noBadShift(n, m))])
    th.normNone = z3.Function("normNone", N, B)


def load(theory):
    global T
    T = theory
    specs(theory)
    return [c() for c in CONTRACTS], [Externals()]
