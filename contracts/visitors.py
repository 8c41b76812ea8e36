"""Contracts on the visitors of expression graphs, by induction over the graph."""
from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract, VList
from dv import lib

T = None


class VisitorContract(Contract):
    """A visit method: the argument is a well-formed graph; recursive calls are on smaller ones."""
    method = "visit"
    ctors = ("Number", "Identifier", "Raise", "Multiply", "Divide", "Shift", "Logarithm")

    def pre(self, ip, self_, n):
        return [("the argument is a well-formed expression", T.WF(n))]

    def make_self(self, ip):
        c, _ = self.resolve()
        return ip.construct(c, [], {})

    def start(self, ip, case):
        n = ip.path.fresh("node", T.Node)
        self_ = self.make_self(ip)
        ip.ghost = {"n": n, "self": self_}
        for _, f in self.pre(ip, self_, n):
            ip.path.add(f)
        ip.measure = T.sz(n)
        m = ip.getattr(self_, "visit")
        return lambda: ip.call(m, [SNode(n)], {})

    def node_arg(self, fn, args, kwargs):
        v = list(self.params(fn, args, kwargs).values())
        self_, n = v[0], v[1]
        return self_, n

    def apply(self, ip, fn, args, kwargs):
        self_, n = self.node_arg(fn, args, kwargs)
        if not isinstance(n, SNode) and not isinstance(n, T.graph.Node):
            raise Unsupported(f"{self.name} of {n!r}")
        n = ip.lower(n, T.KNode)
        for what, f in self.pre(ip, self_, n):
            ip.prove(f"{self.name} is called on: {what}", f)
            ip.path.add(f)
        if isinstance(ip.contract, VisitorContract) and ip.measure is not None and ip.contract.family() == self.family():
            ip.prove("recursion is on a part of the expression", T.sz(n) < ip.measure)
        return self.result(ip, self_, n)

    def family(self):
        return self.name

    def result(self, ip, self_, n):
        raise NotImplementedError

    def hints(self, ip, model):
        n = ip.ghost.get("n")
        out = []
        if n is not None:
            t = render(model.eval(n, model_completion=True))
            if t:
                out.append(["expr", t])
        return out


def render(t, depth=0):
    """A node of a countermodel, as a unit string."""
    if depth > 12 or t.decl().kind() != z3.Z3_OP_DT_CONSTRUCTOR:
        return "m"
    name = t.decl().name()
    a = [t.arg(i) for i in range(t.num_args())]
    r = lambda x: render(x, depth + 1)
    if name == "Number":
        v = a[0].arg(0)
        return str(v).replace("?", "").replace("(", "").replace(")", "") or "1"
    if name == "Identifier":
        return "m" if len(a[0].as_string()) == 0 else "abcdefgh"[len(a[0].as_string()) % 8]
    if name == "Raise":
        return f"({r(a[0])})^{r(a[1])}"
    if name == "Multiply":
        return f"({r(a[0])})·({r(a[1])})"
    if name == "Divide":
        return f"({r(a[0])})/({r(a[1])})"
    if name == "Shift":
        return f"({r(a[0])} @ {r(a[1])})"
    if name == "Logarithm":
        f = a[0].as_string()
        return f"{f if f in ('lg', 'ln', 'lb') else 'lg'}(re {r(a[1])})"
    return "m"


class Counter(VisitorContract):
    name = "DimensionalityCounter.visit"
    module, cls = "pyudunits2._expr.dimensionality", "DimensionalityCounter"
    props = ("P05", "P06", "P13")

    def ensure(self, ip, r):
        n = ip.ghost["n"]
        if not isinstance(r, Coll) or r.what != "dict":
            return ip.prove("the result is a dictionary of orders", False)
        k = ip.path.fresh("identifier", T.Node)
        ip.path.ground(k)
        if r.py is not None and not r.py:
            d, v = z3.BoolVal(False), z3.IntVal(0)
        else:
            lib.symbolic(ip, r)
            if r.K is not T.KNode or r.V is not KInt:
                return ip.prove("the result maps identifiers to integers", False)
            d, v = r.dom(k), r.val(k)
        ip.prove("the order of every identifier is that of the expression", z3.If(d, v, 0) == T.dimN(n, k))
        ip.prove("only identifiers of the expression have an order", z3.Implies(d, T.ids(n, k)))

    def result(self, ip, self_, n):
        c = Coll("dict", T.KNode, KInt, lambda k: T.cdom(n, k), lambda k: T.dimN(n, k))
        c.py = None
        return c


class Identifiers(VisitorContract):
    name = "ExtractIdentifiers.visit"
    module, cls = "pyudunits2._expr.atoms", "ExtractIdentifiers"
    props = ("P11", "P10", "P13")

    def pre(self, ip, self_, n):
        return []

    def ensure(self, ip, r):
        n = ip.ghost["n"]
        if not isinstance(r, Coll) or r.what not in ("set", "dict", "seq"):
            return ip.prove("the result is a set of identifiers", False)
        k = ip.path.fresh("identifier", T.Node)
        ip.path.ground(k)
        if r.py is not None and not r.py:
            d = z3.BoolVal(False)
        else:
            lib.symbolic(ip, r)
            if r.K is not T.KNode:
                return ip.prove("the result is a set of identifiers", False)
            d = r.dom(k)
        ip.prove("the result is exactly the identifiers of the expression", d == T.ids(n, k))

    def result(self, ip, self_, n):
        c = Coll("set", T.KNode, None, lambda k: T.ids(n, k), None)
        c.py = None
        return c


class Map:
    """A substitution, as (membership, value) closures and the name it has in SUBST terms."""

    def __init__(self, dom, val, m):
        self.dom, self.val, self.m = dom, val, m


def map_of(ip, c, n):
    """The name of the substitution given by a mapping, where it is applied to n."""
    if not hasattr(ip.path, "maps"):
        ip.path.maps = []
    if isinstance(c, Coll) and c.py is not None and not c.py:
        dom, val = (lambda k: z3.BoolVal(False)), None
    elif isinstance(c, Coll):
        lib.symbolic(ip, c)
        if c.K is not T.KNode or c.V is not T.KNode:
            raise Unsupported(f"substitution {c!r}")
        dom, val = c.dom, c.val
    else:
        raise Unsupported(f"substitution {c!r}")
    return named_map(ip, dom, val, n)


def named_map(ip, dom, val, n):
    p = ip.path
    if not hasattr(p, "maps"):
        p.maps = []
    k = p.fresh("identifier", T.Node)
    for mp in p.maps:
        mk = p.mark()
        try:
            p.ground(k)
            if n is not None:
                p.add(T.ids(n, k))
            p.add(T.is_("Identifier", k))
            g = dom(k) == mp.dom(k)
            if val is not None and mp.val is not None:
                g = z3.And(g, z3.Implies(dom(k), val(k) == mp.val(k)))
            else:
                g = z3.And(g, z3.Not(dom(k)))
            if p.valid(g) is True:
                return mp
        finally:
            p.reset(mk)
    m = p.fresh("substitution", T.Map)
    mp = Map(dom, val, m)
    p.maps.append(mp)
    p.forall(T.Node, lambda k: z3.And(T.mdom(m, k) == dom(k), z3.Implies(dom(k), T.mval(m, k) == val(k)) if val is not None else z3.BoolVal(True)))
    return mp


class SubstituteVisit(VisitorContract):
    name = "Substitute.visit"
    module, cls = "pyudunits2._expr.substitute", "Substitute"
    props = ("P10", "P07", "P08", "P13")

    def accepts(self, ip, s, args):
        return s.cls is self.resolve()[0]

    def pre(self, ip, self_, n):
        return []

    def make_self(self, ip):
        m = ip.path.fresh("substitution", T.Map)
        c = Coll("dict", T.KNode, T.KNode, lambda k: T.mdom(m, k), lambda k: T.mval(m, k))
        c.py, c.frozen = None, True
        ip.path.maps = [Map(c.dom, c.val, m)]
        cls, _ = self.resolve()
        return ip.construct(cls, [c], {})

    def ensure(self, ip, r):
        n = ip.ghost["n"]
        m = ip.path.maps[0].m
        if not isinstance(r, SNode):
            return ip.prove("the result is an expression", False)
        ip.prove("every identifier is replaced, and nothing else is changed", r.t == T.subst(n, m))

    def result(self, ip, self_, n):
        # The instance's substitutions: whatever its constructor stored.
        colls = [v for v in self_.attrs.values() if isinstance(v, Coll)]
        if len(colls) != 1:
            raise Unsupported("substitutions of a Substitute")
        return SNode(T.subst(n, map_of(ip, colls[0], n).m))


CONTRACTS = [Counter, Identifiers, SubstituteVisit]


def specs(th):
    N, I, B, S = th.Node, z3.IntSort(), z3.BoolSort(), String
    th.Map = z3.DeclareSort("Map")
    th.mdom = z3.Function("mdom", th.Map, N, B)
    th.mval = z3.Function("mval", th.Map, N, N)
    th.cdom = th.function("cdom", [N, N], B, lambda p, n, k: [
        z3.Implies(th.cdom(n, k), z3.And(th.ids(n, k), th.is_("Identifier", k))), z3.Implies(z3.Not(th.cdom(n, k)), th.dimN(n, k) == 0)])

    def subst(path, c, a, n, m):
        if c in ("Number", "Unhandled"):
            return n
        if c == "Identifier":
            path.ground(n)
            return z3.If(th.mdom(m, n), th.mval(m, n), n)
        kinds = th.node_kinds(c)
        return th.ctors[c].make(*[th.subst(x, m) if k == "node" else x for x, k in zip(a, kinds)])
    th.subst = th.declare("subst", [N, th.Map], N, subst)


def load(theory):
    global T
    T = theory
    specs(theory)
    return [c() for c in CONTRACTS], []
