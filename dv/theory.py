"""The theory of expression graphs: the datatype mirrors the live dataclasses of
pyudunits2._expr.graph, and specification functions are unfolded constructor by constructor."""
import dataclasses
import decimal
import typing

from .values import *  # noqa
from .values import z3


class Ctor:
    def __init__(self, name, cls):
        self.name, self.cls, self.fields = name, cls, []


class Theory:
    NODE_CLASSES = ("Unhandled", "Number", "Identifier", "Raise", "Multiply", "Divide", "Shift", "Logarithm")

    def __init__(self, graph):
        self.graph = graph
        N = z3.Datatype("Node")
        self.ctors = {}
        for name in self.NODE_CLASSES:
            cls = getattr(graph, name, None)
            if cls is None or not dataclasses.is_dataclass(cls):
                raise Unsupported(f"no node class {name}")
            hints = typing.get_type_hints(cls)
            c = Ctor(name, cls)
            args = []
            for f in dataclasses.fields(cls):
                h = hints[f.name]
                if h is graph.Node:
                    kind, sort = "node", N
                elif h is str:
                    kind, sort = "str", String
                elif h == (str | None):
                    kind, sort = "optstr", OptStr
                elif h == (decimal.Decimal | int):
                    kind, sort = "num", Num
                else:
                    raise Unsupported(f"field {name}.{f.name}: {h}")
                c.fields.append((f.name, kind))
                args.append((f"{name}_{f.name}", sort))
            N.declare(name, *args)
            self.ctors[name] = c
        self.Node = N.create()
        for i, name in enumerate(self.NODE_CLASSES):
            c = self.ctors[name]
            c.make = self.Node.constructor(i)
            c.recog = self.Node.recognizer(i)
            c.acc = [self.Node.accessor(i, j) for j in range(len(c.fields))]
        self.KNode = NodeKind("node", self.Node, SNode)
        self.handlers = {}
        self.sz = z3.Function("sz", self.Node, z3.IntSort())
        self.by_class = {c.cls: c for c in self.ctors.values()}
        self.specs()

    # -- nodes ------------------------------------------------------------
    def ctor_of(self, path, t):
        """The constructor of t where it is known on this path."""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return self.ctors[t.decl().name()]
        n = path.ctor.get(t.get_id())
        return self.ctors[n] if n else None

    def args_of(self, c, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return t.children()
        return [a(t) for a in c.acc]

    def constructed(self, path, t):
        c = self.ctor_of(path, t)
        if c is None:
            return []
        kids = [a for a, (_, k) in zip(self.args_of(c, t), c.fields) if k == "node"]
        out = [self.sz(t) == 1 + sum((self.sz(k) for k in kids), z3.IntVal(0))]
        return out

    # -- specification functions -----------------------------------------
    def declare(self, name, sorts, result, unfold=None, general=None):
        """A function of a node (and more) defined by recursion over the node."""
        f = z3.Function(name, *sorts, result)

        def handler(path, app):
            out = []
            n, rest = app.arg(0), [app.arg(i) for i in range(1, app.num_args())]
            if general is not None:
                out += general(path, n, *rest)
            if unfold is not None:
                c = self.ctor_of(path, n)
                if c is None:
                    path.wait(n, app)
                else:
                    body = unfold(path, c.name, self.args_of(c, n), n, *rest)
                    if body is not None:
                        out.append(app == body)
            return out
        self.handlers[name] = handler
        return f

    def function(self, name, sorts, result, facts=None):
        f = z3.Function(name, *sorts, result)
        if facts is not None:
            self.handlers[name] = lambda path, app: facts(path, *[app.arg(i) for i in range(app.num_args())])
        return f

    def unfold(self, path, app):
        h = self.handlers.get(app.decl().name())
        return h(path, app) if h else []

    def is_(self, name, t):
        return self.ctors[name].recog(t)

    def specs(self):
        N, I, B = self.Node, z3.IntSort(), z3.BoolSort()
        is_ = self.is_
        self.handlers["sz"] = lambda path, app: [app >= 1]

        # Is the expression one the parser can produce?
        def wf(path, c, a, n):
            if c == "Unhandled":
                return z3.BoolVal(False)
            if c in ("Number", "Identifier"):
                return z3.BoolVal(True)
            if c in ("Multiply", "Divide"):
                return z3.And(self.WF(a[0]), self.WF(a[1]))
            if c == "Raise":
                return z3.And(self.WF(a[0]), is_("Number", a[1]), Num.is_IntV(self.ctors["Number"].acc[0](a[1])))
            if c == "Shift":
                return z3.And(self.WF(a[0]), z3.Or(z3.And(is_("Number", a[1]), OptStr.is_SomeStr(self.ctors["Number"].acc[1](a[1]))), is_("Unhandled", a[1])))
            if c == "Logarithm":
                return z3.And(self.WF(a[1]), z3.Or(*[a[0] == z3.StringVal(s) for s in ("lb", "lg", "ln", "log")]))
        self.WF = self.declare("WF", [N], B, wf, general=lambda path, n: [z3.Implies(z3.Or(is_("Number", n), is_("Identifier", n)), self.WF(n))])

        # The order of an identifier in an expression.
        def dimN(path, c, a, n, k):
            if c in ("Number", "Unhandled"):
                return z3.IntVal(0)
            if c == "Identifier":
                return z3.If(k == n, z3.IntVal(1), z3.IntVal(0))
            if c == "Multiply":
                return self.dimN(a[0], k) + self.dimN(a[1], k)
            if c == "Divide":
                return self.dimN(a[0], k) - self.dimN(a[1], k)
            if c == "Raise":
                return self.dimN(a[0], k) * Num.int_of(self.ctors["Number"].acc[0](a[1]))
            if c == "Shift":
                return self.dimN(a[0], k)
            if c == "Logarithm":
                return self.dimN(a[1], k)
        # (A lemma: an identifier with an order occurs.)
        self.dimN = self.declare("dimN", [N, N], I, dimN, general=lambda path, n, k: [] if "dimN" in getattr(path, "disabled", ()) else [
            z3.Implies(self.dimN(n, k) != 0, self.ids(n, k))])

        # Does an identifier occur in an expression?
        def ids(path, c, a, n, k):
            if c in ("Number", "Unhandled"):
                return z3.BoolVal(False)
            if c == "Identifier":
                return k == n
            kids = [x for x, (_, kind) in zip(a, self.ctors[c].fields) if kind == "node"]
            return z3.Or(*[self.ids(x, k) for x in kids])
        self.ids = self.declare("ids", [N, N], B, ids, general=lambda path, n, k: [z3.Implies(self.ids(n, k), is_("Identifier", k))])

    def node_kinds(self, c):
        return [k for _, k in self.ctors[c].fields]
