"""Contracts on the string forms: what is printed is a text of the unit grammar whose parse is the expression.

The string of a sub-expression x is nstr(x), of which the contract says: it is a text of the
grammar, at the level its constructor has (a product, a power, or something basic), whose
parse is x up to regrouping of products.  Printing is verified by induction over that."""
import re

from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract
from dv import lib
from native import specparse

T = None
GRAPH = "pyudunits2._expr.graph"
LEVEL = {"Number": "number", "Identifier": "ID", "Shift": "basic", "Logarithm": "basic", "Raise": "power", "Multiply": "product", "Divide": "product",
         "Unhandled": "timestamp"}


def pieces(t):
    """A string term as a list of literals and other terms."""
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return [t.as_string()]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in t.children() for p in pieces(c)]
    return [t]


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif not (isinstance(p, str) and not p):
            out.append(p)
    return out


LEX = [("OPEN_PAREN", r"\("), ("CLOSE_PAREN", r"\)"), ("RAISE", r"\^|\*\*"), ("DIVIDE", r" *(?:/| per ) *"), ("MULTIPLY", r"[*·.-]"),
       ("SHIFT_OP", r"@|since|from|after|ref"), ("WS", " "), ("LOG", r"(?:log|lg|ln|lb) *\( *(?:re|RE):? *"), ("INT", "[0-9]+"), ("ID", "[A-Za-z_]+")]


class NotDerivable(Exception):
    pass


class P(specparse.P):
    """The reference parser, over texts with holes."""
    POWER = specparse.P.POWER + ("basic", "power", "number")

    def product(self):
        if self.k() == "product":
            # A product on the left of a product continues it.
            a = ("hole", self.take("product"))
            return self.rest(a)
        return self.rest(self.power())

    def rest(self, a):
        while True:
            k = self.k()
            if k in ("MULTIPLY", "DIVIDE"):
                self.i += 1
                a = ("mul" if k == "MULTIPLY" else "div", a, self.power())
            elif k == "WS" and self.k(1) in self.POWER:
                self.i += 1
                a = ("mul", a, self.power())
            else:
                return a

    def power(self):
        if self.k() == "power":
            return ("hole", self.take("power"))
        if self.k() == "product":
            raise specparse.Reject("an unbracketed product")
        a = self.logarithm()
        if self.k() == "RAISE":
            self.i += 1
            if self.k() == "INT":
                return ("pow", a, ("num", z3.IntVal(int(self.take("INT")))))
            return ("pow", a, ("inthole", self.take("number")))
        return a

    def logarithm(self):
        k = self.k()
        if k == "fname":
            fn = self.take("fname")
            a = self.shift_spec(("CLOSE_PAREN",))
            self.take("CLOSE_PAREN")
            return ("log", fn, a)
        if k in ("basic", "number"):
            return ("hole", self.take(k))
        if k == "IDhole":
            return ("id", self.take(k))
        if k == "numtext":
            return ("num", self.take(k))
        if k == "INT":
            return ("num", z3.IntVal(int(self.take(k))))
        if k == "ID":
            return ("id", z3.StringVal(self.take(k)))
        return super().logarithm()

    def shift_spec(self, follow):
        a = self.product()
        j = self.i
        if self.k() == "WS" and self.k(1) == "SHIFT_OP":
            self.i += 1
        if self.k() != "SHIFT_OP":
            self.i = j
            return a
        self.i += 1
        if self.k() == "WS":
            self.i += 1
        k = self.k()
        if k in ("number", "timestamp"):
            return ("shift", a, ("hole", self.take(k)))
        if k == "rawtext":
            return ("shift", a, ("raw", self.take(k)))
        if k == "numtext":
            return ("shift", a, ("num", self.take(k)))
        raise specparse.Reject("reference")


def tokens(ip, ps):
    """Literal text and holes, as tokens."""
    out = []
    for i, p in enumerate(ps):
        if isinstance(p, str):
            if i and not isinstance(ps[i - 1], str) and out and out[-1][0] == "fname?":
                m = re.match(r" *\( *(?:re|RE):? *", p)
                if not m:
                    raise NotDerivable("logarithm without its reference")
                out[-1] = ("fname", out[-1][1])
                p = p[m.end():]
            pos = 0
            while pos < len(p):
                best = None
                for name, rx in LEX:
                    m = re.compile(rx).match(p, pos)
                    if m and m.end() > pos and (best is None or m.end() > best[1]):
                        best = (name, m.end())
                if best is None:
                    raise NotDerivable(f"text {p[pos:]!r}")
                out.append((best[0], p[pos:best[1]]))
                pos = best[1]
        else:
            out.append(hole(ip, p))
    if any(k == "fname?" for k, _ in out):
        raise NotDerivable("a logarithm's name alone")
    return out + [("EOF", "")]


def hole(ip, t):
    d = t.decl()
    if d.name() == "nstr":
        c = ip.node_ctor(SNode(t.arg(0)))
        L = LEVEL[c.name]
        return ("basic" if L == "ID" else L, t.arg(0))
    if d.name() in ("str_of_int", "str_of_decimal"):
        return ("numtext", t.arg(0))
    for name, f, k in (("Identifier", 0, "IDhole"), ("Unhandled", 0, "rawtext"), ("Logarithm", 0, "fname?")):
        if d.eq(T.ctors[name].acc[f]):
            return (k, t)
    raise Unsupported(f"text {t}")


def flat_term(ip, t):
    c = T.ctor_of(ip.path, t)
    if c is not None and c.name == "Multiply":
        a = T.args_of(c, t)
        return flat_term(ip, a[0]) + flat_term(ip, a[1])
    return [t]


def flat_tree(ip, x):
    if x[0] == "mul":
        return flat_tree(ip, x[1]) + flat_tree(ip, x[2])
    if x[0] == "hole":
        return [("hole", t) for t in flat_term(ip, x[1])]
    return [x]


def real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def number_value(t):
    v = T.ctors["Number"].acc[0](t)
    return z3.If(Num.is_IntV(v), z3.ToReal(Num.int_of(v)), Num.dec_of(v))


def same(ip, t, x):
    """The condition that the tree x is the expression t, up to regrouping of products."""
    ts, xs = flat_term(ip, t), flat_tree(ip, x)
    if len(ts) != len(xs):
        return z3.BoolVal(False)
    if len(ts) > 1:
        return z3.And(*[same1(ip, a, b) for a, b in zip(ts, xs)])
    return same1(ip, ts[0], xs[0])


def same1(ip, t, x):
    k = x[0]
    C = T.ctors
    if k == "hole":
        return t == x[1]
    if k == "num":
        return z3.And(C["Number"].recog(t), number_value(t) == real(x[1]))
    if k == "inthole":
        return z3.And(C["Number"].recog(x[1]), Num.is_IntV(C["Number"].acc[0](x[1])), t == x[1])
    if k == "id":
        return t == C["Identifier"].make(x[1])
    if k == "raw":
        return t == C["Unhandled"].make(x[1])
    name = {"div": "Divide", "pow": "Raise", "shift": "Shift", "log": "Logarithm", "mul": "Multiply"}[k]
    c = C[name]
    if k == "log":
        fn = x[1] if z3.is_expr(x[1]) else z3.StringVal(x[1])
        return z3.And(c.recog(t), c.acc[0](t) == fn, same(ip, c.acc[1](t), x[2]))
    a = T.args_of(c, t) if T.ctor_of(ip.path, t) is c else [f(t) for f in c.acc]
    return z3.And(c.recog(t), same(ip, a[0], x[1]), same(ip, a[1], x[2]))


def level_of(x):
    return {"mul": "product", "div": "product", "pow": "power"}.get(x[0], "basic")


class NodeString(Contract):
    name = "Node.__str__"
    module, cls, method = GRAPH, "Node", "__str__"
    props = ("P04",)
    cases = ("Number", "Identifier", "Unhandled", "Raise", "Multiply", "Divide", "Shift", "Logarithm")
    assumes = ("str of an int or a Decimal, and the text of an identifier or date, are read back by the lexer as that one token (bounded native check)",
               "the lexer splits printed text at the operators and brackets between its parts (bounded native check; known finding for '@')")

    def resolve(self):
        import pyudunits2._expr.graph as g
        return g.Node, None

    def matches(self, ip, fn, self_, args):
        return False

    def start(self, ip, case):
        n = ip.path.fresh("node", T.Node)
        c = T.ctors[case]
        if case != "Unhandled":
            ip.path.add(T.WF(n))
        ip.path.add(c.recog(n))
        ip.path.know_ctor(n, case)
        ip.ghost = {"n": n}
        f, owner = ip.mro_attr(c.cls, "__str__")
        ip.measure = (T.sz(n), T.rsz(n))
        if not hasattr(f, "__code__"):
            raise Unsupported("no __str__")
        return lambda: ip.call_function(f, [SNode(n)], {}, self_=SNode(n))

    def ensure(self, ip, r):
        n = ip.ghost["n"]
        if isinstance(r, Opaque):
            raise Unsupported("how the text is built")
        if not isinstance(r, (str, SStr)):
            return ip.prove("the result is a string", False)
        ps = merge(pieces(lib.S(r)))
        name = ip.case
        if name == "Unhandled":
            return ip.prove("a date is printed as written", len(ps) == 1 and not isinstance(ps[0], str) and z3.eq(z3.simplify(ps[0]), z3.simplify(T.ctors[name].acc[0](n))))
        try:
            toks = tokens(ip, ps)
            p = P(toks)
            x = p.shift_spec(("EOF",)) if LEVEL[name] == "basic" or True else None
            p.take("EOF")
        except (specparse.Reject, NotDerivable) as e:
            return ip.prove("the text is one of the grammar", False)
        except Unsupported:
            raise
        ip.prove("the text is one of the grammar", True)
        # The level which other texts rely on.
        want = LEVEL[name]
        ok = {"number": x[0] in ("num", "hole"), "ID": x[0] == "id", "basic": toks[0][0] == "OPEN_PAREN" and closes(toks) or toks[0][0] in ("fname", "LOG") and level_of(x) == "basic",
              "power": level_of(x) in ("power", "basic"), "product": True}[want]
        if x[0] == "hole":
            ok = ok or LEVEL[T.ctor_of(ip.path, x[1]).name] == want
        ip.prove("the text binds as tightly as its users rely on", bool(ok))
        ip.prove("the text is parsed as the expression, up to regrouping of products", same(ip, n, x))

    def hints(self, ip, model):
        from .visitors import render
        return [["expr", render(model.eval(ip.ghost["n"], model_completion=True))]]


def closes(toks):
    """Does the bracket which opens the text close at its end?"""
    depth = 0
    for i, (k, _) in enumerate(toks[:-1]):
        depth += k in ("OPEN_PAREN", "fname", "LOG")
        depth -= k == "CLOSE_PAREN"
        if depth == 0:
            return i == len(toks) - 2
    return False


class Externals:
    def to_str(self, ip, v):
        if not isinstance(v, SNode):
            return NotImplemented
        if getattr(ip.contract, "name", "") == NodeString.name:
            n = ip.ghost["n"]
            ip.prove("printing is of well-formed expressions", z3.Or(T.WF(v.t), T.is_("Unhandled", v.t)))
            c = T.ctor_of(ip.path, v.t)
            a, b = ip.measure
            ip.prove("recursion of printing ends", z3.Or(T.sz(v.t) < a, z3.And(T.sz(v.t) == a, T.rsz(v.t) < b)))
        return SStr(T.nstr(v.t))


CONTRACTS = [NodeString]


def load(theory):
    global T
    T = theory
    N = T.Node
    T.nstr = z3.Function("nstr", N, String)

    def rsz(path, c, a, n):
        return T.sz(a[1]) if c == "Multiply" else z3.IntVal(0)
    T.rsz = T.declare("rsz", [N], z3.IntSort(), rsz)
    return [c() for c in CONTRACTS], [Externals()]
