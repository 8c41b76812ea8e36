"""Contracts on the value of expressions: the visitors which split, prepare and translate an
expanded definition, and the assumed contracts of the parts of sympy they use."""
import ast
from decimal import Decimal

from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract, VList, zbool
from dv import lib
from .visitors import VisitorContract, render
from . import visitors

T = None
R = z3.RealSort()
Env = z3.ArraySort(String, R)
ONES = z3.K(String, z3.RealVal(1))
VALUE = z3.StringVal("value")


def quot(a, b):
    """a/b. What it is for b = 0 is outside the properties: 0, so that 1/(a·b), (1/a)/b and so on are equal."""
    if z3.is_rational_value(b) and b.numerator_as_long() != 0:
        return a / b
    return z3.If(b == 0, z3.RealVal(0), a / b)


# ---------------------------------------------------------------- the specification
def specs(th):
    N, I, B, S = th.Node, z3.IntSort(), z3.BoolSort(), String
    is_ = th.is_
    num, nvalue = th.ctors["Number"].acc[0], None
    rpow = th.rpow = th.function("rpow", [R, R], R, lambda p, x, y: [
        z3.Implies(y == 1, rpow(x, y) == x), z3.Implies(y == 0, rpow(x, y) == 1), z3.Implies(y == -1, rpow(x, y) == quot(1, x)), z3.Implies(y == 2, rpow(x, y) == x * x)])
    rln = th.rln = th.function("rln", [R], R, lambda p, x: [z3.Implies(x > 1, rln(x) > 0)])
    rexp = th.rexp = th.function("rexp", [R], R, lambda p, x: [rexp(x) > 0, rln(rexp(x)) == x])
    LB, LG = z3.StringVal("lb"), z3.StringVal("lg")
    th.base = lambda f: z3.If(f == LB, z3.RealVal(2), z3.RealVal(10))
    th.natural = lambda f: z3.Not(z3.Or(f == LB, f == LG))
    th.LOGF = lambda f, x: z3.If(th.natural(f), rln(x), rln(x) / rln(th.base(f)))
    th.EXPF = lambda f, x: z3.If(th.natural(f), rexp(x), rexp(x * rln(th.base(f))))
    th.isDummy = z3.Function("isDummy", S, B)

    def numof(n):
        c = num(n)
        return z3.If(Num.is_IntV(c), z3.ToReal(Num.int_of(c)), Num.dec_of(c))
    th.numof = numof

    # Shapes.
    def shape(number, ident, product, power, shift, log):
        def f(path, c, a, n):
            if c in ("Number", "Unhandled"):
                return z3.BoolVal(number and c == "Number")
            if c == "Identifier":
                return ident(a[0]) if callable(ident) else z3.BoolVal(ident)
            if c in ("Multiply", "Divide"):
                return product(*a)
            if c == "Raise":
                return power(*a)
            if c == "Shift":
                return shift(*a)
            return log(a[1])
        return f
    F, both = (lambda *a: z3.BoolVal(False)), lambda f: (lambda x, y: z3.And(f(x), f(y)))

    def terminal(name, *others):
        def g(p, n):
            f = getattr(th, name)
            return [z3.Implies(is_("Number", n), f(n))] + ([z3.Implies(getattr(th, o)(n), f(n)) for o in others] if name not in getattr(p, "disabled", ()) else [])
        return g
    th.LIN = th.declare("LIN", [N], B, shape(True, True, both(lambda x: th.LIN(x)), lambda x, y: z3.And(th.LIN(x), is_("Number", y)), F, F), terminal("LIN"))
    th.NOLOG = th.declare("NOLOG", [N], B, shape(True, True, both(lambda x: th.NOLOG(x)), lambda x, y: z3.And(th.NOLOG(x), is_("Number", y)),
                                                  lambda u, x: th.NOLOG(u), F), terminal("NOLOG", "LIN"))
    nolog = lambda p, c, a, n: th.NOLOG(n)
    # A shift or logarithm of another, and so on, of a product.
    th.TERM = th.declare("TERM", [N], B, lambda p, c, a, n: th.TERM(a[0]) if c == "Shift" else th.TERM(a[1]) if c == "Logarithm" else th.NOLOG(n), terminal("TERM", "NOLOG", "NESTX"))
    th.NESTX = th.declare("NESTX", [N], B, lambda p, c, a, n: z3.And(th.NESTX(a[0]), is_("Number", a[1])) if c == "Shift" else th.NESTX(a[1]) if c == "Logarithm" else th.LIN(n),
                          terminal("NESTX", "LIN"))
    th.TRANSN = th.declare("TRANSN", [N], B, shape(False, lambda s: s == VALUE, F, F, lambda u, x: z3.And(th.TRANSN(u), is_("Number", x)), lambda t: th.TRANSN(t)))
    th.NUMSHIFT = th.declare("NUMSHIFT", [N], B, shape(True, True, both(lambda x: th.NUMSHIFT(x)), lambda x, y: th.NUMSHIFT(x),
                                                        lambda u, x: z3.And(th.NUMSHIFT(u), is_("Number", x)), lambda t: th.NUMSHIFT(t)), terminal("NUMSHIFT"))

    off = lambda p, name: name in getattr(p, "disabled", ())

    # The value of an expression where its identifiers have values.
    def den(p, c, a, n, e):
        if c == "Number":
            return numof(n)
        if c == "Unhandled":
            return None
        if c == "Identifier":
            return z3.Select(e, a[0])
        if c == "Multiply":
            return th.DEN(a[0], e) * th.DEN(a[1], e)
        if c == "Divide":
            return quot(th.DEN(a[0], e), th.DEN(a[1], e))
        if c == "Raise":
            return rpow(th.DEN(a[0], e), th.DEN(a[1], e))
        if c == "Shift":
            return th.DEN(a[0], e) - th.DEN(a[1], e)
        return th.LOGF(a[0], th.DEN(a[1], e))
    th.DEN = th.declare("DEN", [N, Env], R, den, lambda p, n, e: [z3.Implies(is_("Number", n), th.DEN(n, e) == numof(n))] + ([] if off(p, "DEN") else [
        z3.Implies(th.LIN(n), th.DEN(n, e) == th.SC(n, e)), z3.Implies(th.TRANSN(n), th.DEN(n, e) == th.TRV(n, z3.Select(e, VALUE)))]))

    # The scale: as the value, but shifts and logarithms don't count.
    def sc(p, c, a, n, e):
        if c in ("Number", "Identifier", "Unhandled", "Multiply", "Divide", "Raise"):
            g = {"Multiply": lambda: th.SC(a[0], e) * th.SC(a[1], e), "Divide": lambda: quot(th.SC(a[0], e), th.SC(a[1], e)), "Raise": lambda: rpow(th.SC(a[0], e), th.SC(a[1], e)),
                 "Number": lambda: numof(n), "Identifier": lambda: z3.Select(e, a[0])}.get(c)
            return g() if g else None
        return th.SC(a[0] if c == "Shift" else a[1], e)
    th.SC = th.declare("SC", [N, Env], R, sc, lambda p, n, e: [z3.Implies(is_("Number", n), th.SC(n, e) == numof(n))])

    # The transformation of values, in terms of the scale, and its inverse.
    th.TRV = th.declare("TRV", [N, R], R, lambda p, c, a, n, v: th.TRV(a[0], v) - numof(a[1]) if c == "Shift" else th.LOGF(a[0], th.TRV(a[1], v)) if c == "Logarithm" else v,
                        lambda p, n, v: [] if off(p, "TRV") else [z3.Implies(th.LIN(n), th.TRV(n, p.ground(v)) == v)])
    th.TINV = th.declare("TINV", [N, R], R, lambda p, c, a, n, v: th.TINV(a[0], v + numof(a[1])) if c == "Shift" else th.TINV(a[1], th.EXPF(a[0], v)) if c == "Logarithm" else v,
                         lambda p, n, v: [] if off(p, "TRV") else [z3.Implies(th.LIN(n), th.TINV(n, p.ground(v)) == v)])
    th.INDOM = th.declare("INDOM", [N, R], B, lambda p, c, a, n, v: th.INDOM(a[0], v) if c == "Shift" else z3.And(th.INDOM(a[1], v), th.TRV(a[1], v) > 0) if c == "Logarithm"
                          else z3.BoolVal(True))
    th.KSymb = Kind("symbol", String, None)
    th.KSymb.lift = lambda t: symbol(t)


# ---------------------------------------------------------------- sympy expressions
class SExpr:
    """A sympy expression, by its value for all values of its symbols, the symbols which may
    occur in it, and its orders: it is (an expression in other symbols) x (a product of
    integer powers of symbols)."""

    def __init__(self, ev, ords=None, rest=None, fun=None, const=None, int_=None, name=None, diff=None, node=None):
        self.ev = ev
        self.ords = ords or (lambda s: z3.IntVal(0))
        self.rest = rest or (lambda s: z3.BoolVal(False))
        self.fun, self.const, self.int, self.name, self.diff, self.node = fun, const, int_, name, diff, node

    def free(self, s):
        return z3.Or(self.rest(s), self.ords(s) != 0)

    def __repr__(self):
        return f"SExpr({self.name if self.name is not None else self.node if self.node is not None else '...'})"


def symbol(t):
    return SExpr(lambda e: z3.Select(e, t), lambda s: z3.If(s == t, z3.IntVal(1), z3.IntVal(0)), fun=(t, lambda v: v, lambda v: v), name=t)


def number(r, i=None):
    return SExpr(lambda e: r, const=r, int_=i)


def of_node(n):
    """The translation of a well-formed expression."""
    x = SExpr(lambda e: T.DEN(n, e), node=n)
    ident = T.ctors["Identifier"].make
    x.ords = lambda s: z3.If(T.LIN(n), T.dimN(n, ident(s)), 0)
    x.rest = lambda s: z3.If(T.LIN(n), z3.BoolVal(False), T.ids(n, ident(s)))
    return x


def shape_of(ip, x):
    """The invertible form of a translated expression, where it is one."""
    if x.fun is None and x.node is not None and ip.path.valid(T.TRANSN(x.node)) is True:
        n = x.node
        x.fun = (VALUE, lambda v: T.TRV(n, v), lambda v: T.TINV(n, v))
        x.ords, x.rest = (lambda s: z3.IntVal(0)), (lambda s: z3.And(s == VALUE, T.ids(n, T.ctors["Identifier"].make(s))))
    if x.const is None and x.node is not None and ip.path.valid(T.is_("Number", x.node)) is True:
        c = T.ctors["Number"].acc[0](x.node)
        x.const = T.numof(x.node)
        if ip.path.valid(Num.is_IntV(c)) is True:
            x.int = Num.int_of(c)
    return x


def to_expr(ip, v):
    v = ip.resolve(v)
    if isinstance(v, SExpr):
        return shape_of(ip, v)
    if isinstance(v, bool):
        raise Unsupported("truth value in an expression")
    if isinstance(v, (int, SInt)):
        i = ip.lower(v, KInt)
        return number(z3.simplify(z3.ToReal(i)), i)
    if isinstance(v, (SReal, Decimal, float)):
        return number(ip.lower(v, KReal))
    raise Unsupported(f"{v!r} in an expression")


def no(s):
    return z3.BoolVal(False)


def add(ip, a, b, sign):
    x = SExpr(lambda e: a.ev(e) + sign * b.ev(e) if sign < 0 or sign > 1 else a.ev(e) + b.ev(e), rest=lambda s: z3.Or(a.free(s), b.free(s)))
    if sign < 0:
        x.ev = lambda e: a.ev(e) - b.ev(e)
        x.diff = (a, b)
    if a.const is not None and b.const is not None:
        x.const = a.const + b.const if sign > 0 else a.const - b.const
        if a.int is not None and b.int is not None:
            x.int = a.int + b.int if sign > 0 else a.int - b.int
    elif a.fun and b.const is not None:
        s, f, g = a.fun
        c = b.const
        x.fun = (s, lambda v: f(v) + c if sign > 0 else f(v) - c, lambda v: g(v - c) if sign > 0 else g(v + c))
    elif b.fun and a.const is not None:
        s, f, g = b.fun
        c = a.const
        x.fun = (s, (lambda v: c + f(v)), (lambda v: g(v - c))) if sign > 0 else (s, (lambda v: c - f(v)), (lambda v: g(c - v)))
    return x


def mul(ip, a, b, div=False):
    x = SExpr((lambda e: quot(a.ev(e), b.ev(e))) if div else (lambda e: a.ev(e) * b.ev(e)),
              (lambda s: a.ords(s) - b.ords(s)) if div else (lambda s: a.ords(s) + b.ords(s)), lambda s: z3.Or(a.rest(s), b.rest(s)))
    if a.const is not None and b.const is not None:
        x.const = quot(a.const, b.const) if div else a.const * b.const
    elif a.fun and b.const is not None and ip.path.valid(b.const != 0) is True:
        s, f, g = a.fun
        c = b.const
        x.fun = (s, (lambda v: quot(f(v), c)), (lambda v: g(v * c))) if div else (s, (lambda v: f(v) * c), (lambda v: g(quot(v, c))))
    elif b.fun and not div and a.const is not None and ip.path.valid(a.const != 0) is True:
        s, f, g = b.fun
        c = a.const
        x.fun = (s, lambda v: c * f(v), lambda v: g(quot(v, c)))
    return x


def power(ip, a, b):
    if b.const is None:
        raise Unsupported("power of an expression")
    x = SExpr(lambda e: T.rpow(a.ev(e), b.const), rest=lambda s: a.free(s))
    if b.int is not None:
        x.ords = lambda s: a.ords(s) * b.int
        x.rest = a.rest
    if a.const is not None:
        x.const = T.rpow(a.const, b.const)
    return x


def log(ip, a, base=None):
    if base is None:
        ev, inv = (lambda x: T.rln(x)), (lambda v: T.rexp(v))
    else:
        if base.const is None:
            raise Unsupported("base of a logarithm")
        ev, inv = (lambda x: T.rln(x) / T.rln(base.const)), (lambda v: T.rexp(v * T.rln(base.const)))
    x = SExpr(lambda e: ev(a.ev(e)), rest=lambda s: a.free(s))
    if a.const is not None:
        x.const = ev(a.const)
    if a.fun:
        s, f, g = a.fun
        x.fun = (s, lambda v: ev(f(v)), lambda v: g(inv(v)))
    return x


def override(ip, e, dom, val):
    """The environment e with other values for the symbols in dom."""
    p = ip.path
    r = p.fresh("env", Env)
    p.forall(String, lambda s: z3.Select(r, s) == z3.If(dom(s), val(s), z3.Select(e, s)))
    return same_env(ip, r)


def same_env(ip, r):
    """Environments are equal if every symbol has the same value in both."""
    p = ip.path
    if not r.eq(ONES):
        m = p.mark()
        try:
            s = p.ground(p.fresh("symbol", String))
            same = p.valid(z3.Select(r, s) == 1)
        finally:
            p.reset(m)
        if same is True:
            p.add(r == ONES)
            return ONES
    return r


def rename(x, s, y):
    """x with the expression y for the symbol s."""
    ev = lambda e: x.ev(z3.Store(e, s, y.ev(e)))
    z = SExpr(ev, rest=lambda t: z3.Or(z3.And(x.free(t), t != s), z3.And(x.free(s), y.free(t))))
    if y.const is not None:
        z.ords = lambda t: z3.If(t == s, 0, x.ords(t))
        z.rest = lambda t: z3.And(x.rest(t), t != s)
    if x.fun and y.fun:
        pass
    return z


def subs(ip, x, args, kwargs):
    if kwargs:
        kwargs = {k: v for k, v in kwargs.items() if k != "simultaneous"}
        if kwargs:
            raise Unsupported("subs with options")
    p = ip.path
    if len(args) == 1 and isinstance(args[0], Coll) and args[0].what == "dict" and args[0].py is not None and len(args[0].py) == 1:
        args = list(args[0].py.items())[0]
    elif len(args) == 1 and isinstance(args[0], VList) and len(args[0]) == 1 and isinstance(args[0][0], tuple):
        args = args[0][0]
    if len(args) == 2:
        k, y = args
        if not isinstance(k, SExpr) or k.name is None:
            raise Unsupported("substitution for something which isn't a symbol")
        y = to_expr(ip, y)
        z = rename(x, k.name, y)
        if x.fun and p.valid(x.fun[0] == k.name) is True and y.fun:
            s, f, g = x.fun
            s2, f2, g2 = y.fun
            z.fun = (s2, lambda v: f(f2(v)), lambda v: g2(g(v)))
        elif x.fun and p.valid(x.fun[0] != k.name) is True:
            z.fun = x.fun
        return z
    if len(args) == 1 and isinstance(args[0], Coll) and args[0].what == "dict":
        c = args[0]
        if c.py is not None and not c.py:
            return x
        lib.symbolic(ip, c)
        if c.K is not T.KSymb or c.V not in (KInt, KReal):
            raise Unsupported(f"substitution {c!r}")
        dom = c.dom
        val = (lambda s: z3.ToReal(c.val(s))) if c.V is KInt else c.val
        cache = {}

        def ev(e):
            if e.get_id() not in cache:
                p.keep.append(e)
                cache[e.get_id()] = override(ip, e, dom, val)
            return x.ev(cache[e.get_id()])
        z = SExpr(ev, lambda s: z3.If(dom(s), 0, x.ords(s)), lambda s: z3.And(x.rest(s), z3.Not(dom(s))))
        if x.fun and p.valid(z3.Not(dom(p.ground(x.fun[0])))) is True:
            z.fun = x.fun
        return z
    raise Unsupported("subs")


def free_symbols(ip, x):
    c = Coll("set", T.KSymb, None, lambda s: x.free(s), None)
    c.py = None
    return c


def solve(ip, args, kwargs):
    x = args[0]
    if len(args) < 2 or not isinstance(args[1], SExpr) or args[1].name is None or not isinstance(x, SExpr) or x.diff is None or kwargs.get("dict"):
        raise Unsupported("solve")
    s = args[1].name
    p = ip.path
    for a, b in (x.diff, x.diff[::-1]):
        if a.fun and p.valid(a.fun[0] == s) is True and p.valid(z3.Not(b.free(s))) is True:
            g = a.fun[2]
            r = SExpr(lambda e: g(b.ev(e)), rest=lambda t: b.free(t))
            if b.fun:
                s2, f2, g2 = b.fun
                f = a.fun[1]
                r.fun = (s2, lambda v: g(f2(v)), lambda v: g2(f(v)))
            return VList([r])
    raise Unsupported("an equation of unknown form")


def sp_invert_complex():
    from sympy.solvers.solveset import invert_complex
    return invert_complex


def inverted(ip, args, kwargs):
    """invert_complex(t, y, s): s, and the one solution of t(s) = y, as a set."""
    if len(args) != 3 or kwargs or not isinstance(args[2], SExpr) or args[2].name is None or not isinstance(args[0], SExpr):
        raise Unsupported("inversion")
    t, y, s = args
    if not isinstance(y, SExpr):
        raise Unsupported("inversion")
    [r] = solve(ip, [SExpr(lambda e: t.ev(e) - y.ev(e), diff=(t, y)), s], {})
    return (s, ip.coll("set", {r: None}))


class Lambda:
    """The function sympy.lambdify makes of an expression in one symbol."""

    def __init__(self, s, x):
        self.s, self.x = s, x


class SArray:
    """Any element of a numpy array, with the kind of its dtype: 'f' for floating-point numbers
    (real numbers here), 'i' and 'u' for integers of a fixed width."""

    def __init__(self, kind, value):
        self.kind, self.value = kind, value


class SDtype:
    def __init__(self, array):
        self.kind = array.kind


class ArrayMethod:
    def __init__(self, array, name):
        self.array, self.name = array, name

    def call(self, ip, args, kwargs):
        if self.name == "astype" and len(args) == 1 and set(kwargs) <= {"copy"}:
            return converted(self.array, args[0])
        if self.name == "copy" and not args:
            return SArray(self.array.kind, self.array.value)
        raise Unsupported(f"method {self.name} of an array")


def converted(array, dtype):
    import numpy
    if dtype not in (float, numpy.float64, "float64", "float", "f8", "d", numpy.double):
        raise Unsupported(f"an array of {dtype}")
    return SArray("f", array.value)


class SymClass:
    pass


def sympy_modules():
    import sympy
    import sympy.parsing.sympy_parser as sp
    return sympy, sp


class Externals:
    """The assumed contracts of sympy."""

    def kind_of(self, ip, v):
        if isinstance(v, SExpr) and v.name is not None:
            return T.KSymb
        return NotImplemented

    def lower(self, ip, v, K):
        if K is T.KSymb and isinstance(v, SExpr) and v.name is not None:
            return v.name
        return NotImplemented

    def eq(self, ip, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SExpr):
                if isinstance(y, SExpr) and x.name is not None and y.name is not None:
                    return ip.simp(x.name == y.name)
                if not isinstance(y, (SExpr, int, float, Decimal, SInt, SReal)):
                    return False
                y = to_expr(ip, y)
                x = to_expr(ip, x)
                if x.const is not None and y.const is not None and x.int is not None and y.int is not None:
                    return ip.simp(x.int == y.int)
                # Identical expressions have the same value, whatever the values of their symbols.
                p = ip.path
                t = p.fresh("identical", z3.BoolSort())
                e0 = p.ground(p.fresh("env", Env))
                envs = [e0]
                for s in {id(z.fun): z.fun[0] for z in (x, y) if z.fun}.values():
                    envs += [z3.Store(e0, s, z3.RealVal(0)), z3.Store(e0, s, z3.RealVal(1))]
                for e in envs:
                    p.add(z3.Implies(t, x.ev(e) == y.ev(e)))
                if not hasattr(p, "identical"):
                    p.identical = []
                p.identical.append((t, x, y))
                return t
        return NotImplemented

    def truth(self, ip, v):
        if isinstance(v, (SExpr, Lambda)):
            if isinstance(v, SExpr):
                raise Unsupported("truth of an expression")
            return True
        return NotImplemented

    def getattr(self, ip, o, name):
        if isinstance(o, SArray):
            if name == "dtype":
                return SDtype(o)
            if name in ("astype", "copy"):
                return ArrayMethod(o, name)
            raise Unsupported(f"attribute {name} of an array")
        if isinstance(o, SDtype):
            if name == "kind":
                return o.kind
            raise Unsupported(f"attribute {name} of a dtype")
        if isinstance(o, SExpr):
            if name == "free_symbols":
                return free_symbols(ip, o)
            if name in ("is_Float", "is_Integer", "is_Number", "is_number", "is_Rational"):
                shape_of(ip, o)
                if o.node is not None and ip.path.valid(z3.Not(T.is_("Number", o.node))) is True:
                    return False
                if o.const is None and o.node is None:
                    return False
                if o.const is None or (name not in ("is_Number", "is_number") and o.node is None):
                    raise Unsupported(f"{name} of an expression")
                if name in ("is_Number", "is_number"):
                    return True
                c = Num.is_IntV(T.ctors["Number"].acc[0](o.node))
                return ip.wrap_bool(c if name != "is_Float" else z3.Not(c))
            return ExprMethod(o, name)
        return NotImplemented

    def binop(self, ip, op, a, b):
        if not isinstance(a, SExpr) and not isinstance(b, SExpr):
            return NotImplemented
        a, b = to_expr(ip, a), to_expr(ip, b)
        if op is ast.Add:
            return add(ip, a, b, 1)
        if op is ast.Sub:
            return add(ip, a, b, -1)
        if op is ast.Mult:
            return mul(ip, a, b)
        if op is ast.Div:
            return mul(ip, a, b, True)
        if op is ast.Pow:
            return power(ip, a, b)
        raise Unsupported("operator on expressions")

    def construct(self, ip, c, args, kwargs):
        import sympy
        m = getattr(c, "__module__", "") or ""
        if not m.startswith("sympy"):
            return NotImplemented
        if kwargs and c not in (sympy.Dummy, sympy.Symbol):
            raise Unsupported(f"{c.__name__} with options")
        if c is sympy.Symbol:
            return self.sym(ip, args[0])
        if c is sympy.Dummy:
            s = ip.path.fresh("dummy", String)
            ip.path.add(T.isDummy(s))
            for d in getattr(ip.path, "dummies", []):
                ip.path.add(s != d)
            ip.path.dummies = getattr(ip.path, "dummies", []) + [s]
            return symbol(s)
        if c in (sympy.Integer, sympy.Float, sympy.Rational) and len(args) == 1:
            return self.num(ip, args[0], c)
        if c is sympy.log:
            return log(ip, *[to_expr(ip, x) for x in args])
        if c is sympy.Mul or c is sympy.Add:
            xs = [to_expr(ip, x) for x in args]
            r = xs[0] if xs else to_expr(ip, 1 if c is sympy.Mul else 0)
            for x in xs[1:]:
                r = mul(ip, r, x) if c is sympy.Mul else add(ip, r, x, 1)
            return r
        if c is sympy.Pow and len(args) == 2:
            return power(ip, *[to_expr(ip, x) for x in args])
        if c is sympy.exp and len(args) == 1:
            a = to_expr(ip, args[0])
            return SExpr(lambda e: T.rexp(a.ev(e)), rest=lambda s: a.free(s))
        if c is sympy.Eq and len(args) == 2:
            return add(ip, to_expr(ip, args[0]), to_expr(ip, args[1]), -1)
        raise Unsupported(f"sympy.{c.__name__}")

    def sym(self, ip, name):
        if not isinstance(name, (str, SStr)):
            raise Unsupported("name of a symbol")
        t = ip.lower(name, KStr)
        ip.path.add(z3.Not(T.isDummy(t)))
        return symbol(ip.path.ground(t))

    def num(self, ip, v, c=None):
        v = ip.resolve(v)
        if isinstance(v, SExpr):
            return v
        if isinstance(v, (str, SStr)):
            # The text of a number is that number.
            t = ip.lower(v, KStr)
            s = z3.simplify(t)
            if z3.is_app(s) and s.decl().name() == "str_of_int":
                return to_expr(ip, SInt(s.arg(0)))
            if z3.is_app(s) and s.decl().name() == "str_of_decimal":
                return to_expr(ip, SReal(s.arg(0)))
            if z3.is_string_value(s):
                try:
                    return to_expr(ip, Decimal(s.as_string()))
                except ArithmeticError:
                    raise Unsupported("expression in text")
            if ip.path.valid(lib.isdec(t)) is True:
                return number(lib.decval(t))
            raise Unsupported("number in text")
        return to_expr(ip, v)

    def external(self, ip, f, args, kwargs):
        if isinstance(f, ExprMethod):
            return f.call(ip, args, kwargs)
        if isinstance(f, Lambda):
            if len(args) != 1 or kwargs:
                raise Unsupported("call of a compiled expression")
            if isinstance(args[0], SArray):
                # Floating-point numbers are evaluated element by element; integers wrap around.
                if args[0].kind == "f":
                    return SArray("f", self.external(ip, f, [SReal(args[0].value)], {}).t)
                return SArray(args[0].kind, ip.path.fresh("wrapped", z3.RealSort()))
            v = ip.lower(args[0], KReal)
            s = ip.path.ground(ip.path.fresh("symbol", String))
            ip.prove("the compiled expression has no other symbol than its argument", z3.Implies(f.x.free(s), s == f.s))
            return SReal(f.x.ev(z3.Store(ONES, f.s, v)))
        if f is abs and len(args) == 1 and isinstance(args[0], SExpr):
            return absolute(ip, args[0])
        if isinstance(f, ArrayMethod):
            return f.call(ip, args, kwargs)
        m = getattr(f, "__module__", "") or ""
        if m.startswith("numpy"):
            import numpy
            a = args[0] if args else None
            if isinstance(a, SArray) and f in (numpy.asarray, numpy.array, numpy.asanyarray) and set(kwargs) <= {"dtype"}:
                d = kwargs.get("dtype", args[1] if len(args) > 1 else None)
                return SArray(a.kind, a.value) if d is None else converted(a, d)
            if isinstance(a, SDtype) and f is numpy.issubdtype and isinstance(args[1], type):
                of = {"i": (numpy.int64, numpy.int8), "u": (numpy.uint64, numpy.uint8), "f": (numpy.float64, numpy.float32)}[a.kind]
                yes = {numpy.issubdtype(t, args[1]) for t in of}
                if len(yes) == 1:
                    return yes.pop()
        if not m.startswith("sympy"):
            return NotImplemented
        sympy, sp = sympy_modules()
        if f is sympy.symbols and len(args) == 1 and not kwargs and isinstance(args[0], str) and args[0].isidentifier():
            return self.sym(ip, args[0])
        if f in (sp.parse_expr, sympy.sympify) and len(args) == 1:
            return self.num(ip, args[0])
        if f is sympy.solve:
            return solve(ip, args, kwargs)
        if f is sp_invert_complex():
            return inverted(ip, args, kwargs)
        if f in (sympy.simplify, sympy.expand, sympy.nsimplify, sympy.cancel, sympy.together):
            if f is sympy.nsimplify:
                raise Unsupported("nsimplify")
            # The same value for the same symbols; no other symbols.
            x = to_expr(ip, args[0])
            return SExpr(x.ev, None, lambda s: x.free(s), x.fun, x.const, x.int, x.name, x.diff)
        if f is sympy.lambdify and len(args) >= 2:
            a = args[0]
            if isinstance(a, (tuple, VList)) and len(a) == 1:
                a = a[0]
            if not isinstance(a, SExpr) or a.name is None:
                raise Unsupported("lambdify")
            return Lambda(a.name, to_expr(ip, args[1]))
        raise Unsupported(f"sympy.{getattr(f, '__name__', f)}")

    def to_str(self, ip, v):
        if isinstance(v, SExpr):
            return Opaque("text of an expression")
        return NotImplemented

    def type_of(self, ip, v):
        if isinstance(v, SExpr):
            raise Unsupported("type of an expression")
        if isinstance(v, SArray):
            import numpy
            return numpy.ndarray
        if isinstance(v, SDtype):
            import numpy
            return numpy.dtype
        return NotImplemented


class ExprMethod:
    def __init__(self, x, name):
        self.x, self.name = x, name

    def call(self, ip, args, kwargs):
        n = self.name
        if n in ("subs", "xreplace"):
            return subs(ip, self.x, args, kwargs)
        if n in ("simplify", "expand"):
            return SExpr(self.x.ev, None, lambda s: self.x.free(s), self.x.fun, self.x.const, self.x.int, self.x.name, self.x.diff)
        if n == "__abs__":
            return absolute(ip, self.x)
        if n == "has" and len(args) == 1 and isinstance(args[0], SExpr) and args[0].name is not None:
            raise Unsupported("has")
        raise Unsupported(f"method {n} of an expression")


def absolute(ip, x):
    x = to_expr(ip, x)
    f = lambda v: z3.If(v < 0, -v, v)
    r = SExpr(lambda e: f(x.ev(e)), rest=lambda s: x.free(s))
    if x.const is not None:
        r.const = f(x.const)
        if x.int is not None:
            r.int = z3.If(x.int < 0, -x.int, x.int)
    return r


# ---------------------------------------------------------------- lemmas
class Lemma(Contract):
    """A fact about the specification, by induction: no code."""
    frame = False
    module, method = "pyudunits2._expr.graph", ""
    disabled = ()
    cases = ("Number", "Identifier", "Raise", "Multiply", "Divide", "Shift", "Logarithm")

    def resolve(self):
        return None, None

    def matches(self, ip, fn, self_, args):
        return False

    def node(self, ip, c):
        p = ip.path
        a = []
        for f, kind in T.ctors[c].fields:
            if kind == "node" and (c, f) in (("Raise", "rhs"), ("Shift", "shift_from")):
                a.append(T.ctors["Number"].make(p.fresh("number", Num), p.fresh("raw", OptStr)))
            else:
                a.append(p.fresh(f, {"node": T.Node, "str": String, "num": Num, "optstr": OptStr}[kind]))
        return T.ctors[c].make(*a), [x for x, (_, k) in zip(a, T.ctors[c].fields) if k == "node"]

    def start(self, ip, case):
        ip.path.disabled = self.disabled
        n, kids = self.node(ip, case)
        ip.ghost = {"n": n, "kids": kids}
        self.setup(ip)
        for k in kids:
            for f in self.statement(ip, k):
                ip.path.add(f)
        return lambda: None

    def setup(self, ip):
        pass

    def ensure(self, ip, r):
        for i, f in enumerate(self.statement(ip, ip.ghost["n"])):
            ip.prove(f"{self.what}{'' if i == 0 else f' ({i + 1})'}", f)

    def statement(self, ip, n):
        raise NotImplementedError


class Shapes(Lemma):
    name, what = "lemma: shapes of expressions", "a product has no logarithm, and so on"
    props = ("P07", "P08", "P09", "P14")
    disabled = ("NOLOG", "TERM", "NESTX", "LIN")

    def statement(self, ip, n):
        return [z3.Implies(T.LIN(n), T.NOLOG(n)), z3.Implies(T.NOLOG(n), T.TERM(n)), z3.Implies(T.LIN(n), T.NESTX(n)), z3.Implies(T.NESTX(n), T.TERM(n))]


class LinearValue(Lemma):
    name, what = "lemma: value of a product", "the value of a product is its scale, and its transformation is the identity"
    props = ("P07", "P08", "P09", "P14")
    disabled = ("DEN", "TRV")

    def setup(self, ip):
        ip.ghost["e"], ip.ghost["v"] = ip.path.fresh("env", Env), ip.path.fresh("value", R)

    def statement(self, ip, n):
        e, v = ip.ghost["e"], ip.ghost["v"]
        return [z3.Implies(T.LIN(n), T.DEN(n, e) == T.SC(n, e)), z3.Implies(T.LIN(n), z3.And(T.TRV(n, v) == v, T.TINV(n, v) == v))]


class TransformValue(Lemma):
    name, what = "lemma: value of a transformation", "the value of a transformation is that of the value it is given"
    props = ("P08", "P09", "P14")
    disabled = ("DEN",)

    def setup(self, ip):
        ip.ghost["e"], ip.ghost["k"] = ip.path.fresh("env", Env), ip.path.ground(ip.path.fresh("identifier", T.Node))

    def statement(self, ip, n):
        e, k = ip.ghost["e"], ip.ghost["k"]
        return [z3.Implies(T.TRANSN(n), T.DEN(n, e) == T.TRV(n, z3.Select(e, VALUE))),
                z3.Implies(z3.And(T.TRANSN(n), T.ids(n, k)), k == T.ctors["Identifier"].make(VALUE))]


class Inverse(Lemma):
    name, what = "lemma: transformations invert", "the inverse transformation undoes the transformation"
    props = ("P08", "P09")
    assumes = ("exp and log of real numbers are each other's inverses (on positive numbers), exp is positive",)

    def setup(self, ip):
        ip.ghost["v"] = ip.path.fresh("value", R)

    def statement(self, ip, n):
        return None

    def start(self, ip, case):
        p = ip.path
        n, kids = self.node(ip, case)
        v = p.fresh("value", R)
        ip.ghost = {"n": n, "v": v}
        kid = [k for k, (_, kind) in zip(T.args_of(T.ctors[case], n), T.ctors[case].fields) if kind == "node"]
        if case in ("Shift", "Logarithm"):
            u = n.arg(0) if case == "Shift" else n.arg(1)
            x = T.TRV(u, v)
            p.add(z3.Implies(T.INDOM(u, v), T.TINV(u, x) == v))
            w = v + T.numof(n.arg(1)) if case == "Shift" else T.EXPF(n.arg(0), v)
            p.add(z3.And(T.TRV(u, T.TINV(u, w)) == w, T.INDOM(u, T.TINV(u, w))))
            y = T.TRV(u, v)
            p.add(z3.Implies(y > 0, z3.And(T.rexp(T.rln(y)) == y)))
            for b in (2, 10):
                l = T.rln(z3.RealVal(b))
                p.add(z3.And(l > 0, z3.Implies(y > 0, T.rexp((T.rln(y) / l) * l) == y), T.rln(T.rexp(v * l)) / l == v))
        return lambda: None

    def ensure(self, ip, r):
        n, v = ip.ghost["n"], ip.ghost["v"]
        ip.prove("the inverse of the transformation of a value is the value", z3.Implies(T.INDOM(n, v), T.TINV(n, T.TRV(n, v)) == v))
        ip.prove("the transformation of the inverse of a value is the value", z3.And(T.TRV(n, T.TINV(n, v)) == v, T.INDOM(n, T.TINV(n, v))))


class Conversions(Lemma):
    """Round trips and compositions, from the contract of Converter."""
    name, what = "lemma: conversions invert and compose", ""
    props = ("P09",)
    cases = ("direct", "inverse", "direct then direct", "inverse then inverse", "direct then inverse", "inverse then direct")
    assumes = ("the scale of a unit isn't zero",)

    def start(self, ip, case):
        p = ip.path
        n = [p.fresh(f"unit{i}", T.Node) for i in range(3)]
        s = [p.fresh(f"scale{i}", R) for i in range(3)]
        v = p.fresh("value", R)
        for x in s:
            p.add(x != 0)
        ip.ghost = {"n": n, "s": s, "v": v}
        return lambda: None

    def conv(self, ip, i, j, inverse, v):
        n, s, p = ip.ghost["n"], ip.ghost["s"], ip.path
        w = T.TINV(n[i], v)
        x = quot(1, w * s[i] * s[j]) if inverse else quot(w * s[i], s[j])
        # Lemma: transformations invert.
        p.add(z3.Implies(T.INDOM(n[j], x), T.TINV(n[j], T.TRV(n[j], x)) == x))
        p.add(T.TRV(n[i], w) == v)
        return T.TRV(n[j], x), z3.And(T.INDOM(n[j], x), w != 0 if inverse else True)

    def ensure(self, ip, r):
        v = ip.ghost["v"]
        if ip.case in ("direct", "inverse"):
            inv = ip.case == "inverse"
            w, d = self.conv(ip, 0, 1, inv, v)
            x, d2 = self.conv(ip, 1, 0, inv, w)
            ip.prove("converting there and back gives the value", z3.Implies(d, x == v))
            return
        a, _, b = ip.case.partition(" then ")
        w, d = self.conv(ip, 0, 1, a == "inverse", v)
        x, d2 = self.conv(ip, 1, 2, b == "inverse", w)
        y, d3 = self.conv(ip, 0, 2, a != b, v)
        ip.prove("converting through an intermediate unit gives the direct conversion", z3.Implies(z3.And(d, d2, d3), x == y))


class OrdersOccur(Lemma):
    name, what = "lemma: orders are of identifiers", "an identifier with an order occurs"
    props = ("P05", "P07", "P08", "P14")
    disabled = ("dimN",)

    def setup(self, ip):
        ip.ghost["k"] = ip.path.ground(ip.path.fresh("identifier", T.Node))

    def statement(self, ip, n):
        k = ip.ghost["k"]
        return [z3.Implies(T.dimN(n, k) != 0, T.ids(n, k))]


class ExpansionShape(Lemma):
    name, what = "lemma: expansions are well-formed", "the expansion of a well-formed definition is well-formed"
    props = ("P10", "P07", "P08")

    def setup(self, ip):
        p = ip.path
        m = ip.ghost["m"] = p.fresh("substitution", T.Map)
        p.forall(T.Node, lambda k: z3.Implies(T.mdom(m, k), z3.And(T.WF(T.mval(m, k)), T.NUMSHIFT(T.mval(m, k)))))

    def statement(self, ip, n):
        s = T.subst(n, ip.ghost["m"])
        if n is ip.ghost["n"] and ip.case != "Identifier":
            ip.path.scan(s)
            ip.path.add(s == s)
            ip.path.add(T.is_(ip.case, s)) if ip.path.valid(T.is_(ip.case, s)) else None
            ip.path.know_ctor(s, ip.case)
        return [z3.Implies(z3.And(T.WF(n), T.NUMSHIFT(n)), z3.And(T.WF(s), T.NUMSHIFT(s)))]


class NumericShifts(Lemma):
    name, what = "lemma: normalised definitions have numeric shifts", "a definition which passes normalisation has only numeric shifts"
    props = ("P10", "P07", "P08")

    def setup(self, ip):
        ip.ghost["m"] = ip.path.fresh("references", T.RMapSort)

    def statement(self, ip, n):
        return [z3.Implies(T.noBadShift(n, ip.ghost["m"]), T.NUMSHIFT(n))]


class Independence(Lemma):
    name, what = "lemma: a scale depends on its identifiers", "the scale doesn't depend on a symbol which doesn't occur"
    props = ("P07", "P08", "P14")

    def setup(self, ip):
        ip.ghost["e"], ip.ghost["s"], ip.ghost["x"] = ip.path.fresh("env", Env), ip.path.fresh("symbol", String), ip.path.fresh("other", R)

    def statement(self, ip, n):
        e, s, x = ip.ghost["e"], ip.ghost["s"], ip.ghost["x"]
        return [z3.Implies(z3.Not(T.ids(n, T.ctors["Identifier"].make(s))), T.SC(n, e) == T.SC(n, z3.Store(e, s, x)))]


# ---------------------------------------------------------------- the visitors
def wfx(n):
    return z3.And(T.WF(n), T.NUMSHIFT(n))


class RootVisitor(VisitorContract):
    """A visitor which knows the root of the expression it is given."""
    cases = ("root", "part")

    def root_of(self, self_):
        ns = [v for v in self_.attrs.values() if isinstance(v, SNode)]
        if len(ns) != 1:
            raise Unsupported(f"root of a {self.cls}")
        return ns[0].t

    def accepts(self, ip, s, args):
        return isinstance(s, SObj) and s.cls is self.resolve()[0]

    def which(self, ip, self_, n):
        r = self.root_of(self_)
        if r.eq(n) or ip.path.valid(r == n) is True:
            return "root"
        if ip.path.valid(T.sz(n) < T.sz(r)) is True:
            return "part"
        raise Unsupported("a node which may or may not be the root")

    def start(self, ip, case):
        p = ip.path
        n = p.fresh("node", T.Node)
        root = n if case == "root" else p.fresh("root", T.Node)
        self_ = ip.construct(self.resolve()[0], [SNode(root)], {})
        ip.ghost = {"n": n, "self": self_}
        for _, f in self.pre_case(ip, case, n):
            p.add(f)
        if case == "part":
            p.add(T.sz(n) < T.sz(root))
        ip.measure = T.sz(n)
        self.fresh(ip)
        f = ip.getattr(self_, "visit")
        return lambda: ip.call(f, [SNode(n)], {})

    def fresh(self, ip):
        p, g = ip.path, ip.ghost
        g["e"], g["v"] = p.ground(p.fresh("env", Env)), p.ground(p.fresh("value", R))
        g["k"] = p.ground(p.fresh("identifier", T.Node))

    def pre_case(self, ip, case, n):
        raise NotImplementedError

    def pre(self, ip, self_, n):
        return self.pre_case(ip, self.which(ip, self_, n), n)


class DropNested(RootVisitor):
    name = "DropNestedShifts.visit"
    module, cls = "pyudunits2._expr.substitute", "DropNestedShifts"
    props = ("P08", "P07", "P14")

    def pre_case(self, ip, case, n):
        return [("a well-formed expression", wfx(n)), ("a unit whose only logarithms are at its root", T.TERM(n) if case == "root" else T.NOLOG(n))]

    def facts(self, case, n, r, e, v, k):
        shape = ("only the terminating shifts and logarithms are left", z3.And(wfx(r), T.NESTX(r) if case == "root" else T.LIN(r)))
        out = [shape, ("a number is kept", z3.Implies(T.is_("Number", n), r == n)),
               ("the scale is kept", T.SC(r, e) == T.SC(n, e)), ("the orders are kept", T.dimN(r, k) == T.dimN(n, k)),
               ("no identifier is added", z3.Implies(T.ids(r, k), T.ids(n, k)))]
        if case == "root":
            out += [("the transformation of values is kept", T.TRV(r, v) == T.TRV(n, v)), ("its inverse is kept", T.TINV(r, v) == T.TINV(n, v))]
        return out

    def ensure(self, ip, r):
        g = ip.ghost
        if not isinstance(r, SNode):
            return ip.prove("the result is an expression", False)
        for what, f in self.facts(ip.case, g["n"], r.t, g["e"], g["v"], g["k"]):
            ip.prove(what, f)

    def result(self, ip, self_, n):
        case = self.which(ip, self_, n)
        p = ip.path
        if T.ctor_of(p, n) is not None and T.ctor_of(p, n).name == "Number":
            return SNode(n)
        r = p.fresh("without_shifts", T.Node)
        e0, v0, k0 = ONES, z3.RealVal(0), n
        fs = self.facts(case, n, r, p.ground(e0), v0, k0)
        p.add(fs[0][1])
        p.add(fs[1][1])
        p.forall(Env, lambda e: T.SC(r, e) == T.SC(n, e))
        p.forall(T.Node, lambda k: z3.And(T.dimN(r, k) == T.dimN(n, k), z3.Implies(T.ids(r, k), T.ids(n, k))))
        if case == "root":
            p.forall(R, lambda v: z3.And(T.TRV(r, v) == T.TRV(n, v), T.TINV(r, v) == T.TINV(n, v)))
            values_of(p, [r, n])
        return SNode(r)


def values_of(p, ns):
    pass


class Split(RootVisitor):
    name = "SplitExpr.visit"
    module, cls = "pyudunits2._expr.split", "SplitExpr"
    props = ("P08", "P07", "P14")

    def pre_case(self, ip, case, n):
        return [("a well-formed expression", wfx(n)), ("shifts and logarithms only at the root", T.NESTX(n) if case == "root" else T.LIN(n))]

    def unit_facts(self, n, d, e, k):
        return [("the unit is a product", z3.And(wfx(d), T.LIN(d))), ("a number is kept", z3.Implies(T.is_("Number", n), d == n)),
                ("the unit keeps the scale", T.SC(d, e) == T.SC(n, e)), ("the unit keeps the orders", T.dimN(d, k) == T.dimN(n, k)),
                ("no identifier is added", z3.Implies(T.ids(d, k), T.ids(n, k)))]

    def ensure(self, ip, r):
        g = ip.ghost
        n, e, v, k = g["n"], g["e"], g["v"], g["k"]
        if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[1], SNode) or not (r[0] is None or isinstance(r[0], SNode)):
            return ip.prove("the result is a transformation (or None) and a unit", False)
        t, d = r
        for what, f in self.unit_facts(n, d.t, e, k):
            ip.prove(what, f)
        if t is None:
            ip.prove("there is no transformation where none is returned", z3.And(T.TRV(n, v) == v, T.TINV(n, v) == v))
        elif ip.case == "part":
            ip.prove("a part of a product has no transformation", False)
        else:
            ip.prove("the transformation is of the value alone", z3.And(wfx(t.t), T.TRANSN(t.t)))
            ip.prove("the transformation is that of the unit", T.TRV(t.t, v) == T.TRV(n, v))
            ip.prove("the transformation's inverse is that of the unit", T.TINV(t.t, v) == T.TINV(n, v))

    def result(self, ip, self_, n):
        case = self.which(ip, self_, n)
        p = ip.path
        if T.ctor_of(p, n) is not None and T.ctor_of(p, n).name == "Number":
            return None, SNode(n)
        d = p.fresh("unit_part", T.Node)
        fs = self.unit_facts(n, d, ONES, n)
        p.add(fs[0][1])
        p.add(fs[1][1])
        p.forall(Env, lambda e: T.SC(d, e) == T.SC(n, e))
        p.forall(T.Node, lambda k: z3.And(T.dimN(d, k) == T.dimN(n, k), z3.Implies(T.ids(d, k), T.ids(n, k))))
        has = p.fresh("has_transformation", z3.BoolSort())
        if case == "part" or not p.branch(has):
            p.forall(R, lambda v: z3.And(T.TRV(n, v) == v, T.TINV(n, v) == v))
            return None, SNode(d)
        t = p.fresh("transformation", T.Node)
        p.add(z3.And(wfx(t), T.TRANSN(t)))
        p.forall(R, lambda v: z3.And(T.TRV(t, v) == T.TRV(n, v), T.TINV(t, v) == T.TINV(n, v)))
        return SNode(t), SNode(d)


class Translate(VisitorContract):
    name = "ToSympy.visit"
    module, cls = "pyudunits2._expr.sympy", "ToSympy"
    props = ("P07", "P08", "P14", "P02")
    assumes = ("sympy's Symbol, +, -, *, /, ** and log mean what they do in arithmetic; products of integer powers of symbols combine; sympy's numbers are exact "
               "for the text of an int or Decimal (floats as reals)", "sympy.parse_expr of the text of a number is that number")

    def pre(self, ip, self_, n):
        return [("a well-formed expression", z3.And(T.WF(n), T.NUMSHIFT(n)))]

    cases = ("any", "transformation")

    def start(self, ip, case):
        t = super().start(ip, case)
        p, g = ip.path, ip.ghost
        if case == "transformation":
            p.add(T.TRANSN(g["n"]))
        g["e"], g["s"], g["v"] = p.ground(p.fresh("env", Env)), p.ground(p.fresh("symbol", String)), p.ground(p.fresh("value", R))
        return t

    def ensure(self, ip, r):
        n, e, s, v = (ip.ghost[k] for k in "nesv")
        if not isinstance(r, SExpr):
            return ip.prove("the result is a sympy expression", False)
        k = T.ctors["Identifier"].make(s)
        shape_of(ip, r)
        ip.prove("the value of the sympy expression is that of the expression", r.ev(e) == T.DEN(n, e))
        ip.prove("its symbols are the identifiers of the expression", z3.Implies(r.free(s), T.ids(n, k)))
        ip.prove("a product keeps its orders", z3.Implies(T.LIN(n), z3.And(z3.Not(r.rest(s)), r.ords(s) == T.dimN(n, k))))
        if ip.case == "transformation":
            if r.fun is None and ip.path.valid(z3.BoolVal(False)) is not True:
                raise Unsupported("a transformation of unknown form")
            if r.fun is not None:
                ip.prove("its inverse is that of the transformation", z3.And(r.fun[0] == VALUE, r.fun[2](v) == T.TINV(n, v)))

    def result(self, ip, self_, n):
        return shape_of(ip, of_node(n))


CONTRACTS = [Shapes, LinearValue, TransformValue, Inverse, Conversions, ExpansionShape, NumericShifts, Independence, OrdersOccur, DropNested, Split, Translate]


def load(theory):
    global T
    T = theory
    specs(theory)
    return [c() for c in CONTRACTS], [Externals()]
