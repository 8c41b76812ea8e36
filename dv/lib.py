"""Assumed contracts of Python's builtins, and the collections of symbolic size."""
import ast
import builtins
import collections
import contextlib
import dataclasses
import decimal
import functools
import inspect
import io
import itertools
import operator
import re
import string
import types

from .values import *  # noqa
from .values import z3
from .interp import VList, Poison, concrete, SOptStr, SOptNode, Decimal, Return


def S(v):
    return z3.StringVal(v) if isinstance(v, str) else v.t


# ---------------------------------------------------------------- collections
def symbolic(ip, c):
    """Represent a collection of known elements by its membership condition."""
    if c.py is None:
        return c
    items = list(c.py.items())
    ks = [ip.kind_of(k) for k, _ in items]
    if not items:
        if c.K is None:
            return c
        c.py = None
        c.dom = lambda k: z3.BoolVal(False)
        V = c.V
        c.val = (lambda k: default(V)) if V else None
        c.len_cache = None
        return c
    K = ks[0]
    V = ip.kind_of(items[0][1]) if c.what == "dict" else None
    if K is None or any(k is not K for k in ks) or (c.what == "dict" and (V is None or any(ip.kind_of(v) is not V for _, v in items))):
        raise Unsupported(f"collection of mixed kinds {c.py!r}")
    pairs = [(ip.lower(k, K), ip.lower(v, V) if V else None) for k, v in items]
    c.py = None
    c.K, c.V, c.len_cache = K, V, None
    c.dom = lambda k: z3.Or(*[k == t for t, _ in pairs])

    def val(k):
        r = pairs[-1][1]
        for t, v in pairs[:-1]:
            r = z3.If(k == t, v, r)
        return r
    c.val = val if V else None
    for t, _ in pairs:
        ip.path.ground(t)
    return c


def default(V):
    if V is KInt:
        return z3.IntVal(0)
    if V is KReal:
        return z3.RealVal(0)
    if V is KBool:
        return z3.BoolVal(False)
    if V is KStr:
        return z3.StringVal("")
    return z3.Const(f"unset_{V.name}", V.sort)


def copy_coll(ip, c, what=None):
    n = Coll(what or c.what, c.K, c.V, c.dom, c.val)
    n.py = dict(c.py) if c.py is not None else None
    if what == "set" and n.py is not None:
        n.py = {k: None for k in n.py}
    if what == "set":
        n.V, n.val = None, None
    n.len_cache = c.len_cache
    n.count = getattr(c, "count", None)
    if n.what not in ("set", "dict"):
        n.repeats = getattr(c, "repeats", False)
    if n.what == "dict" and getattr(c, "missing", None) is not None:
        n.missing = c.missing
    return n


def hashable(v):
    return isinstance(v, (str, int, float, Decimal, type(None), type, types.FunctionType)) or (isinstance(v, tuple) and all(hashable(x) for x in v)) or (
        isinstance(v, frozenset)) or (isinstance(v, SObj) and type(v.cls.__hash__) is types.WrapperDescriptorType and v.cls.__eq__ is object.__eq__)


def store(ip, c, k, v):
    """c[k] = v (or c.add(k))."""
    if c.frozen:
        raise Unsupported("modification of a frozen collection")
    if c.py is not None and hashable(k):
        c.py[k] = v
        return
    if c.py is not None and not c.py:
        # The first element decides what kind of collection this is.
        c.K, c.V = ip.kind_of(k), ip.kind_of(v) if c.what == "dict" else None
        if c.K is None or (c.what == "dict" and c.V is None):
            raise Unsupported(f"element {k!r}: {v!r}")
    symbolic(ip, c)
    if c.what == "dict" and c.V is KInt and isinstance(ip.resolve(v), (SReal, Decimal, float)):
        raise Unsupported("a collection of integers and decimals")
    t = ip.path.ground(ip.lower(k, c.K))
    dom = c.dom
    c.dom = lambda x: z3.Or(x == t, dom(x))
    if c.what == "dict":
        val, n = c.val, ip.lower(v, c.V)
        c.val = lambda x: z3.If(x == t, n, val(x))
    c.len_cache = None


def remove(ip, c, k):
    if c.frozen:
        raise Unsupported("modification of a frozen collection")
    if c.py is not None and hashable(k):
        c.py.pop(k)
        return
    symbolic(ip, c)
    t = ip.path.ground(ip.lower(k, c.K))
    dom = c.dom
    c.dom = lambda x: z3.And(x != t, dom(x))
    c.len_cache = None


def key_term(ip, c, k):
    """The term of a key, or None where it can't be an element."""
    K = ip.kind_of(k)
    if K is not c.K:
        if isinstance(K, RefKind) and isinstance(c.K, RefKind):
            pass
        else:
            return None
    return ip.path.ground(ip.lower(k, c.K))


def has(ip, c, k):
    k = ip.resolve(k)
    if c.py is not None:
        if not c.py:
            return False
        if hashable(k) and all(hashable(x) for x in c.py):
            return k in c.py
        out = [ip.eq(x, k) for x in c.py]
        if any(o is True for o in out):
            return True
        out = [o for o in out if o is not False]
        return z3.Or(*out) if out else False
    t = key_term(ip, c, k)
    if t is None:
        return False
    return ip.simp(c.dom(t))


def value_of(ip, c, k):
    """c[k], where k is known to be there."""
    k = ip.resolve(k)
    if c.py is not None:
        if hashable(k) and all(hashable(x) for x in c.py):
            return c.py[k]
        for x, v in c.py.items():
            if ip.path.branch(ip.eq(x, k)):
                return v
        raise Infeasible()
    return c.V.lift(c.val(key_term(ip, c, k)))


def lookup(ip, c, k, default_):
    """c.get(k, default)."""
    h = has(ip, c, k)
    if h is True:
        return value_of(ip, c, k)
    if h is False:
        return default_
    if c.py is None and c.V in (KInt, KReal, KBool) and default_ is not None and ip.kind_of(default_) is c.V:
        t = key_term(ip, c, k)
        return c.V.lift(z3.If(h, c.val(t), ip.lower(default_, c.V)))
    if ip.path.branch(h):
        return value_of(ip, c, k)
    return default_


def coll_len(ip, c):
    if c.py is not None:
        return len(c.py)
    if c.len_cache is None:
        p = ip.path
        if getattr(c, "repeats", False):
            raise Unsupported("length of a list whose elements may repeat")
        if getattr(c, "count", None) is not None:
            n = c.count
        else:
            n = p.fresh("len", z3.IntSort())
        w, w2 = p.fresh("element", c.K.sort), p.fresh("element", c.K.sort)
        dom = c.dom
        p.add(n >= 0)
        p.ground(w), p.ground(w2)
        p.add(z3.Implies(n >= 1, dom(w)))
        p.add(z3.Implies(n >= 2, z3.And(dom(w2), w != w2)))
        p.forall(c.K.sort, lambda k: z3.And(z3.Implies(dom(k), n >= 1), z3.Implies(z3.And(dom(k), k != w), n >= 2)))
        # Equal sets have equal sizes.
        for sort, other, m in p.lengths:
            if sort == c.K.sort:
                d = p.ground(p.fresh("element", sort))
                p.add(z3.Or(dom(d) != other(d), n == m))
        p.lengths.append((c.K.sort, dom, n))
        c.len_cache = (n, w)
    return SInt(c.len_cache[0])


def coll_eq(ip, a, b):
    """a == b, as a condition."""
    if a.what != b.what:
        return False
    if a.py is not None and b.py is not None:
        if len(a.py) == 0 or len(b.py) == 0:
            return len(a.py) == len(b.py)
        if all(hashable(k) for k in [*a.py, *b.py]):
            if set(a.py) != set(b.py):
                return False
            out = [ip.eq(a.py[k], b.py[k]) for k in a.py]
            if any(o is False for o in out):
                return False
            out = [o for o in out if o is not True]
            return z3.And(*out) if out else True
    p = ip.path
    for x, y in ((a, b), (b, a)):
        if x.py is not None and not x.py:
            n = coll_len(ip, y)
            return ip.simp(n.t == 0) if isinstance(n, SInt) else n == 0
    symbolic(ip, a), symbolic(ip, b)
    if a.K is not b.K and not (isinstance(a.K, RefKind) and isinstance(b.K, RefKind)):
        # Equal only if both are empty.
        la, lb = coll_len(ip, a), coll_len(ip, b)
        return z3.And(la.t == 0, lb.t == 0)
    if a.V is not b.V and a.what == "dict":
        raise Unsupported("equality of unlike dictionaries")
    e = p.fresh("equal", z3.BoolSort())
    same = same_at(a, b)
    w = p.fresh("difference", a.K.sort)
    p.ground(w)
    p.add(z3.Implies(z3.Not(e), z3.Not(same(w))))
    p.forall(a.K.sort, lambda k: z3.Implies(e, same(k)))
    return e


def same_at(a, b):
    ad, av, bd, bv = a.dom, a.val, b.dom, b.val

    def same(k):
        if a.what == "dict":
            return z3.And(ad(k) == bd(k), z3.Implies(ad(k), av(k) == bv(k)))
        return ad(k) == bd(k)
    return same


def coll_inplace(ip, op, a, b):
    r = coll_op(ip, op, a, b)
    a.restore(r.state())
    a.py = r.py
    return a


def coll_op(ip, op, a, b):
    if any(isinstance(x, Coll) and getattr(x, "missing", None) is not None and not x.missing[1] for x in (a, b)):
        raise Unsupported("operator of a Counter")

    if isinstance(b, View):
        b = view_set(ip, b)
    if isinstance(a, View):
        a = view_set(ip, a)
    if not isinstance(b, Coll):
        b = to_coll(ip, b, a.what)
    if a.py is not None and b.py is not None and all(hashable(k) for k in [*a.py, *b.py]):
        r = copy_coll(ip, a)
        if op is ast.BitOr:
            r.py.update(b.py)
        elif op is ast.BitAnd:
            r.py = {k: v for k, v in a.py.items() if k in b.py}
        else:
            r.py = {k: v for k, v in a.py.items() if k not in b.py}
        return r
    for x, y in ((a, b), (b, a)):
        if x.py is not None and not x.py:
            if op is ast.BitOr:
                return copy_coll(ip, y, a.what)
            if op is ast.BitAnd:
                return ip.coll(a.what)
            return copy_coll(ip, a)
    a, b = copy_coll(ip, a), copy_coll(ip, b)
    symbolic(ip, a), symbolic(ip, b)
    if a.K.sort != b.K.sort:
        raise Unsupported("union of unlike collections")
    ad, av, bd, bv = a.dom, a.val, b.dom, b.val
    r = Coll(a.what, a.K, a.V, None, None)
    r.py = None
    if op is ast.BitOr:
        r.dom = lambda k: z3.Or(ad(k), bd(k))
        if a.what == "dict":
            r.val = lambda k: z3.If(bd(k), bv(k), av(k))
    elif op is ast.BitAnd:
        r.dom = lambda k: z3.And(ad(k), bd(k))
    elif op is ast.Sub:
        r.dom = lambda k: z3.And(ad(k), z3.Not(bd(k)))
    else:
        raise Unsupported("set operator")
    return r


def view_set(ip, v):
    if v.what == "keys":
        return copy_coll(ip, v.coll, "set")
    raise Unsupported("set of values")


def to_coll(ip, v, what="set"):
    """A set or dict made of an iterable."""
    if isinstance(v, Coll):
        return copy_coll(ip, v, what if what == "set" or v.what != "dict" else "dict")
    if isinstance(v, View):
        if what == "dict" and v.what == "items":
            return copy_coll(ip, v.coll, "dict")
        return view_set(ip, v)
    c = ip.coll(what)
    if isinstance(v, (dict,)) and what == "dict":
        for k, x in v.items():
            store(ip, c, k, x)
        return c
    for x in ip.unpack(v):
        if what == "dict":
            k, y = ip.unpack(x)
            store(ip, c, k, y)
        else:
            store(ip, c, x, None)
    return c


def iterate(ip, v):
    """The elements of an iterable of known length; None where it is unknown."""
    if isinstance(v, (VList, tuple, list, str, dict, set, frozenset, range, type({}.items()), type({}.keys()), type({}.values()))):
        return list(v)
    if isinstance(v, Coll):
        return list(v.py) if v.py is not None else None
    if isinstance(v, View):
        if v.coll.py is None:
            return None
        py = v.coll.py
        return list(py.items()) if v.what == "items" else list(py) if v.what == "keys" else list(py.values())
    if isinstance(v, CIter) and v.view.coll.py is not None:
        return iterate(ip, v.view)
    if isinstance(v, types.GeneratorType) or isinstance(v, (enumerate, zip, map, filter, reversed)):
        return list(v)
    r = ip.registry.iterate(ip, v)
    if r is not None:
        return r
    return None


def view_of(v):
    """A collection of unknown size as a view of its elements."""
    if isinstance(v, View):
        return v
    if isinstance(v, Coll):
        return View(v, "keys")
    if isinstance(v, CIter):
        return v.view
    return None


def element(ip, view, k):
    """What a loop over the view gets for the key term k."""
    c = view.coll
    if view.what == "keys":
        return c.K.lift(k)
    if view.what == "values":
        return c.V.lift(c.val(k))
    return (c.K.lift(k), c.V.lift(c.val(k)))


# ---------------------------------------------------------------- operators
def contains(ip, c, x):
    if isinstance(c, View):
        if c.what == "keys":
            c = c.coll
        else:
            raise Unsupported("membership of values")
    if isinstance(c, Coll):
        return has(ip, c, x)
    x = ip.resolve(x)
    if isinstance(c, (dict, set, frozenset)):
        if concrete(x):
            return x in c
        c = list(c)
    if isinstance(c, (tuple, VList, list)):
        out = [ip.eq(x, y) for y in c]
        if any(o is True for o in out):
            return True
        out = [o for o in out if o is not False]
        return z3.Or(*out) if out else False
    if isinstance(c, (str, SStr)):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(x, (str, SStr)):
            return z3.Contains(S(c), S(x))
    if isinstance(c, SObj) or isinstance(c, SRef):
        return ip.as_bool(ip.call(ip.getattr(c, "__contains__"), [x], {}))
    raise Unsupported(f"membership in {type(c).__name__}")


def binop(ip, op, a, b):
    a, b = ip.resolve(a), ip.resolve(b)
    r = ip.registry.binop(ip, op, a, b)
    if r is not NotImplemented:
        return r
    if concrete(a) and concrete(b) and not isinstance(a, VList) and not isinstance(b, VList):
        f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
             ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_}.get(op)
        if f is None:
            raise Unsupported("operator")
        try:
            return f(a, b)
        except Exception as e:
            ip.raise_(type(e), *e.args)
    num = (int, float, Decimal, SInt, SReal)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and op in (ast.BitOr, ast.BitAnd):
        x, y = ip.lower(a, KBool), ip.lower(b, KBool)
        return ip.wrap_bool(z3.Or(x, y) if op is ast.BitOr else z3.And(x, y))
    if isinstance(a, num) and isinstance(b, num):
        ints = isinstance(a, (int, SInt)) and isinstance(b, (int, SInt))
        K = KInt if ints and op is not ast.Div else KReal
        x, y = ip.lower(a, K), ip.lower(b, K)
        if op is ast.Add:
            return K.lift(x + y)
        if op is ast.Sub:
            return K.lift(x - y)
        if op is ast.Mult:
            return K.lift(x * y)
        if op is ast.Div:
            if ip.path.branch(y == 0):
                ip.raise_(ZeroDivisionError, "division by zero")
            return SReal(x / y)
        if op in (ast.FloorDiv, ast.Mod) and ints:
            if ip.path.branch(y == 0):
                ip.raise_(ZeroDivisionError, "integer division or modulo by zero")
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return SInt(q) if op is ast.FloorDiv else SInt(x - y * q)
        if op is ast.Pow and isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4:
            r = z3.IntVal(1) if K is KInt else z3.RealVal(1)
            for _ in range(b):
                r = r * x
            return K.lift(r)
        raise Unsupported("arithmetic operator")
    if isinstance(a, (str, SStr)) and op is ast.Mod:
        parts = re.split(r"(%s)", a) if isinstance(a, str) else []
        vs = list(b) if isinstance(b, tuple) else [b]
        if isinstance(a, SStr) or any("%" in x for x in parts if x != "%s") or parts.count("%s") != len(vs):
            return Opaque("formatted text")
        return concat(ip, [to_str(ip, vs.pop(0)) if x == "%s" else x for x in parts])
    if op is ast.Add:
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return concat(ip, [a, b])
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("text")
        if isinstance(a, VList) and isinstance(b, VList):
            return VList(list(a) + list(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op is ast.Mult and isinstance(a, (VList, tuple)) and isinstance(b, int):
        return type(a)(list(a) * b)
    if isinstance(a, (Coll, View)) and op in (ast.BitOr, ast.BitAnd, ast.Sub):
        return coll_op(ip, op, a, b)
    name = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.BitOr: "or", ast.BitAnd: "and"}.get(op)
    if name:
        for x, m, y in ((a, f"__{name}__", b), (b, f"__r{name}__", a)):
            cls = x.cls if isinstance(x, SObj) else None
            if cls is not None:
                f = inspect.getattr_static(cls, m, None)
                if isinstance(f, types.FunctionType):
                    return ip.call_function(f, [x, y], {}, self_=x)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("operator on an unknown value")
    if isinstance(a, (Coll, VList, View)) or isinstance(b, (Coll, VList, View)):
        raise Unsupported("operator of a collection")
    if isinstance(a, (Sym, SObj, Coll, VList, tuple, type(None))) or isinstance(b, (Sym, SObj, Coll, VList, tuple, type(None))):
        ip.raise_(TypeError, f"unsupported operands {type(a).__name__} and {type(b).__name__}")
    raise Unsupported("operator")


def order(ip, op, a, b):
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        x, y = S(a), S(b)
        return ip.wrap_bool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: y < x, ast.GtE: y <= x}[op])
    if isinstance(a, (Coll, View)) and isinstance(b, (Coll, View)) and op in (ast.LtE, ast.GtE):
        return method(ip, view_set(ip, a) if isinstance(a, View) else a, "issubset" if op is ast.LtE else "issuperset", [b], {})
    raise Unsupported("ordering")


def concat(ip, parts):
    out = []
    for x in parts:
        x = ip.resolve(x)
        if isinstance(x, Opaque):
            return Opaque("text")
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif not (isinstance(x, str) and x == ""):
            out.append(x)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return SStr(z3.Concat(*[S(x) for x in out]))


itoa = z3.Function("str_of_int", z3.IntSort(), String)
dtoa = z3.Function("str_of_decimal", z3.RealSort(), String)


def to_str(ip, v):
    v = ip.resolve(v)
    r = ip.registry.to_str(ip, v)
    if r is not None:
        return r
    if isinstance(v, (str, SStr, Opaque)):
        return v
    if isinstance(v, SInt):
        return SStr(itoa(v.t))
    if isinstance(v, SReal):
        return SStr(dtoa(v.t))
    if isinstance(v, PRIM):
        return str(v)
    cls = None
    if isinstance(v, SNode):
        cls = ip.node_ctor(v).cls
    elif isinstance(v, SObj):
        cls = v.cls
    if cls is not None:
        f, _ = ip.mro_attr(cls, "__str__")
        if isinstance(f, types.FunctionType):
            return ip.call_function(f, [v], {}, self_=v)
        return Opaque("repr")
    if isinstance(v, SRef):
        return v.iface.call(ip, v, "__str__", [], {})
    return Opaque(f"str of {type(v).__name__}")


PRIM = (int, float, bool, Decimal, type(None), type)


# ---------------------------------------------------------------- subscripts
def getitem(ip, o, k):
    if isinstance(o, SRef) or isinstance(o, SObj):
        return ip.call(ip.getattr(o, "__getitem__"), [k], {})
    r = ip.registry.getitem(ip, o, k)
    if r is not NotImplemented:
        return r
    if isinstance(o, Coll):
        if o.what != "dict":
            return seq_item(ip, o, k)
        missing = getattr(o, "missing", None)
        if missing is not None:
            v = lookup(ip, o, k, missing[0])
            if missing[1]:
                store(ip, o, ip.resolve(k), v)
            return v
        h = has(ip, o, k)
        if h is False or (h is not True and not ip.path.branch(h)):
            ip.raise_(KeyError, k)
        return value_of(ip, o, k)
    if isinstance(o, View) and k == 0 and isinstance(k, int):
        # The first element of list(view).
        n = coll_len(ip, o.coll)
        if not ip.path.branch(ip.as_bool(n)):
            ip.raise_(IndexError, 0)
        if isinstance(n, int):
            return iterate(ip, o)[0]
        return element(ip, o, o.coll.len_cache[1])
    if isinstance(o, (VList, tuple, list)):
        if isinstance(k, slice):
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                r = o[k]
                return VList(r) if isinstance(o, (VList, list)) else r
            raise Unsupported("slice")
        k = ip.resolve(k)
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                ip.raise_(IndexError, k)
        if isinstance(k, (SBool, SInt)):
            t = z3.If(k.t, z3.IntVal(1), z3.IntVal(0)) if isinstance(k, SBool) else k.t
            for i in range(len(o)):
                if ip.path.branch(z3.Or(t == i, t == i - len(o))):
                    return o[i]
            ip.raise_(IndexError, "index out of range")
        raise Unsupported("index")
    if isinstance(o, dict):
        k = ip.resolve(k)
        if concrete(k):
            try:
                return o[k]
            except KeyError:
                ip.raise_(KeyError, k)
        for x, v in o.items():
            e = ip.eq(x, k)
            if e is not False and ip.path.branch(e):
                return v
        ip.raise_(KeyError, k)
    if isinstance(o, str) and (isinstance(k, int) or isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step))):
        try:
            return o[k]
        except IndexError:
            ip.raise_(IndexError, k)
    if isinstance(o, (str, SStr)):
        return str_item(ip, S(o), k)
    if concrete(o) and concrete(k):
        try:
            return o[k]
        except Exception as e:
            ip.raise_(type(e), *e.args)
    if isinstance(o, Opaque):
        raise Unsupported("subscript of an unknown value")
    if o is None or isinstance(o, Sym):
        ip.raise_(TypeError, "not subscriptable")
    raise Unsupported(f"subscript of {type(o).__name__}")


def str_item(ip, t, k):
    n = z3.Length(t)
    if isinstance(k, slice):
        if k.step is not None:
            raise Unsupported("slice")

        def pos(x):
            if isinstance(x, int):
                return z3.If(n + x < 0, z3.IntVal(0), n + x) if x < 0 else z3.If(n < x, n, z3.IntVal(x))
            x = ip.lower(x, KInt)
            ip.path.add(z3.BoolVal(True))
            return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(n < x, n, x))
        a = pos(k.start) if k.start is not None else z3.IntVal(0)
        b = pos(k.stop) if k.stop is not None else n
        return SStr(z3.SubString(t, a, z3.If(b > a, b - a, z3.IntVal(0))))
    k = ip.resolve(k)
    i = ip.lower(k, KInt)
    if isinstance(k, int):
        i = n + k if k < 0 else z3.IntVal(k)
    if ip.path.branch(z3.Or(i < 0, i >= n)):
        ip.raise_(IndexError, "string index out of range")
    return SStr(z3.SubString(t, i, 1))


def seq_item(ip, o, k):
    if o.what == "seq" and k == 0 and isinstance(k, int):
        n = coll_len(ip, o)
        if not ip.path.branch(ip.as_bool(n)):
            ip.raise_(IndexError, 0)
        first = getattr(o, "first", None)
        if first is None:
            first = o.first = o.len_cache[1] if isinstance(n, SInt) else None
        return o.K.lift(first)
    raise Unsupported("index")


def setitem(ip, o, k, v):
    if isinstance(o, Coll) and o.what == "dict":
        k = ip.resolve(k)
        return store(ip, o, k, v)
    if isinstance(o, VList) and isinstance(k, int):
        o[k] = v
        return
    if isinstance(o, (SObj, SRef)):
        return ip.call(ip.getattr(o, "__setitem__"), [k, v], {})
    raise Unsupported(f"assignment to an element of {type(o).__name__}")


def delitem(ip, o, k):
    if isinstance(o, Coll) and o.what == "dict":
        h = has(ip, o, k)
        if h is False or (h is not True and not ip.path.branch(h)):
            ip.raise_(KeyError, k)
        return remove(ip, o, k)
    if isinstance(o, VList) and isinstance(k, int):
        del o[k]
        return
    raise Unsupported("del")


# ---------------------------------------------------------------- methods of builtin types
def method(ip, o, name, args, kwargs):
    if isinstance(o, Coll):
        return coll_method(ip, o, name, args, kwargs)
    if isinstance(o, TextBuffer):
        if name == "write":
            o.append(args[0])
            return None
        if name == "getvalue":
            return concat(ip, list(o))
        if name == "close":
            return None
        raise Unsupported(f"method {name} of a text buffer")
    if isinstance(o, VList):
        return list_method(ip, o, name, args, kwargs)
    if isinstance(o, (str, SStr)):
        return str_method(ip, o, name, args, kwargs)
    if isinstance(o, tuple):
        if name == "index" or name == "count":
            raise Unsupported("tuple method")
    if isinstance(o, (SInt, SReal)):
        raise Unsupported(f"method {name} of a number")
    if isinstance(o, View):
        raise Unsupported(f"method {name} of a view")
    ip.raise_(AttributeError, name)


def coll_method(ip, c, name, args, kwargs):
    if getattr(c, "missing", None) is not None and not c.missing[1] and name in ("update", "subtract", "elements", "most_common", "total"):
        raise Unsupported(f"method {name} of a Counter")
    if name in ("keys", "values", "items") and c.what == "dict":
        return View(c, name)
    if name == "get" and c.what == "dict":
        return lookup(ip, c, args[0], args[1] if len(args) > 1 else kwargs.get("default"))
    if name == "copy":
        return copy_coll(ip, c)
    if name == "add":
        return store(ip, c, args[0], None)
    if name in ("update", "union") or name in ("intersection", "difference", "intersection_update", "difference_update"):
        op = {"update": ast.BitOr, "union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub,
              "intersection_update": ast.BitAnd, "difference_update": ast.Sub}[name]
        r = copy_coll(ip, c)
        for a in args:
            if c.what == "dict" and not isinstance(a, Coll):
                a = to_coll(ip, a, "dict")
            r = coll_op(ip, op, r, a)
        if kwargs:
            r = coll_op(ip, op, r, ip.coll("dict", dict(kwargs)))
        if "update" in name:
            if c.frozen:
                raise Unsupported("modification of a frozen collection")
            c.restore(r.state())
            c.py = r.py
            return None
        return r
    if name == "setdefault":
        k, d = args[0], args[1] if len(args) > 1 else None
        h = has(ip, c, k)
        if h is True or (h is not False and ip.path.branch(h)):
            return value_of(ip, c, k)
        store(ip, c, k, d)
        return d
    if name == "pop" and c.what == "dict":
        h = has(ip, c, args[0])
        if h is True or (h is not False and ip.path.branch(h)):
            v = value_of(ip, c, args[0])
            remove(ip, c, args[0])
            return v
        if len(args) > 1:
            return args[1]
        ip.raise_(KeyError, args[0])
    if name in ("discard", "remove") and c.what == "set":
        h = has(ip, c, args[0])
        if h is True or (h is not False and ip.path.branch(h)):
            return remove(ip, c, args[0])
        if name == "remove":
            ip.raise_(KeyError, args[0])
        return None
    if name == "clear":
        r = ip.coll(c.what)
        c.restore(r.state())
        c.py = {}
        return None
    if name in ("issubset", "issuperset", "isdisjoint"):
        b = args[0] if isinstance(args[0], Coll) else to_coll(ip, args[0])
        if name == "issuperset":
            c, b = b, c
        neg = name == "isdisjoint"
        if c.py is not None:
            out = [has(ip, b, k) for k in c.py]
            out = [z3.BoolVal(o) if isinstance(o, bool) else o for o in out]
            return ip.wrap_bool(z3.And(*[z3.Not(o) if neg else o for o in out]) if out else True)
        b = symbolic(ip, copy_coll(ip, b))
        if b.py is not None:
            n = coll_len(ip, c)
            return True if neg else ip.wrap_bool(ip.simp(n.t == 0))
        from . import loops
        return loops.forall(ip, c.K.sort, c.dom, (lambda k: z3.Not(b.dom(k))) if neg else b.dom)
    if name == "__contains__":
        return ip.wrap_bool(has(ip, c, args[0]))
    if name == "__getitem__":
        return getitem(ip, c, args[0])
    raise Unsupported(f"method {name} of a {c.what}")


def list_method(ip, o, name, args, kwargs):
    if name == "append":
        o.append(args[0])
        return None
    if name == "extend":
        o.extend(ip.unpack(args[0]))
        return None
    if name == "insert" and isinstance(args[0], int):
        o.insert(args[0], args[1])
        return None
    if name == "pop":
        try:
            return o.pop(*args)
        except IndexError:
            ip.raise_(IndexError, "pop")
    if name == "copy":
        return VList(o)
    if name == "clear":
        del o[:]
        return None
    if name == "reverse":
        o.reverse()
        return None
    if name == "remove":
        for i, x in enumerate(o):
            if ip.path.branch(ip.is_(x, args[0])) or ip.path.branch(ip.eq(x, args[0])):
                del o[i]
                return None
        ip.raise_(ValueError, "not in list")
    if name == "index":
        for i, x in enumerate(o):
            if ip.path.branch(ip.eq(x, args[0])):
                return i
        ip.raise_(ValueError, "not in list")
    raise Unsupported(f"method {name} of a list")


strip_fn = z3.Function("strip", String, String)


def template(ip, o, args, kwargs):
    """str.format, of a literal."""
    out, i = [], 0
    try:
        parts = list(string.Formatter().parse(o))
    except ValueError as e:
        ip.raise_(ValueError, *e.args)
    for text, field, spec, conversion in parts:
        out.append(text)
        if field is None:
            continue
        if spec or conversion not in (None, "s"):
            out.append(Opaque("formatted value"))
            continue
        m = re.match(r"([A-Za-z_]\w*|\d*)((?:\.[A-Za-z_]\w*)*)$", field)
        if m is None:
            raise Unsupported("format field")
        name = m[1]
        try:
            if name == "" or name.isdigit():
                if name == "":
                    name, i = i, i + 1
                v = args[int(name)]
            else:
                v = kwargs[name]
        except (KeyError, IndexError) as e:
            ip.raise_(type(e), *e.args)
        for a in m[2].split(".")[1:]:
            v = ip.getattr(v, a)
        out.append(to_str(ip, v))
    if any(isinstance(x, Opaque) for x in out):
        return Opaque("formatted text")
    return concat(ip, out)


def str_method(ip, o, name, args, kwargs):
    args = [ip.resolve(a) for a in args]
    if name == "join":
        xs = ip.unpack(args[0])
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(o)
            if not isinstance(x, (str, SStr, Opaque)):
                ip.raise_(TypeError, "join")
            out.append(x)
        return concat(ip, out)
    if isinstance(o, str) and all(concrete(a) for a in args) and all(concrete(v) for v in kwargs.values()):
        try:
            r = getattr(o, name)(*[tuple(a) if isinstance(a, VList) else a for a in args], **kwargs)
        except AttributeError:
            ip.raise_(AttributeError, name)
        except Exception as e:
            ip.raise_(type(e), *e.args)
        return VList(r) if isinstance(r, list) else r
    if isinstance(o, SStr) and z3.is_app_of(o.t, z3.Z3_OP_ITE) and name in ("format", "join"):
        c, a, b = o.t.children()
        a = (a if ip.path.branch(c) else b)
        return str_method(ip, a.as_string() if z3.is_string_value(a) else SStr(a), name, args, kwargs)
    if name == "format" and isinstance(o, str):
        return template(ip, o, args, kwargs)
    if name == "format":
        raise Unsupported("a format which isn't a literal")
    if name == "format":
        return Opaque("formatted text")
    t = S(o)
    if name in ("startswith", "endswith") and len(args) == 1:
        alts = args[0] if isinstance(args[0], tuple) else (args[0],)
        if not all(isinstance(a, (str, SStr)) for a in alts):
            raise Unsupported(name)
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        return ip.wrap_bool(z3.Or(*[f(S(a), t) for a in alts]))
    if name in ("removeprefix", "removesuffix"):
        x = S(args[0])
        n = z3.Length(t)
        if name == "removeprefix":
            return SStr(z3.If(z3.PrefixOf(x, t), z3.SubString(t, z3.Length(x), n - z3.Length(x)), t))
        return SStr(z3.If(z3.SuffixOf(x, t), z3.SubString(t, z3.IntVal(0), n - z3.Length(x)), t))
    if name == "strip" and not args:
        return SStr(strip_fn(t))
    if name == "replace" and len(args) == 2:
        ip.imprecise.append("str.replace")
        f = z3.Function("replace_all", String, String, String, String)
        return SStr(f(t, S(args[0]), S(args[1])))
    if name in ("lower", "upper", "casefold", "title", "lstrip", "rstrip", "capitalize"):
        if name == "rstrip" and not args and z3.is_app(t) and t.decl().name() == "str_lstrip" and t.num_args() == 1:
            return SStr(strip_fn(t.arg(0)))
        if name == "lstrip" and not args and z3.is_app(t) and t.decl().name() == "str_rstrip" and t.num_args() == 1:
            return SStr(strip_fn(t.arg(0)))
        ip.imprecise.append("str." + name)
        f = z3.Function("str_" + name, *([String] * (len(args) + 2)))
        return SStr(f(t, *[S(a) for a in args]))
    if name == "partition" and len(args) == 1 and isinstance(args[0], (str, SStr)):
        x = S(args[0])
        i = z3.IndexOf(t, x, 0)
        if ip.path.branch(z3.Contains(t, x)):
            return (SStr(z3.SubString(t, z3.IntVal(0), i)), args[0], SStr(z3.SubString(t, i + z3.Length(x), z3.Length(t))))
        return (o, "", "")
    if name == "split":
        f = z3.Function("split_head", String, String, String)
        if len(args) == 1 and isinstance(args[0], str):
            return SplitResult(t, args[0])
        raise Unsupported("split")
    raise Unsupported(f"method {name} of a string")


class TextBuffer(VList):
    """io.StringIO: the texts written."""


class Suppress:
    """contextlib.suppress."""

    def __init__(self, classes):
        self.classes = classes


class SplitResult:
    """The list s.split(sep): only its first element is known."""

    def __init__(self, t, sep):
        self.t, self.sep = t, sep


# ---------------------------------------------------------------- builtins
def type_of(ip, v):
    v = ip.resolve(v)
    if isinstance(v, SNode):
        return ip.node_ctor(v).cls
    if isinstance(v, SObj):
        return v.cls
    for c, t in ((SInt, int), (SReal, Decimal), (SStr, str), (SBool, bool), (VList, list), (ExcVal, None)):
        if isinstance(v, c):
            return t if t is not None else v.cls
    if isinstance(v, Coll):
        return {"dict": dict, "set": set, "seq": tuple}[v.what]
    if isinstance(v, SRef):
        return v.iface.type_of(ip, v)
    if isinstance(v, (Opaque, Poison, View)):
        raise Unsupported("type of an unknown value")
    r = ip.registry.type_of(ip, v)
    if r is not None:
        return r
    return type(v)


def isinstance_(ip, v, cls):
    """isinstance(v, cls): True, False or a condition."""
    if isinstance(cls, types.UnionType):
        cls = cls.__args__
    if isinstance(cls, tuple):
        out = [isinstance_(ip, v, c) for c in cls]
        if any(o is True for o in out):
            return True
        out = [o for o in out if o is not False]
        return z3.Or(*out) if out else False
    if not isinstance(cls, type):
        origin = getattr(cls, "__origin__", None)
        if origin is not None:
            cls = origin
        elif cls.__class__.__module__.startswith("typing") or True:
            raise Unsupported("isinstance")
    if isinstance(v, SOptNode):
        v = ip.resolve(v)
    if isinstance(v, SNode):
        c = ip.theory.ctor_of(ip.path, v.t)
        if c is not None:
            return issubclass(c.cls, cls)
        yes = [c for c in ip.theory.ctors.values() if issubclass(c.cls, cls)]
        if not yes:
            return False
        if len(yes) == len(ip.theory.ctors):
            return True
        r = z3.Or(*[c.recog(v.t) for c in yes])
        if ip.path.branch(r):
            if len(yes) == 1:
                ip.path.know_ctor(v.t, yes[0].name)
            return True
        return False
    if isinstance(v, SNum):
        if cls in (int, Decimal) or cls in (str, float, bool, list, tuple, dict):
            if cls is int:
                return Num.is_IntV(v.t)
            if cls is Decimal:
                return z3.Not(Num.is_IntV(v.t))
            return False
        v = ip.resolve(v)
    if isinstance(v, (SOptStr, SOptNode)):
        v = ip.resolve(v)
    if isinstance(v, SRef):
        return v.iface.isinstance_(ip, v, cls)
    try:
        t = type_of(ip, v)
    except Unsupported:
        raise
    if getattr(cls, "_is_protocol", False) and cls not in t.__mro__:
        raise Unsupported("isinstance of a protocol")
    return issubclass(t, cls)


def b_len(ip, v):
    if isinstance(v, Coll):
        return coll_len(ip, v)
    if isinstance(v, View):
        return coll_len(ip, v.coll)
    if isinstance(v, (str, tuple, VList, list, dict, set, frozenset)):
        return len(v)
    if isinstance(v, SStr):
        return SInt(z3.Length(v.t))
    if isinstance(v, SObj):
        return ip.call(ip.getattr(v, "__len__"), [], {})
    if isinstance(v, SRef):
        return v.iface.call(ip, v, "__len__", [], {})
    raise Unsupported(f"len of {type(v).__name__}")


def b_iter(ip, v):
    if isinstance(v, (View, Coll)):
        w = view_of(v)
        if w.coll.py is not None:
            return VIter(iterate(ip, v))
        return CIter(w)
    if isinstance(v, (CIter, VIter)):
        return v
    xs = iterate(ip, v)
    if xs is None:
        raise Unsupported("iter")
    return VIter(xs)


class VIter:
    def __init__(self, xs):
        self.xs, self.i = list(xs), 0


def b_next(ip, it, *default_):
    if isinstance(it, VList):
        # A generator, run to its end: it must not be resumed lazily.
        it2 = it
        if it2:
            return it2.pop(0)
        if default_:
            return default_[0]
        ip.raise_(StopIteration)
    if isinstance(it, VIter):
        if it.i < len(it.xs):
            it.i += 1
            return it.xs[it.i - 1]
        if default_:
            return default_[0]
        ip.raise_(StopIteration)
    if isinstance(it, CIter):
        if it.used:
            raise Unsupported("second element of a collection")
        it.used = True
        n = coll_len(ip, it.view.coll)
        if ip.path.branch(ip.as_bool(n)):
            k = it.view.coll.len_cache[1]
            return element(ip, it.view, k)
        if default_:
            return default_[0]
        ip.raise_(StopIteration)
    raise Unsupported("next")


intval = z3.Function("int_of_text", String, z3.IntSort())
decval = z3.Function("decimal_of_text", String, z3.RealSort())
isint = z3.Function("is_int_text", String, z3.BoolSort())
isdec = z3.Function("is_decimal_text", String, z3.BoolSort())


def builtin(ip, f, args, kwargs):
    r = ip.registry.external(ip, f, args, kwargs)
    if r is not NotImplemented:
        return r
    h = HANDLERS.get(f) if isinstance(f, (type, types.BuiltinFunctionType, types.FunctionType)) else None
    if h is not None:
        r = h(ip, *args, **kwargs)
        if r is not NotImplemented:
            return r
    if isinstance(f, types.MethodType) and getattr(f.__self__, "__class__", None).__name__ == "Logger":
        return None
    s = getattr(f, "__self__", None)
    if isinstance(f, types.BuiltinMethodType) and s is not None and not isinstance(s, types.ModuleType):
        # A method of a live object.
        if f.__name__ == "__new__" and s is object and isinstance(args[0], type) and ip.is_repo(args[0]):
            return SObj(args[0])
        if isinstance(s, dict):
            if f.__name__ in ("keys", "values", "items") and not args:
                return f()
            if f.__name__ == "get" and not concrete(args[0]):
                for x, v in s.items():
                    e = ip.eq(x, args[0])
                    if e is not False and ip.path.branch(e):
                        return v
                return args[1] if len(args) > 1 else None
        if isinstance(s, str):
            return str_method(ip, s, f.__name__, args, kwargs)
        if isinstance(s, (list, dict, set)) and f.__name__ not in ("get", "keys", "values", "items", "index", "count", "copy"):
            raise Unsupported("modification of a live object")
    if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)):
        name = f.__name__
        if name == "__init__":
            return None
        if name == "__eq__" and f is object.__eq__:
            e = ip.is_(args[0], args[1])
            return True if e is True else NotImplemented
        if name == "__hash__":
            return Opaque("hash")
        if name == "__repr__" or name == "__str__":
            return Opaque("repr")
        if args and isinstance(args[0], (Coll, VList, str, SStr)):
            return method(ip, args[0], name, args[1:], kwargs)
    if all(concrete(a) for a in args) and all(concrete(v) for v in kwargs.values()) and pure(f):
        try:
            r = f(*[list(a) if isinstance(a, VList) else a for a in args], **kwargs)
        except Exception as e:
            ip.raise_(type(e), *e.args)
        return VList(r) if type(r) is list else r
    raise Unsupported(f"call of {getattr(f, '__qualname__', f)!r}")


PURE_MODULES = ("builtins", "math", "decimal", "fractions", "unicodedata", "operator", "re", "functools", "itertools", "_operator", "numbers", "_decimal")


def pure(f):
    if f in (print, input, open, exec, eval, compile, __import__):
        return False
    return (getattr(f, "__module__", None) or getattr(getattr(f, "__objclass__", None), "__module__", "") or
            type(getattr(f, "__self__", None)).__module__) in PURE_MODULES


def h_int(ip, *a):
    if not a:
        return 0
    v = ip.resolve(a[0])
    if isinstance(v, (SInt, SBool)):
        return v if isinstance(v, SInt) else SInt(z3.If(v.t, 1, 0))
    if isinstance(v, SStr) and len(a) == 1:
        if not ip.path.branch(isint(v.t)):
            ip.raise_(ValueError, "invalid literal for int()")
        return SInt(intval(v.t))
    if isinstance(v, SReal):
        return SInt(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    return NotImplemented


def h_decimal(ip, *a):
    if len(a) == 1:
        v = ip.resolve(a[0])
        if isinstance(v, SStr):
            if not ip.path.branch(isdec(v.t)):
                ip.raise_(decimal.InvalidOperation)
            return SReal(decval(v.t))
        if isinstance(v, SInt):
            return SReal(z3.ToReal(v.t))
        if isinstance(v, SReal):
            return v
    return NotImplemented


def h_float(ip, *a):
    if len(a) == 1:
        v = ip.resolve(a[0])
        if isinstance(v, SInt):
            return SReal(z3.ToReal(v.t))
        if isinstance(v, SReal):
            return v
        if isinstance(v, SStr):
            if not ip.path.branch(isdec(v.t)):
                ip.raise_(ValueError)
            # A rounded value: not the decimal itself.
            return SReal(z3.Function("float_of_text", String, z3.RealSort())(v.t))
    return NotImplemented


def h_str(ip, *a, **k):
    if not a:
        return ""
    return to_str(ip, a[0])


def has_attr(o, name):
    """Whether a value of this kind has the attribute."""
    kinds = {SInt: (int,), SReal: (float, Decimal), SNum: (int, float, Decimal), SStr: (str,), SBool: (bool,),
             str: (str,), tuple: (tuple,)}
    k = next((k for t, k in kinds.items() if isinstance(o, t)), None)
    if k is None:
        return True
    have = [hasattr(x, name) for x in k]
    if any(have) and not all(have):
        raise Unsupported(f"attribute {name} of a number")
    return all(have)


def h_getattr(ip, o, name, *d):
    if not isinstance(name, str):
        if isinstance(name, SStr):
            name = z3.simplify(name.t)
            if z3.is_string_value(name):
                name = name.as_string()
            else:
                raise Unsupported("getattr with a computed name")
        else:
            raise Unsupported("getattr")
    if not d:
        return ip.getattr(o, name)
    try:
        return ip.getattr(o, name)
    except PyRaise as p:
        if issubclass(p.exc.cls, AttributeError):
            return d[0]
        raise


def h_list(ip, *a):
    if not a:
        return VList()
    v = a[0]
    xs = iterate(ip, v)
    if xs is not None:
        return VList(xs)
    if isinstance(v, (Coll, View)):
        r = View(v.coll, v.what) if isinstance(v, View) else View(v, "keys")
        r.listed = True
        return r
    raise Unsupported("list")


def h_tuple(ip, *a):
    if not a:
        return ()
    xs = iterate(ip, a[0])
    if xs is not None:
        return tuple(xs)
    v = a[0]
    if isinstance(v, Coll):
        return copy_coll(ip, v, "seq") if v.what != "dict" else view_seq(ip, v)
    if isinstance(v, View) and v.what == "keys":
        return view_seq(ip, v.coll)
    raise Unsupported("tuple")


def view_seq(ip, c):
    n = copy_coll(ip, c, "set")
    n.what = "seq"
    return n


def h_dict(ip, *a, **k):
    c = to_coll(ip, a[0], "dict") if a else ip.coll("dict")
    c.missing = None
    for x, v in k.items():
        store(ip, c, x, v)
    return c


def h_fromkeys(ip, xs, v=None):
    ks = iterate(ip, xs)
    c = ip.coll("dict")
    if ks is not None:
        for k in ks:
            store(ip, c, ip.resolve(k), v)
        return c
    w = view_of(xs)
    if w is None or w.what == "values":
        raise Unsupported("dict.fromkeys")
    from . import loops
    k0 = loops.frozen_view(View(w.coll, "keys"))
    f = ip.frames[-1].locals
    f[" keys"] = c
    loops.core(ip, k0, lambda k: store(ip, c, element(ip, k0, k), v))
    f.pop(" keys")
    return c


def h_defaultdict(ip, *a, **k):
    if a and a[0] not in (int, None):
        raise Unsupported("defaultdict")
    c = h_dict(ip, *a[1:], **k)
    if a and a[0] is int:
        c.missing = (0, True)
    return c


def h_Counter(ip, *a):
    if a and not (isinstance(a[0], Coll) and a[0].what == "dict"):
        raise Unsupported("Counter")
    c = h_dict(ip, *a)
    c.missing = (0, False)
    return c


def h_any(ip, xs):
    out = []
    for x in ip.unpack(xs):
        if ip.truth(x):
            return True
    return False


def h_all(ip, xs):
    for x in ip.unpack(xs):
        if not ip.truth(x):
            return False
    return True


def h_sum(ip, xs, start=0):
    for x in ip.unpack(xs):
        start = binop(ip, ast.Add, start, x)
    return start


def h_sorted(ip, xs, **k):
    v = iterate(ip, xs)
    if v is None:
        if isinstance(xs, (Coll, View)):
            return view_of(xs)
        raise Unsupported("sorted")
    if all(concrete(x) for x in v) and not k:
        return VList(sorted(v))
    if all(concrete(x) for x in v) and set(k) == {"reverse"} and isinstance(k["reverse"], bool):
        return VList(sorted(v, **k))
    if len(v) < 2:
        return VList(v)
    raise Unsupported("sorted")


def h_fields(ip, o):
    if isinstance(o, SNode):
        return dataclasses.fields(ip.node_ctor(o).cls)
    if isinstance(o, SObj):
        return dataclasses.fields(o.cls)
    return NotImplemented


def h_replace(ip, o, **k):
    if isinstance(o, SNode):
        c = ip.node_ctor(o)
        return ip.make_node(c, [k.pop(f) if f in k else ip.node_field(o, c, i) for i, (f, _) in enumerate(c.fields)])
    if isinstance(o, SObj) and dataclasses.is_dataclass(o.cls):
        fs = dataclasses.fields(o.cls)
        if all(f.init for f in fs):
            return ip.construct(o.cls, [], {**{f.name: ip.getattr(o, f.name) for f in fs}, **k})
    raise Unsupported("replace")


def h_print(ip, *a, **k):
    out = [to_str(ip, x) for x in a]
    ip.registry.printed(ip, out, k)
    return None


def h_isinstance(ip, v, c):
    return ip.wrap_bool(isinstance_(ip, v, c))


def h_enumerate(ip, xs, start=0):
    v = iterate(ip, xs)
    if v is None:
        raise Unsupported("enumerate")
    return derived(((start + i, x) for i, x in enumerate(v)), xs)


def h_zip(ip, *xs, **k):
    vs = [iterate(ip, x) for x in xs]
    if any(v is None for v in vs):
        raise Unsupported("zip")
    return derived(zip(*vs), *xs)


def h_reversed(ip, xs):
    v = iterate(ip, xs)
    if v is None:
        if isinstance(xs, (Coll, View)):
            return view_of(xs)
        raise Unsupported("reversed")
    return derived(reversed(v), xs)


def derived(xs, *sources):
    """What an iterator over the sources gives."""
    r = VList(xs)
    r.sources = list(sources)
    return r


def h_map(ip, f, *xs):
    vs = [iterate(ip, x) for x in xs]
    if any(v is None for v in vs):
        raise Unsupported("map")
    return VList(ip.call(f, list(a), {}) for a in zip(*vs))


def h_chain(ip, *xs):
    vs = [iterate(ip, x) for x in xs]
    if any(v is None for v in vs):
        return NotImplemented
    return derived([x for v in vs for x in v], *xs)


def extreme(sign):
    def h(ip, *xs, **k):
        if k or not xs:
            return NotImplemented
        if len(xs) == 1:
            v = iterate(ip, xs[0])
            if v is None:
                return NotImplemented
            if not v:
                ip.raise_(ValueError, "empty iterable")
            xs = v
        xs = [ip.resolve(x) for x in xs]
        if all(concrete(x) for x in xs) or not all(isinstance(x, (int, float, Decimal, SInt, SReal)) for x in xs):
            return NotImplemented
        r = xs[0]
        for x in xs[1:]:
            # (The first of equals.)
            if ip.truth(ip.compare(ast.Lt if sign < 0 else ast.Gt, x, r)):
                r = x
        return r
    return h


def h_abs(ip, v):
    v = ip.resolve(v)
    if isinstance(v, (SInt, SReal)):
        return type(v)(z3.If(v.t < 0, -v.t, v.t))
    return NotImplemented


def h_hasattr(ip, o, name):
    try:
        h_getattr(ip, o, name)
        return True
    except PyRaise as p:
        if issubclass(p.exc.cls, AttributeError):
            return False
        raise


def h_bool(ip, *a):
    return ip.wrap_bool(ip.as_bool(a[0])) if a else False


def h_set(ip, *a):
    return to_coll(ip, a[0]) if a else ip.coll("set")


def h_type(ip, *a):
    if len(a) != 1:
        raise Unsupported("type")
    return type_of(ip, a[0])


def h_reduce(ip, f, xs, *init):
    v = iterate(ip, xs)
    if v is None:
        raise Unsupported("reduce")
    v = list(init) + list(v)
    r = v.pop(0)
    for x in v:
        r = ip.call(f, [r, x], {})
    return r


def h_issubclass(ip, a, b):
    return issubclass(a, b)


def h_setattr(ip, o, n, v):
    if not isinstance(n, str):
        raise Unsupported("setattr")
    ip.setattr(o, n, v)


def h_objsetattr(ip, o, n, v):
    if isinstance(o, SObj) and isinstance(n, str):
        o.attrs[n] = v
        return None
    raise Unsupported("object.__setattr__")


def h_repr(ip, v):
    if isinstance(v, SReal) and z3.is_app(v.t) and v.t.decl().name() == "float_of_text":
        t = z3.Function("repr_of_float", z3.RealSort(), String)(v.t)
        ip.path.add(isdec(t))
        return SStr(t)
    return Opaque("repr")


def h_hash(ip, v):
    return Opaque("hash")


def h_range(ip, *a):
    a = [ip.resolve(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    raise Unsupported("range")


def h_filter(ip, f, xs):
    return VList(x for x in ip.unpack(xs) if ip.truth(x if f is None else ip.call(f, [x], {})))


def h_callable(ip, v):
    if isinstance(v, (BoundM, VFunc, type, types.FunctionType, types.BuiltinFunctionType)):
        return True
    if isinstance(v, (Sym, Coll, VList, str, type(None), tuple)):
        return False
    return callable(v)


def h_stringio(ip, *a):
    if a:
        raise Unsupported("StringIO")
    return TextBuffer()


def h_suppress(ip, *classes):
    if not all(isinstance(c, type) for c in classes):
        raise Unsupported("suppress")
    return Suppress(classes)


def h_pow(ip, a, b, *m):
    if m:
        raise Unsupported("pow with a modulus")
    return binop(ip, ast.Pow, a, b)


HANDLERS = {
    pow: h_pow,
    io.StringIO: h_stringio, contextlib.suppress: h_suppress,
    len: b_len, iter: b_iter, next: b_next, int: h_int, Decimal: h_decimal, float: h_float, str: h_str, getattr: h_getattr, list: h_list,
    tuple: h_tuple, dict: h_dict, any: h_any, all: h_all, sum: h_sum, sorted: h_sorted, dataclasses.fields: h_fields, dataclasses.replace: h_replace,
    print: h_print, isinstance: h_isinstance, enumerate: h_enumerate, zip: h_zip, reversed: h_reversed, map: h_map, abs: h_abs, hasattr: h_hasattr,
    bool: h_bool, set: h_set, frozenset: h_set, type: h_type, functools.reduce: h_reduce, collections.defaultdict: h_defaultdict, collections.Counter: h_Counter, dict.fromkeys: h_fromkeys, issubclass: h_issubclass, setattr: h_setattr,
    itertools.chain: h_chain, min: extreme(-1), max: extreme(1),
    repr: h_repr, hash: h_hash, range: h_range, filter: h_filter, callable: h_callable,
}
