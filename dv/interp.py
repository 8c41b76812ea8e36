"""A symbolic interpreter for the Python the code under test is written in.

It executes the abstract syntax of the functions of the live modules of /repo.  Names are
resolved in the live modules and classes; calls to functions with a contract use the
contract, other functions of /repo are executed in place, and library functions follow the
assumed contracts of builtins.py.  Anything else is Unsupported.
"""
import ast
import builtins
import dataclasses
import decimal
import importlib
import inspect
import itertools
import os
import types

from . import consts

from .values import *  # noqa
from .values import z3

Decimal = decimal.Decimal


FLATTENING = (itertools.chain, itertools.chain.from_iterable)


class VList(list):
    """A list made by the interpreted code."""
    __hash__ = object.__hash__


class Return(Exception):
    def __init__(self, value):
        self.value = value


class FirstOf:
    """The first element of a generator, or that it has none."""

    def __init__(self, some, value=None):
        self.some, self.value = some, value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Frame:
    def __init__(self, fn, locals_, globals_, parent=None, name="", closure=None, cls=None):
        self.fn, self.locals, self.globals, self.parent, self.name = fn, locals_, globals_, parent, name
        self.closure = closure or {}
        self.cls = cls
        self.yields = None
        self.first = False
        self.globals_decl = set()
        self.nonlocal_decl = set()


class Poison:
    """A variable whose value after a loop is not known."""

    def __repr__(self):
        return "Poison"


class Source:
    """The syntax trees of the functions of the code under test, from the current files."""

    def __init__(self, root):
        self.root = root
        self.files = {}
        self.flat = {}

    def index(self, filename):
        if filename not in self.files:
            with open(filename, encoding="utf8") as fh:
                tree = ast.parse(fh.read(), filename)
            ix = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                    ix.setdefault(line, []).append(n)
                elif isinstance(n, ast.Lambda):
                    ix.setdefault(n.lineno, []).append(n)
            self.files[filename] = ix
        return self.files[filename]

    def node(self, fn):
        code = fn.__code__
        if not os.path.realpath(code.co_filename).startswith(self.root):
            raise Unsupported(f"not code of the repository: {fn.__qualname__}")
        nodes = self.index(code.co_filename).get(code.co_firstlineno, [])
        lam = code.co_name == "<lambda>"
        nodes = [n for n in nodes if isinstance(n, ast.Lambda) == lam and (lam or n.name == code.co_name)]
        if len(nodes) > 1 and lam:
            def same(n):
                c = compile(ast.Expression(n), code.co_filename, "eval").co_consts[0]
                return c.co_code == code.co_code and c.co_consts == code.co_consts and c.co_names == code.co_names
            nodes = [n for n in nodes if same(n)][:1]
        if len(nodes) != 1:
            raise Unsupported(f"no syntax tree for {fn.__qualname__}")
        return nodes[0]


PRIMS = (int, str, float, bool, bytes, type(None), type(Ellipsis), complex, Decimal)


def concrete(v):
    """Is the value an ordinary Python value throughout?"""
    if isinstance(v, PRIMS):
        return True
    if isinstance(v, VList):
        return all(concrete(x) for x in v)
    if isinstance(v, (tuple, frozenset)) and type(v) in (tuple, frozenset):
        return all(concrete(x) for x in v)
    return False


class Interp:
    MAX_DEPTH = 60

    def __init__(self, path, theory, source, registry, repo_package="pyudunits2"):
        self.path, self.theory, self.source, self.registry = path, theory, source, registry
        self.package = repo_package
        self.frames = []
        self.first_call = self.want_first = None
        self.roots = []
        self.entry = None         # (contract, fn): executed rather than applied, once
        self.imprecise = []
        self.calls = []           # functions executed in place
        self.applied = []         # contracts applied
        self.measure = None
        self.handling = []
        from . import lib
        self.lib = lib

    # ---------------------------------------------------------------- basics
    def raise_(self, cls, *args):
        raise PyRaise(ExcVal(cls, args))

    def coll(self, what, py=None):
        c = Coll(what, None, None, None, None)
        c.py = py if py is not None else {}
        return c

    def kind_of(self, v):
        if isinstance(v, SNode):
            return self.theory.KNode
        if isinstance(v, (bool, SBool)):
            return KBool
        if isinstance(v, (int, SInt)):
            return KInt
        if isinstance(v, SNum):
            return self.kind_of(self.resolve(v))
        if isinstance(v, (str, SStr)):
            return KStr
        if isinstance(v, (Decimal, float, SReal)):
            return KReal
        if isinstance(v, SRef):
            return v.iface.kind
        if isinstance(v, self.theory.graph.Node):
            return self.theory.KNode
        k = self.registry.kind_of(self, v)
        if k is not None:
            return k
        return None

    def lower(self, v, K):
        """The term of a value, as an element of kind K."""
        if isinstance(v, (SNum, SOptNode)):
            v = self.resolve(v)
        if K is KInt:
            if isinstance(v, SInt):
                return v.t
            if isinstance(v, int):
                return z3.IntVal(int(v))
        elif K is KBool:
            if isinstance(v, SBool):
                return v.t
            if isinstance(v, bool):
                return z3.BoolVal(v)
        elif K is KStr:
            if isinstance(v, SStr):
                return v.t
            if isinstance(v, str):
                return z3.StringVal(v)
        elif K is KReal:
            if isinstance(v, SReal):
                return v.t
            if isinstance(v, SInt):
                return z3.ToReal(v.t)
            if isinstance(v, (int, Decimal, float)):
                return self.real(v)
        elif isinstance(K, NodeKind):
            if isinstance(v, SNode):
                return v.t
            if isinstance(v, self.theory.graph.Node):
                return self.live_node(v)
        elif isinstance(K, RefKind):
            if isinstance(v, SRef):
                return v.t
            t = self.registry.lower(self, v, K)
            if t is not None:
                return t
        else:
            t = self.registry.lower(self, v, K)
            if t is not None:
                return t
        raise Unsupported(f"value {v!r} as {K}")

    def real(self, v):
        if isinstance(v, float):
            v = Decimal(v)
        n, d = Decimal(v).as_integer_ratio()
        return z3.Q(n, d)

    def live_node(self, n):
        c = self.theory.by_class.get(type(n))
        if c is None:
            raise Unsupported(f"node {n!r}")
        return self.make_node(c, [getattr(n, f) for f, _ in c.fields]).t

    # ---------------------------------------------------------------- nodes
    def make_node(self, c, values):
        args = []
        for (f, kind), v in zip(c.fields, values):
            if kind == "node":
                v = self.resolve(v)
                if not isinstance(v, (SNode, self.theory.graph.Node)):
                    raise Malformed(f"{c.name}.{f} is {v!r}")
                args.append(self.lower(v, self.theory.KNode))
            elif kind == "str":
                v = self.resolve(v)
                if isinstance(v, (str, SStr)):
                    args.append(self.lower(v, KStr))
                else:
                    raise Malformed(f"{c.name}.{f} is {v!r}")
            elif kind == "optstr":
                if v is None:
                    args.append(OptStr.NoStr)
                elif isinstance(v, (str, SStr)):
                    args.append(OptStr.SomeStr(self.lower(v, KStr)))
                elif isinstance(v, SOptStr):
                    args.append(v.t)
                else:
                    raise Malformed(f"{c.name}.{f} is {v!r}")
            elif kind == "num":
                if isinstance(v, SNum):
                    args.append(v.t)
                elif isinstance(v, SInt) or (isinstance(v, int) and not isinstance(v, bool)):
                    args.append(Num.IntV(self.lower(v, KInt)))
                elif isinstance(v, (SReal, Decimal)):
                    args.append(Num.DecV(self.lower(v, KReal)))
                else:
                    raise Malformed(f"{c.name}.{f} is {v!r}")
        return SNode(c.make(*args))

    def node_ctor(self, n, among=None):
        """The constructor of a node: splits the path where it isn't known."""
        c = self.theory.ctor_of(self.path, n.t)
        if c is None:
            cs = [c for c in self.theory.ctors.values() if among is None or c in among]
            if len(cs) == 1:
                c = cs[0]
                self.path.add(c.recog(n.t))
            else:
                i = self.path.choose([(c.name, c.recog(n.t)) for c in cs])
                c = cs[i]
            self.path.know_ctor(n.t, c.name)
        return c

    def node_field(self, n, c, i):
        t = self.theory.args_of(c, n.t)[i]
        kind = c.fields[i][1]
        return self.lift_field(t, kind)

    def lift_field(self, t, kind):
        if kind == "node":
            return SNode(t)
        if kind == "str":
            return SStr(t)
        if kind == "num":
            return SNum(t)
        return SOptStr(t)

    def resolve(self, v):
        """An SNum is an int or a Decimal: decide which."""
        if isinstance(v, SNum):
            t = z3.simplify(v.t)
            if z3.is_app(t) and t.decl().name() in ("IntV", "DecV"):
                return SInt(t.arg(0)) if t.decl().name() == "IntV" else SReal(t.arg(0))
            if self.path.branch(Num.is_IntV(v.t)):
                return SInt(Num.int_of(v.t))
            return SReal(Num.dec_of(v.t))
        if isinstance(v, SOptNode):
            return None if self.path.branch(self.theory.normNone(v.t)) else SNode(v.t)
        if isinstance(v, SOptStr):
            t = z3.simplify(v.t)
            if z3.is_app(t) and t.decl().name() in ("NoStr", "SomeStr"):
                return None if t.decl().name() == "NoStr" else SStr(t.arg(0))
            if self.path.branch(v.t == OptStr.NoStr):
                return None
            return SStr(OptStr.str_of(v.t))
        return v

    # ---------------------------------------------------------------- truth, equality, identity
    def as_bool(self, v):
        """bool(v): True, False or a z3 condition."""
        v = self.resolve(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SReal):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != z3.StringVal("")
        if isinstance(v, SNode):
            for c in self.theory.ctors.values():
                if hasattr(c.cls, "__bool__") or hasattr(c.cls, "__len__"):
                    raise Unsupported("truth of a node")
            return True
        if isinstance(v, SRef):
            return v.iface.truth(self, v)
        if isinstance(v, SObj):
            for m in ("__bool__", "__len__"):
                f = inspect.getattr_static(v.cls, m, None)
                if f is not None:
                    r = self.call(self.getattr(v, m), [], {})
                    return self.as_bool(r)
            return True
        if isinstance(v, Coll):
            n = self.lib.coll_len(self, v)
            return self.as_bool(n)
        if isinstance(v, View):
            return self.as_bool(self.lib.coll_len(self, v.coll))
        if isinstance(v, (ExcVal, BoundM, VFunc)):
            return True
        if isinstance(v, Opaque):
            raise Unsupported(f"truth of {v!r}")
        if isinstance(v, Poison):
            raise Unsupported("value of a variable assigned in a loop")
        if isinstance(v, VList) or isinstance(v, tuple):
            return len(v) > 0
        r = self.registry.truth(self, v)
        if r is not None:
            return r
        return bool(v)

    def truth(self, v):
        return self.path.branch(self.as_bool(v))

    def wrap_bool(self, b):
        if isinstance(b, bool):
            return b
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return SBool(b)

    def eq(self, a, b):
        """a == b: True, False or a z3 condition."""
        a, b = self.resolve(a), self.resolve(b)
        num = (int, float, Decimal, SInt, SReal)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison of an unknown value")
        if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
            if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
                return self.simp(self.lower(a, KInt) == self.lower(b, KInt))
            return self.simp(self.lower(a, KReal) == self.lower(b, KReal))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.simp(self.lower(a, KBool) == self.lower(b, KBool))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.simp(self.lower(a, KStr) == self.lower(b, KStr))
        nodes = (SNode, self.theory.graph.Node)
        if isinstance(a, nodes) and isinstance(b, nodes):
            return self.node_eq(a, b)
        if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)):
            if isinstance(a, VList) != isinstance(b, VList) or len(a) != len(b):
                return False
            out = [self.eq(x, y) for x, y in zip(a, b)]
            if any(o is False for o in out):
                return False
            out = [o for o in out if o is not True]
            return self.simp(z3.And(*out)) if out else True
        if isinstance(a, SRef) or isinstance(b, SRef):
            r, o = (a, b) if isinstance(a, SRef) else (b, a)
            return r.iface.eq(self, r, o)
        if isinstance(a, Coll) and isinstance(b, Coll):
            return self.lib.coll_eq(self, a, b)
        if isinstance(a, SObj) or isinstance(b, SObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SObj):
                    f = inspect.getattr_static(x.cls, "__eq__", None)
                    if isinstance(f, types.FunctionType):
                        generated = dataclasses.is_dataclass(x.cls) and f.__code__.co_filename == "<string>"
                        if self.is_repo(f) and not generated:
                            r = self.call_function(f, [x, y], {}, self_=x)
                            if r is NotImplemented:
                                continue
                            return self.as_bool(r)
                        if generated:
                            if not isinstance(y, SObj) or y.cls is not x.cls:
                                continue
                            if x is y:
                                return True
                            ks = [k.name for k in dataclasses.fields(x.cls) if k.compare]
                            return self.eq(tuple(x.attrs[k] for k in ks), tuple(y.attrs[k] for k in ks))
                        raise Unsupported(f"equality of {x.cls.__name__}")
            return a is b
        r = self.registry.eq(self, a, b)
        if r is not None:
            return r
        if isinstance(a, (Sym, Coll, View, SObj)) or isinstance(b, (Sym, Coll, View, SObj)):
            # Values of unlike types.
            return False
        return a == b

    def simp(self, b):
        b = z3.simplify(b)
        return True if z3.is_true(b) else False if z3.is_false(b) else b

    def node_eq(self, a, b):
        """Dataclass equality (a number is equal to another by value)."""
        ta, tb = self.lower(a, self.theory.KNode), self.lower(b, self.theory.KNode)
        if ta.eq(tb):
            return True
        ca, cb = self.theory.ctor_of(self.path, ta), self.theory.ctor_of(self.path, tb)
        if ca and cb and ca is not cb:
            return False
        if (ca or cb) and (ca or cb).name in ("Identifier", "Unhandled"):
            return self.simp(ta == tb)
        ca, cb = self.node_ctor(SNode(ta)), self.node_ctor(SNode(tb))
        if ca is not cb:
            return False
        return self.eq(tuple(self.node_field(SNode(ta), ca, i) for i in range(len(ca.fields))),
                       tuple(self.node_field(SNode(tb), cb, i) for i in range(len(cb.fields))))

    def is_(self, a, b):
        if a is b:
            return True
        a, b = self.resolve(a), self.resolve(b)
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("identity of an unknown value")
            if isinstance(a, SRef):
                return a.iface.is_none(self, a)
            if isinstance(b, SRef):
                return b.iface.is_none(self, b)
            return a is b
        if isinstance(a, SNode) and isinstance(b, SNode):
            if a.t.eq(b.t) and a.t.decl().kind() != z3.Z3_OP_DT_CONSTRUCTOR:
                # The same part of the same object.
                return True
            same = self.theory_same_object(a, b)
            return same
        if isinstance(a, SRef) and isinstance(b, SRef):
            return self.simp(a.t == b.t)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SRef) and isinstance(y, SObj) and getattr(y, "ref", None) is not None and y.ref.sort() == x.t.sort():
                # An object which is, or may be, in a collection.
                return self.simp(x.t == y.ref)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.eq(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b):
                raise Unsupported(f"identity of {type(a).__name__}")
            return False
        return a is b

    def theory_same_object(self, a, b):
        """Whether two nodes are one object: only if they are equal; a node known by
        one name is one object."""
        t = self.path.fresh("same_object", z3.BoolSort())
        self.path.add(z3.Implies(t, a.t == b.t))
        # A node is not a part of itself: their sizes differ.
        for x, y in ((a, b), (b, a)):
            self.path.add(z3.Implies(t, self.theory.sz(x.t) == self.theory.sz(y.t)))
        return t

    # ---------------------------------------------------------------- attributes
    def mro_attr(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.__dict__:
                return c.__dict__[name], c
        return None, None

    def class_attr(self, obj, cls, name, after=None):
        v, owner = self.mro_attr(cls, name, after)
        if owner is None:
            self.raise_(AttributeError, f"{cls.__name__} has no attribute {name}")
        if isinstance(v, property):
            return self.call_function(v.fget, [obj], {}, self_=obj)
        if isinstance(v, types.FunctionType):
            return BoundM(obj, v, owner)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return BoundM(cls, v.__func__, owner)
        if hasattr(v, "__get__") and not isinstance(v, type):
            if isinstance(v, types.WrapperDescriptorType) or isinstance(v, types.MethodDescriptorType):
                return BoundM(obj, v, owner)
            import functools
            if isinstance(v, functools.cached_property):
                r = self.call_function(v.func, [obj], {}, self_=obj)
                return r
            raise Unsupported(f"descriptor {name}")
        return consts.check(self, v, name)

    def getattr(self, obj, name):
        if isinstance(obj, (SOptStr, SOptNode)):
            obj = self.resolve(obj)
        if isinstance(obj, SNode):
            if name == "__class__":
                return self.node_ctor(obj).cls
            c = self.theory.ctor_of(self.path, obj.t)
            if c is None:
                with_field = [c for c in self.theory.ctors.values() if any(f == name for f, _ in c.fields)]
                c = self.node_ctor(obj)
            for i, (f, _) in enumerate(c.fields):
                if f == name:
                    return self.node_field(obj, c, i)
            return self.class_attr(obj, c.cls, name)
        if isinstance(obj, SObj):
            if name == "__class__":
                return obj.cls
            v, owner = self.mro_attr(obj.cls, name)
            if isinstance(v, property):
                return self.class_attr(obj, obj.cls, name)
            if name in obj.attrs:
                return obj.attrs[name]
            if name == "__dict__":
                raise Unsupported("__dict__")
            return self.class_attr(obj, obj.cls, name)
        if isinstance(obj, SRef):
            return obj.iface.getattr(self, obj, name)
        if isinstance(obj, VSuper):
            cls = obj.self if isinstance(obj.self, type) else obj.self.cls if isinstance(obj.self, SObj) else self.node_ctor(obj.self).cls
            return self.class_attr(obj.self, cls, name, after=obj.cls)
        if isinstance(obj, ExcVal):
            if name == "args":
                return tuple(obj.args)
            if name == "__class__":
                return obj.cls
            raise Unsupported(f"attribute {name} of an exception")
        if isinstance(obj, Opaque):
            raise Unsupported(f"attribute {name} of {obj!r}")
        if isinstance(obj, Poison):
            raise Unsupported("value of a variable assigned in a loop")
        r = self.registry.getattr(self, obj, name)
        if r is not None:
            return r
        if isinstance(obj, (SInt, SReal, SStr, SBool, SNum, Coll, View, CIter, VList, tuple, str)):
            if name == "__class__":
                return self.lib.type_of(self, obj)
            if not self.lib.has_attr(obj, name):
                self.raise_(AttributeError, name)
            return BoundM(obj, name, None)
        if isinstance(obj, type):
            v, owner = self.mro_attr(obj, name)
            if isinstance(v, classmethod):
                return BoundM(obj, v.__func__, owner)
            if isinstance(v, staticmethod):
                return v.__func__
            if owner is not None and isinstance(v, types.FunctionType):
                return v
        try:
            v = getattr(obj, name)
        except AttributeError:
            self.raise_(AttributeError, name)
        if isinstance(obj, (type, types.ModuleType, types.FunctionType)) and not name.startswith("__"):
            consts.check(self, v, name, obj)
        return v

    def setattr(self, obj, name, value):
        if isinstance(obj, SObj):
            v, _ = self.mro_attr(obj.cls, name)
            if isinstance(v, property):
                raise Unsupported("property setter")
            if dataclasses.is_dataclass(obj.cls) and obj.cls.__dataclass_params__.frozen and not getattr(obj, "initialising", False):
                self.raise_(dataclasses.FrozenInstanceError, name)
            obj.attrs[name] = value
            return
        if isinstance(obj, SRef):
            return obj.iface.setattr(self, obj, name, value)
        raise Unsupported(f"assignment to attribute {name} of {type(obj).__name__}")

    # ---------------------------------------------------------------- calls
    def is_repo(self, fn):
        m = getattr(fn, "__module__", None) or ""
        return m == self.package or m.startswith(self.package + ".")

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, BoundM):
            if isinstance(f.fn, str):
                return self.lib.method(self, f.self, f.fn, args, kwargs)
            if isinstance(f.fn, types.FunctionType):
                return self.call_function(f.fn, [f.self] + list(args), kwargs, self_=f.self, owner=f.owner)
            return self.lib.builtin(self, f.fn, [f.self] + list(args), kwargs)
        if isinstance(f, VFunc):
            return self.call_vfunc(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, list(args), kwargs)
        if isinstance(f, types.MethodType):
            if isinstance(f.__func__, types.FunctionType) and self.is_repo(f.__func__):
                return self.call_function(f.__func__, [f.__self__] + list(args), kwargs)
            return self.lib.builtin(self, f, list(args), kwargs)
        if isinstance(f, type):
            return self.construct(f, list(args), kwargs)
        if isinstance(f, SObj):
            m = self.getattr(f, "__call__")
            return self.call(m, args, kwargs)
        if isinstance(f, (Sym, Coll, Opaque, Poison)) or f is None:
            if isinstance(f, (Opaque, Poison)):
                raise Unsupported(f"call of {f!r}")
            self.raise_(TypeError, f"{type(f).__name__} is not callable")
        return self.lib.builtin(self, f, list(args), kwargs)

    def call_function(self, fn, args, kwargs, self_=None, owner=None):
        c = self.registry.contract_for(self, fn, self_, args)
        if c is not None:
            if self.entry is not None and self.entry[0] is c:
                self.entry = None
            else:
                r = c.apply(self, fn, args, kwargs)
                if r is not NotImplemented:
                    if c.name not in self.applied:
                        self.applied.append(c.name)
                    return r
        if not self.is_repo(fn):
            return self.lib.builtin(self, fn, args, kwargs)
        return self.inline(fn, args, kwargs)

    def inline(self, fn, args, kwargs):
        node = self.source.node(fn)
        q = f"{fn.__module__}:{fn.__qualname__}"
        if q not in self.calls:
            self.calls.append(q)
        closure = {}
        if fn.__closure__:
            closure = dict(zip(fn.__code__.co_freevars, fn.__closure__))
        frame = Frame(fn, {}, fn.__globals__, None, q, closure)
        self.bind(node.args, frame, args, kwargs, list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}), fn.__name__)
        return self.run_body(node, frame)

    def call_vfunc(self, f, args, kwargs):
        frame = Frame(None, {}, f.frame.globals, f.frame, f.name)
        self.bind(f.node.args, frame, list(args), kwargs, f.defaults, f.kwdefaults, f.name)
        return self.run_body(f.node, frame)

    def bind(self, a, frame, args, kwargs, defaults, kwdefaults, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        args, kwargs = list(args), dict(kwargs)
        loc = frame.locals
        for i, v in enumerate(args[:len(pos)]):
            loc[pos[i]] = v
        extra = args[len(pos):]
        if a.vararg:
            loc[a.vararg.arg] = tuple(extra)
        elif extra:
            self.raise_(TypeError, f"{name}() takes {len(pos)} arguments")
        for i, p in enumerate(pos):
            if p in kwargs and p not in [x.arg for x in a.posonlyargs]:
                if p in loc:
                    self.raise_(TypeError, f"{name}() got multiple values for {p}")
                loc[p] = kwargs.pop(p)
            if p not in loc:
                j = i - (len(pos) - len(defaults))
                if j < 0:
                    self.raise_(TypeError, f"{name}() missing argument {p}")
                loc[p] = consts.check(self, defaults[j], p, "default")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = consts.check(self, kwdefaults[x.arg], x.arg, "default")
            else:
                self.raise_(TypeError, f"{name}() missing argument {x.arg}")
        if a.kwarg:
            loc[a.kwarg.arg] = self.coll("dict", dict(kwargs))
        elif kwargs:
            self.raise_(TypeError, f"{name}() got unexpected arguments {sorted(kwargs)}")

    def run_body(self, node, frame):
        if len(self.frames) >= self.MAX_DEPTH:
            raise Unsupported("recursion without a contract")
        self.frames.append(frame)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, frame)
            if isinstance(node, ast.AsyncFunctionDef):
                raise Unsupported("async")
            if has_yield(node) and self.want_first is node:
                self.want_first = None
                frame.first = True
                try:
                    self.exec_block(node.body, frame)
                except Return as r:
                    return r.value
                return FirstOf(False)
            if has_yield(node):
                frame.yields = VList()
                try:
                    self.exec_block(node.body, frame)
                except Return:
                    pass
                # Run to its end here: what it reads must not change while it is consumed.
                ours = [v for v in frame.locals.values() if not any(v is y for y in frame.yields)]
                ours += [x for v in ours if isinstance(v, SObj) for x in v.attrs.values()]
                frame.yields.sources = [v for v in ours if isinstance(v, (VList, Coll))]
                return frame.yields
            try:
                self.exec_block(node.body, frame)
            except Return as r:
                return r.value
            return None
        finally:
            self.frames.pop()

    def construct(self, cls, args, kwargs):
        r = self.registry.construct(self, cls, args, kwargs)
        if r is not NotImplemented:
            return r
        c = self.theory.by_class.get(cls)
        if c is not None:
            names = [f for f, _ in c.fields]
            vals = dict(zip(names, args))
            if len(args) > len(names):
                self.raise_(TypeError, f"too many arguments for {cls.__name__}")
            for k, v in kwargs.items():
                if k not in names or k in vals:
                    self.raise_(TypeError, f"argument {k} for {cls.__name__}")
                vals[k] = v
            if len(vals) != len(names):
                self.raise_(TypeError, f"missing arguments for {cls.__name__}")
            return self.make_node(c, [vals[n] for n in names])
        if issubclass(cls, BaseException):
            return ExcVal(cls, args)
        if (cls.__module__ or "").split(".")[0] == self.package and "_antlr4_runtime" not in cls.__module__:
            new, owner = self.mro_attr(cls, "__new__")
            if owner is not object and owner is not None and not owner.__module__.startswith("typing"):
                raise Unsupported(f"__new__ of {cls.__name__}")
            o = SObj(cls)
            init, owner = self.mro_attr(cls, "__init__")
            if isinstance(init, types.FunctionType) and self.dataclass_init(init, owner):
                self.dataclass_construct(o, cls, args, kwargs)
            elif isinstance(init, types.FunctionType):
                self.call_function(init, [o] + args, kwargs, self_=o, owner=owner)
            elif args or kwargs:
                self.raise_(TypeError, f"{cls.__name__} takes no arguments")
            return o
        return self.lib.builtin(self, cls, args, kwargs)

    def dataclass_init(self, init, owner):
        return dataclasses.is_dataclass(owner) and init.__code__.co_filename == "<string>"

    def dataclass_construct(self, o, cls, args, kwargs):
        kwargs = dict(kwargs)
        fs = [f for f in dataclasses.fields(cls) if f.init]
        pos = [f for f in fs if not f.kw_only]
        if len(args) > len(pos):
            self.raise_(TypeError, "too many arguments")
        for f, v in zip(pos, args):
            o.attrs[f.name] = v
        for f in fs:
            if f.name in kwargs:
                o.attrs[f.name] = kwargs.pop(f.name)
            elif f.name not in o.attrs:
                if f.default is not dataclasses.MISSING:
                    o.attrs[f.name] = f.default
                elif f.default_factory is not dataclasses.MISSING:
                    o.attrs[f.name] = self.call(f.default_factory, [], {})
                else:
                    self.raise_(TypeError, f"missing argument {f.name}")
        if kwargs:
            self.raise_(TypeError, f"unexpected arguments {sorted(kwargs)}")
        if hasattr(cls, "__post_init__"):
            o.initialising = True
            self.call(self.getattr(o, "__post_init__"), [], {})
            o.initialising = False

    # ---------------------------------------------------------------- names
    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"value of {name} after a loop")
                return v
            if name in f.closure:
                try:
                    return consts.check(self, f.closure[name].cell_contents, name)
                except ValueError:
                    raise Unsupported(f"unset variable {name}")
            f = f.parent
        g = frame.globals
        if name in g:
            return consts.check(self, g[name], name)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if frame.fn is not None and name in frame.fn.__code__.co_varnames:
            self.raise_(UnboundLocalError, name)
        self.raise_(NameError, name)

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, frame):
        for s in body:
            self.exec(s, frame)

    def exec(self, s, frame):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, frame)

    def s_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Return(self, s, f):
        if f.first:
            raise Return(FirstOf(False))
        raise Return(self.eval(s.value, f) if s.value is not None else None)

    def s_Break(self, s, f):
        raise Break()

    def s_Continue(self, s, f):
        raise Continue()

    def s_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def s_AugAssign(self, s, f):
        op = type(s.op)
        if isinstance(s.target, ast.Name):
            v = self.inplace(op, self.lookup(s.target.id, f), self.eval(s.value, f))
            self.assign(s.target, v, f)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, f)
            v = self.inplace(op, self.getattr(o, s.target.attr), self.eval(s.value, f))
            self.setattr(o, s.target.attr, v)
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, f)
            k = self.eval_slice(s.target.slice, f)
            v = self.inplace(op, self.lib.getitem(self, o, k), self.eval(s.value, f))
            self.lib.setitem(self, o, k, v)
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        if isinstance(a, VList) and op is ast.Add:
            self.lib.method(self, a, "extend", [b], {})
            return a
        if isinstance(a, Coll) and op in (ast.BitOr, ast.BitAnd, ast.Sub) and a.what in ("dict", "set"):
            return self.lib.coll_inplace(self, op, a, b)
        return self.lib.binop(self, op, a, b)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            if t.id in f.globals_decl:
                raise Unsupported("global assignment")
            if t.id in f.nonlocal_decl:
                f = f.parent
                while t.id not in f.locals:
                    f = f.parent
                    if f is None:
                        raise Unsupported("nonlocal assignment")
            f.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if len(t.elts) == 1 and not isinstance(t.elts[0], ast.Starred) and isinstance(v, (Coll, View)) and self.lib.iterate(self, v) is None:
                # The only element.
                c = v.coll if isinstance(v, View) else v
                n = self.lib.coll_len(self, c)
                if not self.path.branch(self.lower(n, KInt) == 1):
                    self.raise_(ValueError, "wrong number of values to unpack")
                return self.assign(t.elts[0], self.lib.element(self, self.lib.view_of(v), c.len_cache[1]), f)
            vals = self.unpack(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_(ValueError, "not enough values to unpack")
                vals = vals[:i] + [VList(vals[i:len(vals) - after])] + vals[len(vals) - after:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, f)
                return
            if len(vals) != len(t.elts):
                self.raise_(ValueError, "wrong number of values to unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self, self.eval(t.value, f), self.eval_slice(t.slice, f), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v):
        if isinstance(v, (tuple, VList, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        it = self.lib.iterate(self, v)
        if it is not None:
            return list(it)
        r = self.registry.unpack(self, v)
        if r is not None:
            return r
        raise Unsupported(f"unpacking {type(v).__name__}")

    def s_If(self, s, f):
        if self.truth(self.eval(s.test, f)):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)

    def s_Assert(self, s, f):
        if not self.truth(self.eval(s.test, f)):
            self.raise_(AssertionError)

    def s_Raise(self, s, f):
        if s.exc is None:
            if not self.handling:
                raise Unsupported("bare raise")
            raise PyRaise(self.handling[-1])
        e = self.eval(s.exc, f)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcVal(e)
        if isinstance(e, BaseException):
            e = ExcVal(type(e), e.args)
        if not isinstance(e, ExcVal):
            raise Unsupported("raise")
        raise PyRaise(e)

    def s_Try(self, s, f):
        try:
            try:
                self.exec_block(s.body, f)
            except PyRaise as p:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type, f)
                        ts = t if isinstance(t, tuple) else (t,)
                        if not all(isinstance(x, type) for x in ts):
                            raise Unsupported("exception handler")
                        match = issubclass(p.exc.cls, ts)
                    if match:
                        if h.name:
                            f.locals[h.name] = p.exc
                        self.handling.append(p.exc)
                        try:
                            self.exec_block(h.body, f)
                        finally:
                            self.handling.pop()
                            if h.name:
                                f.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, f)
        except (Unsupported, Infeasible):
            raise
        except BaseException:
            if s.finalbody:
                self.exec_block(s.finalbody, f)
            raise
        else:
            if s.finalbody:
                self.exec_block(s.finalbody, f)

    def s_While(self, s, f):
        for _ in range(200):
            if not self.truth(self.eval(s.test, f)):
                self.exec_block(s.orelse, f)
                return
            try:
                self.exec_block(s.body, f)
            except Break:
                return
            except Continue:
                pass
        raise Unsupported("loop without a known bound")

    def s_For(self, s, f):
        src = self.eval(s.iter, f)
        from . import loops
        it = self.lib.iterate(self, src)
        if it is None:
            return loops.run(self, src, s, f)
        # A list is read as it is at each step; what is derived from it must not change.
        live = isinstance(src, VList) and not hasattr(src, "sources")
        sources = self.contents(src)
        i = 0
        while i < len(src if live else it):
            v = (src if live else it)[i]
            i += 1
            self.assign(s.target, v, f)
            try:
                self.exec_block(s.body, f)
            except Break:
                return
            except Continue:
                pass
            if not live and self.contents_changed(sources):
                raise Unsupported("a loop over something which its body changes")
        self.exec_block(s.orelse, f)

    def contents(self, src):
        out = []
        for o in [src, *getattr(src, "sources", ())]:
            if isinstance(o, View):
                o = o.coll
            if isinstance(o, VList):
                out.append((o, list(o)))
            elif isinstance(o, Coll) and o.py is not None:
                out.append((o, list(o.py)))
        return out

    def contents_changed(self, sources):
        for o, was in sources:
            now = o if isinstance(o, VList) else o.py
            if now is None or len(now) != len(was) or any(x is not y for x, y in zip(now, was)):
                return True
        return False

    def s_FunctionDef(self, s, f):
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        f.locals[s.name] = self.make_function(s, f, s.name)

    def make_function(self, node, f, name):
        a = node.args
        d = [self.eval(x, f) for x in a.defaults]
        kd = {x.arg: self.eval(v, f) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        return VFunc(node, f, d, kd, name)

    def s_Import(self, s, f):
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                f.locals[a.asname] = m
            else:
                f.locals[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, s, f):
        pkg = f.globals.get("__package__") or ""
        name = "." * s.level + (s.module or "")
        try:
            m = importlib.import_module(name, pkg) if s.level else importlib.import_module(s.module)
        except ImportError as e:
            self.raise_(type(e), str(e))
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                try:
                    v = importlib.import_module(m.__name__ + "." + a.name)
                except ImportError:
                    self.raise_(ImportError, a.name)
            f.locals[a.asname or a.name] = v

    def s_Global(self, s, f):
        f.globals_decl |= set(s.names)

    def s_Nonlocal(self, s, f):
        f.nonlocal_decl |= set(s.names)

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.eval(t.value, f), self.eval_slice(t.slice, f))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, f)
                if not isinstance(o, SObj) or inspect.getattr_static(o.cls, t.attr, None) is not None or inspect.getattr_static(o.cls, "__delattr__", None) is not object.__delattr__:
                    raise Unsupported("del")
                if t.attr not in o.attrs:
                    self.raise_(AttributeError, t.attr)
                del o.attrs[t.attr]
            else:
                raise Unsupported("del")

    def s_With(self, s, f):
        self.with_items(s.items, s.body, f)

    def with_items(self, items, body, f):
        if not items:
            return self.exec_block(body, f)
        m = self.eval(items[0].context_expr, f)
        if isinstance(m, self.lib.Suppress):
            try:
                return self.with_items(items[1:], body, f)
            except PyRaise as p:
                if not issubclass(p.exc.cls, m.classes):
                    raise
                return
        if not isinstance(m, self.lib.TextBuffer):
            v = self.registry.hook("enter", self, m, default=NotImplemented)
            if v is NotImplemented:
                if isinstance(m, SObj):
                    return self.with_object(m, items, body, f)
                raise Unsupported("with")
        else:
            v = m
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, f)
        return self.with_items(items[1:], body, f)

    def with_object(self, m, items, body, f):
        enter, exit_ = self.getattr(m, "__enter__"), self.getattr(m, "__exit__")
        v = self.call(enter, [], {})
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, f)
        leave = lambda e: self.call(exit_, [None] * 3 if e is None else [e.cls, e, Opaque("traceback")], {})
        try:
            self.with_items(items[1:], body, f)
        except PyRaise as p:
            self.handling.append(p.exc)
            try:
                kept = not self.truth(leave(p.exc))
            finally:
                self.handling.pop()
            if kept:
                raise
        except (Return, Break, Continue):
            leave(None)
            raise
        else:
            leave(None)

    def s_Match(self, s, f):
        v = self.eval(s.subject, f)
        for c in s.cases:
            binds = {}
            if self.pattern(c.pattern, v, f, binds):
                f.locals.update(binds)
                if c.guard is None or self.truth(self.eval(c.guard, f)):
                    return self.exec_block(c.body, f)

    def pattern(self, p, v, f, binds):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, f, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, f, binds) for q in p.patterns)
        if isinstance(p, ast.MatchValue):
            return self.path.branch(self.eq(v, self.eval(p.value, f)))
        if isinstance(p, ast.MatchSingleton):
            return self.path.branch(self.is_(v, p.value))
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, f)
            if not self.path.branch(self.lib.isinstance_(self, v, cls)):
                return False
            names = list(getattr(cls, "__match_args__", ()))[:len(p.patterns)] + list(p.kwd_attrs)
            if len(names) != len(p.patterns) + len(p.kwd_patterns):
                raise Unsupported("pattern")
            return all(self.pattern(q, self.getattr(v, n), f, binds) for n, q in zip(names, list(p.patterns) + list(p.kwd_patterns)))
        if isinstance(p, ast.MatchSequence) and isinstance(v, (tuple, VList)):
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if stars:
                i, n = stars[0], len(p.patterns) - 1
                if len(v) < n:
                    return False
                j = len(v) - (n - i)
                if p.patterns[i].name:
                    binds[p.patterns[i].name] = VList(v[i:j])
                v = list(v[:i]) + list(v[j:])
                return all(self.pattern(q, x, f, binds) for q, x in zip([q for q in p.patterns if not isinstance(q, ast.MatchStar)], v))
            return len(v) == len(p.patterns) and all(self.pattern(q, x, f, binds) for q, x in zip(p.patterns, v))
        if isinstance(p, ast.MatchSequence) and (isinstance(v, View) and getattr(v, "listed", False) or isinstance(v, Coll) and v.what == "seq"):
            v = v if isinstance(v, View) else View(v, "keys")
            if any(isinstance(q, ast.MatchStar) for q in p.patterns) or len(p.patterns) > 1:
                raise Unsupported("pattern of several elements")
            n = self.lib.coll_len(self, v.coll)
            if not self.path.branch(self.eq(n, len(p.patterns))):
                return False
            return not p.patterns or self.pattern(p.patterns[0], self.lib.element(self, v, v.coll.len_cache[1]), f, binds)
        if isinstance(p, ast.MatchSequence) and (v is None or isinstance(v, (str, int, float, Decimal, SStr, SInt, SReal, SNode, SRef))):
            return False
        raise Unsupported(f"pattern {type(p).__name__}")

    # ---------------------------------------------------------------- expressions
    def eval(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        return self.lookup(e.id, f)

    def e_Attribute(self, e, f):
        return self.getattr(self.eval(e.value, f), e.attr)

    def e_Subscript(self, e, f):
        o = self.eval(e.value, f)
        return self.lib.getitem(self, o, self.eval_slice(e.slice, f))

    def eval_slice(self, s, f):
        if isinstance(s, ast.Slice):
            g = lambda x: self.eval(x, f) if x is not None else None
            return slice(g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, f)

    def e_Tuple(self, e, f):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = self.e_List(e, f)
            return r if isinstance(r, Coll) else tuple(r)
        return tuple(self.elements(e.elts, f))

    def e_List(self, e, f):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = [(x, self.eval(x.value, f) if isinstance(x, ast.Starred) else self.eval(x, f)) for x in e.elts]
            if any(isinstance(x, ast.Starred) and isinstance(v, (Coll, View)) and self.lib.iterate(self, v) is None for x, v in parts):
                # Of unknown length: its elements, any of which may be repeated.
                s = self.coll("set")
                for x, v in parts:
                    s = self.lib.coll_op(self, ast.BitOr, s, v) if isinstance(x, ast.Starred) else self.lib.coll_op(self, ast.BitOr, s, VList([v]))
                s = self.lib.copy_coll(self, s, "set")
                s.what, s.repeats = "seq", True
                return s
            out = VList()
            for x, v in parts:
                out.extend(self.unpack(v) if isinstance(x, ast.Starred) else [v])
            return out
        return VList(self.elements(e.elts, f))

    def e_Set(self, e, f):
        s = self.coll("set")
        if any(isinstance(x, ast.Starred) for x in e.elts):
            for x in e.elts:
                v = self.eval(x.value, f) if isinstance(x, ast.Starred) else VList([self.eval(x, f)])
                s = self.lib.coll_op(self, ast.BitOr, s, self.lib.to_coll(self, v))
            return s
        for v in self.elements(e.elts, f):
            self.lib.method(self, s, "add", [v], {})
        return s

    def elements(self, elts, f):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.unpack(self.eval(x.value, f))
            else:
                out.append(self.eval(x, f))
        return out

    def e_Dict(self, e, f):
        d = self.coll("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.method(self, d, "update", [self.eval(v, f)], {})
            else:
                self.lib.setitem(self, d, self.eval(k, f), self.eval(v, f))
        return d

    def e_Call(self, e, f):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "super" not in f.locals:
            fr = f
            while fr.fn is None and fr.parent is not None:
                fr = fr.parent
            cell = fr.closure.get("__class__")
            if cell is None:
                raise Unsupported("super")
            first = next(iter(self.source.node(fr.fn).args.args)).arg
            return VSuper(cell.cell_contents, fr.locals[first])
        fn = self.eval(e.func, f)
        if fn is super and len(e.args) == 2:
            c, o = self.elements(e.args, f)
            if isinstance(c, type):
                return VSuper(c, o)
        if fn in (any, all) and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            from . import loops
            r = loops.quantifier(self, fn is all, e.args[0], f)
            if r is not NotImplemented:
                return r
        if fn is next and 1 <= len(e.args) <= 2 and isinstance(e.args[0], ast.Call) and not e.keywords and not any(isinstance(x, ast.Starred) for x in e.args):
            return self.next_of_call(e, f)
        flat = self.flattened(fn, e)
        args = self.elements(e.args, f) if flat is None else [self.eval(flat, f)]
        if flat is not None and fn in FLATTENING:
            return args[0]
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value, f)
                if isinstance(m, Coll) and m.py is not None:
                    m = m.py
                if not isinstance(m, dict):
                    raise Unsupported("**")
                kwargs.update(m)
            else:
                kwargs[k.arg] = self.eval(k.value, f)
        if self.first_call is e:
            self.first_call = None
            return self.first_yield(fn, args, kwargs, e)
        return self.call(fn, args, kwargs, e)

    def first_yield(self, fn, args, kwargs, e):
        """The call of what may be a generator function, of which only the first element is asked for."""
        g = fn.fn if isinstance(fn, BoundM) else fn
        node = g.node if isinstance(g, VFunc) else self.source.node(g) if isinstance(g, types.FunctionType) and self.is_repo(g) else None
        if node is None or isinstance(node, ast.Lambda) or not has_yield(node):
            return self.call(fn, args, kwargs, e)
        self.want_first = node
        try:
            r = self.call(fn, args, kwargs, e)
        finally:
            self.want_first = None
        return r

    def next_of_call(self, e, f):
        """next(f(...), ...): a generator runs to its first element."""
        self.first_call = e.args[0]
        try:
            v = self.eval(e.args[0], f)
        finally:
            self.first_call = None
        default = [self.eval(x, f) for x in e.args[1:]]
        if not isinstance(v, FirstOf):
            return self.call(next, [v, *default], {}, e)
        if v.some:
            return v.value
        if default:
            return default[0]
        self.raise_(StopIteration)

    def flattened(self, fn, e):
        """f(*(E for ...)) of a union, and chains of a generator, as a generator of what they flatten."""
        if len(e.args) != 1 or e.keywords:
            return None
        a = e.args[0]
        if fn is itertools.chain.from_iterable:
            pass
        elif isinstance(a, ast.Starred) and (fn is itertools.chain or isinstance(fn, BoundM) and isinstance(fn.self, Coll) and fn.fn in ("union", "update")):
            a = a.value
        else:
            return None
        if isinstance(fn, BoundM) and fn.self.what != "set" or not isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            return None
        key = id(a)
        if key not in self.source.flat:
            name = ast.Name(id=" x", ctx=ast.Load())
            g = ast.comprehension(target=ast.Name(id=" x", ctx=ast.Store()), iter=a.elt, ifs=[], is_async=0)
            C = ast.SetComp if isinstance(fn, BoundM) else ast.GeneratorExp
            self.source.flat[key] = (a, ast.fix_missing_locations(ast.copy_location(C(elt=name, generators=[*a.generators, g]), a)))
        return self.source.flat[key][1]

    def e_BoolOp(self, e, f):
        is_and = isinstance(e.op, ast.And)
        # Where every operand is a truth value, the result is a condition.
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, f)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def e_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        if isinstance(e.op, ast.Not):
            b = self.as_bool(v)
            return (not b) if isinstance(b, bool) else self.wrap_bool(z3.Not(b))
        v = self.resolve(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt):
                return SInt(-v.t)
            if isinstance(v, SReal):
                return SReal(-v.t)
            if isinstance(v, (int, float, Decimal)):
                return -v
            return self.lib.binop(self, ast.Mult, -1, v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, f):
        return self.lib.binop(self, type(e.op), self.eval(e.left, f), self.eval(e.right, f))

    def e_Compare(self, e, f):
        left = self.eval(e.left, f)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, f)
            v = self.compare(type(op), left, right)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v):
                return v
            left = right

    def compare(self, op, a, b):
        if op is ast.Eq:
            return self.equals(a, b)
        if op is ast.NotEq:
            r = self.as_bool(self.equals(a, b))
            return (not r) if isinstance(r, bool) else self.wrap_bool(z3.Not(r))
        if op is ast.Is:
            return self.wrap_bool(self.is_(a, b))
        if op is ast.IsNot:
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else self.wrap_bool(z3.Not(r))
        if op in (ast.In, ast.NotIn):
            r = self.lib.contains(self, b, a)
            if op is ast.In:
                return self.wrap_bool(r)
            return (not r) if isinstance(r, bool) else self.wrap_bool(z3.Not(r))
        a, b = self.resolve(a), self.resolve(b)
        if concrete(a) and concrete(b):
            import operator
            try:
                return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](a, b)
            except TypeError as e:
                self.raise_(TypeError, *e.args)
        num = (int, float, Decimal, SInt, SReal)
        if isinstance(a, num) and isinstance(b, num):
            K = KInt if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) else KReal
            x, y = self.lower(a, K), self.lower(b, K)
            return self.wrap_bool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op])
        return self.lib.order(self, op, a, b)

    def equals(self, a, b):
        r = self.registry.equals(self, a, b)
        if r is not NotImplemented:
            return r
        return self.wrap_bool(self.eq(a, b))

    def e_IfExp(self, e, f):
        if self.truth(self.eval(e.test, f)):
            return self.eval(e.body, f)
        return self.eval(e.orelse, f)

    def e_Lambda(self, e, f):
        return self.make_function(e, f, "<lambda>")

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        t = f
        while t.name == "<comp>":
            t = t.parent
        t.locals[e.target.id] = v
        return v

    def e_JoinedStr(self, e, f):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                try:
                    v = self.eval(x.value, f)
                    if x.format_spec is not None:
                        raise Unsupported("format")
                    out.append(self.lib.to_str(self, v) if x.conversion in (-1, 115) else Opaque("repr"))
                except Unsupported:
                    out.append(Opaque("formatted value"))
        if any(isinstance(x, Opaque) for x in out):
            return Opaque("formatted text")
        return self.lib.concat(self, out)

    def e_Starred(self, e, f):
        raise Unsupported("starred")

    def comp(self, what, e, f, elt):
        from . import loops
        return loops.comprehension(self, what, e.generators, f, elt)

    def e_ListComp(self, e, f):
        return self.repeats(e, self.comp("list", e, f, lambda fr: self.eval(e.elt, fr)))

    def repeats(self, e, r):
        """Whether its elements may repeat, where the result is a sequence of unknown length."""
        if isinstance(r, Coll):
            names = lambda t: {n.id for n in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]) if isinstance(n, ast.Name)}
            whole = all(isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts) for t in (g.target for g in e.generators))
            r.repeats = not (whole and set().union(*(names(g.target) for g in e.generators)) <= names(e.elt))
        return r

    def e_SetComp(self, e, f):
        return self.comp("set", e, f, lambda fr: self.eval(e.elt, fr))

    def e_GeneratorExp(self, e, f):
        return self.repeats(e, self.comp("gen", e, f, lambda fr: self.eval(e.elt, fr)))

    def e_DictComp(self, e, f):
        return self.comp("dict", e, f, lambda fr: (self.eval(e.key, fr), self.eval(e.value, fr)))

    def e_Yield(self, e, f):
        fr = f
        if fr.first:
            raise Return(FirstOf(True, self.eval(e.value, f) if e.value is not None else None))
        if fr.yields is None:
            raise Unsupported("yield")
        fr.yields.append(self.eval(e.value, f) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, f):
        if f.yields is None:
            raise Unsupported("yield from")
        f.yields.extend(self.unpack(self.eval(e.value, f)))
        return None


class Malformed(Unsupported):
    """A node built from a value which isn't of its field's type."""


class SOptNode(Sym):
    """A node or None: not yet known which."""


class SOptStr(Sym):
    """A str or None: not yet known which."""


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False
