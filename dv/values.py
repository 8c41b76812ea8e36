"""Symbolic values, and the first-order theory they are expressed in."""
import sys

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


class Unsupported(Exception):
    """A construct outside the verifier's reach: the obligation is undecided."""


class Infeasible(Exception):
    """The current path cannot be taken."""


class PyRaise(Exception):
    """The interpreted program raised."""

    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))


class ExcVal:
    def __init__(self, cls, args=(), cause=None):
        self.cls, self.args, self.cause = cls, args, cause

    def __repr__(self):
        return f"{self.cls.__name__}{tuple(self.args)!r}"


class Sym:
    """A value given by a z3 term."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"

    __hash__ = object.__hash__


class SInt(Sym):
    pass


class SReal(Sym):
    """A decimal.Decimal (or float), as a real number."""


class SBool(Sym):
    pass


class SStr(Sym):
    pass


class SNum(Sym):
    """An int or a Decimal: not yet known which."""


class SNode(Sym):
    """A node of an expression graph."""


class SRef(Sym):
    """An object known only through the contracts of its interface."""
    __slots__ = ("iface",)

    def __init__(self, t, iface):
        self.t, self.iface = t, iface


class SObj:
    """An instance of a class of the code under test, on the symbolic heap."""

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return f"<{self.cls.__name__} {self.attrs}>"


class Opaque:
    """A value nothing is known about (e.g. a message)."""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"Opaque({self.why})"


class BoundM:
    def __init__(self, self_, fn, owner=None):
        self.self, self.fn, self.owner = self_, fn, owner


class VFunc:
    """A function (or lambda) defined in interpreted code."""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name


class VSuper:
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


# ---------------------------------------------------------------- sorts
String = z3.StringSort()
Ref = z3.DeclareSort("Ref")
_num = z3.Datatype("Num")
_num.declare("IntV", ("int_of", z3.IntSort()))
_num.declare("DecV", ("dec_of", z3.RealSort()))
Num = _num.create()
_opt = z3.Datatype("OptStr")
_opt.declare("NoStr")
_opt.declare("SomeStr", ("str_of", String))
OptStr = _opt.create()


class Kind:
    """How the elements of a collection are represented: value <-> term."""

    def __init__(self, name, sort, cls):
        self.name, self.sort, self.cls = name, sort, cls

    def lift(self, t):
        return self.cls(t)

    def __repr__(self):
        return self.name


KInt = Kind("int", z3.IntSort(), SInt)
KReal = Kind("real", z3.RealSort(), SReal)
KBool = Kind("bool", z3.BoolSort(), SBool)
KStr = Kind("str", String, SStr)


class NodeKind(Kind):
    pass


class RefKind(Kind):
    def __init__(self, iface):
        super().__init__(f"ref:{type(iface).__name__}", Ref, None)
        self.iface = iface

    def lift(self, t):
        return SRef(t, self.iface)


class Coll:
    """A dictionary or set of any size, given by its membership and its values.

    dom(k) and val(k) give z3 terms for a key term k.  Collections are mutable
    objects: the closures are replaced as the collection is modified.
    """

    def __init__(self, what, K, V, dom, val=None):
        self.what = what          # 'dict', 'set', 'seq'
        self.K, self.V = K, V
        self.dom, self.val = dom, val
        self.len_cache = None
        self.frozen = False

    def state(self):
        return (self.K, self.V, self.dom, self.val, self.len_cache)

    def restore(self, s):
        self.K, self.V, self.dom, self.val, self.len_cache = s

    def __repr__(self):
        return f"<{self.what} {self.K}->{self.V}>"


class View:
    """keys, values or items of a collection."""

    def __init__(self, coll, what):
        self.coll, self.what = coll, what


class CIter:
    """iter() of a view: only the first element can be asked for."""

    def __init__(self, view):
        self.view, self.used = view, False
