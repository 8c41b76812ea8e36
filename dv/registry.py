"""Contracts, and how the interpreter finds them."""
import dataclasses
import importlib
import inspect
import time
import types

from .values import *  # noqa
from .values import z3
from . import lib, loops
from .interp import VList, SOptStr, Decimal, Malformed  # noqa: F401
from .path import STATS


class Contract:
    """The specification of a function (or of the methods of a class) of /repo.

    start(ip) builds arbitrary arguments satisfying the precondition and returns a thunk
    calling the real function; ensure(ip, result) states the postcondition; raised(ip, exc)
    the exceptional one; apply(ip, fn, args, kwargs) is what callers may rely on.
    """
    name = ""
    module = ""
    cls = None              # class name; None for a module-level function
    method = ""
    props = ()
    assumes = ()            # assumptions, in words
    cases = (None,)         # start is run for each of these
    bounded = None          # the bound, where the arguments are bounded
    covers = True           # some path must reach the end
    may_raise = False
    frame = True            # nothing which existed before is changed (P13)

    def __init__(self):
        self.error = None

    def resolve(self):
        """The live class and function."""
        try:
            m = importlib.import_module(self.module)
            if self.cls:
                c = getattr(m, self.cls)
                f = inspect.getattr_static(c, self.method) if self.method else None
                if isinstance(f, (classmethod, staticmethod)):
                    f = f.__func__
                if isinstance(f, property):
                    f = f.fget
                return c, f
            f = getattr(m, self.method)
            return None, f
        except (ImportError, AttributeError) as e:
            raise Unsupported(f"{self.name} not found: {e}")

    def matches(self, ip, fn, self_, args):
        if fn.__name__ != self.method:
            return False
        try:
            c, f = self.resolve()
        except Unsupported:
            return False
        if fn is not f:
            return False
        if c is None:
            return self.accepts(ip, None, args)
        s = self_ if self_ is not None else args[0] if args else None
        if isinstance(s, SObj):
            return issubclass(s.cls, c) and self.accepts(ip, s, args)
        if isinstance(s, type):
            return issubclass(s, c) and self.accepts(ip, s, args)
        return False

    def accepts(self, ip, s, args):
        return True

    def start(self, ip, case):
        raise NotImplementedError

    def ensure(self, ip, result):
        raise NotImplementedError

    def raised(self, ip, exc):
        ip.prove(f"no {exc.cls.__name__} is raised", False)

    def apply(self, ip, fn, args, kwargs):
        return NotImplemented

    def hints(self, ip, model):
        return []

    # -- binding of the arguments of an application to the parameters
    def params(self, fn, args, kwargs):
        sig = inspect.signature(fn)
        try:
            b = sig.bind(*args, **kwargs)
        except TypeError:
            raise Unsupported(f"arguments of {self.name}")
        b.apply_defaults()
        return b.arguments


class Iface:
    """What is known of an object given only by a reference."""
    kind = None

    def truth(self, ip, r):
        raise Unsupported("truth of an object")

    def eq(self, ip, r, o):
        if isinstance(o, SRef):
            raise Unsupported("equality of objects")
        return False

    def is_none(self, ip, r):
        return False

    def getattr(self, ip, r, name):
        raise Unsupported(f"attribute {name} of {type(self).__name__}")

    def setattr(self, ip, r, name, value):
        raise Unsupported(f"assignment to attribute {name}")

    def call(self, ip, r, name, args, kwargs):
        raise Unsupported(f"method {name} of {type(self).__name__}")

    def isinstance_(self, ip, r, cls):
        raise Unsupported("isinstance")

    def type_of(self, ip, r):
        raise Unsupported("type")


class RefMethod:
    """A method of a reference, to be called."""

    def __init__(self, ref, name):
        self.ref, self.name = ref, name


class Registry:
    def __init__(self, contracts, externals=()):
        self.contracts = contracts
        self.externals = list(externals)
        self.out = []

    def contract_for(self, ip, fn, self_, args):
        for c in self.contracts:
            if c.method == fn.__name__ and c.matches(ip, fn, self_, args):
                return c
        return None

    def hook(self, name, ip, *args, default=None):
        for e in self.externals:
            m = getattr(e, name, None)
            if m is not None:
                r = m(ip, *args)
                if r is not NotImplemented:
                    return r
        return default

    def kind_of(self, ip, v):
        return self.hook("kind_of", ip, v)

    def lower(self, ip, v, K):
        return self.hook("lower", ip, v, K)

    def truth(self, ip, v):
        return self.hook("truth", ip, v)

    def eq(self, ip, a, b):
        return self.hook("eq", ip, a, b)

    def equals(self, ip, a, b):
        return self.hook("equals", ip, a, b, default=NotImplemented)

    def getattr(self, ip, o, name):
        return self.hook("getattr", ip, o, name)

    def unpack(self, ip, v):
        return self.hook("unpack", ip, v)

    def construct(self, ip, cls, args, kwargs):
        return self.hook("construct", ip, cls, args, kwargs, default=NotImplemented)

    def binop(self, ip, op, a, b):
        return self.hook("binop", ip, op, a, b, default=NotImplemented)

    def to_str(self, ip, v):
        return self.hook("to_str", ip, v)

    def getitem(self, ip, o, k):
        return self.hook("getitem", ip, o, k, default=NotImplemented)

    def type_of(self, ip, v):
        return self.hook("type_of", ip, v)

    def iterate(self, ip, v):
        return self.hook("iterate", ip, v)

    def external(self, ip, f, args, kwargs):
        if isinstance(f, RefMethod):
            return f.ref.iface.call(ip, f.ref, f.name, args, kwargs)
        return self.hook("external", ip, f, args, kwargs, default=NotImplemented)

    def printed(self, ip, parts, kwargs):
        ip.printed.append((parts, kwargs))


def zbool(g):
    return z3.BoolVal(g) if isinstance(g, bool) else g
