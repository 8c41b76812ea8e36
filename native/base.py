"""Shared by the bounded checks: access to the real code, and the oracle's view of it."""
import contextlib
import functools
import os
import random
import resource
import signal
import sys
import time
from decimal import Decimal

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    sys.dont_write_bytecode = True
    # The compiled files of libraries may be used, those of /repo may not.
    import lxml.etree, mpmath, numpy, sympy, sympy.parsing.sympy_parser, sympy.printing.numpy  # noqa
    sys.pycache_prefix = "/nonexistent-pycache"
    # simplify is a pure function; the real code calls it again and again to
    # compare the same basis units.
    if not hasattr(sympy, "_plain_simplify"):
        sympy._plain_simplify = plain = sympy.simplify
        memo = functools.lru_cache(100000)(plain)

        def simplify(e, *a, **k):
            try:
                return memo(e) if not a and not k else plain(e, *a, **k)
            except TypeError:
                return plain(e, *a, **k)
        sympy.simplify = simplify
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.setrecursionlimit(3000)


class TooLong(BaseException):
    pass


@contextlib.contextmanager
def limited(seconds):
    """Give up after some seconds (where the interpreter gets to see the signal)."""
    def stop(*_):
        raise TooLong()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Unexpected(Exception):
    pass


def lift(n):
    """The spec tree of a real expression graph."""
    c = type(n).__name__
    if c == "Number":
        v = n.value
        if not isinstance(v, (int, Decimal)) or isinstance(v, bool):
            raise Unexpected(f"number value {v!r}")
        return ("num", v, n.raw_content)
    if c == "Identifier":
        return ("id", n.name)
    if c == "Unhandled":
        return ("date", n.raw_content)
    if c in ("Multiply", "Divide"):
        return ({"Multiply": "mul", "Divide": "div"}[c], lift(n.lhs), lift(n.rhs))
    if c == "Raise":
        e = lift(n.rhs)
        if e[0] != "num":
            raise Unexpected(f"exponent {e!r}")
        if not isinstance(e[1], int):
            raise Unexpected(f"exponent {e!r} is not an integer")
        return ("pow", lift(n.lhs), e[1])
    if c == "Shift":
        return ("shift", lift(n.unit), lift(n.shift_from))
    if c == "Logarithm":
        return ("log", n.function, lift(n.term))
    raise Unexpected(f"node {n!r}")


def same(a, b, text=True, kinds=True):
    """Are two spec trees the same (numbers compared exactly, by value)?"""
    if a[0] != b[0]:
        return False
    if a[0] == "num":
        return a[1] == b[1] and (not kinds or isinstance(a[1], int) == isinstance(b[1], int)) and (
            not text or a[2] is None or b[2] is None or a[2] == b[2])
    if len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if not same(x, y, text, kinds):
                return False
        elif x != y:
            return False
    return True


def norm(t):
    """Regroup products to the left."""
    if t[0] == "mul":
        a, b = norm(t[1]), norm(t[2])
        def attach(a, b):
            if b[0] == "mul":
                return ("mul", attach(a, b[1]), b[2])
            return ("mul", a, b)
        return attach(a, b)
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


class Run:
    """Collects what a bounded check evaluated, and the failures it found."""

    def __init__(self, prop, seed, budget, mined=None):
        self.prop, self.rng = prop, random.Random(f"{prop}-{seed}")
        self.end = time.time() + budget
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.odd = []
        self.mined = mined or {"str": [], "int": []}

    def left(self):
        return time.time() < self.end and len(self.failures) < 3

    def case(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(key)
            if len(self.samples) < 6 and self.rng.random() < 0.2 or not self.samples:
                self.samples.append(repr(key)[:300])

    def fail(self, kind, data, expected, got):
        self.failures.append({"kind": kind, "input": data, "expected": str(expected)[:2000], "got": str(got)[:2000]})
