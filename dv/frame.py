"""Frame conditions: a query changes nothing which existed before it.

Everything the arguments of a function lead to is compared with what it was.  An attribute
which had no value (None, or an empty collection) may be given one, if it is private: a
cache; that what is cached doesn't change later results is for the contracts on histories.
"""
from .values import *  # noqa
from .values import z3
from . import lib, loops

NAME = "frame: "


def empty(v):
    return v is None or isinstance(v, Coll) and v.py is not None and not v.py or isinstance(v, list) and not v


def snapshot(ip, thunk):
    extra = []
    for v in (ip.ghost.values() if isinstance(getattr(ip, "ghost", None), dict) else [getattr(ip, "ghost", None)]):
        extra.append(v)
    for c in getattr(thunk, "__closure__", None) or ():
        try:
            extra.append(c.cell_contents)
        except ValueError:
            pass
    heap = [x for v in extra for x in flatten(v)]
    s = loops.Snapshot(ip, heap)
    s.items = [(o, v) for o, v in s.items if isinstance(o, (SObj, Coll, list))]
    s.caches = {id(v) for o, _ in s.items if isinstance(o, SObj) for k, v in o.attrs.items() if k.startswith("_") and empty(v) and v is not None}
    return s


def flatten(v, depth=3):
    if isinstance(v, (SObj, Coll, View, BoundM)) or isinstance(v, list):
        yield v
    if depth and isinstance(v, (list, tuple)):
        for x in v:
            yield from flatten(x, depth - 1)
    if depth and isinstance(v, dict):
        for x in v.values():
            yield from flatten(x, depth - 1)


def label(o):
    return o.cls.__name__ if isinstance(o, SObj) else "a collection"


def check(ip, snap):
    prove = lambda what, goal: ip.prove(NAME + what, goal)
    for o, before in snap.items:
        if isinstance(o, SObj):
            for k in sorted(set(before) | set(o.attrs)):
                if k in before and k in o.attrs and loops.same(before[k], o.attrs[k]):
                    continue
                old = before.get(k)
                if k in o.attrs and empty(old) and k.startswith("_"):
                    continue
                prove(f"the attributes of {label(o)} are as they were", equal(ip, old, o.attrs.get(k)))
        elif id(o) in snap.caches:
            continue
        elif isinstance(o, Coll):
            prove("the collections are as they were", same_coll(ip, before, o))
        elif isinstance(o, list):
            prove("the collections are as they were", loops.same(list(o), list(before)))
    prove("what existed before is unchanged", True)


def changed(ip, snap):
    """Whether anything isn't literally what it was."""
    for o, before in snap.items:
        if isinstance(o, SObj):
            if set(before) != set(o.attrs) or not all(loops.same(before[k], o.attrs[k]) for k in before):
                return True
        elif isinstance(o, Coll):
            if loops.coll_changed(before, o):
                return True
        elif not loops.same(list(o), list(before)):
            return True
    return False


def equal(ip, a, b):
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a.t.sort() != b.t.sort():
            return False
        return a.t == b.t
    if isinstance(a, Coll) and isinstance(b, Coll):
        if a.what != b.what:
            return False
        return same_coll(ip, loops.capture(a), b)
    if isinstance(a, (str, Sym)) and isinstance(b, (str, Sym)):
        raise Unsupported("comparison of an attribute with what it was")
    return a is b or (type(a) is type(b) and isinstance(a, (str, int, bool)) and a == b)


def same_coll(ip, before, o):
    if not loops.coll_changed(before, o):
        return True
    st, py, _ = before
    if py is not None and o.py is not None:
        return list(py) == list(o.py) and all(loops.same(py[k], o.py[k]) for k in py)
    if py is not None and not py:
        # It was empty, and is now given by conditions.
        if o.K is None:
            return True
        k = ip.path.ground(ip.path.fresh("entry", o.K.sort))
        return z3.Not(o.dom(k))
    if py is not None or o.py is not None:
        raise Unsupported("comparison of a collection with what it was")
    K, V, dom, val, _ = st
    if K is not o.K or V is not o.V:
        return False
    k = ip.path.ground(ip.path.fresh("entry", K.sort))
    same = dom(k) == o.dom(k)
    if V is not None:
        same = z3.And(same, z3.Implies(dom(k), val(k) == o.val(k)))
    return same
