"""Loops over collections of any size.

The body is executed once, for an arbitrary element and an arbitrary state of the
collections it writes (the havocked state); the loop's effect is then one of

  pointwise   iteration k writes the entry of k only, reading no other:  A'(x) = f(x, A(x))
  sum         iteration k adds d(x, k) to the entry of x:                A'(x) = A(x) + sum_k d(x, k)
  insertion   iteration k stores w(x, k) at the keys x with T(x, k):     A'(x) = w(x, the last such k)

each of which is an invariant that is proved of the body before it is used (the equations
above, for the arbitrary element and state).  An iteration may leave the loop: then the loop
is either left at some element, having visited some others, or no element leaves it.
Whatever fits none of these is Unsupported.
"""
from .values import *  # noqa
from .values import z3
from .interp import VList, Poison, Break, Continue, Return, Frame
from . import lib


# ---------------------------------------------------------------- the heap
def reachable(ip, extra=()):
    """The mutable objects the interpreted code can reach."""
    seen, out = set(), []
    stack = list(extra) + list(ip.roots)
    for f in ip.frames:
        while f is not None:
            if id(f) not in seen:
                seen.add(id(f))
                out.append(f)
                stack.extend(f.locals.values())
                if f.yields is not None:
                    stack.append(f.yields)
            f = f.parent
    while stack:
        v = stack.pop()
        if id(v) in seen or isinstance(v, (Sym, str, int, type(None))):
            continue
        if isinstance(v, (tuple, VList)):
            seen.add(id(v))
            if isinstance(v, VList):
                out.append(v)
            stack.extend(v)
        elif isinstance(v, SObj):
            seen.add(id(v))
            out.append(v)
            stack.extend(v.attrs.values())
        elif isinstance(v, Coll):
            seen.add(id(v))
            out.append(v)
            if v.py is not None:
                stack.extend(v.py.values())
                stack.extend(v.py.keys())
        elif isinstance(v, View):
            stack.append(v.coll)
        elif isinstance(v, CIter):
            seen.add(id(v))
            out.append(v)
            stack.append(v.view)
        elif isinstance(v, lib.VIter):
            seen.add(id(v))
            out.append(v)
            stack.extend(v.xs)
        elif isinstance(v, BoundM):
            stack.append(v.self)
        elif isinstance(v, VFunc):
            stack.extend(v.defaults)
            f = v.frame
            while f is not None:
                if id(f) not in seen:
                    seen.add(id(f))
                    out.append(f)
                    stack.extend(f.locals.values())
                f = f.parent
        elif isinstance(v, ExcVal):
            stack.extend(v.args)
        elif hasattr(v, "heap"):
            seen.add(id(v))
            out.append(v)
            stack.extend(v.heap_children())
    return out


def capture(o):
    if isinstance(o, Frame):
        return dict(o.locals)
    if isinstance(o, SObj):
        return dict(o.attrs)
    if isinstance(o, Coll):
        return (o.state(), dict(o.py) if o.py is not None else None, dict(o.__dict__))
    if isinstance(o, VList):
        return list(o)
    if isinstance(o, CIter):
        return o.used
    if isinstance(o, lib.VIter):
        return o.i
    return o.heap()


def put_back(o, s):
    if isinstance(o, Frame):
        o.locals.clear()
        o.locals.update(s)
    elif isinstance(o, SObj):
        o.attrs.clear()
        o.attrs.update(s)
    elif isinstance(o, Coll):
        o.__dict__.clear()
        o.__dict__.update(s[2])
        o.restore(s[0])
        o.py = dict(s[1]) if s[1] is not None else None
    elif isinstance(o, VList):
        o[:] = s
    elif isinstance(o, CIter):
        o.used = s
    elif isinstance(o, lib.VIter):
        o.i = s
    else:
        o.set_heap(s)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Sym):
        return a.t.eq(b.t)
    if isinstance(a, (str, int, type(None))):
        return a == b
    return a is b


def coll_changed(old, o):
    st, py, _ = old
    if (py is None) != (o.py is None):
        # A representation by membership conditions isn't itself a change; but take it as one.
        return True
    if py is not None:
        return not (list(py) == list(o.py) and all(same(py[k], o.py[k]) for k in py))
    return not (st[2] is o.dom and st[3] is o.val)


class Snapshot:
    def __init__(self, ip, extra=()):
        self.items = [(o, capture(o)) for o in reachable(ip, extra)]
        self.imprecise = len(ip.imprecise)

    def restore(self):
        for o, s in self.items:
            put_back(o, s)

    def changes(self):
        """What was modified: [(object, detail)]"""
        out = []
        for o, s in self.items:
            if isinstance(o, Frame):
                for k in set(s) | set(o.locals):
                    if k not in s or k not in o.locals or not same(s[k], o.locals[k]):
                        out.append(("local", o, k))
            elif isinstance(o, SObj):
                for k in set(s) | set(o.attrs):
                    if k not in s or k not in o.attrs or not same(s[k], o.attrs[k]):
                        out.append(("attr", o, k))
            elif isinstance(o, Coll):
                if coll_changed(s, o):
                    out.append(("coll", o, None))
            elif isinstance(o, VList):
                if not same(list(o), s):
                    out.append(("list", o, None))
            elif not same(capture(o), s):
                out.append(("other", o, None))
        return out


# ---------------------------------------------------------------- terms
def symbols(terms):
    """Names of the uninterpreted symbols of the terms."""
    seen, out, stack = set(), set(), [t for t in terms if z3.is_expr(t)]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            stack.extend(t.children())
    return out


def newer(name, since):
    return "!" in name and name.rsplit("!", 1)[1].isdigit() and int(name.rsplit("!", 1)[1]) > since


def applications(t, name):
    seen, out, stack = set(), [], [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().name() == name:
                out.append(u)
            stack.extend(u.children())
    return out


def conj(fs):
    fs = list(fs)
    return z3.And(*fs) if len(fs) > 1 else fs[0] if fs else z3.BoolVal(True)


def disj(fs):
    fs = list(fs)
    return z3.Or(*fs) if len(fs) > 1 else fs[0] if fs else z3.BoolVal(False)


def forall(ip, sort, dom, pred):
    """The truth of (for all k in dom: pred(k))."""
    p = ip.path
    e = p.fresh("all", z3.BoolSort())
    w = p.fresh("counterexample", sort)
    p.ground(w)
    p.add(z3.Or(e, z3.And(dom(w), z3.Not(pred(w)))))
    p.forall(sort, lambda k: z3.Implies(z3.And(e, dom(k)), pred(k)))
    return SBool(e)


# ---------------------------------------------------------------- the loop
class Outcome:
    def __init__(self, kind, colls, locals_, changes, extra=None):
        self.kind, self.colls, self.locals, self.changes, self.extra = kind, colls, locals_, changes, extra


def explore(ip, snap, k0, dom, setup, body):
    """Every path of one iteration: [(conditions, Outcome)].  The state is restored."""
    def thunk():
        snap.restore()
        ip.path.ground(k0)
        ip.path.add(dom(k0))
        setup()
        before = Snapshot(ip)
        try:
            kind = body(k0) or "normal"
        except (Continue,):
            kind = "normal"
        except Break:
            kind = "break"
        except Return:
            kind = "return"
        except PyRaise as e:
            kind = "raise:" + e.exc.cls.__name__
        ch = before.changes()
        colls = {}
        for what, o, d in ch:
            if what == "coll":
                if o.py is not None and not o.py:
                    colls[id(o)] = (o, None)
                    continue
                lib.symbolic(ip, o)
                colls[id(o)] = (o, (o.K, o.V, o.dom, o.val))
        loc = {(id(o), d): (o, d, o.locals.get(d, Poison())) for what, o, d in ch if what == "local"}
        return Outcome(kind, colls, loc, ch)
    frames = list(ip.frames)
    handling = list(ip.handling)
    try:
        return ip.path.nested(thunk)
    finally:
        ip.frames[:] = frames
        ip.handling[:] = handling
        snap.restore()


def run(ip, src, s, frame):
    """for s.target in src: s.body"""
    view = lib.view_of(src)
    if view is None:
        raise Unsupported(f"loop over {type(src).__name__}")
    if isinstance(src, CIter):
        if src.used:
            raise Unsupported("loop over a started iterator")

    def body(k):
        ip.assign(s.target, lib.element(ip, view0, k), frame)
        ip.exec_block(s.body, frame)
    view0 = frozen_view(view)
    r = core(ip, view0, body)
    if r == "break":
        return
    ip.exec_block(s.orelse, frame)


def frozen_view(view):
    c = view.coll
    n = Coll(c.what, c.K, c.V, c.dom, c.val)
    n.py = None
    n.frozen = True
    n.origin = c
    n.repeats = getattr(c, "repeats", False)
    return View(n, view.what)


def core(ip, view, body):
    """Execute body(k) for every element; 'break' where it was left by a break."""
    p = ip.path
    c = view.coll
    dom = c.dom
    snap = Snapshot(ip, [view])
    since = p.counter
    accs = {}       # id -> (coll, K, V, hd, hv)
    origin = getattr(c, "origin", None)
    repeats = getattr(c, "repeats", False)

    def havoc_coll(o, K, V):
        hd = p.fresh_fn("hd", K.sort, z3.BoolSort())
        hv = p.fresh_fn("hv", K.sort, V.sort) if V is not None else None
        accs[id(o)] = (o, K, V, hd, hv)

    poisoned = {}

    def setup():
        for o, K, V, hd, hv in accs.values():
            o.py = None
            o.K, o.V, o.len_cache = K, V, None
            o.dom = lambda k, hd=hd: hd(k)
            o.val = (lambda k, hv=hv: hv(k)) if hv is not None else None
            if o is origin:
                # Its keys don't change while it is iterated over.
                o.dom = c.dom
        for (o, d) in poisoned.values():
            o.locals[d] = Poison()

    k0 = p.fresh("k", c.K.sort)
    # On another path with the same decisions so far, the body does the same.
    key = (ip.case, tuple(p.decisions.prefix[:p.decisions.pos]), p.counter) if p.nest == 0 else None
    cache = ip.registry.__dict__.setdefault("explored", {})
    depth = {id(f): i for i, f in enumerate(ip.frames)}
    for _ in range(6):
        if key in cache:
            paths, p.counter = cache[key]
            for _, o in paths:
                for what, i, d in o.changes:
                    f = ip.frames[i]
                    poisoned[(id(f), d)] = (f, d)
            break
        paths = explore(ip, snap, k0, dom, setup, body)
        new = False
        for conds, out in paths:
            if out.kind != "normal":
                continue
            for what, o, d in out.changes:
                if what == "coll" and id(o) not in accs:
                    st = out.colls[id(o)][1]
                    if st is None:
                        raise Unsupported("collection emptied in a loop")
                    havoc_coll(o, st[0], st[1])
                    new = True
                elif what == "local" and (id(o), d) not in poisoned:
                    poisoned[(id(o), d)] = (o, d)
                    new = True
                elif what in ("attr", "list", "other"):
                    raise Unsupported(f"a loop over a collection of unknown size modifies {what} {d or ''}")
        if not new:
            if key is not None and not accs and all(what == "local" and id(o) in depth for _, out in paths if out.kind == "normal" for what, o, d in out.changes):
                cache[key] = ([(cs, Outcome(out.kind, {}, {}, [(what, depth[id(o)], d) for what, o, d in out.changes] if out.kind == "normal" else []))
                               for cs, out in paths], p.counter)
            break
    else:
        raise Unsupported("loop")
    normal = [(cs, o) for cs, o in paths if o.kind == "normal"]
    exits = [(cs, o) for cs, o in paths if o.kind != "normal"]
    for cs, _ in paths:
        bad = [n for n in symbols(cs) if newer(n, since) and not known(n, k0, accs)]
        if bad and exits and normal:
            # What decides whether the loop is left is not a function of the state.
            raise Unsupported(f"loop exit depends on {bad}")
    E = disj(conj(cs) for cs, _ in exits) if exits else None
    if exits and not normal:
        E = z3.BoolVal(True)

    left = False
    if exits:
        w = p.fresh("exit", c.K.sort)
        visited = p.fresh_fn("visited", c.K.sort, z3.BoolSort())
        carried = any(any(n in symbols(cs) for n in names(accs)) for cs, _ in exits)
        left = p.choose([("loop left", dom(w)), ("loop not left", None)]) == 0
    if left:
        p.ground(w)
        if accs:
            if normal:
                p.forall(c.K.sort, lambda k: z3.Implies(visited(k), z3.And(dom(k), k != w)))
                effect(ip, accs, normal, k0, lambda k: visited(k), snap, since, origin, repeats)
        for o, d in poisoned.values():
            o.locals[d] = Poison()
        try:
            kind = body(w) or "normal"
        except Break:
            return "break"
        except Continue:
            kind = "normal"
        # Return and exceptions propagate from the body; a normal end isn't an exit.
        raise Infeasible()
    if exits:
        if not carried:
            p.forall(c.K.sort, lambda k: z3.Implies(dom(k), z3.Not(z3.substitute(E, (k0, k)))))
        else:
            e = E
            ok = False
            for o, K, V, hd, hv in accs.values():
                if K.sort == c.K.sort:
                    st = base_state(o, snap, K, V)
                    e = z3.substitute(e, (hd(k0), st[0](k0)))
                    if hv is not None:
                        e = z3.substitute(e, (hv(k0), st[1](k0)))
            if not (symbols([e]) & set(names(accs))) and pointwise_all(ip, accs, normal, k0, dom):
                p.forall(c.K.sort, lambda k: z3.Implies(dom(k), z3.Not(z3.substitute(e, (k0, k)))))
            else:
                ip.imprecise.append("exit condition of a loop depends on earlier iterations")
        if not normal:
            # Every iteration leaves the loop: it has none.
            p.forall(c.K.sort, lambda k: z3.Not(dom(k)))
            return None
    if accs:
        effect(ip, accs, normal, k0, dom, snap, since, origin, repeats)
    for o, d in poisoned.values():
        o.locals[d] = Poison()
    return None


def names(accs):
    return [f.name() for a in accs.values() for f in a[3:] if f is not None]


def known(name, k0, accs):
    return name == k0.decl().name() or name in names(accs)


def base_state(o, snap, K, V):
    """Membership and values of a collection before the loop."""
    for x, s in snap.items:
        if x is o:
            st, py, _ = s
            if py is not None:
                if py:
                    raise Unsupported("accumulator of mixed representation")
                return (lambda k: z3.BoolVal(False)), (lambda k: lib.default(V))
            return st[2], st[3]
    raise Unsupported("accumulator")


def after(normal, o, hd, hv, x):
    """(membership, value) of x after an iteration, as terms."""
    d, v = hd(x), hv(x) if hv is not None else None
    for conds, out in reversed(normal):
        st = out.colls.get(id(o))
        nd, nv = (hd(x), hv(x) if hv is not None else None) if st is None else (st[1][2](x), st[1][3](x) if hv is not None else None)
        cnd = conj(conds)
        d = z3.If(cnd, nd, d)
        if hv is not None:
            v = z3.If(cnd, nv, v)
    return d, v


def prove(ip, k0, dom, goal, *facts):
    p = ip.path
    m = p.mark()
    try:
        p.ground(k0)
        p.add(dom(k0))
        for f in facts:
            p.add(f)
        return p.valid(goal)
    finally:
        p.reset(m)


def pointwise_all(ip, accs, normal, k0, dom):
    for o, K, V, hd, hv in accs.values():
        x = ip.path.fresh("x", K.sort)
        d, v = after(normal, o, hd, hv, x)
        if K.sort != k0.sort():
            return False
        g = z3.And(d == hd(x), z3.Implies(hd(x), v == hv(x))) if hv is not None else d == hd(x)
        if prove(ip, k0, dom, z3.Implies(x != k0, g)) is not True:
            return False
    return True


def effect(ip, accs, normal, k0, dom, snap, since, origin, repeats):
    """Set every accumulator to its state after the loop."""
    p = ip.path
    finals = []
    for o, K, V, hd, hv in accs.values():
        if o is origin:
            finals.append((o, K, V) + pointwise(ip, o, K, V, hd, hv, normal, k0, dom, snap, since, accs, True))
            continue
        r = None
        if repeats and not once_is_enough(ip, (o, K, V, hd, hv), accs, normal, k0):
            raise Unsupported("effect of a loop over elements which may repeat")
        if K.sort == k0.sort():
            r = pointwise(ip, o, K, V, hd, hv, normal, k0, dom, snap, since, accs, False)
        if r is None and V is KInt:
            r = summation(ip, o, K, V, hd, hv, normal, k0, dom, snap, since)
        if r is None:
            r = insertion(ip, o, K, V, hd, hv, normal, k0, dom, snap, since)
        if r is None:
            raise Unsupported("effect of a loop")
        finals.append((o, K, V) + r)
    for o, K, V, d, v in finals:
        o.py = None
        o.K, o.V, o.dom, o.val, o.len_cache = K, V, d, v, None


def once_is_enough(ip, o, accs, normal, k0):
    """Does another iteration for the same element leave its entry as the first one left it?"""
    def state(o, K, V, hd, hv):
        d, v = after(normal, o, hd, hv, k0)
        return [(hd(k0), d)] + ([(hv(k0), v)] if hv is not None else [])
    o, K, V, hd, hv = o
    if K.sort != k0.sort():
        return V is None
    d, v = after(normal, o, hd, hv, k0)
    if z3.is_false(z3.simplify(d)):
        return True  # The entry is deleted.
    same = [a for a in accs.values() if a[1].sort == k0.sort()]
    other = {f.name() for a in accs.values() if a[1].sort != k0.sort() for f in a[3:] if f is not None}
    if other & set(symbols([d] + ([v] if hv is not None else []))):
        return False
    sub = [x for a in same for x in state(*a)]
    again = lambda t: z3.substitute(t, *sub)
    goal = again(d) == d
    if hv is not None:
        goal = z3.And(goal, z3.Implies(d, again(v) == v))
    return ip.path.valid(goal) is True


def clean(ip, terms, since, k0, allowed=()):
    bad = [n for n in symbols(terms) if newer(n, since) and n != k0.decl().name() and n not in allowed]
    return not bad


def pointwise(ip, o, K, V, hd, hv, normal, k0, dom, snap, since, accs, is_origin):
    p = ip.path
    x = p.fresh("x", K.sort)
    p.ground(x)
    h = (lambda k: dom(k)) if is_origin else (lambda k: hd(k))
    d, v = after(normal, o, h if is_origin else hd, hv, x)
    g = z3.And(d == h(x), z3.Implies(h(x), v == hv(x))) if hv is not None else d == h(x)
    if prove(ip, k0, dom, z3.Implies(x != k0, g)) is not True:
        if is_origin:
            raise Unsupported("collection modified while it is iterated over")
        return None
    if is_origin and prove(ip, k0, dom, d == h(x)) is not True:
        raise Unsupported("keys modified while iterating")
    d0, v0 = base_state(o, snap, K, V)
    dk, vk = after(normal, o, h if is_origin else hd, hv, k0)
    sub = []
    if not is_origin:
        sub.append((hd(k0), d0(k0)))
    if hv is not None:
        sub.append((hv(k0), v0(k0)))
    dk = z3.simplify(z3.substitute(dk, *sub)) if sub else dk
    vk = z3.simplify(z3.substitute(vk, *sub)) if vk is not None else None
    ts = [t for t in (dk, vk) if t is not None]
    if symbols(ts) & set(names(accs)) or not clean(ip, ts, since, k0):
        return None
    fd = lambda k: z3.If(dom(k), z3.substitute(dk, (k0, k)), d0(k))
    fv = (lambda k: z3.If(dom(k), z3.substitute(vk, (k0, k)), v0(k))) if vk is not None else None
    return fd, fv


def emptied(t, hd, K, V, hv):
    """The term for an accumulator which is empty."""
    for a in applications(t, hd.name()):
        t = z3.substitute(t, (a, z3.BoolVal(False)))
    if hv is not None:
        for a in applications(t, hv.name()):
            t = z3.substitute(t, (a, lib.default(V)))
    return z3.simplify(t)


def summation(ip, o, K, V, hd, hv, normal, k0, dom, snap, since):
    p = ip.path
    x = p.fresh("x", K.sort)
    p.ground(x)
    d, v = after(normal, o, hd, hv, x)
    get = lambda d, v: z3.If(d, v, z3.IntVal(0))
    g1 = get(d, v)
    delta = emptied(g1, hd, K, V, hv)
    T = emptied(d, hd, K, V, hv)
    if not clean(ip, [delta, T], since, k0, (x.decl().name(),)):
        return None
    if prove(ip, k0, dom, z3.And(g1 == get(hd(x), hv(x)) + delta, d == z3.Or(hd(x), T))) is not True:
        return None
    d0, v0 = base_state(o, snap, K, V)
    term = lambda b, k: z3.If(dom(k), z3.substitute(delta, (x, b), (k0, k)), z3.IntVal(0))
    S = total(ip, K.sort, k0.sort(), term)
    E, _ = exists(ip, K.sort, k0.sort(), lambda b, k: z3.And(dom(k), z3.substitute(T, (x, b), (k0, k))))
    return (lambda k: z3.Or(d0(k), E(k))), (lambda k: get(d0(k), v0(k)) + S(k))


def total(ip, bsort, ksort, term):
    """The function b -> sum over k of term(b, k) (for finitely many k it isn't 0)."""
    p = ip.path
    b, k = p.fresh("b", bsort), p.fresh("k", ksort)
    for bs, ks, t2, S in p.sums:
        if bs == bsort and ks == ksort:
            m = p.mark()
            try:
                p.ground(b), p.ground(k)
                if p.valid(term(b, k) == t2(b, k)) is True:
                    return S
            finally:
                p.reset(m)
    S = p.fresh_fn("SUM", bsort, z3.IntSort())
    # A sum that isn't zero has a term that isn't.
    w = p.fresh_fn("summand", bsort, ksort)
    p.forall(bsort, lambda b: z3.Implies(S(b) != 0, term(b, p.ground(w(b))) != 0))
    p.sums.append((bsort, ksort, term, S))
    return S


def exists(ip, xsort, ksort, T):
    """The predicate x -> exists k: T(x, k), with its witness."""
    p = ip.path
    EX = p.fresh_fn("EX", xsort, z3.BoolSort())
    W = p.fresh_fn("witness", xsort, ksort)
    p.forall(xsort, lambda x: z3.Implies(EX(x), T(x, p.ground(W(x)))))

    def each_k(k):
        # At the elements asked about so far, and those asked about later.
        p.forall(xsort, lambda x: z3.Implies(T(x, k), EX(x)))
        return None
    p.forall(ksort, each_k)
    return EX, W


def insertion(ip, o, K, V, hd, hv, normal, k0, dom, snap, since):
    p = ip.path
    x = p.fresh("x", K.sort)
    p.ground(x)
    d, v = after(normal, o, hd, hv, x)
    T = emptied(d, hd, K, V, hv)
    w = emptied(v, hd, K, V, hv) if v is not None else None
    if not clean(ip, [t for t in (T, w) if t is not None], since, k0, (x.decl().name(),)):
        return None
    goal = d == z3.Or(hd(x), T)
    if v is not None:
        goal = z3.And(goal, z3.Implies(T, v == w), z3.Implies(z3.And(hd(x), z3.Not(T)), v == hv(x)))
    if prove(ip, k0, dom, goal) is not True:
        return None
    d0, v0 = base_state(o, snap, K, V)
    E, W = exists(ip, K.sort, k0.sort(), lambda b, k: z3.And(dom(k), z3.substitute(T, (x, b), (k0, k))))
    # The witness is the last iteration which stored it.
    fv = (lambda k: z3.If(E(k), z3.substitute(w, (x, k), (k0, W(k))), v0(k))) if w is not None else None
    return (lambda k: z3.Or(d0(k), E(k))), fv


# ---------------------------------------------------------------- comprehensions
def comprehension(ip, what, generators, frame, elt):
    fr = Frame(None, {}, frame.globals, frame, "<comp>")
    ip.frames.append(fr)
    try:
        return comp(ip, what, generators, fr, elt)
    finally:
        ip.frames.pop()


def comp(ip, what, generators, fr, elt):
    acc = VList() if what in ("list", "gen") else ip.coll(what)
    symbolic_seq = []

    def emit():
        v = elt(fr)
        if what == "dict":
            lib.store(ip, acc, ip.resolve(v[0]), v[1])
        elif what == "set":
            lib.store(ip, acc, ip.resolve(v), None)
        elif symbolic_seq:
            lib.store(ip, symbolic_seq[0], ip.resolve(v), None)
        else:
            acc.append(v)

    def level(i):
        if i == len(generators):
            return emit()
        g = generators[i]
        src = ip.eval(g.iter, fr if i else fr.parent)
        it = lib.iterate(ip, src)

        def one(v):
            ip.assign(g.target, v, fr)
            for cnd in g.ifs:
                if not ip.truth(ip.eval(cnd, fr)):
                    return
            level(i + 1)
        if it is not None:
            for v in it:
                one(v)
            return
        view = lib.view_of(src)
        if view is None:
            raise Unsupported(f"comprehension over {type(src).__name__}")
        if what in ("list", "gen") and not symbolic_seq:
            if i or acc:
                raise Unsupported("list of unknown length")
            symbolic_seq.append(ip.coll("set"))
            fr.locals[" acc"] = symbolic_seq[0]
        v0 = frozen_view(view)
        core(ip, v0, lambda k: one(lib.element(ip, v0, k)))
    fr.locals[" acc"] = acc
    level(0)
    if symbolic_seq:
        r = symbolic_seq[0]
        r.what = "seq"
        return r
    return acc


def quantifier(ip, is_all, e, frame):
    """all(...) and any(...) over a generator."""
    if len(e.generators) != 1:
        return NotImplemented
    g = e.generators[0]
    src = ip.eval(g.iter, frame)
    it = lib.iterate(ip, src)
    fr = Frame(None, {}, frame.globals, frame, "<comp>")
    ip.frames.append(fr)
    try:
        def one(v):
            ip.assign(g.target, v, fr)
            for c in g.ifs:
                if not ip.truth(ip.eval(c, fr)):
                    return is_all
            return ip.truth(ip.eval(e.elt, fr))
        if it is not None:
            for v in it:
                if one(v) != is_all:
                    return not is_all
            return is_all
        view = lib.view_of(src)
        if view is None:
            raise Unsupported(f"quantifier over {type(src).__name__}")
        view = frozen_view(view)

        def body(k):
            if one(lib.element(ip, view, k)) != is_all:
                raise Break()
        return (not is_all) if core(ip, view, body) == "break" else is_all
    finally:
        ip.frames.pop()
