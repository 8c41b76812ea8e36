"""One symbolic path, its solver, and the exploration of all paths."""
import time

from .values import *  # noqa
from .values import z3

STATS = {"solver_s": 0.0, "queries": 0, "unknown": 0}


class Decisions:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.alts = []


class Forall:
    """A fact for every term of a kind: instantiated at each ground term."""

    def __init__(self, sort, fn):
        self.sort, self.fn = sort, fn


class Path:
    def __init__(self, theory, timeout=8000, deadline=None):
        self.theory = theory
        self.timeout = timeout
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout)
        self.log = []              # everything asserted, for other back ends
        self.decisions = Decisions()
        self.conds = []            # the branch conditions taken, in order
        self.ctor = {}             # node term id -> constructor name
        self.keep = []             # keeps terms alive, so that ids stay unique
        self.foralls = []
        self.grounds = []          # (sort, term)
        self.ground_ids = set()
        self.unfolded = set()
        self.waiting = {}          # node term id -> [applications to unfold]
        self.results = []
        self.counter = 0
        self.obligations = None    # callback(name, goal, path, status, model)
        self.choices = []          # human readable description of the path
        self.sums = []
        self.lengths = []          # (sort, membership, length) of collections
        self.nest = 0

    # -- terms ------------------------------------------------------------
    def fresh(self, name, sort):
        self.counter += 1
        t = z3.Const(f"{name}!{self.counter}", sort)
        self.keep.append(t)
        return t

    def fresh_fn(self, name, *sorts):
        self.counter += 1
        return z3.Function(f"{name}!{self.counter}", *sorts)

    # -- assertions -------------------------------------------------------
    def add(self, f):
        """Assume f (with the facts of the theory about its terms)."""
        if isinstance(f, bool):
            if not f:
                f = z3.BoolVal(False)
            else:
                return
        self.scan(f)
        self.solver.add(f)
        self.log.append(f)

    def scan(self, f):
        """Unfold the specification functions applied in f."""
        stack = [f]
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in self.unfolded:
                continue
            self.unfolded.add(i)
            self.keep.append(t)
            if z3.is_quantifier(t):
                continue
            if z3.is_app(t):
                stack.extend(t.children())
                d = t.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                    for g in self.theory.unfold(self, t):
                        self.solver.add(g)
                        self.log.append(g)
                        stack.append(g)
                elif d.kind() == z3.Z3_OP_DT_CONSTRUCTOR and t.sort() == self.theory.Node:
                    for g in self.theory.constructed(self, t):
                        self.solver.add(g)
                        self.log.append(g)
                        stack.append(g)

    def wait(self, node, app):
        """Unfold app again once the constructor of node is known."""
        self.waiting.setdefault(node.get_id(), []).append(app)

    def know_ctor(self, node, name):
        self.ctor[node.get_id()] = name
        self.keep.append(node)
        for app in self.waiting.pop(node.get_id(), []):
            for g in self.theory.unfold(self, app):
                self.add(g)
        for g in self.theory.constructed(self, node):
            self.add(g)

    def forall(self, sort, fn):
        q = Forall(sort, fn)
        self.foralls.append(q)
        for s, t in list(self.grounds):
            if s == sort:
                f = fn(t)
                if f is not None:
                    self.add(f)

    def ground(self, t):
        i = t.get_id()
        if i in self.ground_ids:
            return t
        self.ground_ids.add(i)
        self.keep.append(t)
        s = t.sort()
        self.grounds.append((s, t))
        for q in list(self.foralls):
            if q.sort == s:
                f = q.fn(t)
                if f is not None:
                    self.add(f)
        return t

    # -- solving ----------------------------------------------------------
    def check(self, *extra, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("out of time")
        for e in extra:
            self.scan(e)
        t = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        try:
            r = self.solver.check(*extra)
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            if timeout:
                self.solver.set("timeout", self.timeout)
        STATS["solver_s"] += time.time() - t
        STATS["queries"] += 1
        if r == z3.unknown:
            STATS["unknown"] += 1
        return r

    def possible(self, f):
        return self.check(f, timeout=2000) != z3.unsat

    def valid(self, f):
        """Does f hold on this path?  True, False, or None when unknown."""
        f = z3.simplify(f) if z3.is_expr(f) else z3.BoolVal(bool(f))
        if z3.is_true(f):
            return True
        r = self.check(z3.Not(f))
        return True if r == z3.unsat else False if r == z3.sat else None

    # -- decisions --------------------------------------------------------
    def branch(self, cond, what=""):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        d = self.decisions
        if d.pos < len(d.prefix):
            v = d.prefix[d.pos]
        else:
            t, f = self.possible(cond), self.possible(z3.Not(cond))
            if not t and not f:
                raise Infeasible()
            v = t
            if t and f:
                d.alts.append(d.prefix[:d.pos] + [False])
            else:
                # There is no choice: the condition follows from the others.
                v = (t,)
            d.prefix.append(v)
        d.pos += 1
        forced = isinstance(v, tuple)
        if forced:
            v = v[0]
        c = cond if v else z3.Not(cond)
        if not forced:
            self.conds.append(c)
        self.add(c)
        return v

    def choose(self, options, what=""):
        """Nondeterministic choice: the index of one of the options [(label, condition)]."""
        d = self.decisions
        if d.pos < len(d.prefix):
            v = d.prefix[d.pos]
        else:
            ok = [i for i, (_, c) in enumerate(options) if c is None or self.possible(c)]
            if not ok:
                raise Infeasible()
            v = ok[0]
            for o in reversed(ok[1:]):
                d.alts.append(d.prefix[:d.pos] + [o])
            d.prefix.append(v)
        d.pos += 1
        label, c = options[v]
        self.choices.append(str(label))
        if c is not None:
            self.conds.append(c)
            self.add(c)
        return v

    # -- nesting ----------------------------------------------------------
    KEPT = ("rmaps", "dimu", "timeu", "maps", "identical", "failed")      # what contracts keep with a path

    def mark(self):
        self.solver.push()
        extra = {k: (dict(v) if isinstance(v, dict) else set(v) if isinstance(v, set) else list(v)) for k, v in self.__dict__.items() if k in self.KEPT}
        return extra, (len(self.log), len(self.conds), dict(self.ctor), len(self.foralls), len(self.grounds), set(self.ground_ids),
                set(self.unfolded), {k: list(v) for k, v in self.waiting.items()}, self.decisions, len(self.choices), len(self.sums))

    def reset(self, m):
        self.solver.pop()
        extra, m = m
        for k in self.KEPT:
            if k in extra:
                self.__dict__[k] = extra[k]
            else:
                self.__dict__.pop(k, None)
        (n, c, self.ctor, f, g, self.ground_ids, self.unfolded, self.waiting, self.decisions, ch, su) = m
        self.log = self.log[:n]
        self.conds = self.conds[:c]
        self.foralls = self.foralls[:f]
        self.grounds = self.grounds[:g]
        self.choices = self.choices[:ch]
        self.sums = self.sums[:su]
        self.ctor = dict(self.ctor)
        self.ground_ids = set(self.ground_ids)
        self.unfolded = set(self.unfolded)
        self.waiting = {k: list(v) for k, v in self.waiting.items()}

    def nested(self, thunk, limit=200):
        """Run thunk() on every sub-path; yields nothing, collects [(conds, result)]."""
        out = []
        todo = [[]]
        n = 0
        while todo:
            n += 1
            if n > limit:
                raise Unsupported("too many paths in a loop body")
            prefix = todo.pop()
            m = self.mark()
            base = len(self.conds)
            self.nest += 1
            self.decisions = Decisions(prefix)
            try:
                try:
                    r = thunk()
                    out.append((list(self.conds[base:]), r))
                except Infeasible:
                    pass
            finally:
                alts = self.decisions.alts
                self.nest -= 1
                self.reset(m)
            todo.extend(alts)
        return out


class Obligations:
    """The obligations of one contract, over all its paths."""

    def __init__(self, contract):
        self.contract = contract
        self.items = {}

    def record(self, name, status, seconds, backend="z3", note="", model=None, hints=None, path=None):
        o = self.items.setdefault(name, {"name": f"{self.contract}: {name}", "status": "discharged", "paths": 0, "seconds": 0.0,
                                         "backend": backend, "note": "", "hints": []})
        o["paths"] += 1
        o["seconds"] += seconds
        if backend not in o["backend"].split("+"):
            o["backend"] += "+" + backend
        rank = {"discharged": 0, "undecided": 1, "refuted": 2}
        if rank[status] > rank[o["status"]]:
            o["status"] = status
            o["note"] = note
            o["model"] = model
            o["path"] = path
        if hints:
            o["hints"] += hints[:4]
