"""The engine against CPython: every function of selftests/corpus.py is executed symbolically
(all its arguments unknown), and for each of a set of arguments exactly one of the symbolic
paths has to be possible, with the outcome CPython gives.

Also: broken copies of the code (selftests/broken.json) have to be refuted by the contract
which speaks about them.

selftest.py [corpus|broken] [NAME...]
"""
import inspect
import itertools
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from decimal import Decimal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, HERE + "/selftests")
sys.setrecursionlimit(20000)

INTS = [-7, -4, -2, -1, 0, 1, 2, 3, 4, 5, 7, 12]
STRS = ["", "a", "b", "ab", "abx", "zz", "y", "xy", "abcy"]
DECS = [Decimal("-1.5"), Decimal("0"), Decimal("2"), Decimal("3.25")]
DICTS = [{}, {"a": 1}, {"a": 0}, {"b": -2, "a": 2}, {"a": 3, "b": 3}]
SETS = [set(), {"a"}, {"b", "a"}, {"zz"}]


class Stub:
    """The contract of no function."""
    name, cases, bounded, assumes, covers = "selftest", (None,), None, (), False

    def hints(self, ip, m):
        return []


def outcome(f, args):
    import copy
    try:
        return "value", f(*copy.deepcopy(args))
    except Exception as e:
        return "raise", type(e).__name__


def explore(fn):
    """[(path, condition, outcome)] of all symbolic paths."""
    from dv import one, interp, path as pathmod, registry as regmod, theory as theorymod  # noqa
    from dv.values import z3, SInt, SStr, SReal, KStr, KInt, Coll, OptStr, SNum, Num, Unsupported, Infeasible, PyRaise  # noqa
    import pyudunits2._expr.graph as graph
    if not hasattr(explore, "theory"):
        explore.theory = theorymod.Theory(graph)
    th = explore.theory
    source = interp.Source(os.path.realpath(HERE + "/selftests"))
    out, todo = [], [[]]
    while todo:
        prefix = todo.pop()
        p = pathmod.Path(th, timeout=5000)
        p.decisions = pathmod.Decisions(prefix)
        ip = interp.Interp(p, th, source, regmod.Registry([], []), repo_package="corpus")
        ip.contract, ip.case, ip.printed = Stub(), None, []
        ip.prove = lambda *a: True
        args, binds = [], []
        for q in inspect.signature(fn).parameters.values():
            a, b = symbolic(ip, q)
            args.append(a)
            binds.append(b)
        try:
            r = ("value", ip.call_function(fn, args, {}))
        except PyRaise as e:
            r = ("raise", e.exc.cls.__name__)
        except Infeasible:
            r = None
        todo.extend(p.decisions.alts)
        if r is not None:
            out.append((ip, binds, r))
    return out


def symbolic(ip, q):
    """(argument, function giving the conditions under which it is a given value)"""
    from dv.values import z3, SInt, SStr, SReal, KStr, KInt, Coll, OptStr, SNum, Num
    from dv.interp import SOptStr
    p = ip.path
    a = q.annotation
    if a is int:
        t = p.fresh(q.name, z3.IntSort())
        return SInt(t), lambda v: [t == v]
    if a is str:
        t = p.fresh(q.name, z3.StringSort())
        return SStr(t), lambda v: [t == z3.StringVal(v)]
    if a is Decimal:
        t = p.fresh(q.name, z3.RealSort())
        return SReal(t), lambda v: [t == ip.real(v)]
    if a == "num":
        t = p.fresh(q.name, Num)
        return SNum(t), lambda v: [t == (Num.IntV(z3.IntVal(v)) if isinstance(v, int) else Num.DecV(ip.real(v)))]
    if a in ("dict", "set"):
        n = 2
        ks = [p.fresh(f"{q.name}_key{i}", z3.StringSort()) for i in range(n)]
        ps = [p.fresh(f"{q.name}_has{i}", z3.BoolSort()) for i in range(n)]
        vs = [p.fresh(f"{q.name}_value{i}", z3.IntSort()) for i in range(n)]
        p.add(ks[0] != ks[1])
        dom = lambda k: z3.Or(*[z3.And(x, k == y) for x, y in zip(ps, ks)])
        val = lambda k: z3.If(k == ks[0], vs[0], vs[1])
        c = Coll(a, KStr, KInt if a == "dict" else None, dom, val if a == "dict" else None)
        c.py = None
        for k in ks:
            p.ground(k)

        def cond(v):
            items = sorted(v.items()) if a == "dict" else [(x, 0) for x in sorted(v)]
            f = []
            for i in range(n):
                f.append(ps[i] == (i < len(items)))
                f.append(ks[i] == z3.StringVal(items[i][0] if i < len(items) else f"absent {i}"))
                f.append(vs[i] == (items[i][1] if i < len(items) else 0))
            return f
        return c, cond
    # Optional[str]
    t = p.fresh(q.name, OptStr)
    return SOptStr(t), lambda v: [t == (OptStr.NoStr if v is None else OptStr.SomeStr(z3.StringVal(v)))]


def same(ip, r, v):  # noqa: C901
    """The condition that a symbolic result is the value."""
    from dv.values import z3, Sym, Coll, SObj, SInt, SReal, SStr, SBool, SNum, Opaque
    from dv.interp import VList, SOptStr
    from dv import lib
    if isinstance(r, (SNum, SOptStr)):
        r = ip.resolve(r)
    if isinstance(r, Opaque):
        return z3.BoolVal(True)     # nothing is claimed about it
    if isinstance(v, bool):
        if isinstance(r, bool):
            return z3.BoolVal(r == v)
        if isinstance(r, SBool):
            return r.t == v
        return z3.BoolVal(False)
    if isinstance(v, int):
        if isinstance(r, bool) or not isinstance(r, (int, SInt)):
            return z3.BoolVal(False)
        return (r.t if isinstance(r, SInt) else z3.IntVal(r)) == v
    if isinstance(v, Decimal):
        if not isinstance(r, (Decimal, SReal)):
            return z3.BoolVal(False)
        return ip.lower(r, lib.KReal) == ip.real(v)
    if isinstance(v, str):
        if not isinstance(r, (str, SStr)):
            return z3.BoolVal(False)
        return (r.t if isinstance(r, SStr) else z3.StringVal(r)) == z3.StringVal(v)
    if v is None:
        return z3.BoolVal(r is None)
    if isinstance(v, (list, tuple)):
        if not isinstance(r, (list, tuple)) or isinstance(v, tuple) != isinstance(r, tuple) or len(r) != len(v):
            return z3.BoolVal(False)
        return z3.And(*[same(ip, x, y) for x, y in zip(r, v)]) if v else z3.BoolVal(True)
    if isinstance(v, (dict, set, frozenset)):
        if not isinstance(r, Coll) or r.what not in ("dict", "set") or (r.what == "dict") != isinstance(v, dict):
            return z3.BoolVal(False)
        if r.py is not None:
            if set(r.py) != set(v):
                # keys may be symbolic
                return z3.BoolVal(False) if all(not isinstance(k, Sym) for k in r.py) else None
            return z3.And(z3.BoolVal(True), *[same(ip, r.py[k], v[k]) for k in v]) if isinstance(v, dict) else z3.BoolVal(True)
        lib.symbolic(ip, r)
        x = z3.String("any")
        f = [r.dom(z3.StringVal(k)) for k in v]
        for k in ["a", "b", "ab", "zz", "", "q", "absent 0", "absent 1"]:
            if k not in v:
                f.append(z3.Not(r.dom(z3.StringVal(k))))
        if isinstance(v, dict):
            f += [same(ip, r.V.lift(r.val(z3.StringVal(k))), v[k]) for k in v]
        return z3.And(*f) if f else z3.BoolVal(True)
    raise TypeError(v)


def check(name, fn):
    from dv.values import z3, Unsupported
    rng = random.Random(name)
    pools = []
    for q in inspect.signature(fn).parameters.values():
        pools.append({int: INTS, str: STRS, Decimal: DECS, "num": INTS[:3] + DECS, "dict": DICTS, "set": SETS}.get(q.annotation, STRS[:3] + [None]))
    try:
        paths = explore(fn)
    except Unsupported as e:
        return "unsupported", str(e)
    combos = list(itertools.product(*pools))
    rng.shuffle(combos)
    n = 0
    for args in combos[:40]:
        kind, v = outcome(fn, list(args))
        hits = []
        for ip, binds, r in paths:
            p = ip.path
            f = [c for b, a in zip(binds, args) for c in b(a)]
            p.solver.push()
            for c in f:
                p.solver.add(c)
            res = p.solver.check()
            if res == z3.sat:
                hits.append((ip, r))
                if r[0] != kind or (kind == "raise" and r[1] != v):
                    return "wrong", f"{args}: {kind} {v!r} in CPython, {r} here"
                if kind == "value":
                    try:
                        goal = same(ip, r[1], v)
                    except Unsupported as e:
                        return "unsupported", f"comparing the results: {e}"
                    if goal is None or p.solver.check(z3.Not(goal)) != z3.unsat:
                        return "wrong", f"{args}: {v!r} in CPython, {r[1]!r} here"
            elif res == z3.unknown:
                return "unknown", f"{args}"
            p.solver.pop()
        if len(hits) != 1:
            return "wrong", f"{args}: {len(hits)} paths"
        n += 1
    return "ok", f"{len(paths)} paths, {n} arguments"


def corpus(names):
    import corpus as mod
    bad = unsup = 0
    for name, fn in vars(mod).items():
        if not inspect.isfunction(fn) or fn.__module__ != "corpus" or (names and name not in names):
            continue
        ps = inspect.signature(fn).parameters.values()
        if any(q.annotation is q.empty for q in ps):
            continue
        try:
            status, what = check(name, fn)
        except Exception as e:
            if names:
                raise
            status, what = "unsupported", f"engine: {type(e).__name__} {e}"
        bad += status in ("wrong", "unknown")
        unsup += status == "unsupported"
        print(f"{status:12}{name}: {what}")
    print(f"{bad} wrong, {unsup} outside the engine's reach")
    return bad


def broken(names):
    with open(HERE + "/selftests/broken.json") as fh:
        cases = json.load(fh)
    bad = 0
    d = tempfile.mkdtemp(prefix="verif-broken-")
    try:
        subprocess.run(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), d + "/repo"], check=True)
        for c in cases:
            if names and c["contract"] not in names:
                continue
            path = f"{d}/repo/{c['file']}"
            with open(path) as fh:
                src = fh.read()
            if c["old"] not in src:
                print(f"missing     {c['contract']}: {c['old']!r} isn't in {c['file']}")
                bad += 1
                continue
            with open(path, "w") as fh:
                fh.write(src.replace(c["old"], c["new"], 1))
            r = subprocess.run([sys.executable, "-B", "-m", "dv.one", c["contract"], d + "/out.json", "120"], cwd=HERE,
                               env=dict(os.environ, VERIF_REPO=d + "/repo"), capture_output=True, text=True)
            with open(path, "w") as fh:
                fh.write(src)
            try:
                with open(d + "/out.json") as fh:
                    obs = json.load(fh)["obligations"]
                os.unlink(d + "/out.json")
            except OSError:
                obs = []
                print(r.stderr[-300:])
            ref = [o["name"] for o in obs if o["status"] == "refuted"]
            print(f"{'ok' if ref else 'MISSED':12}{c['contract']}: {c['old'][:60]!r} -> {c['new'][:60]!r}: {ref[:1]}")
            bad += not ref
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print(f"{bad} broken copies not refuted")
    return bad


if __name__ == "__main__":
    what = sys.argv[1] if len(sys.argv) > 1 else "all"
    n = 0
    if what in ("corpus", "all"):
        n += corpus(sys.argv[2:])
    if what in ("broken", "all"):
        n += broken(sys.argv[2:])
    sys.exit(1 if n else 0)
