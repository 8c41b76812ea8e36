"""Verify one contract: python -B -m dv.one CONTRACT OUT SECONDS [QUERY-MS]"""
import json
import os
import resource
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

from dv.values import *  # noqa
from dv.values import z3
from dv import interp, path as pathmod, theory as theorymod, registry as regmod, frame  # noqa


class Env:
    """What all paths of one contract share."""

    def __init__(self, seconds, timeout):
        import pyudunits2._expr.graph as graph
        self.root = os.path.realpath(REPO)
        if not os.path.realpath(graph.__file__).startswith(self.root):
            raise SystemExit("pyudunits2 is not the one of the repository")
        self.theory = theorymod.Theory(graph)
        self.source = interp.Source(self.root)
        import contracts
        self.contracts, self.externals = contracts.load(self.theory)
        self.registry = regmod.Registry(self.contracts, self.externals)
        self.deadline = time.time() + seconds
        self.timeout = timeout


def cvc5_valid(path, goal, seconds=20):
    """A second opinion on a goal z3 can't decide."""
    s = z3.Solver()
    for f in path.log:
        s.add(f)
    s.add(z3.Not(goal))
    text = s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write("(set-logic ALL)\n" + text)
        name = fh.name
    try:
        p = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={int(seconds * 1000)}", name], capture_output=True, text=True, timeout=seconds + 10)
        out = p.stdout.strip().split("\n")[-1] if p.stdout.strip() else ""
    except (subprocess.TimeoutExpired, OSError):
        out = ""
    finally:
        os.unlink(name)
    return {"unsat": True, "sat": False}.get(out)


def terms_of(fs, sorts):
    seen, out, stack = set(), [], list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.sort() in sorts and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_CONSTRUCTOR):
                out.append(t)
            stack.extend(t.children())
    return out


def prove(ip, name, goal):
    """An obligation: goal has to hold on this path."""
    p = ip.path
    t = time.time()
    goal = regmod.zbool(goal)
    v = p.valid(goal)
    backend = "z3"
    note = ""
    model = None
    for _ in range(2):
        if v is not False or not p.foralls:
            break
        sorts = {q.sort for q in p.foralls}
        before = len(p.grounds)
        for u in terms_of(p.log + [goal], sorts)[:80]:
            p.ground(u)
        if len(p.grounds) == before:
            break
        v = p.valid(goal)
    if v is None:
        v = cvc5_valid(p, goal)
        backend = "cvc5"
    status = "discharged" if v is True else "refuted" if v is False else "undecided"
    hints = []
    if v is False:
        if ip.imprecise:
            status, note = "undecided", "; ".join(ip.imprecise[:3])
        elif backend == "z3":
            p.solver.push()
            p.solver.add(z3.Not(goal))
            if p.solver.check() == z3.sat:
                model = p.solver.model()
            p.solver.pop()
        if status == "refuted":
            note = "on the path " + " / ".join(p.choices + [str(c).replace("\n", " ")[:160] for c in p.conds][:12])
            if model is not None:
                try:
                    hints = ip.contract.hints(ip, model) or []
                except Exception:
                    hints = []
                model = str(model)[:3000]
    elif v is None:
        note = "not decided within the time limit"
    ip.record.record(name, status, time.time() - t, backend, note, model, hints)
    return status == "discharged"


def verify(env, c):
    rec = pathmod.Obligations(c.name)
    t0 = time.time()
    applied, inlined, npaths = set(), set(), 0
    reached = set()
    undecided = []
    try:
        c.resolve()
    except Unsupported as e:
        rec.record("found in the source", "undecided", 0, note=str(e))
        return finish(c, rec, t0, applied, inlined, 0)
    for case in c.cases:
        todo = [[]]
        first = True
        while todo:
            prefix = todo.pop()
            if time.time() > env.deadline or npaths > 3000:
                rec.record("all paths explored", "undecided", 0, note="out of time")
                return finish(c, rec, t0, applied, inlined, npaths)
            p = pathmod.Path(env.theory, timeout=env.timeout, deadline=env.deadline)
            p.decisions = pathmod.Decisions(prefix)
            ip = interp.Interp(p, env.theory, env.source, env.registry)
            ip.contract, ip.record, ip.printed, ip.case = c, rec, [], case
            ip.prove = lambda name, goal, ip=ip: prove(ip, name, goal)
            try:
                thunk = c.start(ip, case)
                if first:
                    first = False
                    r = p.check()
                    if r == z3.unsat:
                        rec.record(f"precondition satisfiable{'' if case is None else f' ({case})'}", "undecided", 0, note="the precondition is contradictory")
                        break
                snap = frame.snapshot(ip, thunk) if c.frame else None
                ip.entry = (c, None)
                try:
                    result = thunk()
                except PyRaise as e:
                    npaths += 1
                    if snap is not None:
                        frame.check(ip, snap)
                    c.raised(ip, e.exc)
                else:
                    npaths += 1
                    if snap is not None:
                        frame.check(ip, snap)
                    c.ensure(ip, result)
                if case not in reached and p.check() != z3.unsat:
                    reached.add(case)
            except Infeasible:
                pass
            except Unsupported as e:
                tb = traceback.extract_tb(e.__traceback__)
                undecided.append(str(e))
                rec.record("within reach of the verifier", "undecided", 0, note=f"{e} (path {' / '.join(p.choices)[:200]})")
            except (interp.Return, interp.Break, interp.Continue):
                raise
            except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, NotImplementedError, z3.Z3Exception, RecursionError) as e:
                # A construct the interpreter itself doesn't cope with.
                tb = traceback.extract_tb(e.__traceback__)[-1]
                rec.record("within reach of the verifier", "undecided", 0, note=f"engine: {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
                if os.environ.get("DV_DEBUG"):
                    traceback.print_exc()
            applied |= set(ip.applied)
            inlined |= set(ip.calls)
            todo.extend(p.decisions.alts)
    if c.covers:
        for case in c.cases:
            ok = case in reached
            rec.record("some execution reaches the postcondition" + ("" if case is None else f" ({case})"), "discharged" if ok else "undecided", 0,
                       note="" if ok else "no path does: nothing would be proved")
    if not rec.items:
        rec.record("verified", "undecided", 0, note="no obligation was generated")
    return finish(c, rec, t0, applied, inlined, npaths)


def finish(c, rec, t0, applied, inlined, npaths):
    return {"contract": c.name, "obligations": list(rec.items.values()), "paths": npaths, "seconds": time.time() - t0,
            "solver_s": pathmod.STATS["solver_s"], "queries": pathmod.STATS["queries"], "applied": sorted(applied), "executed": sorted(inlined),
            "assumes": list(c.assumes), "bounded": c.bounded, "props": list(c.props), "function": f"{c.module}:{(c.cls + '.') if c.cls else ''}{c.method}"}


def main():
    name, out, seconds = sys.argv[1], sys.argv[2], float(sys.argv[3])
    timeout = int(sys.argv[4]) if len(sys.argv) > 4 else 8000
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    env = Env(seconds, timeout)
    [c] = [c for c in env.contracts if c.name == name]
    r = verify(env, c)
    if out == "-":
        print(f"{r['contract']}: {r['paths']} paths, {r['seconds']:.1f} s ({r['solver_s']:.1f} s, {r['queries']} queries)")
        for o in r["obligations"]:
            print(f"  {o['status']:10} {o['name']} [{o['paths']} paths, {o['seconds']:.1f} s {o['backend']}] {o['note']}")
            if o.get("model") and os.environ.get("DV_DEBUG"):
                print(o["model"])
            if o.get("hints"):
                print("     hints:", o["hints"][:3])
        print("  applied:", r["applied"])
        print("  executed:", r["executed"])
        return
    with open(out + ".tmp", "w") as fh:
        json.dump(r, fh, default=str)
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main()
