"""Decide one property: ./check PROP [--tier quick|thorough]

The deciding step is the deductive one (dv/, contracts/): every obligation generated from
the current source of /repo has to be discharged.  The bounded native checks (native/) run
alongside: they stand in where a function is outside the verifier's reach, look for a
failing input when an obligation fails, and watch the assumed contracts (ANTLR, sympy).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = sys.executable


def known_findings(prop):
    """known: property=ID kind=KIND input=JSON :: what fails"""
    found = []
    with open(os.path.join(HERE, "known_findings.txt"), encoding="utf8") as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith(f"known: property={prop} "):
                continue
            head, _, what = line.partition(" :: ")
            kind = head.split("kind=", 1)[1].split(" ", 1)[0]
            data = json.loads(head.split("input=", 1)[1])
            found.append((kind, data, what))
    return found


class Native:
    """The bounded checks, in worker processes."""

    def __init__(self, prop, seed, budget, jobs, scratch, tag="n", hints=None):
        self.procs = []
        self.scratch = scratch
        for j in range(jobs):
            out = os.path.join(scratch, f"{tag}{j}.json")
            args = [PY, "-B", "-m", "native.worker", prop, str(seed * 1000 + j), str(budget), out]
            if hints:
                h = os.path.join(scratch, f"{tag}{j}-hints.json")
                with open(h, "w") as fh:
                    json.dump(hints, fh)
                args.append(h)
            p = subprocess.Popen(args, cwd=HERE, stdout=subprocess.DEVNULL, start_new_session=True,
                                 stderr=open(os.path.join(scratch, f"{tag}{j}.err"), "w"))
            self.procs.append((p, out))
        self.deadline = time.time() + budget * 1.5 + 60

    def results(self):
        total = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "odd": [], "workers": len(self.procs), "incomplete": 0}
        for p, out in self.procs:
            try:
                p.wait(max(0.1, self.deadline - time.time()))
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            try:
                with open(out) as fh:
                    r = json.load(fh)
            except (OSError, ValueError):
                total["incomplete"] += 1
                with open(out[:-5] + ".err") as fh:
                    total["odd"].append("worker stopped: " + fh.read()[-300:])
                continue
            total["evaluations"] += r["evaluations"]
            total["distinct"] += r["distinct"]
            total["samples"] += r["samples"][:3]
            total["failures"] += r["failures"]
            total["odd"] += r["odd"]
            total["incomplete"] += not r["done"]
        total["samples"] = total["samples"][:8]
        total["odd"] = total["odd"][:8]
        return total


def replay_one(kind, data, seconds=60):
    """The outcome of one recorded input on the real code, in a process of its own."""
    p = subprocess.run([PY, "-B", os.path.join(HERE, "replay.py"), "--one", kind, json.dumps(data)],
                       cwd=HERE, capture_output=True, text=True, timeout=seconds)
    return p.returncode, p.stdout.strip()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--native-only", action="store_true")
    ap.add_argument("--proof-only", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    thorough = tier == "thorough"
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        native = None
        if not a.proof_only:
            native = Native(prop, seed, 420 if thorough else 45, 4 if thorough else 3, scratch)
        proof = None
        if not a.native_only:
            import dv.driver
            proof = dv.driver.verify(prop, thorough, scratch)
        res = native.results() if native else None
        rc = report(prop, tier, seed, t0, proof, res, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def report(prop, tier, seed, t0, proof, res, scratch):
    import meta
    violations = []
    known = known_findings(prop)
    for kind, data, what in known:
        try:
            rc, out = replay_one(kind, data)
        except subprocess.TimeoutExpired:
            rc, out = 1, "timeout"
        if rc == 1:
            print(f"KNOWN-FINDING: property={prop} {what}")
    suppressed = {(k, json.dumps(d, sort_keys=True, default=str)) for k, d, _ in known}
    failures = []
    for f in (res or {"failures": []})["failures"]:
        if (f["kind"], json.dumps(f["input"], sort_keys=True, default=str)) not in suppressed:
            failures.append(f)
    if proof:
        refuted = [o for o in proof["obligations"] if o["status"] == "refuted"]
        if refuted and not failures and res is not None:
            # Look for a failing input, starting from the verifier's counterexamples.
            hints = [h for o in refuted for h in o.get("hints", [])]
            more = Native(prop, seed + 7919, 60, 8, scratch, tag="h", hints=hints).results()
            for k in ("evaluations", "distinct"):
                res[k] += more[k]
            failures += [f for f in more["failures"] if (f["kind"], json.dumps(f["input"], sort_keys=True, default=str)) not in suppressed]
        if refuted and not failures:
            for o in refuted[:3]:
                path = write_replay(prop, {"obligation": o})
                violations.append((path, " no-failing-input-found"))
    else:
        refuted = []
    failures = reproducible_first(failures)
    for f in failures[:3]:
        path = write_replay(prop, {"case": f, "obligation": refuted[0] if refuted else None})
        violations.append((path, ""))
    ev = meta.evidence(prop, tier, seed, proof, res, violations, time.time() - t0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if proof:
        n = {}
        for o in proof["obligations"]:
            n[o["status"]] = n.get(o["status"], 0) + 1
        print(f"{prop}: obligations {n}, {proof['solver_s']:.1f} s in the solver")
        for o in proof["obligations"]:
            if o["status"] != "discharged":
                print(f"  {o['status']}: {o['name']}: {o.get('note', '')[:300]}")
    if res:
        print(f"{prop}: bounded native checks: {res['evaluations']} cases, {res['distinct']} distinct, {len(failures)} failures")
        for o in res["odd"]:
            print("  note:", o[:200])
    for path, words in violations:
        print(f"VIOLATION property={prop} replay={path}{words}")
    sys.stdout.flush()
    if not violations and not (proof and any(o["status"] == "discharged" for o in proof["obligations"])) and not (res and res["evaluations"]):
        print(f"{prop}: nothing was discharged and nothing was run: no answer")
        return 2
    return 1 if violations else 0


def reproducible_first(failures):
    """Failures which show again in a fresh process come first; others depend on what was done before in theirs."""
    again, rest = [], []
    for f in failures[:12]:
        try:
            rc, _ = replay_one(f["kind"], f["input"])
        except subprocess.TimeoutExpired:
            rc = 0
        (again if rc == 1 else rest).append(f)
        if len(again) == 3:
            break
    return again + rest + failures[12:]


def write_replay(prop, what):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib
    text = json.dumps(dict(what, property=prop), indent=1, default=str)
    path = os.path.join(d, f"{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as fh:
        fh.write(text)
    return path


if __name__ == "__main__":
    main()
