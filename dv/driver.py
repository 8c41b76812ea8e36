"""Verify all contracts of one property, each in a process of its own."""
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def verify(prop, thorough, scratch, jobs=5):
    import contracts
    names = contracts.names_for(prop)
    each = 600 if thorough else 150
    query = 20000 if thorough else 6000
    deadline = time.time() + (2400 if thorough else 330)
    todo = list(names)
    running = []
    out = {"obligations": [], "contracts": [], "solver_s": 0.0, "queries": 0, "paths": 0, "applied": set(), "executed": set(), "assumes": [],
           "bounded": [], "functions": []}
    results = {}
    try:
        while todo or running:
            while todo and len(running) < jobs and time.time() < deadline:
                n = todo.pop(0)
                f = os.path.join(scratch, f"proof-{len(results) + len(running)}-{abs(hash(n))}.json")
                p = subprocess.Popen([sys.executable, "-B", "-m", "dv.one", n, f, str(each), str(query)], cwd=HERE, start_new_session=True,
                                     stdout=subprocess.DEVNULL, stderr=open(f + ".err", "w"))
                running.append((n, f, p, time.time()))
            if todo and not running and time.time() >= deadline:
                break
            time.sleep(0.05)
            for item in list(running):
                n, f, p, t = item
                late = time.time() - t > each + 60 or time.time() > deadline + each
                if p.poll() is None and not late:
                    continue
                running.remove(item)
                kill(p)
                try:
                    with open(f) as fh:
                        results[n] = json.load(fh)
                except (OSError, ValueError):
                    with open(f + ".err") as fh:
                        err = fh.read()[-400:]
                    results[n] = failed(n, "the verifier did not finish: " + (err.strip().split("\n")[-1] if err else "out of time"))
    finally:
        for n, f, p, t in running:
            kill(p)
    results = {n: results.get(n) or failed(n, "out of time") for n in names}
    contracts.adjust(prop, results)
    for n in names:
        r = results[n]
        out["obligations"] += r["obligations"]
        out["contracts"].append({k: r.get(k) for k in ("contract", "function", "paths", "seconds", "solver_s", "queries", "bounded")} |
                                {"obligations": len(r["obligations"]), "discharged": sum(o["status"] == "discharged" for o in r["obligations"])})
        out["solver_s"] += r.get("solver_s", 0.0)
        out["queries"] += r.get("queries", 0)
        out["paths"] += r.get("paths", 0)
        out["applied"] |= set(r.get("applied", ()))
        out["executed"] |= set(r.get("executed", ()))
        for a in r.get("assumes", ()):
            if a not in out["assumes"]:
                out["assumes"].append(a)
        if r.get("bounded"):
            out["bounded"].append(f"{n}: {r['bounded']}")
        if r.get("function"):
            out["functions"].append(r["function"])
    out["applied"] = sorted(out["applied"])
    out["executed"] = sorted(out["executed"])
    return out


def failed(n, why):
    return {"contract": n, "obligations": [{"name": f"{n}: verified", "status": "undecided", "paths": 0, "seconds": 0.0, "backend": "", "note": why, "hints": []}]}


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
