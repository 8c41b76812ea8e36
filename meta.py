"""The evidence of one run."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

TRUSTED = [
    "the symbolic interpreter of /verif/dv (the semantics it gives to the Python constructs the code uses), cross-checked against CPython by /verif/selftest.py",
    "z3 5.3 (and cvc5 1.1 where z3 gives no answer)",
    "the contracts assumed of dependencies: builtins and collections (dv/lib.py), and those listed under assumptions",
]

RULE = ("bounded stand-in: cases drawn from seeded generators over the grammar, unit systems and documents (native/gen.py, native/world.py), and from the"
        " constants of the current source; a case counts as distinct and non-trivial when it was in the domain of the property, its outcome was compared with"
        " the oracle of native/, and no equal case came before it")


def level_of(prop):
    with open(os.path.join(HERE, "MANIFEST.json")) as fh:
        for c in json.load(fh)["checks"]:
            if c["property"] == prop:
                return c["level"]
    return "other"


def evidence(prop, tier, seed, proof, res, violations, wall):
    cov = {}
    assumptions = []
    if proof:
        obs = proof["obligations"]
        cov.update(
            obligations=len(obs),
            discharged=sum(o["status"] == "discharged" for o in obs),
            checker_cmd=f"./check {prop} --proof-only --tier {tier}",
            trusted_base=TRUSTED,
            functions_under_contract=proof["functions"],
            functions_executed_in_place=proof["executed"],
            contracts_applied_at_calls=proof["applied"],
            back_ends={b: sum(b in o["backend"].split("+") for o in obs) for b in ("z3", "cvc5")},
            solver_s=round(proof["solver_s"], 2), solver_queries=proof["queries"], symbolic_paths=proof["paths"],
            per_contract=proof["contracts"],
            bounded_contracts=proof["bounded"],
            undischarged=[{"name": o["name"], "status": o["status"], "note": o.get("note", "")[:400]} for o in obs if o["status"] != "discharged"],
            obligation_names=[o["name"] for o in obs],
        )
        assumptions += proof["assumes"]
    if res:
        cov.update(evaluations=res["evaluations"], distinct_nontrivial=res["distinct"], rule=RULE, samples=res["samples"],
                   bounded_workers=res["workers"], bounded_workers_incomplete=res["incomplete"], bounded_odd=res["odd"])
        assumptions.append("what the bounded stand-in says holds for the cases it ran and no others; it is not counted among the obligations")
    assumptions += GENERAL
    cov["explanation"] = "obligations over the real functions, discharged for all inputs; the bounded native cases are additional and labelled bounded"
    return {"property": prop, "tier": tier, "seed": seed, "level": level_of(prop), "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2),
            "violations": len(violations)}


GENERAL = [
    "floating-point and decimal arithmetic is treated as exact real arithmetic in the proofs",
    "recursion and memory are unlimited (RecursionError and MemoryError are out of scope)",
]
