"""The contracts on the functions of /repo, and the properties they decide."""
import importlib

MODULES = ["visitors", "units", "system", "grammar", "printing", "unit_texts", "values", "converter", "loader", "cli", "history"]

FRAMES = "P13"      # which the frame conditions of all contracts are obligations of


def adjust(prop, results):
    """Keep the obligations which decide the property (results: contract -> its results).

    What a function answers, as against whether it depends on what happened before, isn't P13's:
    there, a function which fails its own contract leaves the histories it is part of undecided."""
    broken = {n for n, r in results.items() if not n.startswith("history:") and any(": frame: " not in o["name"] and o["status"] != "discharged" for o in r["obligations"])}
    for n, r in results.items():
        keep = []
        for o in r["obligations"]:
            frame = ": frame: " in o["name"]
            if prop != FRAMES:
                if not frame:
                    keep.append(o)
                continue
            if not (frame or prop in r.get("props", [prop]) or o["status"] == "undecided"):
                continue
            if o["status"] == "refuted" and not frame and (not n.startswith("history:") or n.removeprefix("history: then ") in broken or not postcondition(o)):
                o = dict(o, status="undecided", note="a function which fails its own contract: whether its result depends on the history isn't decided. " + o["note"], hints=[])
            keep.append(o)
        r["obligations"] = keep


def postcondition(o):
    """As against the precondition of a callee."""
    return " is called on: " not in o["name"]


def load(theory):
    contracts, externals = [], []
    for m in MODULES:
        try:
            mod = importlib.import_module("contracts." + m)
        except ModuleNotFoundError as e:
            if e.name == "contracts." + m:
                continue
            raise
        c, e = mod.load(theory)
        contracts += c
        externals += e
    names = [c.name for c in contracts]
    assert len(set(names)) == len(names), names
    return contracts, externals


def names_for(prop):
    """(name, properties) without building the theory."""
    out = []
    for m in MODULES:
        try:
            mod = importlib.import_module("contracts." + m)
        except ModuleNotFoundError as e:
            if e.name == "contracts." + m:
                continue
            raise
        for c in mod.CONTRACTS:
            if prop in c.props or prop == FRAMES and c.frame and c.props:
                out.append(c.name)
    return out
