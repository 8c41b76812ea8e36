"""Replay a recorded violation on the real code: replay.py FILE, or --one KIND JSON."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def one(kind, data):
    from native import base, checks, world, specparse
    base.setup()
    try:
        r = checks.KINDS[kind](data)
    except (world.OutOfDomain, specparse.MayReject):
        r = None
    except (AttributeError, TypeError, KeyError, IndexError, NameError, AssertionError) as e:
        r = ("no internal error", f"{type(e).__name__}: {e}")
    if r is None:
        print("holds")
        return 0
    print("expected:", r[0])
    print("got:     ", r[1])
    return 1


def main():
    if sys.argv[1] == "--one":
        return one(sys.argv[2], json.loads(sys.argv[3]))
    with open(sys.argv[1]) as fh:
        w = json.load(fh)
    if w.get("obligation"):
        print("failed obligation:", w["obligation"]["name"])
        print(w["obligation"].get("note", ""))
        print("counterexample:", w["obligation"].get("model", "none"))
    if w.get("case"):
        print("input:", w["case"]["kind"], w["case"]["input"])
        return one(w["case"]["kind"], w["case"]["input"])
    return 1


sys.exit(main())
