"""One worker process of the bounded checks: python -m native.worker PROP SEED BUDGET OUT [SEEDS-FILE]"""
import json
import sys
import time


def main():
    prop, seed, budget, out = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    from native import base, checks, mine
    base.setup()
    run = base.Run(prop, seed, budget, mine.constants())

    def write(done):
        with open(out + ".tmp", "w") as fh:
            json.dump({"evaluations": run.evaluations, "distinct": len(run.distinct), "samples": run.samples,
                       "failures": run.failures, "odd": run.odd, "done": done}, fh, default=str)
        import os
        os.replace(out + ".tmp", out)
    write(False)
    fail = run.fail

    def fail_and_write(*a):
        fail(*a)
        write(False)
    run.fail = fail_and_write
    if len(sys.argv) > 5:
        with open(sys.argv[5]) as fh:
            hints = json.load(fh)
        mine.hints(run, hints)
    try:
        checks.CHECKS[prop](run)
    except BaseException as e:
        run.odd.append(f"generator stopped: {type(e).__name__}: {e}")
        write(True)
        raise
    write(True)


main()
