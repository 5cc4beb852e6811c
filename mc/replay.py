"""Re-runs the violating cases of a replay file, one by one, in this process."""
import json
import sys

from . import harness


def main(path):
    rep = json.load(open(path))
    mod = harness.load(rep["property"])
    bad = 0
    done = False
    for v in rep["violations"]:
        if v["case"] is None:
            continue
        if not done:
            harness.symbol_order(v.get("order", "asc"))
            harness.quiet_threads()
            done = True
        case = harness.tuples(v["case"])
        print(json.dumps(v["case"]))
        if hasattr(mod, "explain"):
            print(mod.explain(case))
        what = harness.run_one(mod, case, harness.Ctx(rep["tier"], 1, "asc"))
        print("   ", what)
        bad += what is not None
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
