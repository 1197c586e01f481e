#!/usr/bin/env python3
"""check.py PROPERTY [TIER]: decides one property for the code in /repo."""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.build import VERIF, InfraError
from vlib.engine import Run, Violation
from vlib import props


def evidence(run, spec, violations):
    c = run.cov
    cov = {
        "evaluations": c["evaluations"],
        "distinct_nontrivial": len(c["distinct"]),
        "rule": spec["rule"],
        "samples": c["samples"],
        "states": c["states"],
        "transitions": c["transitions"],
        "traces_validated_against_impl": c["traces"],
        "explanation": json.dumps({"events": c["events"], "responses_per_operation": c["ops"], "faults_injected": c["faults"],
                                   "models": c["mc"], "foreign": c["foreign"], "notes": c["notes"]}),
        "exhaustive": False,
    }
    d = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": spec["level"], "coverage": cov,
         "assumptions": spec["assumptions"], "wall_s": round(run.elapsed(), 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", run.prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        # nothing has to be prepared: make sure that the harness builds
        run = Run("setup", "quick", 0)
        try:
            run.setup()
            print("the harness builds")
            return 0
        finally:
            run.close()
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.PROPS[prop]
    run = Run(prop, tier, seed)
    try:
        run.setup()
        spec["run"](run)
        evidence(run, spec, 0)
        print("%s: held on %d executions (%d events), %d model states, %.1f s" % (
            prop, run.cov["traces"], run.cov["events"], run.cov["states"], run.elapsed()))
        for n in run.cov["notes"]:
            print("note:", n)
        return 0
    except Violation as v:
        evidence(run, spec, 1)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except InfraError as e:
        print("ERROR:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())
