"""Writes MANIFEST.json from the properties which have a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.props import PROPS

TECH = "TLA+ specification checked with TLC; executions of the real code recorded and validated against it by TLC (trace validation)"
NOTE = ("Every recorded response of the real code is decided by TLC against the specification, which is itself checked for its own "
        "invariants over finite universes. Bounded by the generated and enumerated executions; trusts the specification, TLC and the "
        "harness' translation of messages.")
checks = []
for pid in sorted(PROPS):
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                   "technique": PROPS[pid].get("technique") or TECH, "level": PROPS[pid]["level"], "level_note": PROPS[pid].get("note") or NOTE})
known = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = [{"property": p, "reason": "its check is not built yet"} for p in known if p not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
