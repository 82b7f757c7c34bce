import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from config import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC explores the specification models completely within their bounds, and every event recorded from the real code "
        "is checked by TLC to be a step the specification allows. Bounded in sizes, orders and number of cases (see DESIGN.md); "
        "trusts TLC, the fixed-point tolerance and the recording harness.")
checks = []
for p in ids:
    if p in PROPS:
        checks.append({"property": p, "quick_cmd": f"./run.py {p} --tier quick", "thorough_cmd": f"./run.py {p} --tier thorough",
                       "technique": PROPS[p].get("technique", "TLA+ specification checked with TLC; behaviours generated by TLC replayed into the code and recorded traces judged by TLC"),
                       "level": "model_checking", "level_note": PROPS[p].get("note", "") + NOTE})
na = [{"property": p, "reason": "check not built yet"} for p in ids if p not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Specification in TLA+ (spec/), checked with TLC; no hooks in /repo are needed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
