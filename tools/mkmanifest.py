import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plans
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
FAM = {"CommandTrace": "Command.tla"}
for p in props:
    if p["id"] in plans.PLANS:
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check.py %s --tier quick" % p["id"],
            "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
            "technique": plans.TECHNIQUE.get(p["id"], plans.TECHNIQUE["default"]),
            "level": "model_checking",
            "level_note": plans.LEVEL_NOTE.get(p["id"], plans.LEVEL_NOTE["default"]),
        })
    else:
        na.append({"property": p["id"], "reason": "the check is still being built"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; the driver in harness/ runs the real code of /repo through scenarios generated from them and TLC validates the recorded traces. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
