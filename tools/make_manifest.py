"""Writes MANIFEST.json from run/props.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "run"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s --tier quick" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": s.get("technique", props.TECHNIQUE), "level": s.get("level", "model_checking"),
                       "level_note": s.get("note", props.NOTE)})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "the specification module for this part is not bound to the code yet")})
m = {"version": 1, "setup_cmd": "python3 run/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC) specification in spec/, bound to the code by harness/ (replay of specification behaviours; traces judged by TLC)."}
if props.HOOKS:
    m["hooks"] = props.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
