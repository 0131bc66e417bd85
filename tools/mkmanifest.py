"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = json.load(open(os.path.join(here, "tools", "specs.json")))
props = [json.loads(ll) for ll in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for pp in props:
    pid = pp["id"]
    if not os.path.exists(os.path.join(here, "harness", "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "the check is not built yet"})
        continue
    spec, note = specs[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s" % pid,
        "thorough_cmd": "./check %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "TLA+ specification (%s) model-checked with TLC, its behaviours replayed in / traces judged against the real code" % spec,
        "level": "model_checking",
        "level_note": note,
    })
out = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
