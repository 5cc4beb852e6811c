"""Writes MANIFEST.json: one check per property that has a module in mc/checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = json.load(open(os.path.join(HERE, "mc", "registry.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "mc", "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./run.py {i} --tier quick",
            "thorough_cmd": f"./run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": reg[i].get("technique", "exhaustive enumeration of programs and inputs within bounds, each executed "
                                                 "on the implementation and compared with an executable reference model"),
            "level": "model_checking",
            "level_note": reg[i].get("note", reg[i]["meaning"]) or "bounded exhaustive enumeration against a reference model",
        })
    else:
        na.append({"property": i, "reason": reg[i].get("reason", "check not built yet")})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, torch, jax'",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the implementation is driven through its public interface. Defects repaired in /repo "
              "are listed in known_findings.jsonl."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
