"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(HERE, "tools", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = T.get(p)
    if c and os.path.exists(os.path.join(HERE, "vf", "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} --tier quick",
                           thorough_cmd=f"python3 check.py {p} --tier thorough", evidence_file=f"evidence/{p}.json",
                           technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks: /repo carries only fix: commits; everything is observed through the public API."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
