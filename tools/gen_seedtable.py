"""Rewrites the table of seeded bugs in DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| bug | needs | caught by |", "|---|---|---|"]
extra = json.load(open(os.path.join(H, "tools", "also_caught.json"))) if os.path.exists(os.path.join(H, "tools", "also_caught.json")) else {}
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['needs']} | {extra.get(d, m['property'])} |")
rows.append("<!-- /seeds -->")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", "\n".join(rows))
else:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
