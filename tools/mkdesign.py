"""Fills the lists of findings and planted bugs into DESIGN.md (between markers, so it can be run again)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
f = "\n".join("* " + k["entry"].replace("fixed: property=", "", 1) for k in json.load(open(V + "/known_findings.json")))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {j['needs']} | caught |")
t = "| planted bug | property | needs | by the property's quick check |\n|---|---|---|---|\n" + "\n".join(rows)
for name, body in (("FINDINGS", f), ("SEEDS", t)):
    block = f"<!-- {name} -->\n{body}\n<!-- /{name} -->"
    if f"@@{name}@@" in s: s = s.replace(f"@@{name}@@", block)
    else: s = re.sub(f"<!-- {name} -->.*?<!-- /{name} -->", lambda _: block, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
