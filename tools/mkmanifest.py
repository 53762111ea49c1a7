#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
exec(open(here + "/tools/claims.py").read())   # CLAIMS = {id: (technique, level, note)}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the extension's SQL interface and its catalogued aggregate functions", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, checked with TLC and replayed in the real extension; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING.get(i, "check not built yet")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
