#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py checks.py",
     "hooks": {"guard": "none", "enable": "No hooks: every check drives the public headers, the C API or the built tools."},
     "checks": [], "not_applicable": [],
     "notes": "Each check builds its harness with the sources of /repo's working tree (clang, ASan+UBSan), generates cases from VERIF_SEED, and shrinks any failure into replays/. run.py <ID> --replay FILE re-runs one."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        tech = c.get("technique") or ("property-based testing" + (" + coverage-guided fuzzing" if c.get("fuzz") else "") + ": " + c["oracle"])
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration",
                            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
# the "Checks" section of DESIGN.md
titles = {p["id"]: p["title"] for p in props}
out = []
for i, c in sorted(CHECKS.items()):
    n = c["quick"]
    out.append(f"### {i} {titles[i]}\n\nOracle: {c['oracle']}. {c['note']}\n\nCases: {c['rule']}. Quick: " + (f"{n['rounds']} rounds of 2000 declarations" if "rounds" in n else f"{n['cases']} generated")
               + (f" + {n['fuzz_runs']} per worker coverage-guided" if c.get("fuzz") else "")
               + (f"; thorough: up to {c['thorough']['rounds']} rounds.\n" if "rounds" in n else f"; thorough: up to {c['thorough']['cases']}.\n"))
d = open(H + "/DESIGN.md").read()
a, b = "<!-- checks -->\n", "<!-- /checks -->"
d = d[:d.index(a) + len(a)] + "\n".join(out) + d[d.index(b):]
open(H + "/DESIGN.md", "w").write(d)
