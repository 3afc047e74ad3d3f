#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["corgidrp/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])], "observe_at": observe, "hook_needed": None}})


exec(open(os.path.join(HERE, "tools", "props.py")).read())

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                       "technique": TECH.get(p["id"], "property-based testing (Hypothesis) against a reference model"), "level": "exploration",
                       "level_note": NOTE.get(p["id"], "Randomised search over the generated inputs reported in the evidence file, deterministic per seed; it can refute, "
                                              "not prove. Trusts numpy/scipy/astropy and the independent oracle written in checks/%s.py." % p["id"])})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are Hypothesis-driven property-based tests run by /opt/venv/bin/python against /repo's working tree (pure Python, nothing to build). "
              "No hooks are needed in /repo. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "unclaimed")
