#!/usr/bin/env python3
"""Writes DESIGN.md from the property table, the checks themselves, tools/remarks.json, known_findings.json, seeded/ and the evidence of the last run.
Run with the interpreter of the checks (corgidrp and Hypothesis importable): see tools/design.sh."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
tech = {c["property"]: c["technique"] for c in man["checks"]}
rem = json.load(open(os.path.join(HERE, "tools", "remarks.json")))
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
costs = json.load(open(os.path.join(HERE, "tools", "costs.json")))
head = open(os.path.join(HERE, "tools", "design_head.md")).read()
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))

out = [head.rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    if i not in tech:
        out += ["Not applicable: see MANIFEST.json.", ""]
        continue
    P = importlib.import_module("checks." + i).PROP
    out += ["*Reach:* " + p["why_tests_cant"], "", "*Decided by:* " + tech[i] + ".", "", "*Generated, oracle, non-trivial:* " + P.rule, ""]
    subs = P.subs if len(P.subs) < 20 else []
    if subs:
        out += ["*Cases (quick / thorough):* " + ", ".join("%s %d/%d" % (s.name, s.quick, s.thorough) for s in subs) + "."]
    else:
        out += ["*Cases (quick / thorough):* %d/%d over %d generators of other checks and its own." % (sum(s.quick for s in P.subs), sum(s.thorough for s in P.subs), len(P.subs))]
    out[-1] += " Quick cost about %s s on 8 cores." % costs.get(i, "?")
    out += [""]
    for r in rem.get(i, []):
        out += ["- " + r]
    for f in kf["findings"]:
        if f["property"] == i:
            out += ["- **Known finding %s:** %s" % (f["id"], f["what"])]
    fx = [f.split(" ", 3) for f in kf["fixed"] if "property=%s " % i in f]
    for f in fx:
        out += ["- Repaired in /repo %s: %s" % (f[2], f[3])]
    out += [""]
out += ["## Planted changes", "", "Each one was confirmed in a scratch copy: stable tests pass with it, demo.sh fails with it and passes without it.", "",
        "| id | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    out += ["| %s | %s | %s | %s |" % (n, d["property"], d["needs"], caught.get(n, "own check"))]
out += [""]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
