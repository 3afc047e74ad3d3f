#!/bin/bash
# python3 tools/gen.py and tools/fixed.py first
cd "$(dirname "$0")/.." || exit 2
python3 - <<'P'
import json, glob, os
f = "tools/costs.json"; d = json.load(open(f)) if os.path.exists(f) else {}
for e in glob.glob("evidence/*.json"):
    j = json.load(open(e))
    if j.get("tier") == "quick": d[j["property"]] = int(round(j["wall_s"]))
json.dump(dict(sorted(d.items())), open(f, "w"), indent=0)
P
T=$(mktemp -d); mkdir -p $T/hy $T/home
for n in hypothesis _hypothesis_globals.py _hypothesis_pytestplugin.py sortedcontainers attr attrs; do s=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/$n 2>/dev/null); [ -n "$s" ] && ln -s $s $T/hy/$n; done
HOME=$T/home PYTHONPATH=.:${VF_REPO:-/repo}:$T/hy PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python tools/design.py
rm -r "$T"
