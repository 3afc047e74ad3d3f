"""mkseed(id, prop, needs, breaks, [(file, old, new)], demo): writes seeded/<id>/ from a replacement in /repo's HEAD (in a scratch copy)."""
import json, os, shutil, subprocess, tempfile
SH = """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=$T PYTHONPATH=$R MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$T" && /opt/venv/bin/python -W ignore "$D/demo.py"
"""
PRE = '''import numpy as np
from astropy.io import fits
import corgidrp
from corgidrp import data


def frame(arr, err=None, dq=None, pri=None, ext=None, name="cgi_0200001001001001001_20250415t0305102_l2a.fits"):
    """a frame with the given content and minimal headers"""
    ph, eh = fits.Header(), fits.Header()
    ph.update(dict(dict(OBSNUM=0, ROLL=0.0, RA=10.0, DEC=20.0), **(pri or {})))
    eh.update(dict(dict(ARRTYPE="SCI", EMGAIN_C=1.0, EMGAIN_A=-1.0, EXPTIME=1.0, DATALVL="L2a", BUNIT="DN", IS_BAD=False, OVEREXP=False), **(ext or {})))
    x = data.Image(np.array(arr, dtype=float), pri_hdr=ph, ext_hdr=eh, err=err, dq=dq)
    x.filename = name
    return x


'''
def mkseed(sid, prop, needs, breaks, reps, demo, pre=True):
    d = os.environ.get("VROOT", "/verif") + "/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call("GIT_LFS_SKIP_SMUDGE=1 git clone -q --no-local --depth 400 file://%s %s/r" % (os.environ.get("VF_REPO", "/repo"), t), shell=True)
        for f, old, new in reps:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        out = subprocess.run(["git", "-C", t + "/r", "diff", "--", "corgidrp"], capture_output=True, text=True).stdout
        # only lines of the original repository may change
        for f, old, new in reps:
            bl = subprocess.run(["git", "-C", t + "/r", "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
            mine = {l.split(")", 1)[1][1:] for l in bl if l[:40].lstrip("^") in MINE}
            for l in out.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:] in mine and l[1:].strip():
                    print("WARNING", sid, "changes a line of my commits:", l)
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write((PRE if pre else "") + demo.strip("\n") + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
MINE = set(subprocess.run("git -C " + os.environ.get("VF_REPO", "/repo") + " log --format=%H 7ee5cdd..HEAD", shell=True, capture_output=True, text=True).stdout.split())
