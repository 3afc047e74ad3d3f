"""C06: provenance of calibration products, level promotions, time stamps."""
import subprocess, sys, json, itertools
from fractions import Fraction
from vf.common import *
from vf.core import Prop, require, Violation
from vf import products

PROP = Prop("C06", "Every product class is built from random input datasets (duplicates, nested parents, long and short parent lists) and its FILEn/DRPNFILE/DATALVL/DATATYPE/filename compared with a "
            "set model; the order is compared between two interpreters with different hash seeds; random datasets (some with a wrong level) go through chains of level promotions; random ISO time strings go "
            "through format_ftimeutc against exact rational arithmetic. Non-trivial: at least two distinct inputs or nested parents / a promotion of two or more frames / a fractional-second time.")

SUFFIX = {"Dark": "_DRK_CAL", "FlatField": "_FLT_CAL", "NonLinearityCalibration": "_NLN_CAL", "KGain": "_KRN_CAL", "BadPixelMap": "_BPM_CAL", "DetectorNoiseMaps": "_DNM_CAL",
          "AstrometricCalibration": "_AST_CAL", "TrapCalibration": "_TPU_CAL", "FluxcalFactor": "_ABF_CAL", "CoreThroughputCalibration": "_CTP_CAL", "NDFilterSweetSpotDataset": "_NDF_CAL"}
KEEP = ["Dark", "DetectorNoiseMaps", "BadPixelMap", "FluxcalFactor", "KGain"]   # classes that accept a header that already lists the inputs


def prod_case(k):
    return st.fixed_dictionaries({"kind": st.just(k), "files": st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["L1", "L2a", "L2b", "L3"]), st.one_of(st.none(), st.lists(st.integers(0, 12), max_size=5, unique=True))), min_size=1, max_size=6), "s": seeds})


def ins_of(c):
    out = []
    for no, lvl, par in c["files"]:
        f = img(np.zeros((3, 4)), level=lvl, filename=fname(no, lvl))
        if par is not None:
            for j, p in enumerate(par):
                f.ext_hdr["FILE%d" % j] = fname(p, "L1")
            f.ext_hdr["DRPNFILE"] = len(par)
        out.append(f)
    return out


def build(kind, ins, seed, pri=None, ext=None, drop=False):
    """One product of the class from the dataset (None: no input_dataset), header optionally overridden."""
    base, cls = products.make({"kind": kind, "shape": [3, 4], "n_in": 1, "s": seed})
    p, h = hdrs("L2b", ext={"SCTSRT": products.sctsrt(3), "EXPTIME": 1.0, "EMGAIN_C": 1.5, "CFAMNAME": "3C", "FPAMNAME": "ND225"})
    for k in ("B_O", "B_O_ERR"):
        if k in base.ext_hdr:
            h[k] = base.ext_hdr[k]
    if kind == "CoreThroughputCalibration":
        h["EXTNAME"] = "PSFCUBE"
    for k, v in (ext or {}).items():
        h[k] = v
    kw = dict(pri_hdr=p, ext_hdr=h, input_dataset=ins)
    if kind in ("Dark", "DetectorNoiseMaps"):
        kw.update(err=base.err, dq=base.dq, err_hdr=fits.Header())
    if kind == "CoreThroughputCalibration":
        kw["input_hdulist"] = base.hdu_list
    if kind == "KGain":
        kw.update(err=base.err[0])
    if kind == "FluxcalFactor":
        kw.update(err=base.err)
    if kind == "AstrometricCalibration":
        kw.update(err=base.err[0])
    return cls(base.data.copy(), **kw)


def listed(o):
    n = o.ext_hdr["DRPNFILE"]
    return [o.ext_hdr["FILE%d" % i] for i in range(n)]


@PROP.sub("parents", [prod_case(k) for k in SUFFIX], 330, 4000)
def parents(c, rec):
    fr = ins_of(c)
    ds = data.Dataset(fr)
    s0 = snap(ds)
    o = build(c["kind"], ds, c["s"])
    same(s0, snap(ds), "the inputs while making a " + c["kind"])
    want = set()
    for (no, lvl, par) in c["files"]:
        want.add(fname(no, lvl))
        want |= {fname(p, "L1") for p in (par or [])}
    got = listed(o)
    require(sorted(got) == sorted(want), "{} lists {} as inputs, expected {}", c["kind"], sorted(got), sorted(want))
    require(o.ext_hdr["DATALVL"] == "CAL", "data level {}", o.ext_hdr["DATALVL"])
    require(o.ext_hdr["DATATYPE"] == c["kind"], "data type {}", o.ext_hdr["DATATYPE"])
    last = c["files"][-1]
    base = fname(last[0], last[1]).split(".fits")[0][:-len("_L2b")]
    require(o.filename.startswith(base) and SUFFIX[c["kind"]] + ".fits" in o.filename and o.filename.endswith(".fits"), "product of {} is called {}", fname(last[0], last[1]), o.filename)
    require(len(hist(o)) > len(hist(fr[0])) or c["kind"] == "CoreThroughputCalibration", "no history entry")
    # a product used as an input hands its parents on
    if c["kind"] != "AstrometricCalibration":
        p2 = build("NonLinearityCalibration", data.Dataset([o]), c["s"])
        require(sorted(listed(p2)) == sorted(want | {o.filename}), "grand-parents {}, expected {}", sorted(listed(p2)), sorted(want | {o.filename}))
    rec.nt(len(want) > 1)
    rec.label(c["kind"])
    # making the same product again lists them in the same order
    require(listed(build(c["kind"], data.Dataset(ins_of(c)), c["s"])) == got, "order of parents differs between runs")


@PROP.sub("archived", [st.fixed_dictionaries({"kind": st.just(k), "par": st.lists(st.integers(0, 12), min_size=1, max_size=5, unique=True), "s": seeds}) for k in SUFFIX], 110, 900)
def archived(c, rec):
    """a header that lists its inputs is enough for some classes; without either, creation is rejected"""
    k = c["kind"]
    if k != "NDFilterSweetSpotDataset":
        rejects(lambda: build(k, None, c["s"]), (ValueError,), "a new %s without input files" % k)
    if k in KEEP:
        ext = {"FILE%d" % j: fname(p, "L2a") for j, p in enumerate(c["par"])}
        ext["DRPNFILE"] = len(c["par"])
        o = build(k, None, c["s"], ext=ext)
        require(listed(o) == [fname(p, "L2a") for p in c["par"]], "recorded inputs became {}", listed(o))
        require(o.ext_hdr["DATALVL"] == "CAL" and o.ext_hdr["DATATYPE"] == k, "level/type {} {}", o.ext_hdr["DATALVL"], o.ext_hdr["DATATYPE"])
    rec.nt()
    rec.label(k)


PROG = r"""
import sys, json, os
sys.path.insert(0, os.environ["VF_REPO_PATH"]); sys.path.insert(0, os.environ["VF_HERE"])
import warnings; warnings.simplefilter("ignore")
import numpy as np
import corgidrp.data as data, astropy.io.fits as fits
out = []
for files in json.load(open(sys.argv[1])):
    fr = []
    for name, par in files:
        h = fits.Header(); h["EXPTIME"] = 1.0
        for j, p in enumerate(par): h["FILE%d" % j] = p
        if par: h["DRPNFILE"] = len(par)
        f = data.Image(np.zeros((2, 2)), pri_hdr=fits.Header(), ext_hdr=h); f.filename = name
        fr.append(f)
    h = fits.Header(); h["EXPTIME"] = 1.0
    o = data.FlatField(np.ones((2, 2)), pri_hdr=fits.Header(), ext_hdr=h, input_dataset=data.Dataset(fr))
    out.append([o.ext_hdr["FILE%d" % i] for i in range(o.ext_hdr["DRPNFILE"])])
print("RESULT" + json.dumps(out))
"""


@PROP.sub("order", st.fixed_dictionaries({"s": seeds}), 1, 6)
def order(c, rec):
    import corgidrp
    r = rng(c["s"])
    cases = []
    for _ in range(40):
        cases.append([[fname(int(r.integers(0, 50)), "L2a"), [fname(int(x), "L1") for x in r.integers(0, 60, size=int(r.integers(0, 5)))]] for _ in range(int(r.integers(1, 6)))])
    pth = os.path.join(rec.dir, "cases.json")
    json.dump(cases, open(pth, "w"))
    outs = []
    for hs in ("0", "1234"):
        env = dict(os.environ, PYTHONHASHSEED=hs, VF_REPO_PATH=os.path.dirname(os.path.dirname(os.path.realpath(corgidrp.__file__))), VF_HERE=rec.dir)
        p = subprocess.run([sys.executable, "-c", PROG, pth], capture_output=True, text=True, env=env, cwd=rec.dir)
        line = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
        if not line:
            raise Violation("making flat fields failed: " + p.stderr[-400:]) if "corgidrp" in p.stderr.split("Traceback")[-1] else RuntimeError(p.stderr)
        outs.append(json.loads(line[0][6:]))
    for a, b in zip(*outs):
        require(a == b, "the order of recorded parents depends on the run: {} / {}", a, b)
    rec.nt()


LEVELS = ["L1", "L2a", "L2b", "L3", "L4", "TDA"]
TAGS = ["_L1_", "_L2a", "_L2b", "_L3_", "_L4_", "_TDA_"]


@PROP.sub("promote", [st.fixed_dictionaries({"start": st.just(a), "to": st.integers(a + 1, 5), "n": st.integers(1, 5), "bad": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 4), st.integers(0, 5))),
                                            "ct": st.booleans(), "s": seeds, "shape": small_shape, "dir": st.booleans()}) for a in range(5)], 250, 3000)
def promote(c, rec):
    from corgidrp.l1_to_l2a import update_to_l2a
    from corgidrp.l2a_to_l2b import update_to_l2b
    from corgidrp.l2b_to_l3 import update_to_l3
    from corgidrp.l3_to_l4 import update_to_l4
    from corgidrp.l4_to_tda import update_to_tda
    r = rng(c["s"])
    ct = products.make({"kind": "CoreThroughputCalibration", "shape": [3, 4], "n_in": 1, "s": 1})[0] if c["ct"] else None
    fx = products.make({"kind": "FluxcalFactor", "shape": [3, 4], "n_in": 1, "s": 1})[0]
    if c["dir"]:
        fx.filename = "some/dir/" + fx.filename
    steps = [update_to_l2a, update_to_l2b, update_to_l3, lambda d: update_to_l4(d, ct, fx), update_to_tda]
    fr = []
    for i in range(c["n"]):
        f = img(r.normal(size=c["shape"]), level="L2a", err=np.abs(r.normal(size=c["shape"])), dq=dq_array(c["s"] + i, tuple(c["shape"])), filename="CGI_%019d_20260415T0305102%s.fits" % (i, TAGS[c["start"]]))
        f.ext_hdr["DATALVL"] = LEVELS[c["start"]]
        f.ext_hdr["HISTORY"] = "earlier entry %d" % i
        f.filedir = "dir%d" % i
        fr.append(f)
    ds = data.Dataset(fr)
    names = [f.filename for f in ds]
    d0, e0, q0 = ds.all_data.copy(), ds.all_err.copy(), ds.all_dq.copy()
    for k in range(c["start"], c["to"]):
        if c["bad"] is not None and c["bad"][0] < c["n"] and c["bad"][1] != k:
            b = ds.copy()
            b[c["bad"][0]].ext_hdr["DATALVL"] = LEVELS[c["bad"][1]]
            rejects(lambda: steps[k](b), (ValueError,), "promoting to %s a dataset whose frame %d is at %s" % (LEVELS[k + 1], c["bad"][0], LEVELS[c["bad"][1]]))
        s0 = snap(ds)
        out = steps[k](ds)
        same(s0, snap(ds), "the dataset promoted to " + LEVELS[k + 1])
        require(len(out) == c["n"], "{} frames became {}", c["n"], len(out))
        names = [n.replace(TAGS[k], TAGS[k + 1]) for n in names]
        for i, f in enumerate(out):
            require(f.ext_hdr["DATALVL"] == LEVELS[k + 1], "frame {} is at level {}, expected {}", i, f.ext_hdr["DATALVL"], LEVELS[k + 1])
            require(f.filename == names[i], "frame {} is called {}, expected {}", i, f.filename, names[i])
            require(f.filedir == "dir%d" % i, "directory {}", f.filedir)
            h = hist(f)
            require("earlier entry %d" % i in h and len(h) == len(hist(ds[i])) + 1 and h[:-1] == hist(ds[i]), "history {}", h)
            if LEVELS[k + 1] == "L4":
                require(f.ext_hdr["CTCALFN"] == (ct.filename if ct is not None else ""), "CTCALFN {}", f.ext_hdr["CTCALFN"])
                require(f.ext_hdr["FLXCALFN"] == fx.filename.split("/")[-1], "FLXCALFN {}", f.ext_hdr["FLXCALFN"])
        eq(out.all_data, d0, "data"); eq(out.all_err, e0, "err"); eq(out.all_dq, q0, "dq")
        ds = out
    rec.nt(c["n"] > 1)
    rec.label("%s->%s" % (LEVELS[c["start"]], LEVELS[c["to"]]))


@st.composite
def times(draw):
    base = draw(st.one_of(st.datetimes(min_value=datetime.datetime(2000, 1, 1), max_value=datetime.datetime(2090, 12, 30)),
                          st.sampled_from([datetime.datetime(2026, 12, 31, 23, 59, 59), datetime.datetime(2028, 2, 28, 23, 59, 59), datetime.datetime(2027, 2, 28, 23, 59, 59), datetime.datetime(2026, 6, 30, 9, 59, 59), datetime.datetime(2026, 1, 9, 3, 5, 9)])))
    us = draw(st.one_of(st.integers(0, 999999), st.integers(0, 9).map(lambda k: k * 100000), st.tuples(st.integers(0, 9), st.integers(-2, 2)).map(lambda t: min(999999, t[0] * 100000 + 50000 + t[1])), st.integers(949990, 999999)))
    digits = draw(st.sampled_from([0, 3, 6]))
    us = {0: 0, 3: us // 1000 * 1000, 6: us}[digits]
    tz = draw(st.sampled_from([None, None, "Z", "+00:00", "-05:00", "+05:30", "+14:00", "-11:45"]))
    sep = draw(st.sampled_from(["T", "T", " "]))
    s = base.strftime("%Y-%m-%d") + sep + base.strftime("%H:%M:%S")
    if digits:
        s += "." + ("%06d" % us)[:digits]
    return {"t": s + (tz or "")}


@PROP.sub("time", times(), 600, 20000)
def timestamps(c, rec):
    t = c["t"]
    body, off = t, 0
    if t.endswith("Z"):
        body = t[:-1]
    elif len(t) > 6 and t[-6] in "+-" and t[-3] == ":":
        body = t[:-6]
        off = (int(t[-5:-3]) * 60 + int(t[-2:])) * (1 if t[-6] == "+" else -1)
    frac = Fraction(0)
    if "." in body:
        body, fr = body.split(".")
        frac = Fraction(int(fr), 10 ** len(fr))
    d = datetime.datetime.strptime(body.replace(" ", "T"), "%Y-%m-%dT%H:%M:%S") - datetime.timedelta(minutes=off)
    tenths = int(frac * 10 + Fraction(1, 2))
    d += datetime.timedelta(seconds=tenths // 10)
    want = d.strftime("%Y%m%dT%H%M%S") + str(tenths % 10)
    got = data.format_ftimeutc(t)
    require(got == want, "{} is formatted as {}, expected {}", t, got, want)
    rec.nt(frac != 0)
    rec.label("tz" if off else "utc")


@PROP.sub("badtime", st.fixed_dictionaries({"t": st.sampled_from(["", "yesterday", "2026-13-01T00:00:00", "2026-02-30T00:00:00", "2026-01-01T25:00:00", "12:00", "2026/01/01", "2026-01-01T00:61:00"])}), 8, 8)
def badtime(c, rec):
    rejects(lambda: data.format_ftimeutc(c["t"]), (ValueError,), "the time %r" % c["t"])
    rec.nt()
