"""C10: choosing and filling in recipes."""
from vf.common import *
from vf.core import Prop, require
from vf.cals import LABEL, CLS, stamp, save
import contextlib, glob, io, json, shutil, warnings
import astropy.time as time
import corgidrp
from corgidrp import caldb as C, walker as W

PROP = Prop("C10", "Lists of 1-4 frames of levels L1..L4 with every documented visit type, photon-counting and shutter state, and random exposure time / gain / k-gain settings; all shipped templates and random templates of 1-6 steps with 0-3 calibrations each (AUTOMATIC, optional, fixed paths), "
            "over databases of 0-8 products, with every combination of the pipeline settings; each template is used repeatedly. Oracle: a table of recipes by level, visit type and state, and an independent lookup of the nearest calibration. Non-trivial: more than one frame or at least one automatic calibration.")

TDIR = os.path.join(os.path.dirname(W.__file__), "recipe_templates")
VIS1 = ["ENGPUPIL", "ENGIMGAGE", "BORESITE", "FFIELD", "DARK", "DARK", "DARK", "PUPILIMG", "CGIVST_CAL_DRK", "TRAPPUMP", "TDEMO", None]
VIS2 = ["DARK", "DARK", "ABSFLXFT", "ABSFLXBT", "CORETPUT", "FFIELD", "TDEMO", "PUPILIMG"]
SETT = [(1.0, 1.0, 8.7), (1.0, 1.0, 8.7), (2.0, 1.0, 8.7), (1.0, 1.5, 8.7), (1.0, 1.0, 8.8), (7.1e-05, 5000.0, 6.0)]


def expect(lv, vis, pc, n_settings, fsm):
    """the documented recipe for the data"""
    if lv == "L1":
        if vis is None:
            return ["l1_to_l2b.json"]
        if vis.startswith("ENG"):
            return ["l1_to_l2a_eng.json"]
        if vis == "DARK":
            return ["l1_to_l2b_pc_dark.json" if pc else "l1_to_l2a_noisemap.json" if n_settings > 1 else "build_trad_dark_image.json"]
        return {"BORESITE": ["l1_to_boresight.json"], "FFIELD": ["l1_flat_and_bp.json"], "PUPILIMG": ["l1_to_l2a_nonlin.json", "l1_to_kgain.json"]}.get(vis, ["l1_to_l2a_basic.json"])
    if lv == "L2a":
        if vis == "DARK":
            return ["l2a_to_l2b_pc_dark.json" if pc else "l2a_to_l2a_noisemap.json" if n_settings > 1 else "l2a_build_trad_dark_image.json"]
        return ["l2a_to_l2b_pc.json" if pc else "l2a_to_l2b.json"]
    if lv == "L2b":
        return ["l2b_to_fluxcal_factor.json"] if vis in ("ABSFLXFT", "ABSFLXBT") else ["l2b_to_corethroughput.json"] if vis == "CORETPUT" else ["l2b_to_l3.json"]
    if lv == "L3":
        return ["l3_to_l4.json" if fsm else "l3_to_l4_nopsfsub.json"]
    return None


def frame(lv, vis, pc, sett, fsm, i, day=0):
    f = img(np.full((2, 3), float(i)), {"TDA": "L4", "CAL": "L4"}.get(lv, lv), filename=fname(i), ext={"DATALVL": lv, "ISPC": pc, "EXPTIME": sett[0], "EMGAIN_C": sett[1], "KGAINPAR": sett[2], "FSMLOS": fsm, "SCTSRT": stamp(day)})
    if vis is None:
        f.pri_hdr.remove("VISTYPE", ignore_missing=True)
    else:
        f.pri_hdr["VISTYPE"] = vis
    return f


frames = st.fixed_dictionaries({"lv": st.sampled_from(["L1", "L1", "L1", "L2a", "L2a", "L2b", "L3", "L4", "TDA"]), "vis": st.sampled_from(VIS1 + VIS2), "vis2": st.sampled_from(VIS1 + VIS2), "pc": st.booleans(), "sett": st.lists(st.sampled_from(SETT), min_size=1, max_size=4), "fsm": st.sampled_from([0, 1])})


def files(c, d, off=0):
    """frames of the case saved to d -> (list of paths, level, visit type, number of settings)"""
    lv, vis = c["lv"], c["vis"]
    if vis is None and lv != "L1":
        vis = "TDEMO"
    out = []
    for i, s in enumerate(c["sett"]):
        f = frame(lv, vis, c["pc"], s, c["fsm"], i + off, day=c.get("day", 0) + 3 * i)
        f.save(filedir=d); out.append(f.filepath)
    return out, lv, vis, len(set(c["sett"]))


@PROP.sub("guess", [frames, frames.map(lambda c: dict(c, vis="DARK", pc=False, lv={"L1": "L1"}.get(c["lv"], "L2a"))), frames.map(lambda c: dict(c, lv="L1")), frames.map(lambda c: dict(c, lv="L2b", vis=VIS2[2 + len(c["sett"]) % 3] if c["fsm"] else c["vis"])), frames.map(lambda c: dict(c, lv="L3", vis="TDEMO"))], 300, 3000, shards=3)
def guess(c, rec):
    """the recipe picked for a dataset"""
    d = os.path.join(rec.dir, "g"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    paths, lv, vis, n = files(c, d)
    ds = data.Dataset(paths); s0 = snap(ds)
    want = expect(lv, vis, c["pc"], n, c["fsm"])
    rec.nt(len(paths) > 1); rec.label(lv + (" DARK" if vis == "DARK" else ""))
    if want is None:
        rejects(lambda: W.guess_template(ds), NotImplementedError, "no recipe for " + lv)
        rejects(lambda: W.autogen_recipe(paths, d), NotImplementedError, "no recipe for " + lv)
        return
    got = W.guess_template(ds)
    require((got if isinstance(got, list) else [got]) == want, "recipe {} for {} {} pc={} settings={} FSMLOS={}, expected {}", got, lv, vis, c["pc"], c["sett"], c["fsm"], want)
    same(s0, snap(ds), "the dataset a recipe is picked for")
    corgidrp.jit_calib_id = True                        # leave the calibrations open
    for _ in range(2):
        rs = W.autogen_recipe(paths, d)
        rs = rs if isinstance(rs, list) else [rs]
        require(len(rs) == len(want), "{} recipes, expected {}", len(rs), want)
        for r, w in zip(rs, want):
            t = json.load(open(os.path.join(TDIR, w)))
            check_recipe(r, t, paths, d, None, None, None)
            r["inputs"].append("x"); r["steps"].clear()  # the caller's copy is the caller's


def pick(model, kind, day, exptime, known=True):
    """the calibrations the database may give for a frame of that day"""
    opt = {p: v for p, v in model.items() if v["kind"] == kind and (not known or kind != "Dark" or v["e"] == exptime)}
    if not opt:
        return []
    if not known:
        best = max(v["ct"] for v in opt.values())
        return [p for p, v in opt.items() if v["ct"] == best]
    dist = {p: abs((datetime.datetime.fromisoformat(stamp(v["day"], v["sec"])) - datetime.datetime.fromisoformat(stamp(day))).total_seconds()) for p, v in opt.items()}
    best = min(dist.values())
    return [p for p, v in dist.items() if v <= best + 1e-3]


def check_recipe(r, t, paths, out, model, day, exptime, skip_missing=False):
    """r has to be the template t filled in; model None: calibrations are left open"""
    require({k: v for k, v in r.items() if k not in ("template", "inputs", "outputdir", "steps")} == {k: v for k, v in t.items() if k not in ("template", "inputs", "outputdir", "steps")}, "name and settings of the recipe: {}", {k: v for k, v in r.items() if k != "steps"})
    require(r["template"] is False and r["outputdir"] == out, "template {} outputdir {}", r["template"], r["outputdir"])
    require(r["inputs"] == t["inputs"] + list(paths), "inputs {}, expected {}", [os.path.basename(p) for p in r["inputs"]], [os.path.basename(p) for p in t["inputs"] + list(paths)])
    require(len(r["steps"]) == len(t["steps"]), "{} steps, the template has {}", len(r["steps"]), len(t["steps"]))
    for a, b in zip(r["steps"], t["steps"]):
        kw = dict(b.get("keywords", {}))
        if b["name"] == "dark_subtraction" and str(kw.get("outputdir")).upper() == "AUTOMATIC":
            kw["outputdir"] = out
        require(a["name"] == b["name"] and a.get("keywords", {}) == kw, "step {} with {}, expected {} with {}", a["name"], a.get("keywords"), b["name"], kw)
        require(list(a.get("calibs", {})) == list(b.get("calibs", {})), "calibrations {} of {}", list(a.get("calibs", {})), a["name"])
        miss = bool(b.get("skip", False))
        for k, v in b.get("calibs", {}).items():
            g = a["calibs"][k]
            if v is None or "AUTOMATIC" not in v.upper() or model is None:
                require(g == v, "calibration {} of {} became {!r} from {!r}", k, a["name"], g, v)
                continue
            opt = pick(model, k, day, exptime, paths != [])
            if opt:
                require(g in opt, "{} for {}: {!r}, expected one of {}", k, a["name"], g, opt)
            else:
                require(g is None, "{} for {}: {!r}, but there is none", k, a["name"], g)
                miss |= "OPTIONAL" not in v.upper()
        require(bool(a.get("skip", False)) == miss, "step {} skip={}, expected {}", a["name"], a.get("skip"), miss)
        require(set(a) - {"skip"} == set(b) - {"skip"}, "entries {} of step {}", sorted(a), a["name"])


KINDS = ["Dark", "Dark", "KGain", "DetectorNoiseMaps", "FlatField", "BadPixelMap", "NonLinearityCalibration", "DetectorParams", "TrapCalibration", "FluxcalFactor", "CoreThroughputCalibration", "AstrometricCalibration", "NDFilterSweetSpotDataset", "FpamFsamCal"]
prod = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "day": st.integers(0, 60), "sec": st.floats(0, 86000), "ct": st.integers(0, 500), "e": st.sampled_from([1.0, 2.0, 7.1e-05]), "gain": st.just(1.0), "ex": st.just(-95.5), "op": st.just("NONE"), "sub": st.just("a"), "obs": st.just(3), "n": st.just(1), "s": seeds})
value = st.sampled_from(["AUTOMATIC", "AUTOMATIC", "AUTOMATIC,OPTIONAL", "AUTOMATIC, OPTIONAL", "automatic", "Automatic, optional", "/cal/fixed.fits", None])
step = st.fixed_dictionaries({"name": st.sampled_from(["prescan_biassub", "detect_cosmic_rays", "dark_subtraction", "flat_division", "save", "update_to_l4", "combine_subexposures", "find_star"]),
                              "calibs": st.none() | st.lists(st.tuples(st.sampled_from(KINDS), value), min_size=0, max_size=3), "kw": st.sampled_from([None, {}, {"a": 1, "b": [1, 2]}, {"outputdir": "AUTOMATIC"}, {"outputdir": "/somewhere"}, {"suffix": "x"}])})


def build(c):
    """a template from the case"""
    steps = []
    for s in c["steps"]:
        x = {"name": s["name"]}
        if s["calibs"] is not None:
            x["calibs"] = dict(s["calibs"])
        if s["kw"] is not None:
            x["keywords"] = dict(s["kw"])
        steps.append(x)
    conf = {"track_individual_errors": False}
    if c["jit"] is not None:
        conf["jit_calib_id"] = c["jit"]
    return {"name": "generated", "template": True, "drpconfig": conf, "inputs": list(c["pre"]), "outputdir": "", "steps": steps}


tmpl = {"steps": st.lists(step, min_size=1, max_size=6), "jit": st.sampled_from([None, None, None, False, True]), "gjit": st.booleans(), "skip": st.booleans(), "pre": st.sampled_from([[], [], ["/other/file.fits"]]), "p": st.lists(prod, min_size=0, max_size=8),
        "f": frames, "f2": frames, "day": st.integers(0, 60), "day2": st.integers(0, 60), "empty": st.sampled_from([False, False, False, True])}


@PROP.sub("fill", [st.fixed_dictionaries(tmpl), st.fixed_dictionaries(dict(tmpl, gjit=st.just(False), jit=st.just(None), skip=st.just(True))), st.fixed_dictionaries(dict(tmpl, shipped=st.integers(0, 40), p=st.lists(prod, min_size=4, max_size=10)))], 240, 4000, shards=5)
def fill(c, rec):
    """filling in templates, used twice"""
    d = os.path.join(rec.dir, "f"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    disk = {f: open(f, "rb").read() for f in glob.glob(os.path.join(TDIR, "*.json"))}
    if "shipped" in c:
        name = sorted(disk)[c["shipped"] % len(disk)]
        t = json.loads(disk[name])
        if c["jit"] is not None:
            t["drpconfig"]["jit_calib_id"] = c["jit"]
    else:
        t = build(c)
    db = C.CalDB(filepath=os.path.join(d, "db.csv"))
    corgidrp.caldb_filepath = os.path.join(d, "db.csv")
    model = {}
    with contextlib.redirect_stdout(io.StringIO()):
        for i, p in enumerate(c["p"]):
            path = save(p, d, i); db.create_entry(CLS[p["kind"]](path)); model[path] = p
    corgidrp.skip_missing_cal_steps, corgidrp.jit_calib_id = c["skip"], c["gjit"]
    if "jit_calib_id" in t["drpconfig"]:
        jit = t["drpconfig"]["jit_calib_id"]
    else:
        jit = c["gjit"]
    t0 = copy.deepcopy(t)
    auto = sum(v is not None and "AUTOMATIC" in v.upper() for s in t["steps"] for v in s.get("calibs", {}).values())
    rec.nt(auto > 0 and not jit)
    earlier = []
    for rnd, (f, day) in enumerate([(c["f"], c["day"]), (c["f2"], c["day2"])]):
        if c["empty"] and rnd == 0:
            paths, e = [], None
        else:
            paths, *_ = files(dict(f, day=day), d, off=10 * rnd); e = f["sett"][0][0]
        out = "/out%d" % rnd
        missing = not jit and any(v is not None and "AUTOMATIC" in v.upper() and "OPTIONAL" not in v.upper() and not pick(model, k, day, e, paths != []) for s in t0["steps"] for k, v in s.get("calibs", {}).items())
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if missing and not c["skip"]:
                rejects(lambda: W.autogen_recipe(paths, out, template=t), ValueError, "a required calibration is missing")
                rec.label("missing")
            else:
                r = W.autogen_recipe(paths, out, template=t)
                r0 = copy.deepcopy(r)
                check_recipe(r, t0, paths, out, None if jit else model, day, e)
                json.dumps(r)
                r2 = W.autogen_recipe(paths, out, template=t)
                require(r2 == r0, "the second recipe from the same template differs: {}", diff(snap(r0), snap(r2)))
                earlier.append((r, r0))
        require(t == t0, "the template was changed: {}", diff(snap(t0), snap(t)))
        for a, b in earlier:
            require(a == b, "an earlier recipe was changed: {}", diff(snap(b), snap(a)))
    require({f: open(f, "rb").read() for f in glob.glob(os.path.join(TDIR, "*.json"))} == disk, "stored templates were changed")
    # a recipe can serve as the template of the next one
    if earlier:
        r = earlier[-1][1]
        if not jit:
            again = W.autogen_recipe([], "/out9", template=r)
            require(again == dict(r, outputdir="/out9"), "a filled-in recipe as a template: {}", diff(snap(r), snap(again)))
