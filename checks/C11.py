"""C11: running recipes."""
from vf.common import *
from vf.core import Prop, require
from vf.geom import regions
from vf.cals import LABEL, CLS, stamp
from vf.products import inputs
from checks.C17 import noise_maps
from checks.C14 import table as nl_table
from checks.C22 import astrom, ident, coefs
from checks.C10 import pick
import contextlib, csv, glob, importlib, inspect, io, json, shutil, warnings
import astropy.time as time
import corgidrp
from corgidrp import caldb as C, walker as W, detector

PROP = Prop("C11", "Random recipes of 1-12 steps (the standard chains of each level with steps dropped, doubled, swapped and inserted, random keywords, saves with and without suffix, skipped steps, calibrations given, absent, or chosen when the recipe is made or just in time from a database with several versions of each) "
            "on datasets of 1-4 small L1/L2a/L2b/L3 frames with a small detector geometry, started from a dictionary, a file or a template. Oracle: the same functions called one after the other by hand; files, database entries and the caller's settings are compared. "
            "Shipped templates: every step, keyword and calibration against the signatures, and runs of whole chains in one or two recipes. Non-trivial: at least three steps ran and something was saved.")

# step -> (module, function)
STEPS = {"prescan_biassub": "l1_to_l2a", "detect_cosmic_rays": "l1_to_l2a", "correct_nonlinearity": "l1_to_l2a", "update_to_l2a": "l1_to_l2a", "calibrate_nonlin": "calibrate_nonlin",
         "add_photon_noise": "l2a_to_l2b", "dark_subtraction": "l2a_to_l2b", "flat_division": "l2a_to_l2b", "frame_select": "l2a_to_l2b", "convert_to_electrons": "l2a_to_l2b", "em_gain_division": "l2a_to_l2b",
         "cti_correction": "l2a_to_l2b", "correct_bad_pixels": "l2a_to_l2b", "desmear": "l2a_to_l2b", "update_to_l2b": "l2a_to_l2b", "boresight_calibration": "astrom", "create_bad_pixel_map": "bad_pixel_calibration",
         "calibrate_kgain": "calibrate_kgain", "create_onsky_flatfield": "flat", "combine_subexposures": "combine", "build_trad_dark": "darks", "sort_pupilimg_frames": "sorting", "get_pc_mean": "photon_counting",
         "divide_by_exptime": "l2b_to_l3", "northup": "l3_to_l4", "calibrate_fluxcal_aper": "fluxcal", "update_to_l3": "l2b_to_l3", "create_wcs": "l2b_to_l3", "distortion_correction": "l3_to_l4", "find_star": "l3_to_l4",
         "do_psf_subtraction": "l3_to_l4", "update_to_l4": "l3_to_l4", "generate_ct_cal": "corethroughput", "calibrate_trap_pump": ("pump_trap_calibration", "tpump_analysis"), "calibrate_darks": ("darks", "calibrate_darks_lsq")}
# parameter of a step -> calibration types it takes
TAKES = {"noise_maps": ["DetectorNoiseMaps"], "detector_params": ["DetectorParams"], "k_gain": ["KGain"], "non_lin_correction": ["NonLinearityCalibration"], "dark": ["DetectorNoiseMaps", "Dark"], "pump_trap_cal": ["TrapCalibration"],
         "flat_field": ["FlatField"], "bp_mask": ["BadPixelMap"], "pc_master_dark": ["Dark"], "astrom_calibration": ["AstrometricCalibration"], "ct_calibration": ["CoreThroughputCalibration"], "corethroughput_cal": ["CoreThroughputCalibration"],
         "flux_cal": ["FluxcalFactor"], "master_dark": ["Dark", "DetectorNoiseMaps"], "master_flat": ["FlatField"]}
CALS = {"prescan_biassub": ["DetectorNoiseMaps"], "detect_cosmic_rays": ["DetectorParams", "KGain"], "correct_nonlinearity": ["NonLinearityCalibration"], "convert_to_electrons": ["KGain"], "dark_subtraction": ["DetectorNoiseMaps"], "desmear": ["DetectorParams"],
        "cti_correction": ["TrapCalibration"], "flat_division": ["FlatField"], "correct_bad_pixels": ["BadPixelMap"], "build_trad_dark": ["DetectorParams"], "create_wcs": ["AstrometricCalibration"], "distortion_correction": ["AstrometricCalibration"],
        "update_to_l4": ["CoreThroughputCalibration", "FluxcalFactor"], "create_bad_pixel_map": ["Dark", "FlatField"], "calibrate_darks": ["DetectorParams"]}
NEEDED = {"DetectorNoiseMaps": False, "DetectorParams": True, "KGain": False, "TrapCalibration": False, "CoreThroughputCalibration": False}
KW = {"prescan_biassub": [{}, {"return_full_frame": True}, {"return_full_frame": False}], "detect_cosmic_rays": [{}, {"mode": "full"}, {"sat_thresh": 0.5, "plat_thresh": 0.8}, {"cosm_filter": 1, "cosm_box": 2, "cosm_tail": 3}], "correct_nonlinearity": [{}, {"threshold": 0.9}],
      "frame_select": [{}, {"bpix_frac": 0.3}, {"bpix_frac": 0.2, "discard_bad": False}, {"overexp": True}], "dark_subtraction": [{"outputdir": "AUTOMATIC"}, {"outputdir": "AUTOMATIC"}, {}], "combine_subexposures": [{}, {"num_frames_per_group": 2}, {"num_frames_per_group": 1, "collapse": "median"}, {"num_frames_scaling": False}],
      "build_trad_dark": [{}, {"full_frame": True}], "northup": [{}, {"use_wcs": False}], "create_bad_pixel_map": [{}, {"dthresh": 3.0, "fwidth": 4}]}
L1 = ["prescan_biassub", "detect_cosmic_rays", "correct_nonlinearity", "update_to_l2a", "save"]
L2 = ["frame_select", "convert_to_electrons", "em_gain_division", "add_photon_noise", "dark_subtraction", "desmear", "cti_correction", "flat_division", "correct_bad_pixels", "update_to_l2b", "save"]
L3 = ["create_wcs", "divide_by_exptime", "update_to_l3", "save"]
L4 = ["distortion_correction", "northup", "combine_subexposures", "update_to_l4", "save"]
TD = ["convert_to_electrons", "em_gain_division", "build_trad_dark", "save"]
BP = ["create_bad_pixel_map", "save"]
CHAINS = {"L1": [L1, L1, L1 + L2, ["prescan_biassub", "detect_cosmic_rays", "correct_nonlinearity", "update_to_l2a"] + TD, L1 + L2 + L3], "L2a": [L2, L2, TD, TD[:2] + ["combine_subexposures", "dark_subtraction", "save"], L2 + L3, TD + BP], "L2b": [L3, L3 + L4, BP, BP], "L3": [L4, L4[1:], L4]}
G = {"P": 9, "S": 2, "dark": 1, "I": 16, "R": 17, "r0": 2, "par": 2, "cs": 1, "ce": 8, "arr": "SCI"}
REG = regions(G)
FULL = (REG["SCI"]["frame_rows"], REG["SCI"]["frame_cols"]); IM = (17, 16)

edit = st.tuples(st.sampled_from(["drop", "double", "swap", "insert", "save", "skip", "none", "none", "none"]), st.integers(0, 20), st.integers(0, 40))
conf = {"lv": st.sampled_from(["L1", "L2a", "L2a", "L2b", "L3"]), "chain": st.integers(0, 11), "edits": st.lists(edit, min_size=0, max_size=3), "kw": st.lists(st.integers(0, 11), min_size=24, max_size=24), "cal": st.lists(st.integers(0, 9), min_size=24, max_size=24),
        "n": st.integers(1, 4), "s": seeds, "track": st.booleans(), "t0": st.booleans(), "jit": st.sampled_from([None, False, True]), "gjit": st.booleans(), "skip": st.booleans(), "how": st.sampled_from(["dict", "file", "walk", "walk", "walkfile"]), "nofile": st.booleans(),
        "have": st.sampled_from(["all", "all", "all", "all", "few"]), "days": st.lists(st.integers(0, 60), min_size=4, max_size=4), "exp": st.sampled_from([1.0, 7.5]), "suffix": st.sampled_from(["x", "_y_", "a_b", "_", "L2a_"])}


class mini:
    """a small detector"""
    def __enter__(self):
        self.old = detector.detector_areas["SCI"]
        detector.detector_areas["SCI"] = REG["SCI"]

    def __exit__(self, *a):
        detector.detector_areas["SCI"] = self.old


def calibrations(c, d):
    """every calibration in two versions, saved -> model {path: {kind, day, sec, ct, e}}"""
    os.makedirs(d)
    out = {}

    def put(o, kind, v, day):
        o.ext_hdr["SCTSRT"] = stamp(day, 10.0); o.ext_hdr["EXPTIME"] = c["exp"]; o.ext_hdr["DRPCTIME"] = stamp(500 + day)
        with contextlib.redirect_stdout(io.StringIO()):
            o.save(filedir=d, filename="%s_%d.fits" % (kind, v))
        out[os.path.join(d, "%s_%d.fits" % (kind, v))] = {"kind": kind, "day": day, "sec": 10.0, "ct": 500 + day, "e": c["exp"]}
    for v, day in enumerate(c["days"][:2]):
        r = rng(c["s"] + 1000 * v)
        nm = noise_maps({"s": c["s"] + v}, FULL); nm.data[0] *= 0.01
        put(nm, "DetectorNoiseMaps", v, day)
        p, h = hdrs("L2b", ext={"RN": 100.0 + v, "RN_ERR": 1.0})
        put(data.KGain(np.array([[8.0 + v]]), err=np.array([[0.1]]), pri_hdr=p, ext_hdr=h, input_dataset=inputs(1, (2, 2))), "KGain", v, day)
        t = nl_table({"s": c["s"] + v, "ng": 3, "nc": 5}); p, h = hdrs("L2a")
        put(data.NonLinearityCalibration(t, pri_hdr=p, ext_hdr=h, input_dataset=inputs(1, (2, 2))), "NonLinearityCalibration", v, day)
        p, h = hdrs("L2b")
        f = data.FlatField(1 + 0.05 * r.normal(size=IM), pri_hdr=p, ext_hdr=h, input_dataset=inputs(1, (2, 2))); f.err = np.abs(r.normal(size=(1,) + IM)) * 0.01
        put(f, "FlatField", v, day)
        p, h = hdrs("L2b")
        put(data.BadPixelMap(dq_array(c["s"] + v, IM, bits=[4, 8], frac=0.1), pri_hdr=p, ext_hdr=h, input_dataset=inputs(1, (2, 2))), "BadPixelMap", v, day)
        p, h = hdrs("L2b", ext={"EMGAIN_C": 1.0, "KGAINPAR": 8.0 + v})
        put(data.Dark(r.random(IM), pri_hdr=p, ext_hdr=h, input_dataset=inputs(2, (2, 2)), err=np.abs(r.normal(size=IM)) * 0.1, dq=dq_array(c["s"] + 9, IM, frac=0.05), err_hdr=fits.Header()), "Dark", v, day)
        put(astrom([1.0, 2.0, 21.8, 21.8, 10.0 * v, 0, 0], coefs(*ident(2))), "AstrometricCalibration", v, day)
        put(data.DetectorParams({"KGAINPAR": 8.7 + v, "TELRSTRT": 20, "TELREND": 21}, date_valid=time.Time(stamp(day), scale="utc")), "DetectorParams", v, day)
        p, h = hdrs("L2b")
        put(data.FluxcalFactor(np.array([[1e-12]]), err=np.array([[[1e-14]]]), pri_hdr=p, ext_hdr=h, input_dataset=inputs(1, (2, 2))), "FluxcalFactor", v, day)
    return out


def science(c, d):
    """input files"""
    os.makedirs(d)
    out = []
    lv = c["lv"]; shp = FULL if lv == "L1" else IM
    for i in range(c["n"]):
        r = rng(c["s"] + 7 * i)
        a = r.normal(size=shp) * 5 + 200
        if lv == "L1":
            a[:, G["P"]:] += 300 * r.random()
        ext = {"SCTSRT": stamp(c["days"][2] + i), "EXPTIME": c["exp"], "EMGAIN_C": 1.0, "EMGAIN_A": -1.0, "KGAINPAR": 8.7, "ISPC": False, "OVEREXP": bool(i == 3), "BUNIT": "DN" if lv in ("L1", "L2a") else "photoelectrons"}
        if lv == "L3":
            ext.update({"CD1_1": -6e-6, "CD1_2": 1e-6, "CD2_1": 1e-6, "CD2_2": 6e-6, "CRPIX1": 8.0, "CRPIX2": 8.5, "CTYPE1": "RA---TAN", "CTYPE2": "DEC--TAN", "CUNIT1": "deg", "CUNIT2": "deg", "CDELT1": 0.0, "CDELT2": 0.0, "STARLOCX": 8.0, "STARLOCY": 8.0})
        f = img(a, lv, err=np.abs(r.normal(size=shp)), dq=dq_array(c["s"] + i, shp, frac=0.15), ext=ext, pri={"ROLL": 12.0 + i, "RA": 30.0, "DEC": -20.0}, filename=fname(i, lv))
        f.ext_hdr.remove("EMGAIN_M", ignore_missing=True)
        f.save(filedir=d); out.append(os.path.join(d, f.filename))
    return out


def recipe_of(c, model):
    """the steps of the recipe; calibrations are paths, AUTOMATIC or None"""
    names = list(CHAINS[c["lv"]][c["chain"] % len(CHAINS[c["lv"]])])
    skip = set()
    for what, a, b in c["edits"]:
        i = a % len(names) if names else 0
        if what == "drop" and len(names) > 1: del names[i]
        elif what == "double": names.insert(i, names[i])
        elif what == "swap" and len(names) > 1: j = (i + 1) % len(names); names[i], names[j] = names[j], names[i]
        elif what == "insert": pool = L1 + L2 + L3 + L4; names.insert(i, pool[b % len(pool)])
        elif what == "save": names.insert(i, "save")
        elif what == "skip": skip.add(i)
    steps = []
    for i, nme in enumerate(names[:20]):
        s = {"name": nme}
        if nme == "save":
            if c["kw"][i] % 3 == 0: s["keywords"] = {"suffix": c["suffix"]}
            elif c["kw"][i] % 3 == 1: s["keywords"] = {}
        else:
            if nme in KW: s["keywords"] = dict(KW[nme][c["kw"][i] % len(KW[nme])])
            if i in skip: s["skip"] = True
            elif c["cal"][i % 24] % 4 == 1: s["skip"] = False
        if nme in CALS:
            cal = {}
            kinds = CALS[nme]
            if nme == "dark_subtraction" and (c["cal"][i] % 2 or "build_trad_dark" in names): kinds = ["Dark"]
            for j, k in enumerate(kinds):
                u = c["cal"][(i + j) % 24]; need = NEEDED.get(k, True)
                if nme == "dark_subtraction" or nme == "convert_to_electrons": need = True
                have = sorted(p for p, v in model.items() if v["kind"] == k)
                if u < 3 and have: cal[k] = have[u % len(have)]
                elif need: cal[k] = "AUTOMATIC"
                else: cal[k] = "AUTOMATIC, OPTIONAL" if u < 8 else None
            s["calibs"] = cal
        steps.append(s)
    return steps


def by_hand(steps, paths, out, model, track, jit, frame_day, log=None):
    """call the functions one after the other -> (exception or None, entries, number of steps run, saved)"""
    corgidrp.track_individual_errors = track
    ds = data.Dataset(paths) if paths else []
    model = dict(model); ran = saved = 0
    used = []
    log = {} if log is None else log        # file name -> what was used before it was saved: [(index of the step, calibrations)]
    for at, s in enumerate(steps):
        if s["name"] == "save":
            frames = [ds] if isinstance(ds, data.Image) else list(ds)
            suf = s.get("keywords", {}).get("suffix", "").strip("_")
            suf = "_" + suf if s.get("keywords", {}).get("suffix", "") else ""
            for f in frames:
                nme = f.filename
                if suf:
                    nme = nme[:nme.lower().rfind(".fits")] + suf + ".fits"
                f.save(filedir=out, filename=nme); saved += 1
                log[nme] = list(log.get(None, []))
                if type(f).__name__ in LABEL:
                    model[os.path.join(out, nme)] = {"kind": type(f).__name__, "file": True}
            continue
        if s.get("skip"):
            continue
        args = []; missing = False
        if jit is not None and "calibs" in s:
            cal = {}
            ref = ds if isinstance(ds, data.Image) else ds[0]
            for k, v in s["calibs"].items():
                if v is not None and "AUTOMATIC" in v.upper():
                    cal[k] = nearest(model, k, ref)
                    if cal[k] is None and "OPTIONAL" not in v.upper():
                        if not jit: return ValueError(), model, ran, saved, used
                        missing = True
                else:
                    cal[k] = v
        else:
            cal = s.get("calibs", {})
        used.append((s["name"], cal)); log.setdefault(None, []).append((at, cal))
        if missing:
            continue
        kw = dict(s.get("keywords", {}))
        try:
            args = [CLS[k](v) if v is not None else None for k, v in cal.items()]
            w = STEPS[s["name"]]; m, fn = (w, s["name"]) if isinstance(w, str) else w
            ds = getattr(importlib.import_module("corgidrp." + m), fn)(ds, *args, **kw)
        except Exception as e:
            return e, model, ran, saved, used
        ran += 1
    return None, model, ran, saved, used


def nearest(model, kind, ref):
    """what the database gives for the frame"""
    best = None
    for p, v in model.items():
        if v["kind"] != kind:
            continue
        with fits.open(p) as h:
            e = h[1].header; t = time.Time(e["SCTSRT"]).mjd; x = e["EXPTIME"]
        if kind == "Dark" and x != ref.ext_hdr["EXPTIME"]:
            continue
        dt = abs(t - time.Time(ref.ext_hdr["SCTSRT"]).mjd)
        if best is None or dt < best[0]:          # the first registered one of equals
            best = (dt, p)
    return best and best[1]


def automatic(steps, model, ref, skip):
    """fill in the AUTOMATIC calibrations when the recipe is made; None: one is missing"""
    steps = copy.deepcopy(steps)
    for s in steps:
        for k, v in s.get("calibs", {}).items():
            if v is not None and "AUTOMATIC" in v.upper():
                s["calibs"][k] = nearest(model, k, ref)
                if s["calibs"][k] is None and "OPTIONAL" not in v.upper():
                    if not skip: return None
                    s["skip"] = True
    return steps


IGNORE = {"RECIPE", "DRPCTIME", "CHECKSUM", "DATASUM"}


def files_of(d):
    return {os.path.relpath(p, d): p for p in glob.glob(os.path.join(d, "**"), recursive=True) if os.path.isfile(p) and not p.endswith(".json")}


def compare_files(a, b, A, B):
    with fits.open(a) as ha, fits.open(b) as hb:
        n = os.path.basename(a)
        require([x.name for x in ha] == [x.name for x in hb], "extensions of {}: {} / {}", n, [x.name for x in ha], [x.name for x in hb])
        for x, y in zip(ha, hb):
            if y.data is None:
                require(x.data is None, "{}[{}] has data", n, x.name)
            elif y.data.dtype.names:
                require(repr(x.data) == repr(y.data), "table {}[{}]", n, x.name)
            else:
                require(x.data is not None and x.data.dtype == y.data.dtype and x.data.shape == y.data.shape, "{}[{}]: {} {}, by hand {} {}", n, x.name, getattr(x.data, "dtype", None), getattr(x.data, "shape", None), y.data.dtype, y.data.shape)
                eq(x.data, y.data, "pixels of {}[{}], recipe / by hand".format(n, x.name))
            cx = [(k.keyword, str(k.value).replace(A, B)) for k in x.header.cards if k.keyword not in IGNORE]
            cy = [(k.keyword, str(k.value)) for k in y.header.cards if k.keyword not in IGNORE]
            cx = [k for k in cx if k[0] != "CONTINUE"]; cy = [k for k in cy if k[0] != "CONTINUE"]
            d = [z for z in zip(cx, cy) if z[0] != z[1]]
            require(cx == cy, "header of {}[{}], recipe / by hand: {}", n, x.name, d[:2] or (cx + cy)[-1])


def registry(f):
    with open(f, newline="") as h:
        return {r["Filepath"]: r for r in csv.DictReader(h)}


@PROP.sub("compose", [st.fixed_dictionaries(conf), st.fixed_dictionaries(dict(conf, edits=st.just([]), have=st.just("all"))), st.fixed_dictionaries(dict(conf, jit=st.just(True), skip=st.booleans(), have=st.sampled_from(["few", "all"])))], 120, 2400, shards=5)
def compose(c, rec):
    """a recipe against the functions called by hand"""
    d = os.path.join(rec.dir, "r"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    A, B = os.path.join(d, "outA"), os.path.join(d, "outB"); os.makedirs(A); os.makedirs(B)
    model = calibrations(c, os.path.join(d, "cal"))
    if c["have"] == "few":
        r = rng(c["s"]); gone = {k for k in LABEL if r.random() < 0.25}
        model = {p: v for p, v in model.items() if v["kind"] not in gone}
    paths = science(c, os.path.join(d, "in"))
    dbf = corgidrp.caldb_filepath = os.path.join(d, "db.csv")
    db = C.CalDB()
    for p, v in model.items():
        db.create_entry(CLS[v["kind"]](p))
    steps = recipe_of(c, model)
    disk = {p: open(p, "rb").read() for p in list(model) + paths}
    cfg = {"track_individual_errors": c["track"]}
    if c["jit"] is not None: cfg["jit_calib_id"] = c["jit"]
    if c["skip"] and c["kw"][23] % 2: cfg["skip_missing_cal_steps"] = True
    user = {"track_individual_errors": c["t0"], "jit_calib_id": c["gjit"], "skip_missing_cal_steps": c["skip"]}
    jit = c["jit"] if c["jit"] is not None else c["gjit"]
    walk = c["how"].startswith("walk")
    tmpl = {"name": "gen", "template": True, "drpconfig": cfg, "inputs": [], "outputdir": "", "steps": steps}
    ref = data.Image(paths[0])
    # by hand
    expected = None; log = {}
    with mini():
        hand = copy.deepcopy(steps)
        if walk:
            for s in hand:
                if s["name"] == "dark_subtraction" and s.get("keywords", {}).get("outputdir") == "AUTOMATIC": s["keywords"]["outputdir"] = B
        else:
            for s in hand + steps:
                if s["name"] == "dark_subtraction" and s.get("keywords", {}).get("outputdir") == "AUTOMATIC": s["keywords"]["outputdir"] = B if any(s is x for x in hand) else A
        if not jit:
            hand = automatic(hand, model, ref, c["skip"])
            if not walk and hand is not None:          # recipes that are run directly come filled in
                tmpl["steps"] = [dict(s, calibs=h["calibs"], **({"skip": True} if h.get("skip") else {})) if "calibs" in s else s for s, h in zip(steps, hand)]
        cwd = os.getcwd()
        if hand is None:
            expected = (ValueError(), dict(model), 0, 0, [])
            if not walk:
                return
        else:
            os.makedirs(os.path.join(d, "cwdB")); os.chdir(os.path.join(d, "cwdB"))
            try:
                expected = by_hand(hand, paths, B, model, c["track"], bool(c["skip"]) if jit else None, c["days"][2], log)
            finally:
                os.chdir(cwd)
        # by recipe
        for k, v in user.items():
            setattr(corgidrp, k, v)
        os.makedirs(os.path.join(d, "cwdA")); os.chdir(os.path.join(d, "cwdA"))
        t0 = copy.deepcopy(tmpl)
        exc = got = None
        direct = dict(copy.deepcopy(tmpl), template=False, inputs=list(paths), outputdir=A)
        try:
            if c["how"] == "dict":
                W.run_recipe(direct, save_recipe_file=not c["nofile"])
            elif c["how"] == "file":
                json.dump(direct, open(os.path.join(d, "rec.json"), "w"))
                W.run_recipe(os.path.join(d, "rec.json"), save_recipe_file=not c["nofile"])
            elif c["how"] == "walk":
                got = W.walk_corgidrp(paths, "", A, template=tmpl)
            else:
                json.dump(tmpl, open(os.path.join(d, "tmpl.json"), "w"))
                got = W.walk_corgidrp(paths, "", A, template=os.path.join(d, "tmpl.json"))
        except Exception as e:
            exc = e
        finally:
            os.chdir(cwd)
    want, regs, ran, saved, used = expected
    require(type(exc) is type(want), "the recipe ended with {!r}, by hand {!r} (steps {})", exc, want, [s["name"] for s in steps])
    rec.nt(ran >= 3 and saved > 0 and want is None); rec.label(c["how"]); rec.label("raises " + (repr(want)[:60] if ran or hand else "missing") if want is not None else "jit" if jit else "runs")
    for k, v in user.items():
        require(getattr(corgidrp, k) == v, "the recipe left {}={} behind, the user's setting was {}", k, getattr(corgidrp, k), v)
    if walk:
        require(tmpl == t0, "the template was changed: {}", diff(snap(t0), snap(tmpl)))
    for p, b in disk.items():
        require(open(p, "rb").read() == b, "{} was changed on disk", p)
    fa, fb = files_of(A), files_of(B)
    require(sorted(fa) == sorted(fb), "files of the recipe {}, by hand {}", sorted(fa), sorted(fb))
    for n in fa:
        compare_files(fa[n], fb[n], d + "/outA", d + "/outB")
    ca, cb = files_of(os.path.join(d, "cwdA")), files_of(os.path.join(d, "cwdB")) if os.path.exists(os.path.join(d, "cwdB")) else {}
    require(sorted(ca) == sorted(cb), "files left in the working directory: {}, by hand {}", sorted(ca), sorted(cb))
    # the database
    rows = registry(dbf)
    wantrows = {p.replace(B, A) for p in regs}
    require(set(rows) == wantrows, "registered: {}, expected {}", sorted(set(rows) ^ wantrows), "none of these" if set(rows) - wantrows else "also these")
    for p, v in regs.items():
        require(rows[p.replace(B, A)]["Type"] == LABEL[v["kind"]], "{} is registered as {}", p, rows[p.replace(B, A)]["Type"])
        if v.get("file"):
            with fits.open(p.replace(B, A)) as h:
                require(abs(float(rows[p.replace(B, A)]["MJD"]) - time.Time(h[1].header["SCTSRT"]).mjd) < 1e-9, "time of {}", p)
            with contextlib.redirect_stdout(io.StringIO()):
                o = CLS[v["kind"]](p.replace(B, A))
    # the recipe itself
    js = glob.glob(os.path.join(A, "*.json"))
    if exc is None or ran:
        require(len(js) == (1 if walk or not c["nofile"] else 0), "recipe files {}", js)
    if js and not jit:
        r = json.load(open(js[0]))
        full = dict(t0, template=False, inputs=paths, outputdir=A, steps=[])
        require({k: v for k, v in r.items() if k != "steps"} == {k: v for k, v in full.items() if k != "steps"} and [s["name"] for s in r["steps"]] == [s["name"] for s in steps], "the saved recipe is {}", r)
    for n, p in fa.items():
        with fits.open(p) as h:
            if n.startswith("DetectorNoiseMaps_"):
                continue                               # the synthesized dark is saved by the step
            if any(s["name"] == "create_bad_pixel_map" for s in steps):
                continue                               # made from two calibrations, not from the frames
            require("RECIPE" in h[1].header, "{} does not carry the recipe", n)
            require(str(h[1].header["RECIPE"]).startswith("{"), "recipe of {} is {!r}", n, h[1].header["RECIPE"])
            r = json.loads(h[1].header["RECIPE"])
            require(r["inputs"] == paths and r["outputdir"] == A and [s["name"] for s in r["steps"]] == [s["name"] for s in steps], "recipe in {}: {}", n, r)
            if not jit:
                require([s.get("calibs") for s in r["steps"]] == [s.get("calibs") for s in (hand or [])], "calibrations in the recipe of {}: {}", n, [s.get("calibs") for s in r["steps"]])
            else:
                for at, cal in log.get(n, []):
                    for k, v in cal.items():
                        require(v is None or r["steps"][at]["calibs"][k] == v.replace(B, A), "{} used for step {} ({}), the recipe in {} says {}", v, at, steps[at]["name"], n, r["steps"][at].get("calibs"))
    if got is not None and exc is None:
        require([s["name"] for s in got["steps"]] == [s["name"] for s in steps] and got["inputs"] == paths, "walk_corgidrp returned {}", got)
        if jit:
            filled = [(s["name"], s["calibs"]) for s in got["steps"] if "calibs" in s and not (s.get("skip"))]
            u = [(a, {k: v and v.replace(B, A) for k, v in b.items()}) for a, b in used if b and not any(v is None and "OPTIONAL" not in str(x) and x is not None for (v, x) in [])]
            for f in filled:
                require(f in u, "calibrations of {} in the returned recipe: {}, used {}", f[0], f[1], [b for a, b in u if a == f[0]])


TEMPLATES = sorted(os.path.basename(f) for f in glob.glob(os.path.join(W.recipe_dir, "*.json")))
MAYNONE = {"noise_maps", "k_gain", "pump_trap_cal", "corethroughput_cal", "ct_calibration", "pc_master_dark"}


@PROP.sub("templates", st.fixed_dictionaries({"f": st.sampled_from(TEMPLATES), "opt": st.booleans()}), 80, 300, examples=[{"f": f, "opt": o} for f in TEMPLATES for o in (False, True)])
def templates(c, rec):
    """every step of every shipped template can be called the way the template says"""
    t = json.load(open(os.path.join(W.recipe_dir, c["f"]))); w = c["f"]
    require(set(t) == {"name", "template", "drpconfig", "inputs", "outputdir", "steps"} and t["template"] is True and t["inputs"] == [], "{}: entries {}", w, sorted(t))
    require(all(hasattr(corgidrp, k) and isinstance(v, bool) for k, v in t["drpconfig"].items()), "{}: settings {}", w, t["drpconfig"])
    require(t["steps"] and t["steps"][-1]["name"] == "save", "{} does not end with save", w)
    for s in t["steps"]:
        n = s["name"]
        require(set(s) <= {"name", "calibs", "keywords", "skip"}, "{}: entries {} of {}", w, sorted(s), n)
        if n == "save":
            require("calibs" not in s and set(s.get("keywords", {})) <= {"suffix"}, "{}: save with {}", w, s)
            continue
        require(n in STEPS and n in W.all_steps, "{}: unknown step {}", w, n)
        x = STEPS[n]; m, fn = (x, n) if isinstance(x, str) else x
        f = getattr(importlib.import_module("corgidrp." + m), fn)
        require(W.all_steps[n] is f, "step {} runs {}", n, W.all_steps[n])
        cal = {}
        for k, v in s.get("calibs", {}).items():
            require(k in CLS and data.datatypes.get(k) is CLS[k], "{}: unknown calibration {}", w, k)
            require(v.upper().replace(" ", "") in ("AUTOMATIC", "AUTOMATIC,OPTIONAL"), "{}: {} is {}", w, k, v)
            if not (c["opt"] and "OPTIONAL" in v.upper()): cal[k] = v
        try:
            b = inspect.signature(f).bind("ds", *s.get("calibs", {}), **s.get("keywords", {}))
        except TypeError as e:
            require(False, "{}: {} cannot be called with {} and {}: {}", w, n, list(s.get("calibs", {})), s.get("keywords", {}), e)
        names = list(inspect.signature(f).parameters)[1:1 + len(s.get("calibs", {}))]
        for k, a in zip(s.get("calibs", {}), names):
            require(a in TAKES and k in TAKES[a], "{}: {} is given a {} as {}", w, n, k, a)
            require(k in cal or a in MAYNONE, "{}: {} cannot go without a {}", w, n, k)
        if n == "do_psf_subtraction" and (b.arguments.get("measure_klip_thrupt", True) or b.arguments.get("measure_1d_core_thrupt", True)):
            require("CoreThroughputCalibration" in cal, "{}: do_psf_subtraction needs a core throughput calibration to measure the throughput", w)
    rec.nt(len(t["steps"]) > 2)


B1 = lambda full, mode=None, up=True: [{"name": "prescan_biassub", "calibs": {"DetectorNoiseMaps": "AUTOMATIC"}, "keywords": {"return_full_frame": full}}, {"name": "detect_cosmic_rays", "calibs": {"DetectorParams": "AUTOMATIC", "KGain": "AUTOMATIC"}, "keywords": {"mode": mode} if mode else {}},
                                      {"name": "correct_nonlinearity", "calibs": {"NonLinearityCalibration": "AUTOMATIC"}}, {"name": "update_to_l2a"}]
SV = [{"name": "save"}]
EL = [{"name": "convert_to_electrons", "calibs": {"KGain": "AUTOMATIC"}}]
EG = EL + [{"name": "em_gain_division"}]
POST = [{"name": "desmear", "calibs": {"DetectorParams": "AUTOMATIC"}}, {"name": "cti_correction", "calibs": {"TrapCalibration": None}}, {"name": "flat_division", "calibs": {"FlatField": "AUTOMATIC"}}, {"name": "correct_bad_pixels", "calibs": {"BadPixelMap": "AUTOMATIC"}}, {"name": "update_to_l2b"}]
B2 = [{"name": "frame_select"}] + EG + [{"name": "add_photon_noise"}, {"name": "dark_subtraction", "calibs": {"DetectorNoiseMaps": "AUTOMATIC"}, "keywords": {"outputdir": "AUTOMATIC"}}] + POST + SV
TRAD = [{"name": "build_trad_dark", "calibs": {"DetectorParams": "AUTOMATIC"}}] + SV
PCM = [{"name": "frame_select"}] + EL + [{"name": "get_pc_mean", "calibs": {"Dark": "AUTOMATIC"}}] + POST + SV
PCD = [{"name": "frame_select"}] + EL + [{"name": "get_pc_mean", "keywords": {"inputmode": "darks"}}] + SV
PU = B1(False)
STAGE = {"basic": ("L1", {"VISTYPE": "TDEMO"}, {}, B1(False) + SV), "eng": ("L1", {"VISTYPE": "ENGPUPIL"}, {}, B1(True) + SV), "l2b": ("L1", {"VISTYPE": None}, {}, B1(False) + SV + B2), "trad": ("L1", {"VISTYPE": "DARK"}, {}, B1(True, "full") + EG + TRAD),
         "l2a": ("L2a", {"VISTYPE": "TDEMO"}, {}, B2), "l2a_trad": ("L2a", {"VISTYPE": "DARK"}, {"full": True}, EG + TRAD), "l2a_pc": ("L2a", {"VISTYPE": "TDEMO"}, {"pc": True}, PCM), "l2a_pcdark": ("L2a", {"VISTYPE": "DARK"}, {"pc": True}, PCD),
         "l3": ("L2b", {"VISTYPE": "TDEMO"}, {}, [{"name": "create_wcs", "calibs": {"AstrometricCalibration": "AUTOMATIC"}}, {"name": "divide_by_exptime"}, {"name": "update_to_l3"}] + SV),
         "l4": ("L3", {"VISTYPE": "TDEMO"}, {"fsm": 0}, [{"name": "distortion_correction", "calibs": {"AstrometricCalibration": "AUTOMATIC"}}, {"name": "northup"}, {"name": "combine_subexposures", "keywords": {"num_frames_scaling": False}},
                                                       {"name": "update_to_l4", "calibs": {"CoreThroughputCalibration": None, "FluxcalFactor": "AUTOMATIC"}}] + SV),
         "basic+l2a": ("L1", {"VISTYPE": "TDEMO"}, {}, B1(False) + SV + B2)}


def pcframe(c, r, rate):
    return np.where(r.random(IM) < rate, 700 + r.exponential(5000, IM), -np.abs(r.normal(size=IM)) * 20) / 8.0


@PROP.sub("levels", [st.fixed_dictionaries(dict(conf, stage=st.just(s))) for s in sorted(STAGE)], 44, 660, shards=4)
def levels(c, rec):
    """the standard processing of each kind of data, with the recipe picked by the pipeline, against the same functions called by hand"""
    d = os.path.join(rec.dir, "s"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    A, B = os.path.join(d, "outA"), os.path.join(d, "outB"); os.makedirs(A); os.makedirs(B)
    lv, pri, opt, steps = STAGE[c["stage"]]
    c = dict(c, lv=lv, n=max(3, c["n"]) if "DARK" in pri.values() or opt.get("pc") else c["n"], how="walk", jit=None)
    model = calibrations(c, os.path.join(d, "cal"))
    paths = science(c, os.path.join(d, "in"))
    for i, p in enumerate(paths):                       # adapt the frames to the kind of data
        r = rng(c["s"] + 31 * i)
        f = data.Image(p)
        if opt.get("full"): f.data = r.normal(size=FULL); f.err = np.abs(r.normal(size=(1,) + FULL)); f.dq = dq_array(c["s"] + i, FULL, frac=0.1).astype(f.dq.dtype)
        if opt.get("pc"): f.data = pcframe(c, r, 0.06); f.err = f.err * 0; f.ext_hdr["EMGAIN_C"] = 5000.0; f.ext_hdr["RN"] = 100.0
        f.ext_hdr["ISPC"] = bool(opt.get("pc")); f.ext_hdr["FSMLOS"] = opt.get("fsm", 0); f.ext_hdr["OVEREXP"] = False
        if pri["VISTYPE"] is None: f.pri_hdr.remove("VISTYPE", ignore_missing=True)
        else: f.pri_hdr["VISTYPE"] = pri["VISTYPE"]
        f.save()
    dbf = corgidrp.caldb_filepath = os.path.join(d, "db.csv")
    db = C.CalDB()
    for p, v in model.items():
        if opt.get("pc") and v["kind"] == "Dark":
            v["kind"] = None; continue
        if opt.get("pc") and v["kind"] == "KGain":
            with fits.open(p, mode="update") as h: h[1].data[:] = 8.0; h[1].header["RN"] = 100.0
        db.create_entry(CLS[v["kind"]](p))
    if opt.get("pc") and pri["VISTYPE"] != "DARK":
        from corgidrp.photon_counting import get_pc_mean
        from corgidrp.l2a_to_l2b import convert_to_electrons
        ds = data.Dataset(paths).copy()
        for i, f in enumerate(ds):
            f.data[:] = pcframe(c, rng(c["s"] + 77 * i), 0.02); f.pri_hdr["VISTYPE"] = "DARK"
        kg = data.KGain(sorted(p for p, v in model.items() if v["kind"] == "KGain")[0])
        dk = get_pc_mean(convert_to_electrons(ds, kg), inputmode="darks")
        dk = dk if isinstance(dk, data.Dark) else dk[0]
        dk.ext_hdr["SCTSRT"] = stamp(c["days"][0])
        dk.save(filedir=os.path.join(d, "cal"), filename="pcdark.fits"); db.create_entry(dk)
        model[os.path.join(d, "cal", "pcdark.fits")] = {"kind": "Dark"}
    with mini():
        ref = data.Image(paths[0])
        hand = automatic(copy.deepcopy(steps), model, ref, False)
        for s in hand:
            if s["name"] == "dark_subtraction": s["keywords"]["outputdir"] = B
        want, regs, ran, saved, used = by_hand(hand, paths, B, model, False, None, 0)
        if want is not None:
            raise want                                 # the generated data have to be valid
        if c["stage"] == "basic+l2a":
            corgidrp.jit_calib_id = c["gjit"]
            W.walk_corgidrp(paths, "", A)
            W.walk_corgidrp([os.path.join(A, os.path.basename(p).replace("_L1_", "_L2a")) for p in paths], "", A)
        else:
            corgidrp.jit_calib_id = c["gjit"]
            r = W.walk_corgidrp(paths, "", A)
            require(r["inputs"] == paths, "inputs of the recipe {}", r["inputs"])
    rec.nt(); rec.label(c["stage"])
    fa, fb = files_of(A), files_of(B)
    require(sorted(fa) == sorted(fb), "files of the pipeline {}, by hand {}", sorted(fa), sorted(fb))
    for n in fa:
        compare_files(fa[n], fb[n], d + "/outA", d + "/outB")
    require(set(registry(dbf)) == {p.replace(B, A) for p, v in regs.items() if v["kind"]}, "registered {}", sorted(registry(dbf)))


names = st.tuples(st.sampled_from(["CGI_02000_L2b", "a.b_c", "run.fits_1", "x.FITS.y", "d-1"]), st.sampled_from([".fits", ".fits", ".FITS", ".Fits"])).map("".join)


@PROP.sub("save_data", st.fixed_dictionaries({"n": st.lists(names, min_size=1, max_size=4, unique_by=str.lower), "suffix": st.sampled_from([None, "", "x", "_x", "a_b_", "v1.2", "L3_"]), "cal": st.sampled_from([None, "Dark", "KGain", "FlatField"]), "one": st.booleans(), "s": seeds}), 60, 600)
def save_data(c, rec):
    """what is saved, under which names, and which of it is registered"""
    from vf import products as PR
    d = os.path.join(rec.dir, "sv"); shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, "out"))
    old = corgidrp.caldb_filepath
    corgidrp.caldb_filepath = os.path.join(d, "db.csv")
    try:
        fr = []
        for i, n in enumerate(c["n"]):
            with contextlib.redirect_stdout(io.StringIO()):
                f = img(rng([c["s"], i]).normal(size=(3, 4)), "L2b") if c["cal"] is None else PR.make({"kind": c["cal"], "shape": [3, 4], "n_in": 1, "s": c["s"] + i, "day": i, "exptime": 1.0})[0]
            for k in ("SCTSRT", "EXPTIME", "EMGAIN_C", "EXCAMT", "OPMODE"):
                f.ext_hdr[k] = {"SCTSRT": stamp(i), "OPMODE": "NONE"}.get(k, 1.0)
            f.pri_hdr["OBSNUM"] = i; f.filename = n; fr.append(f)
        if c["one"]: fr = fr[:1]
        args = {} if c["suffix"] is None else {"suffix": c["suffix"]}
        with contextlib.redirect_stdout(io.StringIO()):
            W.save_data(fr[0] if c["one"] else data.Dataset(fr), os.path.join(d, "out"), **args)
        want = [n if not c["suffix"] else n[:-5] + "_" + c["suffix"].strip("_") + ".fits" for n in c["n"][:len(fr)]]
        got = sorted(os.listdir(os.path.join(d, "out")))
        require(got == sorted(want), "saved {} with suffix {} as {}, expected {}", c["n"][:len(fr)], c["suffix"], got, sorted(want))
        for f, n in zip(fr, want):
            with fits.open(os.path.join(d, "out", n)) as h:
                eq(h[1].data, f.data, "pixels of " + n)
        reg = registry(corgidrp.caldb_filepath) if os.path.exists(corgidrp.caldb_filepath) else []
        require(set(reg) == ({os.path.join(d, "out", n) for n in want} if c["cal"] else set()), "registered {} of {}", sorted(reg), want)
        rec.nt(len(fr) > 1 or bool(c["suffix"]))
    finally:
        corgidrp.caldb_filepath = old
