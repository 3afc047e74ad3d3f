"""C17: dark subtraction and synthesized darks."""
from vf.common import *
from vf.core import Prop, require
from vf.geom import geoms, regions
from vf.products import inputs
from corgidrp.l2a_to_l2b import dark_subtraction
from corgidrp.darks import build_synthesized_dark
import corgidrp

PROP = Prop("C17", "Random detector geometries, noise maps (values, errors, flags), master darks and datasets (1-4 frames, error layers, flags, gains by measured/applied/commanded keyword, exposure times): "
            "synthesized dark and subtraction result compared with the per-pixel formulas; saved dark equals the one used; mismatching darks, mixed datasets, photon-counted darks, invalid maps and shapes rejected. "
            "Non-trivial: non-zero dark, error and flags.")

base = {"g": geoms(arrtypes=("SCI",)), "s": seeds, "n": st.integers(1, 4), "track": st.booleans(), "full": st.booleans(), "exp": st.sampled_from([0.05, 1.0, 60.0, 7]),
        "gain": st.tuples(st.sampled_from(["EMGAIN_M", "EMGAIN_A", "EMGAIN_C"]), st.sampled_from([1.0, 1.5, 10.0, 1000.0])), "kg": st.sampled_from([8.7, 7.0]), "outdir": st.booleans()}


def noise_maps(c, shp, neg=None):
    r = rng(c["s"] ^ 99)
    d = np.array([r.normal(size=shp) * 10, r.random(shp), r.random(shp) * 0.1])
    if neg is not None: d[neg][-1, 0] = -0.01
    q = np.array([dq_array(c["s"] + k, shp, bits=[1, 256], frac=0.15) for k in range(3)])
    p, h = hdrs("L2b", ext={"B_O": 0.1, "B_O_ERR": 0.01})
    return data.DetectorNoiseMaps(d, pri_hdr=p, ext_hdr=h, input_dataset=inputs(2, (2, 2)), err=np.abs(r.normal(size=(1, 3) + shp)), dq=q, err_hdr=fits.Header())


def ext_of(c):
    kw, v = c["gain"]
    e = {"EMGAIN_C": 3.0, "EMGAIN_A": -1.0, "EXPTIME": c["exp"], "KGAINPAR": c["kg"], "BUNIT": "detected electrons"}
    if kw == "EMGAIN_M": e.update({"EMGAIN_M": v, "EMGAIN_A": 77.0})
    elif kw == "EMGAIN_A": e["EMGAIN_A"] = v
    else: e["EMGAIN_C"] = v
    return e


def frames(c, shp, bad=None):
    fr = []
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        e = ext_of(c)
        if bad and bad[1] == i: e[bad[0]] = e[bad[0]] * 1.5 + 1 if c["s"] % 2 else e[bad[0]] * 1.0001 + 1e-6
        f = img(r.normal(size=shp) * 100, err=np.abs(r.normal(size=shp)), dq=dq_array(c["s"] + 20 + i, shp), ext=e, filename=fname(i))
        f.ext_hdr["HISTORY"] = "before %d" % i
        fr.append(f)
    return data.Dataset(fr)


def shapes(c):
    reg = regions(c["g"]); d = reg["SCI"]
    full = (d["frame_rows"], d["frame_cols"])
    r0, c0 = d["image"]["r0c0"]
    im = (d["image"]["rows"], d["image"]["cols"])
    return reg, full, (full if c["full"] else im), (slice(None), slice(None)) if c["full"] else (slice(r0, r0 + im[0]), slice(c0, c0 + im[1]))


def check_sub(c, ds, out, dd, de, dq, rec):
    require([f.filename for f in out] == [f.filename for f in ds], "frames {}", [f.filename for f in out])
    close(out.all_data, ds.all_data - dd, 1e-9, 1e-9, "dark-subtracted data")
    close(out.all_err[:, 0], np.sqrt(ds.all_err[:, 0] ** 2 + de ** 2), 1e-9, 1e-12, "uncertainty")
    if corgidrp.track_individual_errors:
        close(out.all_err[:, -1], np.broadcast_to(de, ds.all_data.shape), 1e-9, 1e-12, "dark error layer")
    require(out.all_err.shape[1] == ds.all_err.shape[1] + (1 if corgidrp.track_individual_errors else 0), "{} layers", out.all_err.shape[1])
    eq(out.all_dq, ds.all_dq | dq.astype(ds.all_dq.dtype), "flags")
    for i, f in enumerate(out):
        require(f.ext_hdr["BUNIT"] == "Photoelectrons", "BUNIT {}", f.ext_hdr["BUNIT"])
        require("before %d" % i in hist(f) and len(hist(f)) > 1, "history {}", hist(f))
        eq(f.data, out.all_data[i], "frame vs cube"); eq(f.dq, out.all_dq[i], "frame vs cube"); eq(f.err, out.all_err[i], "frame vs cube")


@PROP.sub("synth", st.fixed_dictionaries(base), 250, 5000, shards=3)
def synth(c, rec):
    corgidrp.track_individual_errors = c["track"]
    reg, full, shp, w = shapes(c)
    nm = noise_maps(c, full)
    ds = frames(c, shp)
    s0, n0 = dict(snap(ds), ids=0), snap(nm)
    g, t = c["gain"][1], c["exp"]
    F, C, D = nm.data[0][w], nm.data[1][w], nm.data[2][w]
    eF, eC, eD = nm.err[0][0][w], nm.err[0][1][w], nm.err[0][2][w]
    dd = F / g + t * D + C
    de = np.sqrt(eF ** 2 / g ** 2 + t ** 2 * eD ** 2 + eC ** 2)
    dq = nm.dq[0][w] | nm.dq[1][w] | nm.dq[2][w]
    dark = build_synthesized_dark(ds, nm, detector_regions=reg, full_frame=c["full"])
    require(type(dark) is data.Dark and dark.ext_hdr["DATATYPE"] == "Dark", "type {}", type(dark))
    close(dark.data, dd, 1e-9, 1e-9, "synthesized dark"); close(dark.err[0], de, 1e-9, 1e-12, "its uncertainty"); eq(dark.dq, dq, "its flags")
    require(dark.ext_hdr["EXPTIME"] == t and dark.ext_hdr["EMGAIN_C"] == g, "EXPTIME {} gain {}", dark.ext_hdr["EXPTIME"], dark.ext_hdr["EMGAIN_C"])
    same(n0, snap(nm), "the noise maps"); same(s0, dict(snap(ds), ids=0), "the dataset")
    od = os.path.join(rec.dir, "o"); os.makedirs(od)
    cwd = os.path.join(rec.dir, "cwd"); os.makedirs(cwd); old = os.getcwd(); os.chdir(cwd)
    try:
        out = dark_subtraction(ds, nm, detector_regions=reg, outputdir=od if c["outdir"] else None)
    finally:
        os.chdir(old)
    same(n0, snap(nm), "the noise maps"); same(s0, dict(snap(ds), ids=0), "the dataset")
    check_sub(c, ds, out, dd, de, dq, rec)
    files = os.listdir(od if c["outdir"] else cwd)
    require(len(files) == 1, "files written: {}", files)
    sd = data.Dark(os.path.join(od if c["outdir"] else cwd, files[0]))
    close(sd.data, dd, 1e-9, 1e-9, "saved dark"); eq(sd.dq, dq, "saved dark flags")
    rec.nt(); rec.label(c["gain"][0])


def master(c, shp, ext=None, pc=None):
    r = rng(c["s"] ^ 7)
    e = ext_of(c); e.update(ext or {})
    p, h = hdrs("L2a", ext=e)
    if pc: h["PC_STAT"] = pc
    return data.Dark(r.normal(size=shp) * 10, pri_hdr=p, ext_hdr=h, input_dataset=inputs(2, (2, 2)), err=np.abs(r.normal(size=shp)), dq=dq_array(c["s"] + 3, shp, bits=[1, 2, 256]))


@PROP.sub("master", st.fixed_dictionaries(dict(base, reload=st.booleans())), 200, 4000, shards=2)
def mast(c, rec):
    corgidrp.track_individual_errors = c["track"]
    reg, full, shp, w = shapes(c)
    ds = frames(c, shp)
    dark = master(c, shp)
    if c["reload"]:
        dark.save(filedir=rec.dir, filename="d.fits"); dark = data.Dark(os.path.join(rec.dir, "d.fits"))
    s0, d0 = dict(snap(ds), ids=0), snap(dark)
    out = dark_subtraction(ds, dark, detector_regions=reg, outputdir=rec.dir)
    same(d0, snap(dark), "the dark"); same(s0, dict(snap(ds), ids=0), "the dataset")
    check_sub(c, ds, out, dark.data, dark.err[0], dark.dq, rec)
    rec.nt()


@PROP.sub("rejects", st.fixed_dictionaries(dict(base, what=st.sampled_from(["dark", "mixed", "pc", "negC", "negD", "mapshape", "shape", "gain", "type"]), key=st.sampled_from(["EXPTIME", "EMGAIN_C", "KGAINPAR"]), which=st.integers(0, 3), synth=st.booleans())), 150, 2500)
def reject(c, rec):
    reg, full, shp, w = shapes(c)
    k, what = c["key"], c["what"]
    go = lambda ds, d: dark_subtraction(ds, d, detector_regions=reg, outputdir=rec.dir)
    rec.label(what); rec.nt()
    if what == "dark":
        rejects(lambda: go(frames(c, shp), master(c, shp, {k: ext_of(c)[k] * 1.001 + 0.01 if c["s"] % 2 else ext_of(c)[k] * 1.0001 + 1e-6})), Exception, "a dark with another " + k)
    elif what == "mixed":
        c["n"] = max(2, c["n"])
        ds = frames(c, shp, (k, c["which"] % c["n"]))
        rejects(lambda: go(ds, noise_maps(c, full) if c["synth"] else master(c, shp)), Exception, "a dataset mixing " + k)
        if c["synth"]: rejects(lambda: build_synthesized_dark(ds, noise_maps(c, full), reg, c["full"]), Exception, "building a dark for a dataset mixing " + k)
    elif what == "pc":
        rejects(lambda: go(frames(c, shp), master(c, shp, pc="photon-counted master dark")), Exception, "a photon-counted dark")
    elif what in ("negC", "negD"):
        rejects(lambda: go(frames(c, shp), noise_maps(c, full, neg=1 if what == "negC" else 2)), Exception, "negative noise map " + what)
    elif what == "mapshape":
        rejects(lambda: go(frames(c, shp), noise_maps(c, (full[0] + 1, full[1]))), Exception, "noise maps of the wrong shape")
    elif what == "shape":
        bad = (shp[0], shp[1] + 1)
        if bad in (full, shp): return
        rejects(lambda: go(frames(c, bad), noise_maps(c, full)), Exception, "frames of the wrong shape")
    elif what == "gain":
        c["gain"] = [c["gain"][0] if c["gain"][0] != "EMGAIN_A" else "EMGAIN_C", 0.5]
        rejects(lambda: go(frames(c, shp), noise_maps(c, full)), Exception, "gain below 1")
    else:
        rejects(lambda: go(frames(c, shp), img(np.zeros(shp))), Exception, "an Image instead of a dark")
