"""C25: star finding from satellite spots."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.l3_to_l4 import find_star
from corgidrp import star_center
import corgidrp, copy as cp

PROP = Prop("C25", "Synthetic observing sequences (1-3 science and 1-3 spot frames in any order, square or not, odd or even shape, sub-pixel star positions, spot separation, rotation, contrast and width in range, common speckle "
            "background, one discrepant frame, bad pixels in the same or different places of the frames): the recorded star position lies within 0.15 pixel of the planted one, the documented frames are returned in order with it, and results do not depend on earlier calls or custom settings; "
            "mixed modes and invalid labels rejected. Non-trivial: star not at the image centre.")
MODES = ["NFOV", "SPEC660", "SPEC730", "WFOV"]
SEP = {"NFOV": 6.5 * 51.46 * 0.575 / 13, "SPEC660": 6.0 * 51.46 * 0.730 / 13, "SPEC730": 6.0 * 51.46 * 0.730 / 13, "WFOV": 13 * 51.46 * 0.825 / 13}
pix = st.floats(-3, 3)


def case(mode=None):
    return st.fixed_dictionaries({"mode": st.just(mode) if mode else st.sampled_from(["WFOV", "SPEC730", "NFOV", "SPEC660"]), "s": seeds, "dx": pix, "dy": pix, "gx": st.integers(-6, 6), "gy": st.integers(-6, 6), "wx": st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(20, 30)), "wy": st.integers(0, 9), "fwhm": st.floats(3.5, 5.5), "dsep": st.floats(-0.6, 0.6),
                                  "rot": st.floats(-3, 3), "nsci": st.integers(1, 3), "nsat": st.integers(1, 3), "amp": st.sampled_from([50.0, 200.0]), "drop": st.booleans(), "default_guess": st.booleans(), "odd": st.booleans(), "speckle": st.booleans(), "bad": st.sampled_from([0, 0, 0, 1, 2, 3])})


def scene(c):
    """-> dataset, true position, guess"""
    half = 56 if c["mode"] == "WFOV" else 30
    ny, nx = 2 * half + c["wy"], 2 * half + c["wx"]
    gx, gy = (nx // 2, ny // 2) if c["default_guess"] else (nx // 2 + c["gx"], ny // 2 + c["gy"])
    x0, y0 = gx + c["dx"], gy + c["dy"]
    yy, xx = np.indices((ny, nx))
    r = rng(c["s"])
    sg = c["fwhm"] / 2.3548
    spots = np.zeros((ny, nx))
    sep = SEP[c["mode"]] + c["dsep"]
    for a in ([0, 180] if c["mode"].startswith("SPEC") else [0, 90, 180, 270]):
        t = np.radians(a + c["rot"])
        spots += c["amp"] * np.exp(-((xx - x0 - sep * np.cos(t)) ** 2 + (yy - y0 - sep * np.sin(t)) ** 2) / 2 / sg ** 2)
    back = (400 if c.get("bad") == 3 else 10) + (np.abs(r.normal(size=(ny, nx))) * 30 if c["speckle"] else 0)
    lab = [0] * c["nsci"] + [1] * c["nsat"]
    r.shuffle(lab)
    fr = []
    for i, k in enumerate(lab):
        d = back + k * spots + r.normal(size=(ny, nx)) * 0.3
        f = img(d, err=np.ones(d.shape), dq=dq_array(c["s"] + i, d.shape), level="L3", pri={"SATSPOTS": int(k)}, ext={"FSMPRFL": c["mode"]}, filename=fname(i, "L3"))
        for kw in ("STARLOCX", "STARLOCY"): f.ext_hdr.remove(kw, ignore_missing=True)
        f.ext_hdr["HISTORY"] = "before %d" % i
        fr.append(f)
    if c.get("bad") and not c["odd"]:      # bad pixels (NaN) away from the spots: the same in all frames, or others in each
        ok = np.argwhere(spots < (0.02 if c["bad"] == 3 else 1e-4) * c["amp"])
        for i, f in enumerate(fr):
            if c["bad"] == 3 and f.pri_hdr["SATSPOTS"] != c["s"] % 2:      # only in the frames with (or without) the spots
                continue
            q = ok[rng(c["s"] + 50 + (i if c["bad"] == 2 else 0)).permutation(len(ok))[:ny * nx // 200]]
            f.data[q[:, 0], q[:, 1]] = np.nan
    if c["odd"]:
        for k, n in ((0, c["nsci"]), (1, c["nsat"])):
            if n == 3:
                j = lab.index(k)
                fr[j].data[:] = r.normal(size=(ny, nx)) * 100
    return data.Dataset(fr), lab, (x0, y0), (gx, gy)


def pos(ds):
    return ds[0].ext_hdr["STARLOCX"], ds[0].ext_hdr["STARLOCY"]


def run(c, ds, g, fast=True, **kw):
    """fast: coarser edges of the search apertures, through the documented settings"""
    if not c["default_guess"]: kw["star_coordinate_guess"] = g
    if fast:
        p = cp.deepcopy(kw.get("satellite_spot_parameters", {}))
        for k in ("offset", "separation"): p.setdefault(k, {}).setdefault("nSubpixels", 11)
        kw["satellite_spot_parameters"] = p
    return find_star(ds, **kw)


@PROP.sub("find", case(), 56, 1200, shards=8)
def find(c, rec):
    ds, lab, true, g = scene(c)
    s0 = dict(snap(ds), ids=0)
    out = run(c, ds, g, fast=c["s"] % 6 > 0, drop_satspots_frames=c["drop"])
    same(s0, dict(snap(ds), ids=0), "the input")
    keep = [f for f, k in zip(ds.frames, lab) if not (c["drop"] and k)]
    require([f.filename for f in out] == [f.filename for f in keep], "returned frames {} expected {}", [f.filename for f in out], [f.filename for f in keep])
    for f, f0 in zip(out, keep):
        p = f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"]
        require(np.hypot(p[0] - true[0], p[1] - true[1]) < 0.15, "star planted at {} found at {} (guess {})", true, p, g)
        eq(f.data, f0.data, "data"); eq(f.err, f0.err, "err"); eq(f.dq, f0.dq, "dq")
        require(hist(f)[:len(hist(f0))] == hist(f0) and len(hist(f)) > len(hist(f0)), "history {}", hist(f))
        require(f.pri_hdr["SATSPOTS"] == f0.pri_hdr["SATSPOTS"], "label")
    eq(out.all_data, np.array([f.data for f in keep]), "cube")
    rec.nt(abs(true[0] - ds.all_data.shape[2] // 2) + abs(true[1] - ds.all_data.shape[1] // 2) > 0.5); rec.label(c["mode"] + (" drop" if c["drop"] else "") + (" bad pixels" if c["bad"] else ""))


@PROP.sub("spots", case(), 28, 400, shards=4)
def spots(c, rec):
    """positions of the spots themselves, with the clocking angle given"""
    ds, lab, true, g = scene(dict(c, speckle=False, odd=False, bad=0))
    med = [np.nan_to_num(np.nanmedian([f.data for f, k in zip(ds.frames, lab) if k == v], axis=0)) for v in (0, 1)]
    pars = cp.deepcopy(star_center.satellite_spot_parameters_defaults[c["mode"]])
    for k in pars: pars[k].update(spotSepPix=SEP[c["mode"]], nSubpixels=11)
    p0 = cp.deepcopy(pars)
    xy, sp = star_center.star_center_from_satellite_spots(med[0], med[1], g, c["rot"], pars)
    require(pars == p0, "the tuning parameters were modified")
    require(np.hypot(*(np.array(xy) - true)) < 0.15, "star planted at {} found at {}", true, xy)
    sep = SEP[c["mode"]] + c["dsep"]
    cen = np.array([med[0].shape[1] // 2, med[0].shape[0] // 2])
    want = []
    for a in ([0, 180] if c["mode"].startswith("SPEC") else [0, 180, 90, 270]):
        t = np.radians(a + c["rot"]); want.append(np.array(true) - cen + sep * np.array([np.cos(t), np.sin(t)]))
    close(sp, want, 0, 0.35, "spot offsets from the image centre")
    # scaling both images or adding the same scene to both changes nothing
    scn = rng(c["s"] + 3).normal(size=med[0].shape) * 100
    xy2, _ = star_center.star_center_from_satellite_spots(med[0] * 7 + scn, med[1] * 7 + scn, g, c["rot"], pars)
    close(xy2, xy, 0, 1e-6, "star position after scaling and adding a common scene")
    rejects(lambda: star_center.star_center_from_satellite_spots(med[0][1:], med[1], g, 0, pars), TypeError, "images of different shape")
    rec.nt(True)


CUST = [{"offset": {"spotSepPix": 8.0}}, {"offset": {"roiRadiusPix": 2.0, "nSteps": 3}}, {"separation": {"roiRadiusPix": 2.5, "nIter": 1}}, {"offset": {"probeRotVecDeg": [45]}, "separation": {"spotSepPix": 20.0}}]


@PROP.sub("history", st.fixed_dictionaries({"a": st.one_of(*[case(m) for m in MODES[:3]]), "b": st.one_of(*[case(m) for m in MODES[:3]]), "cust": st.lists(st.integers(0, 3), min_size=1, max_size=2), "same": st.booleans()}), 16, 240, shards=8)
def history(c, rec):
    """the same call gives the same answer after any earlier calls with other data or settings"""
    a = c["a"]; b = dict(c["b"], mode=a["mode"]) if c["same"] else c["b"]
    A = scene(a); B = scene(b)
    d0 = cp.deepcopy(star_center.satellite_spot_parameters_defaults)
    try:
        first = pos(run(a, A[0], A[3]))
        for i in c["cust"]:
            cu = cp.deepcopy(CUST[i]); cu0 = cp.deepcopy(cu)
            for k in cu: cu[k]["nSubpixels"] = 5
            cu0 = cp.deepcopy(cu)
            try: run(b, B[0], B[3], fast=False, satellite_spot_parameters=cu)
            except (ValueError, np.linalg.LinAlgError): pass       # unsuitable settings
            require(cu == cu0, "the caller's settings were modified: {} -> {}", cu0, cu)
        second = pos(run(a, A[0], A[3]))
        require(first == second, "the same call first returned {}, and {} after calls with custom settings {}", first, second, [CUST[i] for i in c["cust"]])
        rejects(lambda: run(b, B[0], B[3], satellite_spot_parameters={"offset": {"spotSep": 3}}), KeyError, "unknown setting")
        rejects(lambda: run(b, B[0], B[3], satellite_spot_parameters={"offsets": {"spotSepPix": 3}}), KeyError, "unknown setting group")
    finally:
        star_center.satellite_spot_parameters_defaults.clear(); star_center.satellite_spot_parameters_defaults.update(d0)
    rec.nt(True); rec.label("same mode" if a["mode"] == b["mode"] else "other mode")


@PROP.sub("settings", st.fixed_dictionaries({"c": case("NFOV"), "sep": st.floats(9, 20), "only_off": st.booleans()}), 20, 300, shards=4)
def settings_(c, rec):
    """custom settings are honoured, the others stay as the defaults"""
    k = dict(c["c"], dsep=c["sep"] - SEP["NFOV"])
    ds, lab, true, g = scene(k)
    cu = {"offset": {"spotSepPix": c["sep"]}}
    if not c["only_off"] or abs(k["dsep"]) > 1: cu["separation"] = {"spotSepPix": c["sep"]}
    p = pos(run(k, ds, g, satellite_spot_parameters=cu))
    require(np.hypot(p[0] - true[0], p[1] - true[1]) < 0.15, "star planted at {} found at {} with the right spot separation given", true, p)
    rec.nt(True)


@PROP.sub("rejects", st.fixed_dictionaries({"c": case("NFOV"), "bad": st.sampled_from(["label", "mode"])}), 16, 60)
def rejects_(c, rec):
    ds, lab, true, g = scene(c["c"])
    j = c["c"]["s"] % len(ds)
    if c["bad"] == "label": ds[j].pri_hdr["SATSPOTS"] = 2
    else: ds[j].ext_hdr["FSMPRFL"] = "WFOV"
    rejects(lambda: find_star(ds), AssertionError, c["bad"])
    rec.nt(True)
