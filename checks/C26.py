"""C26: PSF subtraction."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.l3_to_l4 import do_psf_subtraction, crop
from corgidrp.data import PyKLIPDataset
import corgidrp

PROP = Prop("C26", "Random scenes (1-3 science and 0-3 reference frames, rolls, integer or fractional star positions different per frame, odd/even/non-square shapes, companion separation/position angle/brightness, flags, modes, "
            "numbers of KLIP modes, cropping): mode chosen, number and shape of planes, star position and companion separation/angle, removal of the star, NaN/flag consistency, invariance under scaling of science or reference "
            "frames, values of flagged pixels, frame order and prior cropping; PyKLIPDataset contents; impossible inputs rejected. Non-trivial: a companion, and rolls or references that allow subtraction.")
frac = st.one_of(st.integers(-2, 2), st.sampled_from([-1.5, -0.5, 0.5, 1.25, 0.3]), st.floats(-2, 2))


def case(scn, mode=None):
    ns = st.integers(1, 3) if scn == "RDI" else st.integers(2, 3)
    ns = st.just(1) if scn == "RDI" and mode is None else ns
    return st.fixed_dictionaries({"scn": st.just(scn), "mode": st.just(mode), "s": seeds, "ns": ns, "nr": st.just(0) if scn == "ADI" else st.integers(1, 3), "ny": st.integers(38, 46), "nx": st.integers(38, 46),
                                  "cx": st.lists(frac, min_size=6, max_size=6), "cy": st.lists(frac, min_size=6, max_size=6), "roll0": st.sampled_from([0, 13.0, 257, 283.0, -30.0, 90, 180.0]), "droll": st.sampled_from([26.0, 35, -40.0, 60]),
                                  "pa": st.floats(0, 359), "sep": st.floats(8, 11), "kl": st.sampled_from([1, [1], [1, 2], [1, 2, 3]]), "split": st.booleans(), "dq": st.booleans(), "off": st.booleans()})


STRATA = [case("ADI"), case("RDI"), case("ADI+RDI"), case("RDI", "RDI"), case("ADI+RDI", "ADI"), case("ADI", "ADI")]


def build(c, amp=1000.0, pl=400.0, noise=0.02):
    """-> science frames, reference frames (a common stellar pattern that is not round, so that a wrong alignment or rotation shows)"""
    ny, nx = c["ny"], c["nx"]
    yy, xx = np.indices((ny, nx)).astype(float)
    r = rng(c["s"])
    lobes = [(r.normal() * 3, r.normal() * 3, 1.8 + r.random(), 0.3 + r.random()) for _ in range(4)]
    fr = []
    for i in range(c["ns"] + c["nr"]):
        ref = i >= c["ns"]
        x0, y0 = (nx - 1) // 2 + c["cx"][i], (ny - 1) // 2 + c["cy"][i]
        roll = 0.0 if ref else c["roll0"] + i * c["droll"]
        d = sum(amp * a * np.exp(-((xx - x0 - u) ** 2 + (yy - y0 - v) ** 2) / 2 / w ** 2) for u, v, w, a in lobes)
        if not ref:
            t = np.radians(c["pa"] - roll)
            d = d + pl * np.exp(-((xx - x0 + c["sep"] * np.sin(t)) ** 2 + (yy - y0 - c["sep"] * np.cos(t)) ** 2) / 2 / 1.5 ** 2)
        d = d + rng([c["s"], i]).normal(size=d.shape) * noise
        q = np.zeros(d.shape, np.uint16)
        if c["dq"]:
            k = rng([c["s"], i, 7])
            for _ in range(3):                       # near the edge, away from the companion
                q[int(k.integers(0, 3)), int(k.integers(0, nx))] = int(k.choice(DQ_BITS))
        f = img(d, err=np.ones(d.shape), dq=q, level="L3", pri={"ROLL": roll, "PSFREF": int(ref), "TELESCOP": "ROMAN", "INSTRUME": "CGI"},
                ext={"STARLOCX": x0, "STARLOCY": y0, "CFAMNAME": "1F", "PLTSCALE": 21.8, "FSMPRFL": "NFOV", "LSAMNAME": "NFOV"}, filename=fname(i, "L3"))
        f.ext_hdr["HISTORY"] = "before %d" % i
        fr.append(f)
    return fr[:c["ns"]], fr[c["ns"]:]


def run(c, sci, ref, rec, **kw):
    a = dict(numbasis=c["kl"], outdir=rec.dir, do_crop=False, measure_klip_thrupt=False, measure_1d_core_thrupt=False, num_processes=1, mode=c["mode"])
    a.update(kw)
    if c["split"] and ref:
        fr = sci + ref
        return do_psf_subtraction(data.Dataset([fr[i] for i in rng(c["s"] + 1).permutation(len(fr))] if c["off"] else fr), **a)
    return do_psf_subtraction(data.Dataset(sci), reference_star_dataset=data.Dataset(ref) if ref else None, **a)


def companion(c, d, h):
    x0, y0 = h["STARLOCX"], h["STARLOCY"]
    t = np.radians(c["pa"])
    ex, ey = x0 - c["sep"] * np.sin(t), y0 + c["sep"] * np.cos(t)
    yy, xx = np.indices(d.shape)
    near = np.where((xx - ex) ** 2 + (yy - ey) ** 2 < 4 ** 2, np.nan_to_num(d), -1e9)
    p = np.unravel_index(np.argmax(near), d.shape)
    m = ((xx - p[1]) ** 2 + (yy - p[0]) ** 2 < 2.6 ** 2) & np.isfinite(d)
    w = np.where(m, np.clip(np.nan_to_num(d), 0, None), 0)
    return (xx * w).sum() / w.sum() - ex, (yy * w).sum() / w.sum() - ey, d[p]


@PROP.sub("scene", STRATA, 180, 3000, shards=4)
def scene(c, rec):
    sci, ref = build(c)
    snaps = [dict(snap(f)) for f in sci + ref]
    out = run(c, sci, ref, rec)
    for f, s in zip(sci + ref, snaps): same(s, snap(f), "input frame")
    kl = [c["kl"]] if isinstance(c["kl"], int) else c["kl"]
    require(len(out) == 1, "{} frames returned", len(out))
    f = out[0]
    want = c["mode"] or ("ADI" if not ref else "RDI" if c["ns"] == 1 else "ADI+RDI")
    require(f.pri_hdr["KLIP_ALG"] == want, "mode {} used, expected {}", f.pri_hdr["KLIP_ALG"], want)
    require(f.data.shape == (len(kl), c["ny"], c["nx"]), "shape {}", f.data.shape)
    require(f.filename in [x.filename for x in sci], "name {}", f.filename)
    require("before" in " ".join(hist(f)) and any("PSF subtracted" in x for x in hist(f)), "history {}", hist(f))
    nan = np.isnan(f.data)
    require(f.dq.dtype.kind in "iu", "flags of the result are {}", f.dq.dtype)
    eq(f.dq != 0, nan, "flags against NaN pixels"); eq(np.isnan(f.err[0]), nan, "NaN errors against NaN pixels")
    peak_in = max(x.data.max() for x in sci)
    h = f.ext_hdr
    yy, xx = np.indices((c["ny"], c["nx"]))
    for k, d in zip(kl, f.data):
        dx, dy, pk = companion(c, d, h)
        # self-subtraction distorts the companion in ADI once several modes are fitted
        if k == 1:
            require(np.hypot(dx, dy) < 0.75, "companion at separation {} position angle {} found {} pixel away from there relative to STARLOCX/Y", c["sep"], c["pa"], [dx, dy])
            require(pk > (150 if "ADI" in want else 250), "companion of brightness 400 recovered with {}", pk)
        if want == "RDI" or (k == 1 and c["ns"] == 2 and not c["nr"]):
            star = (xx - h["STARLOCX"]) ** 2 + (yy - h["STARLOCY"]) ** 2 < 16
            require(np.nanmax(np.abs(d[star])) < 0.12 * peak_in, "residual {} of a star of {} that is common to all frames", np.nanmax(np.abs(d[star])), peak_in)
    rec.nt(True); rec.label(want + (" split" if c["split"] and ref else ""))


@PROP.sub("invariance", [case("ADI"), case("RDI"), case("ADI+RDI"), case("RDI", "RDI")], 60, 1000, shards=4)
def invariance(c, rec):
    c = dict(c, kl=1)          # higher modes of a few nearly identical frames are noise, and not reproducible
    sci, ref = build(c)
    o = run(c, sci, ref, rec)[0]
    top = np.nanmax(np.abs(o.data))
    # scaling all science frames scales the result (references are scale free)
    s2, r2 = build(c)
    for f in s2: f.data *= 3.5
    for f in r2: f.data *= 3.5
    o2 = run(c, s2, r2, rec)[0]
    close(o2.data / 3.5, o.data, 1e-3, 2e-4 * top, "result after scaling all frames")
    if ref and (c["mode"] or ("RDI" if c["ns"] == 1 else "ADI+RDI")) == "RDI":
        s2, r2 = build(c)
        for i, f in enumerate(r2): f.data *= 2.0 ** (i + 1); f.data += 5 * i
        if len(r2) == 1:
            o2 = run(c, s2, r2, rec)[0]
            close(o2.data, o.data, 1e-3, 2e-3 * top, "result after scaling the reference")
    # values in flagged pixels do not matter
    if c["dq"]:
        s2, r2 = build(c)
        for f in s2 + r2: f.data[f.dq > 0] = rng(c["s"] + 9).normal() * 1e6
        o2 = run(c, s2, r2, rec)[0]
        close(o2.data, o.data, 1e-5, 1e-5 * top, "result after changing the values of flagged pixels")
    # passing references separately or in the same dataset
    o2 = run(dict(c, split=not c["split"], off=False), *build(c), rec)[0]
    close(o2.data, o.data, 1e-3, 2e-4 * top, "result with the references passed the other way")
    # order of science frames
    s2, r2 = build(c)
    o2 = run(dict(c, off=False), s2[::-1], r2[::-1], rec)[0]
    if np.isclose(o2.ext_hdr["STARLOCX"], o.ext_hdr["STARLOCX"]): close(o2.data, o.data, 1e-3, 2e-4 * top, "result with the frames in reverse order")
    rec.nt(True)


@PROP.sub("crop", [case("ADI"), case("RDI")], 24, 400, shards=2)
def crop_(c, rec):
    c = dict(c, dq=False, kl=[1])
    size = [2 * (15 + c["s"] % 2), 2 * (15 + c["s"] // 2 % 2)]
    a = run(c, *build(c), rec, do_crop=True, crop_sizexy=size)[0]
    sci, ref = build(c)
    sci = list(crop(data.Dataset(sci), sizexy=size)); ref = list(crop(data.Dataset(ref), sizexy=size)) if ref else []
    b = run(c, sci, ref, rec)[0]
    require(a.data.shape == (1, size[1], size[0]), "shape {} for crop {}", a.data.shape, size)
    close(a.data, b.data, 1e-4, 1e-4 * np.nanmax(np.abs(b.data)), "cropping inside the step and before it")
    for k in ("STARLOCX", "STARLOCY"): close(a.ext_hdr[k], b.ext_hdr[k], 0, 1e-9, k)
    dx, dy, pk = companion(c, a.data[0], a.ext_hdr)
    require(np.hypot(dx, dy) < 0.75, "companion {} pixel away from its place after cropping", [dx, dy])
    rec.nt(True)


@PROP.sub("pyklip", STRATA[:3], 60, 800, shards=2)
def pyklip_(c, rec):
    sci, ref = build(c, pl=0, noise=0.0)
    ny, nx = c["ny"], c["nx"]
    for f, x in [(f, f) for f in sci + ref]:
        yy, xx = np.indices((ny, nx))
        f.data[:] = 100 * np.exp(-((xx - x.ext_hdr["STARLOCX"]) ** 2 + (yy - x.ext_hdr["STARLOCY"]) ** 2) / 2 / 2.5 ** 2)
    p = PyKLIPDataset(data.Dataset(sci), psflib_dataset=data.Dataset(ref) if ref else None)
    cen = np.array([(nx - 1) / 2, (ny - 1) / 2])
    close(p.centers, np.array([cen] * len(sci)), 0, 1e-9, "centers"); close(p.PAs, [f.pri_hdr["ROLL"] for f in sci], 0, 0, "PAs")
    close(p.wvs, np.full(len(sci), 575e-9), 1e-6, 0, "wvs"); require(list(p.filenums) == list(range(len(sci))), "filenums")
    require([x.split("_INT")[0] for x in p.filenames] == [f.filename for f in sci], "filenames {}", p.filenames)
    lib = p.psflib.master_library if ref else np.zeros((0, ny, nx))
    require(len(p.input) == len(sci) and (not ref or len(lib) == len(sci) + len(ref)), "{} frames, {} in the library", len(p.input), len(lib))
    want = 100 * np.exp(-((xx - cen[0]) ** 2 + (yy - cen[1]) ** 2) / 2 / 2.5 ** 2)
    for d in list(p.input) + list(lib):
        m = np.isfinite(d)
        require(m.mean() > 0.7, "{} of the pixels are NaN", 1 - m.mean())
        close(np.where(m, d, 0), np.where(m, want, 0), 0, 1.5, "recentred frame")
    iwa = 575e-9 / 6.5 * 180 / np.pi * 3600e3 / 21.8 / 1e3
    rec.nt(any(c["cx"][:len(sci)]))


BAD = ["mode", "nosci", "noct", "telescope", "instrument", "cfam", "shape", "pixscale", "notdataset"]


@PROP.sub("rejects", [st.tuples(st.just(b), st.one_of(*STRATA[:3])) for b in BAD], 36, 300, shards=2)
def rejects_(c, rec):
    b, c = c
    sci, ref = build(c)
    j = c["s"] % len(sci); kw = {}
    if b == "mode": kw["mode"] = ["SDI", "adi", "KLIP", "RDI+ADI"][c["s"] % 4]
    elif b == "nosci": sci = []; ref = ref or build(case_r(c))[1]
    elif b == "noct": kw[["measure_klip_thrupt", "measure_1d_core_thrupt"][c["s"] % 2]] = True
    elif b == "telescope": sci[j].pri_hdr["TELESCOP"] = "JWST"
    elif b == "instrument": sci[j].pri_hdr["INSTRUME"] = "WFI"
    elif b == "cfam": sci[j].ext_hdr["CFAMNAME"] = "9X"
    elif b == "pixscale":
        if len(sci) < 2: return
        sci[j].ext_hdr["PLTSCALE"] = 20.0
    elif b == "notdataset":
        rejects(lambda: PyKLIPDataset(sci), UserWarning, b); rejects(lambda: PyKLIPDataset(data.Dataset(sci), psflib_dataset=sci), UserWarning, b); rec.nt(True); return
    if b == "nosci":
        rejects(lambda: do_psf_subtraction(data.Dataset(ref), measure_klip_thrupt=False, measure_1d_core_thrupt=False, do_crop=False, outdir=rec.dir), UserWarning, b)
    elif b == "shape": return
    else: rejects(lambda: run(c, sci, ref, rec, **kw), (AssertionError, UserWarning), b)
    rec.nt(True); rec.label(b)


def case_r(c):
    return dict(c, nr=2)
