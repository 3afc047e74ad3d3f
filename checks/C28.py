"""C28: bad-pixel maps and flats."""
from vf.common import *
from vf.core import Prop, require
from vf.geom import geoms, regions
import corgidrp.detector as detector
from corgidrp.bad_pixel_calibration import create_bad_pixel_map, detect_hot_warm_pixels_from_dark, detect_dead_pixels_from_flat
from corgidrp.flat import create_flatfield, create_onsky_flatfield

PROP = Prop("C28", "Random darks and flats (1-14 pixels a side, planted hot/dead pixels, gradients), thresholds and box widths: the map equals an independently computed one bit by bit, for darks and for noise maps (synthesised "
            "with the flat's gain and exposure time); flats against mean and standard error; on-sky raster scans of a planted pixel response with random planet radii, crop sizes, dithers, sky levels. "
            "Non-trivial: at least one and not all pixels marked / response planted under the rasters.")

shape = st.tuples(st.integers(1, 14), st.integers(1, 14)).map(list)
case = st.fixed_dictionaries({"s": seeds, "shape": shape, "dth": st.sampled_from([0, 0.5, 1.0, 2.0, 3.0, 5.0]), "ff": st.sampled_from([0.0, 0.3, 0.8, 0.95, 0.999]), "fw": st.integers(1, 20), "hot": st.integers(0, 5), "dead": st.integers(0, 5),
                              "grad": st.sampled_from([0.0, 0.05, 0.5]), "both": st.booleans(), "nan": st.sampled_from([0, 0, 0.1])})


def scene(c, shape):
    r = rng(c["s"])
    d = r.normal(size=shape) + 10
    f = (1 + 0.01 * r.normal(size=shape)) * (1 + c["grad"] * np.arange(shape[0])[:, None] / max(1, shape[0]))
    p = r.permutation(shape[0] * shape[1])
    d.ravel()[p[:c["hot"]]] += 1000
    q = p[:c["dead"]] if c["both"] else p[::-1][:c["dead"]]
    f.ravel()[q] *= 0.2
    for a in (d, f):        # pixels without a valid value
        if c.get("nan"):
            b = np.where(rng(c["s"] + 1 + (a is f)).random(shape) < c["nan"], np.nan, a)
            if np.isfinite(b).any(): a[:] = b
    return d, f


def ref_hot(d, th):
    """-> hot, undecidable"""
    v = d[np.isfinite(d)]
    lim = v.mean() + th * np.sqrt(((v - v.mean()) ** 2).mean())
    return d > lim, np.abs(d - lim) < 1e-9 * (1 + abs(lim))


def ref_dead(f, ff, w):
    R, C = f.shape
    out, und = np.zeros(f.shape, bool), np.zeros(f.shape, bool)
    for r in range(R):
        for k in range(C):
            box = f[max(0, r - w // 2):max(0, r - w // 2 + w), max(0, k - w // 2):max(0, k - w // 2 + w)]
            if np.isnan(f[r, k]): continue
            box = box[np.isfinite(box)]
            m = sum(box.ravel().tolist()) / box.size
            out[r, k] = f[r, k] < ff * m
            und[r, k] = abs(f[r, k] - ff * m) < 1e-9 * (1 + abs(m))
    return out, und


def dark_of(d, **ext):
    return products_dark(d, ext)


def products_dark(d, ext):
    src = data.Dataset([img(np.zeros(d.shape), ext={"EXPTIME": 2.0}, filename=fname(k, "L2a")) for k in range(2)])
    p, e = hdrs("L2a", ext=dict({"EXPTIME": 2.0, "EMGAIN_C": 3.0}, **ext))
    return data.Dark(d.copy(), p, e, src, np.zeros((1,) + d.shape), np.zeros(d.shape, np.uint16))


def flat_of(f, **ext):
    src = data.Dataset([img(np.zeros(f.shape), filename=fname(10 + k, "L2a")) for k in range(3)])
    p, e = hdrs("L2a", ext=dict({"EXPTIME": 7.0, "EMGAIN_C": 4.0}, **ext))
    return data.FlatField(f.copy(), p, e, src)


def content(o):
    s = snap(o)
    return s


def check_map(out, d, f, c):
    hot, u1 = ref_hot(d, c["dth"])
    dead, u2 = ref_dead(f, c["ff"], c["fw"])
    want = np.where(hot, 8, 0) | np.where(dead, 4, 0)
    ok = ~(u1 | u2)
    got = np.asarray(out.data)
    require(got.shape == d.shape, "shape {}", got.shape)
    eq(got[ok], want[ok], "bad-pixel map")
    require(not np.any(got & ~np.array(12, got.dtype)), "other marks")
    return want


@PROP.sub("map", [case] * 2, 400, 5000, shards=4)
def bpmap(c, rec):
    d, f = scene(c, c["shape"])
    dk, fl = products_dark(d, {}), flat_of(f)
    s1, s2 = snap(dk), snap(fl)
    out = create_bad_pixel_map(None if c["s"] % 2 else data.Dataset([img(np.zeros(c["shape"]))]), dk, fl, dthresh=c["dth"], ffrac=c["ff"], fwidth=c["fw"])
    same(s1, snap(dk), "the dark"); same(s2, snap(fl), "the flat")
    want = check_map(out, d, f, c)
    require(type(out) is data.BadPixelMap, "type"); require(out.ext_hdr["DATATYPE"] == "BadPixelMap" and out.ext_hdr["DATALVL"] == "CAL", "headers")
    par = [out.ext_hdr["FILE%d" % k] for k in range(out.ext_hdr["DRPNFILE"])]
    require(len(set(par)) == len(par) and {dk.filename, fl.filename} <= set(par), "recorded files {}", par)
    require(set(par) == {dk.filename, fl.filename} | {fname(k, "L2a") for k in (0, 1, 10, 11, 12)}, "recorded files {}", par)
    require(out.filename.endswith("_BPM_CAL.fits"), "name {}", out.filename)
    require(any(dk.filename in h for h in [" ".join(hist(out)), "".join(hist(out))]), "history")
    rec.nt(0 < (want > 0).sum() < want.size)
    if (want == 12).any(): rec.label("both marks")
    if not hot_any(want): rec.label("no hot")


def hot_any(w):
    return bool((w & 8).any())


@PROP.sub("parts", case, 200, 3000, shards=2)
def parts(c, rec):
    """the two detectors by themselves; scaling the dark (or the flat) and adding a constant to the dark change nothing"""
    d, f = scene(c, c["shape"])
    d0, f0 = d.copy(), f.copy()
    h = detect_hot_warm_pixels_from_dark(d, c["dth"]); k = detect_dead_pixels_from_flat(f, c["ff"], c["fw"])
    eq(d, d0, "dark"); eq(f, f0, "flat")
    hot, u1 = ref_hot(d, c["dth"]); dead, u2 = ref_dead(f, c["ff"], c["fw"])
    require(h.dtype == bool and k.dtype == bool, "types")
    eq(h[~u1], hot[~u1], "hot pixels"); eq(k[~u2], dead[~u2], "dead pixels")
    h2 = detect_hot_warm_pixels_from_dark(4 * d + 64, c["dth"]); k2 = detect_dead_pixels_from_flat(8 * f, c["ff"], c["fw"])
    eq(h2[~u1], h[~u1], "hot pixels of a rescaled dark"); eq(k2[~u2], k[~u2], "dead pixels of a rescaled flat")
    rec.nt(h.any() or k.any())


@PROP.sub("noise maps", st.fixed_dictionaries({"s": seeds, "g": geoms(("SCI",), 10, 10), "dth": st.sampled_from([0.5, 1.0, 2.0]), "ff": st.sampled_from([0.3, 0.8]), "fw": st.integers(1, 12), "hot": st.integers(0, 3), "dead": st.integers(0, 3),
                                               "grad": st.just(0.05), "both": st.booleans(), "em": st.sampled_from([1.0, 2.0, 100.0]), "t": st.sampled_from([0.5, 10.0, 1000.0]), "save": st.booleans()}), 100, 1500, shards=2)
def maps(c, rec):
    reg = regions(c["g"])
    g = c["g"]
    old = dict(detector.detector_areas)
    try:
        detector.detector_areas.update(reg)
        R, C = reg["SCI"]["frame_rows"], reg["SCI"]["frame_cols"]
        _, f = scene(c, (g["R"], g["I"]))
        r = rng(c["s"])
        F, K, D = np.abs(r.normal(size=(R, C))) * 10, r.random((R, C)), r.random((R, C)) * 0.1
        im = (slice(g["r0"], g["r0"] + g["R"]), slice(g["P"], g["P"] + g["I"]))
        src = data.Dataset([img(np.zeros((R, C)), filename=fname(k, "L2a")) for k in range(2)])
        p, e = hdrs("L2a", ext={"B_O": 0.0, "B_O_ERR": 0.0, "B_O_UNIT": "DN"})
        eh = fits.Header(); eh["BUNIT"] = "detected electrons"
        nm = data.DetectorNoiseMaps(np.stack([F, K, D]), p, e, src, np.zeros((1, 3, R, C)), np.zeros((3, R, C), int), err_hdr=eh)
        nm.filename = "CGI_x_DNM_CAL.fits"
        fl = flat_of(f, EMGAIN_C=c["em"], EMGAIN_A=-1.0, EXPTIME=c["t"], KGAINPAR=8.7)
        s1, s2 = snap(nm), snap(fl)
        out = create_bad_pixel_map(None, nm, fl, dthresh=c["dth"], ffrac=c["ff"], fwidth=c["fw"], dark_outputdir=rec.dir if c["save"] else None)
        same(s1, snap(nm), "the noise maps"); same(s2, snap(fl), "the flat")
        dark = F[im] / c["em"] + c["t"] * D[im] + K[im]
        want = check_map(out, dark, f, c)
        fs = os.listdir(rec.dir)
        require(len(fs) == (1 if c["save"] else 0), "saved darks {}", fs)
        if c["save"]:
            dk = data.Dark(os.path.join(rec.dir, fs[0]))
            close(dk.data, dark, 1e-12, 1e-12, "saved synthesised dark")
        rec.nt(0 < (want > 0).sum() < want.size)
    finally:
        detector.detector_areas.clear(); detector.detector_areas.update(old)


@PROP.sub("flat", st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 6), "shape": shape, "nan": st.sampled_from([0.0, 0.1]), "level": st.sampled_from([1.0, 1000.0])}), 200, 3000)
def flat(c, rec):
    r = rng(c["s"])
    resp = 1 + 0.1 * r.normal(size=c["shape"])
    a = [c["level"] * resp * (1 + 0.01 * r.normal(size=c["shape"])) for _ in range(c["n"])]
    for x in a[1:]:
        x[r.random(c["shape"]) < c["nan"]] = np.nan
    ds = data.Dataset([img(x, ext={"EXPTIME": 3.0}, filename=fname(k, "L2a")) for k, x in enumerate(a)])
    s0 = snap(ds)
    out = create_flatfield(ds)
    same(s0, snap(ds), "the input")
    n = (~np.isnan(a)).sum(0)
    z = np.where(np.isnan(a), 0, a)
    m = z.sum(0) / n
    v = np.where(np.isnan(a), 0, (a - m) ** 2).sum(0) / n
    close(out.data, m, 1e-9, 1e-12, "flat"); close(out.err, np.sqrt(v)[None] / np.sqrt(c["n"]), 1e-7, 1e-9 * c["level"], "uncertainty of the flat")
    require(out.ext_hdr["DATATYPE"] == "FlatField" and out.filename.endswith("_FLT_CAL.fits") and out.ext_hdr["DRPNFILE"] == c["n"], "headers")
    # order does not matter
    o2 = create_flatfield(data.Dataset([f.copy() for f in ds.frames[::-1]]))
    close(o2.data, out.data, 1e-12, 1e-12, "flat of the reversed frames")
    rec.nt(c["n"] > 1)


sky = st.fixed_dictionaries({"s": seeds, "rad": st.integers(22, 28), "du": st.sampled_from([0, 5, 9, -3]), "nd": st.sampled_from([2, 3]), "step": st.integers(3, 9), "bad": st.integers(1, 40), "level": st.sampled_from([1.0, 1e4]),
                             "sky": st.booleans(), "band": st.sampled_from(["1", "4"]), "npix": st.sampled_from([20, 45, 70]), "npad": st.sampled_from([0, 3, None]), "planet": st.sampled_from(["neptune", "uranus"]), "ann": st.booleans()})


@PROP.sub("planets", st.fixed_dictionaries({"s": seeds, "planet": st.sampled_from(["neptune", "Neptune", "uranus", "URANUS"]), "band": st.sampled_from(["1", "4"]), "nd": st.integers(1, 2), "hdr": st.booleans(), "N": st.sampled_from([None, 150, 161])}), 12, 120, shards=2)
def planets(c, rec):
    """the radius of the planet follows from its name, the name and the band from the headers, the size from the frames"""
    r = rng(c["s"]); rad = 50 if c["planet"].lower() == "neptune" else 65
    n = c["N"] or 170
    yy, xx = np.indices((n, n)).astype(float)
    fr = []
    for k in range(c["nd"]):
        cy, cx = n / 2 + r.uniform(-2, 2), n / 2 + r.uniform(-2, 2)
        d = 50 * (np.hypot(yy - cy, xx - cx) <= rad + 8) * (1 + 0.02 * r.normal(size=(n, n)))
        fr.append(img(d, pri={"TARGET": c["planet"]}, ext={"CFAMNAME": c["band"] + "F", "EXPTIME": 1.0}, filename=fname(k, "L2a")))
    ds = data.Dataset(fr)
    kw = dict(up_radius=55, n_pix=70, sky_annulus_rin=None, sky_annulus_rout=None)
    a = create_onsky_flatfield(ds, **(kw if c["hdr"] else dict(kw, planet=c["planet"], band=c["band"])))
    b = create_onsky_flatfield(ds, planet=c["planet"], band=c["band"], planet_rad=rad, im_size=n, n_pad=(1024 - n) // 2, rad_mask=1.25 if c["band"] == "1" else 1.75, N=1, **kw)
    eq(a.data, b.data, "flat with the settings left to their defaults"); eq(a.err, b.err, "its uncertainty")
    d = create_onsky_flatfield(ds, planet=c["planet"], band=c["band"], planet_rad=rad - 7, **kw)
    rec.nt(not np.array_equal(np.isnan(a.data), np.isnan(d.data))); rec.label(c["planet"].lower())


@PROP.sub("on sky", sky, 96, 1000, shards=4)
def onsky(c, rec):
    r = rng(c["s"])
    rad = c["rad"]; up = rad + c["du"]
    N = 176
    R0 = 1.45 * max(up, rad) + 3     # the scene is flat over the whole crop
    yy, xx = np.indices((N, N))
    resp = np.ones((N, N))
    cents = [(N / 2 + c["step"] * (i - (c["nd"] - 1) / 2) + r.uniform(-.4, .4), N / 2 + c["step"] * (j - (c["nd"] - 1) / 2) + r.uniform(-.4, .4)) for i in range(c["nd"]) for j in range(c["nd"])]
    # isolated deviating pixels
    pts = []
    for _ in range(c["bad"]):
        y, x = r.integers(N // 2 - rad, N // 2 + rad), r.integers(N // 2 - rad, N // 2 + rad)
        resp[y, x] = 1 + 0.05 * r.normal(); pts.append((y, x))
    fr = []
    for k, (cy, cx) in enumerate(cents):
        rr = np.hypot(yy - cy, xx - cx)
        im = c["level"] * ((rr <= R0) * 1.0 + c["sky"] * 2e-4) * resp
        fr.append(img(im, pri={"TARGET": c["planet"]}, ext={"CFAMNAME": c["band"] + "F", "EXPTIME": 1.0}, filename=fname(k, "L2a")))
    ds = data.Dataset(fr)
    s0 = snap(ds)
    kw = {} if c["s"] % 2 else {"planet": c["planet"], "band": c["band"]}
    # (beyond the planet, well inside the image)
    if not c["ann"]: kw.update(sky_annulus_rin=None, sky_annulus_rout=None)
    else: kw.update(sky_annulus_rin=(R0 + 6) / rad, sky_annulus_rout=3.5)
    out = create_onsky_flatfield(ds, up_radius=up, planet_rad=rad, n_pix=c["npix"], n_pad=c["npad"], **kw)
    same(s0, snap(ds), "the input")
    pad = (1024 - N) // 2 if c["npad"] is None else c["npad"]
    require(out.data.shape == (N + 2 * pad,) * 2, "shape {} for padding {}", out.data.shape, c["npad"])
    require(out.err.shape == (1,) + out.data.shape, "shape of the uncertainty {}", out.err.shape)
    o = out.data[pad:pad + N, pad:pad + N]
    edge = out.data.copy(); edge[pad:pad + N, pad:pad + N] = 1
    eq(edge, np.ones_like(edge), "padding")
    rc = np.hypot(yy - N / 2, xx - N / 2)
    eq(o[rc > c["npix"] + 1], np.ones((rc > c["npix"] + 1).sum()), "outside the field of view")
    inside, near = np.zeros((N, N), bool), np.zeros((N, N), bool)
    for cy, cx in cents:
        box = (np.abs(yy - cy) < up - 2) & (np.abs(xx - cx) < up - 2)
        inside |= (np.hypot(yy - cy, xx - cx) < rad - 2) & box
        near |= np.hypot(yy - cy, xx - cx) < rad + 2
    inside &= rc < c["npix"] - 1
    # the matched filter is a median over dithers, smoothed: deviating pixels leave at most traces in it
    tol = 2e-3
    close(o[inside], resp[inside], 0, tol, "recovered pixel response")
    out_ = ~near & (rc < c["npix"] - 1)
    require(not np.any(np.isfinite(o[out_])), "response reported where the planet never was")
    require(out.ext_hdr["DATATYPE"] == "FlatField" and out.ext_hdr["DRPNFILE"] == len(fr), "headers")
    # brightness does not matter
    o2 = create_onsky_flatfield(data.Dataset([img(f.data * 4, pri={"TARGET": c["planet"]}, ext={"CFAMNAME": c["band"] + "F", "EXPTIME": 1.0}, filename=f.filename) for f in ds]), up_radius=up, planet_rad=rad, n_pix=c["npix"], n_pad=c["npad"], **kw)
    close(o2.data, out.data, 1e-9, 1e-12, "flat of a brighter planet")
    rec.nt((resp[inside] != 1).any())
    rec.label("%s du=%d" % (c["planet"], c["du"]))


@PROP.sub("groups of rasters", st.fixed_dictionaries({"k": st.integers(2, 3), "n": st.integers(6, 20), "s": seeds}), 40, 400)
def groups_of_rasters(c, rec):
    """k groups of k consecutive dithers: each group is divided by its own matched filter"""
    from corgidrp.flat import flatfield_residuals
    r = rng(c["s"]); k = c["k"]
    im = [r.uniform(0.5, 2, size=(c["n"], c["n"])) * (1 + i) for i in range(k * k)]
    a = flatfield_residuals([x.copy() for x in im], N=k)
    b = [y for g in range(k) for y in flatfield_residuals([x.copy() for x in im[g * k:(g + 1) * k]], N=1)]
    require(len(a) == k * k, "{} residual images of {}", len(a), k * k)
    close(np.array(a), np.array(b), 1e-9, 0, "residual images of several groups, and of each group alone")
    rec.nt()
