"""C37: sources found in residual images, and companions measured from them."""
from vf.common import *
from vf.core import Prop, require, Violation
from vf import phot as P
import contextlib, io, signal
from scipy.signal import correlate2d
from corgidrp import l4_to_tda as T, measure_companions as M
from astropy.io.fits import Header

PROP = Prop("C37", "Residual images with 0-3 planted sources of any brightness at any pixel (also at the edges of the image), NaN-masked inner region, default, matched and other PSFs, with and without a source-free image: S/N and position of the detections against an independent S/N map, nothing reported elsewhere, lists for different thresholds are prefixes of each other, "
            "same detections after rescaling by a power of two and for a threshold equal to a detection. Companions with random positions and brightness planted in residual cubes with random algorithm throughput, core throughput and PSF widths: positions, counts, flux ratios and magnitudes against the planted ones, for both throughput options and photometry methods, detections taken from the header or given. "
            "Non-trivial: at least one source.")


class Slow(Exception):
    pass


def call(f, *a, **k):
    def h(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(60)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)
    except Slow:
        raise Violation("the search for sources does not end")
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)


def gauss(shape, y, x, amp, fwhm):
    yy, xx = np.indices(shape)
    return amp * np.exp(-4 * np.log(2) * ((yy - y) ** 2 + (xx - x) ** 2) / fwhm ** 2)


def snmap(a, noise, fwhm, size):
    """S/N of each pixel: aperture sum over the scatter of the sums in a 3 pixel wide ring, away from the pixel"""
    m = size // 2
    yy, xx = np.indices((size, size)) - m
    disk = (np.hypot(yy, xx) <= fwhm * 0.5) * 1.0

    def conv(b):
        c = correlate2d(np.nan_to_num(b), disk, mode="same")
        c[np.isnan(b)] = np.nan
        return c
    n, w = a.shape
    ca, cn = conv(a), conv(noise)
    Y, X = np.indices(a.shape)
    excl = np.ceil(np.hypot(Y - n // 2, X - w // 2)[np.isfinite(a)].min())
    r = np.hypot(Y - (n - 1) // 2, X - (w - 1) // 2)
    out = np.full(a.shape, np.nan)
    with np.errstate(all="ignore"):
        for i, j in zip(*np.nonzero(np.isfinite(ca))):
            ring = (np.abs(r - r[i, j]) < 1.5) & np.isfinite(cn) & ((Y - i) ** 2 + (X - j) ** 2 > excl ** 2)
            if ring.sum() > 1:
                out[i, j] = ca[i, j] / cn[ring].std()
    return out


def found(im):
    return [(k, *[float(q) for q in v.split(",")]) for k, v in im.ext_hdr.items() if k.startswith("SNYX")]


@st.composite
def scene(draw, edge=False):
    n = draw(st.sampled_from([41, 45, 51])); k = draw(st.sampled_from([1, 1, 2, 3, 0]))
    pos = []
    for _ in range(k * 12):
        y, x = draw(st.integers(0 if edge else 7, n - 1 if edge else n - 8)), draw(st.integers(0 if edge else 7, n - 1 if edge else n - 8))
        r = np.hypot(y - n // 2, x - n // 2)
        if r > 9 and r < n // 2 - 1 and all(np.hypot(y - a, x - b) > 13 for a, b in pos) and len(pos) < k:
            pos.append((y, x))
    return {"n": n, "pos": pos, "fwhm": draw(st.sampled_from([2.2, 2.8, 3.4, 4.0])), "sn": [draw(st.floats(14, 60)) for _ in pos], "s": draw(seeds), "iwa": draw(st.sampled_from([0, 4, 6])), "thr": draw(st.sampled_from([6.5, 8.0, 10.0])),
            "psf": draw(st.sampled_from(["default", "matched", "big", "small"])), "unit": draw(st.sampled_from([1.0, 1e-3, 500.0])), "dt": draw(st.sampled_from(["f8", "f8", "f4"])), "bad": draw(st.sampled_from([0, 0, 8]))}


def build(c):
    r = rng(c["s"]); n = c["n"]
    noise = r.normal(0, c["unit"], (n, n))
    Y, X = np.indices((n, n))
    if c["iwa"]:
        noise[np.hypot(Y - n // 2, X - n // 2) < c["iwa"]] = np.nan
    if c.get("bad"):      # bad pixels away from the sources
        q = np.argwhere(np.min([np.hypot(Y - n // 2, X - n // 2) - 6] + [np.hypot(Y - y, X - x) - 2.5 * c["fwhm"] for y, x in c["pos"]], axis=0) > 0)
        q = q[rng(c["s"] + 1).permutation(len(q))[:c["bad"]]]
        noise[q[:, 0], q[:, 1]] = np.nan
    b = int(c["fwhm"] * 3); b += 1 - b % 2
    size = {"default": b, "matched": b, "big": b + 4, "small": b - 2}[c["psf"]]
    m = size // 2
    psf = gauss((size, size), m, m, 1.0, c["fwhm"])
    disk = np.hypot(*(np.indices((size, size)) - m)) <= c["fwhm"] * 0.5
    a = noise.copy()
    for (y, x), sn in zip(c["pos"], c["sn"]):
        a += gauss((n, n), y, x, sn * c["unit"] * np.sqrt(disk.sum()) / psf[disk].sum(), c["fwhm"])
    return a.astype(c["dt"]), noise.astype(c["dt"]), (None if c["psf"] == "default" else psf), size


def frame(a):
    f = img(a, "L4", err=np.ones(a.shape))
    return f


@PROP.sub("sources", scene(), 24, 400, shards=4)
def sources(c, rec):
    """planted sources are found where they are with the right S/N; nothing is reported away from them"""
    if c["pos"]:
        rec.nt()
    rec.label("%d sources" % len(c["pos"])); rec.label(c["psf"])
    a, noise, psf, size = build(c)
    f = frame(a); s0 = snap(f); n0 = noise.copy(); p0 = None if psf is None else psf.copy()
    out = call(T.find_source, f, psf=psf, fwhm=c["fwhm"], nsigma_threshold=c["thr"], image_without_planet=noise)
    same(s0, snap(f), "the input image"); eq(noise, n0, "the source-free image")
    if psf is not None:
        eq(psf, p0, "the PSF")
    got = found(out)
    eq(out.data, f.data, "pixels of the result"); eq(out.dq, f.dq, "flags of the result")
    require(out is not f and out.ext_hdr is not f.ext_hdr, "the result shares its header with the input")
    for y, x in c["pos"]:
        d = [g for g in got if np.hypot(g[2] - y, g[3] - x) <= 1.5]
        require(len(d) >= 1, "the source at (y={}, x={}) was not found; detections {}", y, x, got)
    # whatever the subtraction of a source leaves behind lies within its PSF
    for g in got:
        require(any(np.hypot(g[2] - y, g[3] - x) <= 2 * size for y, x in c["pos"]), "detection {} away from the planted sources {}", g, c["pos"])
        require(g[1] >= np.round(c["thr"], 1), "detection {} below the threshold {}", g, c["thr"])
    require([g[0] for g in got] == ["SNYX%03d" % i for i in range(len(got))], "keywords {}", [g[0] for g in got])
    ref = snmap(a.astype(float), noise.astype(float), c["fwhm"], size)
    if np.nanmax(ref) > c["thr"] * 1.001:
        i = np.unravel_index(np.nanargmax(ref), ref.shape)
        require(len(got) > 0, "no detection although the S/N reaches {}", np.nanmax(ref))
        require(abs(got[0][1] - ref[i]) <= 0.0501 + 1e-3 * ref[i], "S/N {} of the brightest source, expected {}", got[0][1], ref[i])
        require((got[0][2], got[0][3]) == i or abs(ref[int(got[0][2]), int(got[0][3])] - ref[i]) < 1e-3 * ref[i], "brightest source at {}, expected {}", got[0][2:], i)
    elif np.nanmax(ref) < c["thr"] * 0.999:
        require(not got, "detections {} although the S/N never exceeds {}", got, np.nanmax(ref))
    # the recorded detections are read back
    back = M.parse_companions(out.ext_hdr)
    require([(b["id"], b["y"], b["x"]) for b in back] == [(g[0], g[2], g[3]) for g in got], "parsed {} from {}", back, got)


@PROP.sub("relations", scene(), 10, 200, shards=4)
def relations(c, rec):
    """a lower threshold only adds detections at the end; units do not matter; nothing about the result depends on the header it came with"""
    if c["pos"]:
        rec.nt()
    a, noise, psf, size = build(dict(c, dt="f8"))
    kw = dict(psf=psf, fwhm=c["fwhm"])
    g1 = found(call(T.find_source, frame(a), nsigma_threshold=c["thr"], image_without_planet=noise, **kw))
    hi = found(call(T.find_source, frame(a), nsigma_threshold=c["thr"] * 2, image_without_planet=noise, **kw))
    require(hi == g1[:len(hi)], "threshold {}: {}; threshold {}: {}", c["thr"], g1, c["thr"] * 2, hi)
    require(not [g for g in g1[:len(hi)] if g[1] < np.round(c["thr"] * 2 - 0.05, 1)], "detections {} below the threshold", hi)
    sc = found(call(T.find_source, frame(a * 1024), nsigma_threshold=c["thr"], image_without_planet=noise * 1024, **kw))
    require(sc == g1, "{} in other units, {} before", sc, g1)
    tr = found(call(T.find_source, frame(a.T.copy()), nsigma_threshold=c["thr"], image_without_planet=noise.T.copy(), **kw))
    require(len(tr) == len(g1) and all(abs(t[1] - g[1]) < 0.11 for t, g in zip(tr, g1)), "transposed image: {} instead of {}", tr, g1)
    require([(t[3], t[2]) for t in tr] == [(g[2], g[3]) for g in g1], "transposed image: positions {} instead of {}", tr, g1)


@PROP.sub("self_noise", scene(), 8, 150, shards=4)
def self_noise(c, rec):
    """without a source-free image the image itself gives the noise; an exactly reached threshold ends the search"""
    if c["pos"]:
        rec.nt()
    a, noise, psf, size = build(dict(c, dt="f8"))
    ref = snmap(a, a, c["fwhm"], size)
    top = np.nanmax(ref)
    got = found(call(T.find_source, frame(a), psf=psf, fwhm=c["fwhm"], nsigma_threshold=top * 0.999))
    require(len(got) >= 1 and abs(got[0][1] - top) < 0.051 + 1e-3 * top, "detections {}, expected one with S/N {}", got, top)
    from corgidrp import find_source as F
    # the program's own maximum as the threshold
    m = (np.hypot(*(np.indices((size, size)) - size // 2)) <= c["fwhm"] * 0.5) * 1.0
    exact = np.nanmax(F.make_snmap(a.copy(), m))
    got = found(call(T.find_source, frame(a), psf=psf, fwhm=c["fwhm"], nsigma_threshold=exact))
    require(not got, "detections {} with S/N not above the threshold {}", got, exact)


@PROP.sub("edges", scene(edge=True), 16, 250, shards=4)
def edges(c, rec):
    """sources whose PSF reaches over the edge of the image are found too"""
    if c["pos"]:
        rec.nt()
    a, noise, psf, size = build(dict(c, dt="f8"))
    got = found(call(T.find_source, frame(a), psf=psf, fwhm=c["fwhm"], nsigma_threshold=c["thr"], image_without_planet=noise))
    ref = snmap(a, noise, c["fwhm"], size)
    for y, x in c["pos"]:
        near = ref[max(0, y - 1):y + 2, max(0, x - 1):x + 2]
        if np.nanmax(near) > 1.2 * c["thr"]:
            require(any(np.hypot(g[2] - y, g[3] - x) <= 2.5 for g in got), "the source at (y={}, x={}) was not found; detections {}", y, x, got)
    for g in got:
        require(0 <= g[2] < c["n"] and 0 <= g[3] < c["n"], "detection outside of the image: {}", g)


@st.composite
def oblong(draw):
    h, w = draw(st.sampled_from([(41, 55), (55, 41), (43, 50), (50, 43)])); fwhm = draw(st.sampled_from([3.4, 4.0]))
    side = draw(st.sampled_from(["top", "bottom", "left", "right", "pair"])); d = draw(st.integers(2, 5))
    y, x = {"top": (h - 1 - d, draw(st.integers(10, w - 11))), "bottom": (d, draw(st.integers(10, w - 11))), "left": (draw(st.integers(10, h - 11)), d), "right": (draw(st.integers(10, h - 11)), w - 1 - d), "pair": (h - 13, w - 13)}[side]
    return {"h": h, "w": w, "fwhm": fwhm, "side": side, "y": y, "x": x, "s": draw(seeds), "sn": draw(st.floats(20, 60)), "a": draw(st.floats(0, 6.28)), "sep": draw(st.floats(1.6, 1.9)), "q": draw(st.floats(0.5, 0.7))}


@PROP.sub("oblong", oblong(), 24, 300, shards=4)
def oblong_(c, rec):
    """images that are not square, sources near one of their edges, and two close to each other"""
    r = rng(c["s"]); h, w = c["h"], c["w"]; sh = (h, w)
    noise = r.normal(0, 1.0, sh)
    src = [(c["y"], c["x"], 1.0)]
    if c["side"] == "pair": src.append((int(np.round(c["y"] + c["sep"] * c["fwhm"] * np.sin(c["a"]))), int(np.round(c["x"] + c["sep"] * c["fwhm"] * np.cos(c["a"]))), c["q"]))
    b = int(c["fwhm"] * 3); b += 1 - b % 2; m = b // 2
    psf = gauss((b, b), m, m, 1.0, c["fwhm"]); disk = np.hypot(*(np.indices((b, b)) - m)) <= c["fwhm"] * 0.5
    a = noise + sum(gauss(sh, y, x, q * 60 * np.sqrt(disk.sum()) / psf[disk].sum(), c["fwhm"]) for y, x, q in src)
    got = found(call(T.find_source, frame(a), fwhm=c["fwhm"], nsigma_threshold=8.0, image_without_planet=noise))
    for y, x, q in src:
        require(any(np.hypot(g[2] - y, g[3] - x) <= 1.5 for g in got), "the source at (y={}, x={}) in an image of shape {} was not found; detections {}", y, x, sh, got)
    rec.nt(); rec.label(c["side"])


@st.composite
def comps(draw):
    n = draw(st.sampled_from([81, 90, 101])); k = draw(st.sampled_from([1, 2, 3]))
    star = [n // 2 + draw(st.sampled_from([0.0, 0.5, -1.0, 0.3])), n // 2 + draw(st.sampled_from([0.0, 0.5, 2.0, -0.7]))]
    out = []
    for _ in range(k):
        zone = draw(st.sampled_from([(6, 10.5), (16, 24)]))
        out.append([draw(st.floats(*zone)), draw(st.floats(0, 360)), draw(st.floats(-4, -2))])
    # keep the companions apart
    keep = []
    for s, p, l in out:
        x, y = star[0] - s * np.sin(np.radians(p)), star[1] + s * np.cos(np.radians(p))
        if all(np.hypot(x - a, y - b) > 19 for a, b, *_ in keep):
            keep.append((x, y, s, p, l))
    return {"n": n, "star": star, "c": [q[2:] for q in keep], "fwhm": draw(st.sampled_from([2.6, 3.0, 3.4])), "host": draw(st.floats(1e5, 1e8)), "ctamp": draw(st.floats(0.01, 100)), "t": [draw(st.floats(0.2, 0.9)) for _ in range(2)], "s": draw(seeds),
            "nkl": draw(st.integers(1, 3)), "kl": draw(st.sampled_from([-1, -1, 0])), "thr": draw(st.sampled_from(["L4", "L4", "None"])), "meth": draw(st.sampled_from(["aperture", "gauss2d"])), "hdr": draw(st.booleans()), "calspec": draw(st.booleans()), "zp": draw(st.floats(20, 30)), "filt": "1F"}


def ctcal(c):
    xs, ys = [v.ravel().astype(float) for v in np.meshgrid(np.arange(-28, 29, 2), np.arange(-28, 29, 2))]
    r = np.hypot(xs, ys)
    t = np.where(r < 13, c["t"][0], c["t"][1])
    t[r == 0] = 1.0
    size = 21
    cube = np.array([gauss((size, size), 10, 10, c["ctamp"] * v, c["fwhm"]) for v in t])
    p, h = hdrs("CAL", ext={"CFAMNAME": c["filt"], "EXTNAME": "PSFCUBE"})
    hd = [fits.ImageHDU(data=np.array([xs + c["star"][0], ys + c["star"][1], t]), name="CTEXCAM"), fits.ImageHDU(data=np.array([6854., 22524.]), name="CTFPAM"), fits.ImageHDU(data=np.array([29471., 12120.]), name="CTFSAM")]
    return data.CoreThroughputCalibration(cube, pri_hdr=p, ext_hdr=h, input_hdulist=hd, dq=np.zeros(cube.shape, int), input_dataset=dset([img(np.zeros((4, 4)), "L3", filename=fname(1, "L3_"))]))


@PROP.sub("companions", comps(), 30, 400, shards=4)
def companions(c, rec):
    """the planted flux ratios, positions and magnitudes are recovered"""
    rec.nt(); rec.label(c["thr"]); rec.label("header" if c["hdr"] else "given")
    r = rng(c["s"]); n = c["n"]; x0, y0 = c["star"]
    hx, hy = 30 + r.uniform(-3, 3), 28 + r.uniform(-3, 3)
    host = img(gauss((60, 64), hy, hx, c["host"], c["fwhm"]), "L4", err=np.ones((60, 64)), pri={"TARGET": "Vega"}, ext={"CFAMNAME": c["filt"], "FPAMNAME": "HOLE"}, filename=fname(3, "L4_"))
    ct = ctcal(c)
    fp = data.FpamFsamCal(np.array([np.eye(2), np.eye(2)]), pri_hdr=hdrs("CAL")[0], ext_hdr=hdrs("CAL")[1], date_valid=__import__("astropy.time", fromlist=["Time"]).Time("2024-01-01")) if False else mocks.create_mock_fpamfsam_cal(save_file=False)
    seps = np.array([4.0, 9.0, 15.0, 26.0])
    kt = np.zeros((c["nkl"] + 1, len(seps), 2)); kt[0, :, 0] = seps; kt[0, :, 1] = seps
    kt[1:, :, 0] = r.uniform(0.3, 1.0, (c["nkl"], len(seps))); kt[1:, :, 1] = c["fwhm"]
    if c["thr"] == "None":
        kt[1:, :, 0] = 0.1234
    cube = np.zeros((c["nkl"], n, n)); truth = []
    for s, pa, l in c["c"]:
        x, y = x0 - s * np.sin(np.radians(pa)), y0 + s * np.cos(np.radians(pa))
        if c["hdr"]:
            x, y = float(np.round(x)), float(np.round(y))
        sep = np.hypot(x - x0, y - y0)
        t = c["t"][0] if sep < 13 else c["t"][1]
        truth.append((x, y, sep, 10 ** l, t))
        for k in range(c["nkl"]):
            thru = np.interp(sep, seps, kt[k + 1, :, 0]) if c["thr"] == "L4" else 1.0
            # other modes hold other companions
            cube[k] += gauss((n, n), y, x, c["host"] * t * 10 ** l * thru, c["fwhm"]) * (1.0 if k == c["kl"] % c["nkl"] else 3.0)
    psub = img(cube, "L4", err=np.ones(cube.shape), ext={"STARLOCX": x0, "STARLOCY": y0, "FPAM_H": 6854., "FPAM_V": 22524., "FSAM_H": 29471., "FSAM_V": 12120., "CFAMNAME": c["filt"]}, filename=fname(4, "L4_"))
    psub.hdu_list.append(fits.ImageHDU(data=kt, name="KL_THRU"))
    for k in range(c["nkl"]):      # flags in the other modes do not matter
        if k != c["kl"] % c["nkl"]: psub.dq[k][r.random((n, n)) < 0.3] = 4
    if c["hdr"]:
        for i, (x, y, *_) in enumerate(truth):
            psub.ext_hdr["SNYX%03d" % i] = "%5.1f,%4d,%4d" % (20 - i, y, x)
    zpcal = data.FluxcalFactor(np.array([[1e-13]]), err=np.array([[[1e-15]]]), pri_hdr=hdrs("CAL")[0], ext_hdr=hdrs("CAL", ext={"CFAMNAME": c["filt"], "FPAMNAME": "HOLE", "ZP": c["zp"]})[1], input_dataset=dset([host]))
    before = [snap(v) for v in (host, psub, ct, zpcal)]
    kw = dict(phot_method=c["meth"], thrp_corr=c["thr"], verbose=False, kl_mode_idx=c["kl"], host_star_in_calspec=c["calspec"], fluxcal_factor=None if c["calspec"] else zpcal, cand_locs=None if c["hdr"] else [(s, pa) for s, pa, l in c["c"]])
    if c["meth"] == "gauss2d":
        kw["photometry_kwargs"] = {"fwhm": c["fwhm"], "fit_shape": 11, "background_sub": False, "centering_method": "xy", "centroid_roi_radius": 5}
    else:
        kw["photometry_kwargs"] = {"encircled_radius": 6, "frac_enc_energy": 1.0, "subpixels": 5, "background_sub": False, "centering_method": "xy", "centroid_roi_radius": 4}
    with P.archive(rec.dir, c["s"]):
        tab = call(M.measure_companions, host, psub, ct, fp, **kw)
        if c["calspec"]:
            mag = float(T.determine_app_mag(host, "Vega")[0].ext_hdr["APP_MAG"])
    for b, v, w in zip(before, (host, psub, ct, zpcal), ("the host star image", "the PSF-subtracted image", "the core throughput calibration", "the flux calibration")):
        same(b, snap(v), w)
    require(len(tab) == len(truth), "{} rows for {} companions", len(tab), len(truth))
    for i, (row, (x, y, sep, ratio, t)) in enumerate(zip(tab, truth)):
        require(row["id"] == ("SNYX%03d" % i if c["hdr"] else i) or str(row["id"]) == str(i), "id {!r} of companion {}", row["id"], i)
        require(abs(row["x"] - x) < 1e-6 and abs(row["y"] - y) < 1e-6, "companion {} at ({}, {}), planted at ({}, {})", i, row["x"], row["y"], x, y)
        tol = 0.04 if c["thr"] == "None" else 0.06
        require(abs(row["counts_ratio"] / ratio - 1) < tol, "companion {} at separation {:.2f}: flux ratio {}, planted {}", i, sep, row["counts_ratio"], ratio)
        thru = np.interp(sep, seps, kt[c["kl"] % c["nkl"] + 1, :, 0]) if c["thr"] == "L4" else 1.0
        tot = c["host"] * t * ratio * thru * np.pi * c["fwhm"] ** 2 / 4 / np.log(2)
        require(abs(row["measured companion counts"] / tot - 1) < 0.06, "companion {}: {} counts, planted {}", i, row["measured companion counts"], tot)
        if c["calspec"]:
            require(abs(row["companion estimated mag"] - (mag - 2.5 * np.log10(row["counts_ratio"]))) < 1e-6, "magnitude {} of a companion {} times as bright as a {} mag star", row["companion estimated mag"], row["counts_ratio"], mag)
        else:
            require(abs(row["companion estimated mag"] - (c["zp"] - 2.5 * np.log10(row["measured companion counts"]))) < 1e-6, "magnitude {} for {} counts and zero point {}", row["companion estimated mag"], row["measured companion counts"], c["zp"])


@PROP.sub("cropped", st.fixed_dictionaries({"s": seeds, "old": st.tuples(st.integers(0, 1024), st.integers(0, 1024)), "new": st.tuples(st.integers(0, 500), st.integers(0, 500)), "pos": st.tuples(st.integers(0, 1023), st.integers(0, 1023)), "sn": st.floats(1, 999)}), 300, 3000)
def cropped(c, rec):
    """detections are moved with the host star, and read back"""
    rec.nt()
    f = img(np.zeros((4, 4)), "L4")
    x, y = c["pos"]
    f.ext_hdr["SNYX000"] = "%5.1f,%4d,%4d" % (c["sn"], y, x)
    f.ext_hdr["SNYX001"] = "%5.1f,%4d,%4d" % (5, 7, 9)
    out = M.update_companion_location_in_cropped_image(f, "SNYX000", c["old"], c["new"])
    p = {q["id"]: (q["x"], q["y"]) for q in M.parse_companions(out.ext_hdr)}
    require(p == {"SNYX000": (x - c["old"][0] + c["new"][0], y - c["old"][1] + c["new"][1]), "SNYX001": (9, 7)}, "{} after moving {} with the host from {} to {}", p, (x, y), c["old"], c["new"])
    require(abs(float(out.ext_hdr["SNYX000"].split(",")[0]) - c["sn"]) < 0.051, "S/N {}", out.ext_hdr["SNYX000"])
    rejects(lambda: M.update_companion_location_in_cropped_image(f, "SNYX009", c["old"], c["new"]), KeyError, "a missing detection")


def _nd(rec, od):
    c = {"n": 81, "star": [40., 40.], "c": [[18.0, 30.0, -3.0]], "fwhm": 3.0, "host": 1e6, "ctamp": 1.0, "t": [0.5, 0.5], "s": 1, "filt": "1F"}
    host = img(gauss((60, 64), 30, 32, c["host"] * 10 ** -od, 3.0), "L4", err=np.ones((60, 64)), pri={"TARGET": "Vega"}, ext={"CFAMNAME": "1F", "FPAMNAME": "ND225"}, filename=fname(3, "L4_"))
    g = np.array([[od, x, y] for x in (0., 30., 63.) for y in (0., 30., 59.)])
    nd = data.NDFilterSweetSpotDataset(g, pri_hdr=hdrs("CAL")[0], ext_hdr=hdrs("CAL")[1], input_dataset=dset([host]))
    x, y = 40 - 18 * np.sin(np.radians(30)), 40 + 18 * np.cos(np.radians(30))
    psub = img(gauss((1, 81, 81), y, x, 1, 3.0) if False else gauss((81, 81), y, x, c["host"] * 0.5 * 1e-3, 3.0)[None], "L4", err=np.ones((1, 81, 81)), ext={"STARLOCX": 40., "STARLOCY": 40., "FPAM_H": 6854., "FPAM_V": 22524., "FSAM_H": 29471., "FSAM_V": 12120., "CFAMNAME": "1F"}, filename=fname(4, "L4_"))
    kt = np.ones((2, 2, 2)); kt[0, :, 0] = [5, 30]; kt[1, :, 1] = 3
    psub.hdu_list.append(fits.ImageHDU(data=kt, name="KL_THRU"))
    with P.archive(rec.dir, 1):
        tab = call(M.measure_companions, host, psub, ctcal(c), mocks.create_mock_fpamfsam_cal(save_file=False), nd_cal=nd, thrp_corr="L4", verbose=False, cand_locs=[(18.0, 30.0)])
    return tab["counts_ratio"][0]


@PROP.known("C37-nd-density")
def known_nd(rec):
    """the filter's optical density is used as if it were its transmission"""
    for od in (2.25, 4.75):
        q = _nd(rec, od)
        require(abs(q / 1e-3 - 1) < 0.03, "host star dimmed by an ND filter of density {}: flux ratio {} instead of 0.001", od, q)
