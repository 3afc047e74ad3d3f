"""C32: core throughput estimates, calibration product, and lookups in it."""
from vf.common import *
from vf.core import Prop, require
import glob, csv, io, contextlib
import corgidrp
from corgidrp import corethroughput as ct
from scipy.interpolate import LinearNDInterpolator
from scipy.spatial import Delaunay

PROP = Prop("C32", "Generated core-throughput data sets: 1-6 off-axis Gaussian or random-pixel PSFs at subpixel positions on small detectors, bad (NaN) pixels, 1-3 pupil images anywhere in the order, every colour filter. Position (flux-weighted box centroid) and throughput (flux above half maximum over the mean pupil flux "
            "converted with the independently computed lens ratio), invariance under scaling and integer shifts, contents of the product, rejected data sets. Calibrations with random spokes, azimuth ranges, mask encoder offsets and matrices: mask position, interpolated throughput (reference interpolation, exact for "
            "functions linear in radius and azimuth, calibrated positions, radial range), maps, nearest PSF in the polar sense and 1-D lookups. Non-trivial: every accepted case.")
HERE = os.path.join(os.path.dirname(ct.__file__), "data", "filter_curves")
FILTERS = ["1F", "2F", "3F", "4F", "1A", "1B", "1C", "2A", "2B", "2C", "3A", "3B", "3D", "3E", "4A", "4B", "4C", "3C", "3G"]


def curve(cfam):
    rows = []
    for l in open(glob.glob(os.path.join(HERE, "*_%s_v0.csv" % cfam))[0]):
        x = l.strip().split(",")
        try:
            rows.append((float(x[0]), float(x[1])))
        except Exception:
            pass
    a = np.array(rows)
    return a[:, 0], a[:, 1] / a[:, 1].max()


def ratio(cfam):
    lam, tr = curve(cfam)
    f = lambda n: np.array([[float(v) for v in l.split(",")] for l in open(os.path.join(HERE, n)) if l.strip() and not l.startswith("#")])
    p, i = f("pupil_lens_v0.txt"), f("imaging_lens_v0.txt")
    return (np.interp(lam, i[:, 0] / 10, i[:, 1]) * tr).sum() / (np.interp(lam, p[:, 0] / 10, p[:, 1]) * tr).sum()


def halfbox(cfam):
    return int(np.ceil(3 * curve(cfam)[0].mean() * 1e-9 / 2.36 / np.pi * 180 * 3600e3 / 21.8))


PUP = {"DPAMNAME": "PUPIL", "LSAMNAME": "OPEN", "FSAMNAME": "OPEN", "FPAMNAME": "OPEN_12"}
OFF = {"DPAMNAME": "IMAGING", "LSAMNAME": "NFOV", "FSAMNAME": "R1C1", "FPAMNAME": "HLC12_C2R1"}

cbase = {"n": st.integers(1, 6), "np": st.integers(1, 3), "cfam": st.sampled_from(FILTERS), "s": seeds, "sh": st.tuples(st.integers(45, 70), st.integers(45, 70)), "roi": st.integers(1, 6), "kind": st.sampled_from(["gauss", "gauss", "noise", "wide"]),
         "perm": st.booleans(), "k": st.sampled_from([0.125, 3.0, 1e4]), "near": st.booleans(), "nan": st.sampled_from([0, 0, 3, 40])}


def ctset(c, k=1.0, shift=(0, 0)):
    r = rng(c["s"]); sh = c["sh"]
    yy, xx = np.indices(sh)
    m = halfbox(c["cfam"]) + 2
    fr, n = [], 0
    for i in range(c["n"]):
        x, y = r.uniform(m, sh[1] - 1 - m), r.uniform(m, sh[0] - 1 - m)
        x, y = x + shift[0], y + shift[1]
        w = {"gauss": r.uniform(0.8, 2.5), "noise": 1.2, "wide": r.uniform(3, 5)}[c["kind"]]
        a = r.uniform(1, 30) * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / 2 / w ** 2)
        if c["kind"] == "noise":
            a = a + np.roll(r.normal(0, 0.05, size=sh), (shift[1], shift[0]), (0, 1))
        if c["nan"]:       # bad pixels: in the PSF or anywhere
            q = np.argwhere(np.hypot(xx - x, yy - y) < 6) if c["s"] % 2 else np.argwhere(np.hypot(xx - x, yy - y) > 2)
            q = q[r.permutation(len(q))[:c["nan"]]]
            a[q[:, 0], q[:, 1]] = np.nan
        # encoder values are those of the first frame; near misses of a pupil image are off-axis frames
        e = dict(OFF if not (c["near"] and i) else dict(PUP, **{sorted(PUP)[i % 4]: "OTHER"}), CFAMNAME=c["cfam"], FPAM_H=6854.0, FPAM_V=22524.0, FSAM_H=29471.0, FSAM_V=12120.0)
        fr.append(img(a * k, "L3", ext=e, filename=fname(n, "L3_"), dq=(r.random(sh) < 0.02).astype(np.uint16) * 4)); n += 1
    for i in range(c["np"]):
        a = r.uniform(0.5, 1.5, size=sh)
        if c["nan"]: a[r.integers(0, sh[0], c["nan"]), r.integers(0, sh[1], c["nan"])] = np.nan
        fr.append(img(a * k, "L3", ext=dict(PUP, CFAMNAME=c["cfam"], FPAM_H=6854.0, FPAM_V=22524.0, FSAM_H=29471.0, FSAM_V=12120.0), filename=fname(n, "L3_"))); n += 1
    order = rng(c["s"] + 1).permutation(n) if c["perm"] else range(n)
    fr = [fr[i] for i in order]
    return fr, [f for f in fr if f.ext_hdr["DPAMNAME"] != "PUPIL" or any(f.ext_hdr[q] != v for q, v in PUP.items())], [f for f in fr if all(f.ext_hdr[q] == v for q, v in PUP.items())]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def centroid(a, roi):
    py, px = np.unravel_index(np.nanargmax(a), a.shape)
    s = (slice(max(0, py - roi), py + roi + 1), slice(max(0, px - roi), px + roi + 1))
    yy, xx = np.indices(a.shape)
    a = np.nan_to_num(a)       # bad pixels don't contribute
    w = a[s].sum()
    return (xx[s] * a[s]).sum() / w, (yy[s] * a[s]).sum() / w


@PROP.sub("estimate", st.fixed_dictionaries(cbase), 120, 2500, shards=2)
def estimate(c, rec):
    fr, off, pup = ctset(c)
    ds = data.Dataset(fr); s0 = snap(ds)
    pix, val = quiet(ct.estimate_psf_pix_and_ct, ds, roi_radius=c["roi"])
    same(s0, snap(ds), "the core-throughput dataset")
    rec.nt(); rec.label(c["cfam"])
    norm = np.mean([np.nansum(f.data) for f in pup]) * ratio(c["cfam"])
    require(len(pix) == len(val) == len(off), "{} estimates for {} off-axis PSFs", len(val), len(off))
    want = [centroid(f.data, c["roi"]) for f in off]
    close(pix, want, 1e-9, 1e-9, "PSF positions (roi %d)" % c["roi"])
    close(val, [f.data[f.data >= np.nanmax(f.data) / 2].sum() / norm for f in off], 1e-9, 0, "core throughput")
    p2, v2 = quiet(ct.estimate_psf_pix_and_ct, data.Dataset(ctset(c, c["k"])[0]), roi_radius=c["roi"])
    close(p2, pix, 1e-9, 1e-9, "positions for rescaled counts"); close(v2, val, 1e-9, 0, "core throughput for rescaled counts")
    if c["kind"] != "noise" and not c["nan"]:
        p3, v3 = quiet(ct.estimate_psf_pix_and_ct, data.Dataset(ctset(c, shift=(2, -1))[0]), roi_radius=c["roi"])
        close(p3, pix + [2, -1], 1e-6, 1e-6, "positions for shifted PSFs")
        if c["kind"] == "gauss":
            close(v3, val, 1e-6, 0, "core throughput for shifted PSFs")


CB = ["two filters", "no filter keyword", "no pupil image", "no off-axis PSF"]


@PROP.sub("rejects", st.fixed_dictionaries(dict(cbase, w=st.sampled_from(CB), which=st.booleans(), n=st.integers(2, 4))), 40, 300)
def rejected(c, rec):
    fr, off, pup = ctset(dict(c, near=False)); w = c["w"]
    i = c["s"] % len(fr)
    if w == "two filters": fr[i].ext_hdr["CFAMNAME"] = c["cfam"][0] + ("A" if c["cfam"][1] != "A" else "F") if c["s"] % 2 else "1F" if c["cfam"] != "1F" else "2C"
    if w == "no filter keyword": del fr[i].ext_hdr["CFAMNAME"]
    if w == "no pupil image": fr = off
    if w == "no off-axis PSF": fr = pup
    rec.nt()
    rejects(lambda: quiet(ct.generate_ct_cal if c["which"] else ct.estimate_psf_pix_and_ct, data.Dataset(fr)), (Exception,), w)


@PROP.sub("product", st.fixed_dictionaries(dict(cbase, enc=st.tuples(*[st.floats(0, 30000)] * 4))), 60, 1000, shards=2)
def product(c, rec):
    fr, off, pup = ctset(c)
    for k, v in zip(("FPAM_H", "FPAM_V", "FSAM_H", "FSAM_V"), c["enc"]):
        for f in fr: f.ext_hdr[k] = v
    ds = data.Dataset(fr); s0 = snap(ds)
    cal = quiet(ct.generate_ct_cal, ds, roi_radius=c["roi"])
    same(s0, snap(ds), "the core-throughput dataset")
    rec.nt()
    pix, val = quiet(ct.estimate_psf_pix_and_ct, ds, roi_radius=c["roi"])
    require(type(cal) is data.CoreThroughputCalibration and cal.ext_hdr["DATALVL"] == "CAL" and cal.ext_hdr["DATATYPE"] == "CoreThroughputCalibration", "product {}", type(cal))
    eq(cal.ct_excam, np.array([pix[:, 0], pix[:, 1], val]), "x, y, throughput table")
    eq(cal.ct_fpam, c["enc"][:2], "FPAM position"); eq(cal.ct_fsam, c["enc"][2:], "FSAM position")
    h = halfbox(c["cfam"])
    require(cal.data.shape == (len(off), 2 * h + 1, 2 * h + 1) == cal.dq.shape, "PSF cube {} for {} PSFs and a half box of {}", cal.data.shape, len(off), h)
    for i, f in enumerate(off):
        x, y = int(np.round(pix[i, 0])), int(np.round(pix[i, 1]))
        s = (slice(y - h, y + h + 1), slice(x - h, x + h + 1))
        eq(cal.data[i], f.data[s], "cutout of PSF %d" % i); eq(cal.dq[i], f.dq[s], "flags of the cutout of PSF %d" % i)
    require(cal.ext_hdr["DRPNFILE"] == len(fr), "{} parents recorded for {} frames", cal.ext_hdr["DRPNFILE"], len(fr))
    cal.save(rec.dir, "ct.fits")
    b = data.CoreThroughputCalibration(os.path.join(rec.dir, "ct.fits"))
    for k in ("data", "dq", "ct_excam", "ct_fpam", "ct_fsam"):
        eq(getattr(b, k), getattr(cal, k), k + " after reading the file back")


# ------------------------------------------------------------------ lookups
def calib(xs, ys, vals, fpam, fsam, s=0, n1=5):
    r = rng(s)
    p, e = hdrs("CAL"); e["EXTNAME"] = "PSFCUBE"
    hd = [fits.ImageHDU(data=np.array([xs, ys, vals], float), name="CTEXCAM"), fits.ImageHDU(data=np.array(fpam, float), name="CTFPAM"), fits.ImageHDU(data=np.array(fsam, float), name="CTFSAM")]
    return data.CoreThroughputCalibration(r.normal(size=(len(xs), n1, n1)), pri_hdr=p, ext_hdr=e, input_hdulist=hd, dq=np.zeros((len(xs), n1, n1), np.uint16), input_dataset=dset([img(np.zeros((3, 3)), "L3", filename=fname(0, "L3_"))]))


lbase = {"nr": st.integers(2, 5), "na": st.integers(3, 8), "r0": st.floats(2, 8), "dr": st.floats(1, 4), "a0": st.floats(-3.1, 0), "span": st.floats(1, 3.1), "star": st.tuples(st.floats(20, 600), st.floats(20, 600)), "fpam": st.tuples(st.floats(-50, 50), st.floats(-50, 50)), "fsam": st.tuples(st.floats(-50, 50), st.floats(-50, 50)),
         "mat": st.sampled_from(["default", "random"]), "s": seeds, "jit": st.booleans(), "shuf": st.booleans(), "q": st.integers(1, 12)}


class Scene:
    def __init__(self, c, lin=None):
        r = rng(c["s"])
        # spokes: the azimuth range stays inside (-pi, pi)
        a1 = min(c["a0"] + c["span"], 3.14)
        az = np.linspace(c["a0"], a1, c["na"]); R = c["r0"] + c["dr"] * np.arange(c["nr"])
        rr, aa = [x.ravel() for x in np.meshgrid(R, az)]
        if c["jit"]:
            rr = rr + r.uniform(-0.3, 0.3, size=rr.shape) * c["dr"]; aa = aa + r.uniform(-0.3, 0.3, size=aa.shape) * (az[1] - az[0])
            aa = np.clip(aa, -3.14, 3.14)
        if c["shuf"]:
            p = r.permutation(len(rr)); rr, aa = rr[p], aa[p]
        self.M = data.FpamFsamCal.default_trans if c["mat"] == "default" else r.normal(0, 0.15, size=(2, 2, 2))
        self.cal_pam = data.FpamFsamCal(np.array(self.M))
        cor = dict(STARLOCX=c["star"][0], STARLOCY=c["star"][1], FPAM_H=6854., FPAM_V=22524., FSAM_H=29471., FSAM_V=12120.)
        self.ds = dset([img(np.zeros((4, 4)), "L3", ext=cor, filename=fname(1, "L3_")), img(np.zeros((4, 4)), "L3", ext=dict(cor, STARLOCX=1., FPAM_H=0.), filename=fname(2, "L3_"))])
        dp, df = np.array(c["fpam"]), np.array(c["fsam"])
        self.cen = np.array(c["star"]) + self.M[0] @ dp
        self.cen_fs = np.array(c["star"]) + self.M[1] @ df
        x, y = self.cen[0] + rr * np.cos(aa), self.cen[1] + rr * np.sin(aa)
        self.x, self.y = x - self.cen[0], y - self.cen[1]
        self.r, self.a = np.hypot(self.x, self.y), np.arctan2(self.y, self.x)
        self.v = r.uniform(0.05, 0.7, size=len(rr)) if lin is None else lin(self.r, self.a - self.a.min())
        self.cal = calib(x, y, self.v, [6854. + dp[0], 22524. + dp[1]], [29471. + df[0], 12120. + df[1]], c["s"])
        # what the code will see: positions relative to its own mask centre
        self.x, self.y = self.cal.ct_excam[0] - self.cen[0], self.cal.ct_excam[1] - self.cen[1]


@PROP.sub("mask_position", st.fixed_dictionaries(lbase), 80, 1500)
def mask_position(c, rec):
    rec.nt()
    s = Scene(c)
    a, b = s.cal.GetCTFPMPosition(s.ds, s.cal_pam)
    close(a, s.cen, 1e-9, 1e-7, "mask centre from the FPAM"); close(b, s.cen_fs, 1e-9, 1e-7, "mask centre from the FSAM")


def queries(c, s):
    r = rng(c["s"] + 5)
    R = r.uniform(s.r.min() - 1, s.r.max() + 1, c["q"]); A = r.uniform(-np.pi, np.pi, c["q"])
    return R * np.cos(A), R * np.sin(A)


@PROP.sub("interpolate", [st.fixed_dictionaries(dict(lbase, mode=st.just(m), logr=st.booleans(), form=st.sampled_from(["array", "list", "scalar"]), one=st.booleans())) for m in ("linear", "free", "calibrated", "free")], 160, 3000, shards=2)
def interpolate(c, rec):
    k = rng(c["s"] + 9).uniform(-0.02, 0.02, 2)
    f = (lambda r, a: 0.4 + k[0] * (np.log10(r) if c["logr"] else r) + k[1] * a) if c["mode"] == "linear" else None
    s = Scene(c, f)
    if c["mode"] == "calibrated":
        i = rng(c["s"] + 3).permutation(len(s.x))[:c["q"]]
        x, y = s.x[i], s.y[i]
        if c["one"]:
            j = np.argmax(s.a); x, y, i = s.x[j:j + 1], s.y[j:j + 1], np.array([j])
    else:
        x, y = queries(c, s)
    qr = np.hypot(x, y)
    if c["form"] == "scalar":
        x, y, qr = x[:1], y[:1], qr[:1]
    ax, ay = {"array": (x, y), "list": (list(map(float, x)), list(map(float, y))), "scalar": (float(x[0]), float(y[0]))}[c["form"]]
    go = lambda: s.cal.InterpolateCT(ax, ay, s.ds, s.cal_pam, logr=c["logr"])
    # reference interpolation in (radius, azimuth), azimuths wrapped into the calibrated range
    rad, az = np.hypot(s.x, s.y), np.arctan2(s.y, s.x)
    if np.min(np.abs(qr[:, None] - [rad.min(), rad.max()])) < 1e-6 and c["mode"] != "calibrated":
        return
    keep = (qr >= rad.min() - 1e-9) & (qr <= rad.max() + 1e-9)
    if not keep.any():
        rec.nt(); rec.label("outside")
        rejects(go, (ValueError,), "positions outside the calibrated radii"); return
    a0 = az.min()
    m = (az - a0).max()
    qa = (np.arctan2(y, x) - a0) % m
    g = np.log10 if c["logr"] else (lambda z: z)
    interp = LinearNDInterpolator(np.c_[g(rad), az - a0], s.v)
    ref = interp(g(np.clip(qr, rad.min(), rad.max())), qa)
    inside = keep & np.isfinite(ref)
    if c["mode"] == "calibrated":
        tri = Delaunay(np.c_[g(rad), az - a0])
        interior = np.ones(len(rad), bool); interior[tri.convex_hull] = False
        interior &= (az - a0 > 1e-9 * m) & (az - a0 < m * (1 - 1e-9)) & (rad > rad.min() + 1e-9) & (rad < rad.max() - 1e-9)
        try:
            out = go()
        except ValueError as e:
            # only positions on the border of the calibrated range may be found to be outside (rounding)
            require(not interior[i[:len(x)]].any(), "calibrated positions rejected: {}", e)
            return
        rec.nt()
        require(out.shape[0] == 3, "result {}", out.shape)
        for v, px, py in out.T:
            j = int(np.argmin(np.hypot(s.x - px, s.y - py)))
            if 1e-9 < (az[j] - a0) / m < 1 - 1e-9:
                require(abs(v - s.v[j]) < 1e-6, "interpolation at the calibrated position {} gives {}, the calibrated value is {}", (px, py), v, s.v[j])
            else:
                rec.label("edge azimuth")
                require(s.v.min() - 1e-9 <= v <= s.v.max() + 1e-9, "interpolated value {}", v)
                if c["one"] and np.isnan(ref).all():
                    # the largest azimuth is also azimuth zero: by rounding the value may be the interpolated one there
                    zero = interp(g(np.clip(rad[j], rad.min() * (1 + 1e-9), rad.max() * (1 - 1e-9))), 1e-9 * m)
                    require(np.isnan(zero) or min(abs(v - s.v[j]), abs(v - zero)) < 1e-6, "interpolation at the calibrated position {} of largest azimuth gives {}, the calibrated value is {}", (px, py), v, s.v[j])
        return
    if not inside.any():
        rec.nt(); rec.label("no valid position")
        rejects(go, (ValueError,), "positions outside the calibrated range"); return
    rec.nt()
    out = go()
    close(out[1], x[inside], 0, 0, "x of the valid positions"); close(out[2], y[inside], 0, 0, "y of the valid positions")
    if c["jit"]:    # the triangulation of an exactly regular grid is not unique
        close(out[0], ref[inside], 1e-7, 1e-7, "interpolated throughput")
    require((out[0] >= s.v.min() - 1e-9).all() and (out[0] <= s.v.max() + 1e-9).all(), "interpolated values {} outside the calibrated ones", out[0])
    if c["mode"] == "linear":
        close(out[0], f(qr[inside], qa[inside]), 1e-6, 1e-6, "interpolation of a linear throughput")


@PROP.sub("edge_azimuth", st.fixed_dictionaries(dict(lbase, k=st.integers(0, 4))), 80, 1500)
def edge_azimuth(c, rec):
    """positions asked for together do not change each other's value"""
    s = Scene(c)
    r = rng(c["s"] + 7)
    j = np.argsort(s.a)[::-1][:1 + c["k"]]
    x, y = queries(c, s)
    x, y = np.concatenate([x, s.x[j]]), np.concatenate([y, s.y[j]])
    p = r.permutation(len(x)); x, y = x[p], y[p]

    def ask(x, y):
        try:
            o = s.cal.InterpolateCT(np.array(x), np.array(y), s.ds, s.cal_pam)
        except ValueError:
            return {}
        return {(float(a), float(b)): float(v) for v, a, b in o.T}
    together = ask(x, y)
    alone = {}
    for a, b in zip(x, y):
        alone.update(ask([a], [b]))
    if together:
        rec.nt()
    own = {(float(a), float(b)): float(v) for a, b, v in zip(s.x[j], s.y[j], s.v[j])}   # on the border: kept or not by rounding
    require(set(together) - set(own) == set(alone) - set(own), "valid positions together {} and alone {}", sorted(together), sorted(alone))
    for k, v in together.items():
        if k in own:
            require(min(abs(v - own[k]), abs(v - alone.get(k, v))) < 1e-9, "throughput at the calibrated position {}: {}, calibrated {}", k, v, own[k])
        else:
            require(abs(v - alone[k]) < 1e-9, "throughput at {}: {} alone, {} together with other positions", k, alone[k], v)


@PROP.sub("map", st.fixed_dictionaries(dict(lbase, n=st.tuples(st.integers(2, 12), st.integers(2, 12)), half=st.floats(3, 15), own=st.booleans(), logr=st.booleans(), save=st.sampled_from([0, 1, 2]))), 60, 1000)
def ctmap(c, rec):
    s = Scene(c)
    old = corgidrp.default_cal_dir
    corgidrp.default_cal_dir = rec.dir
    try:
        xr, yr = [-c["half"], c["half"] + 1], [-c["half"] - 2, c["half"]]
        kw = dict(logr=c["logr"])
        if c["own"]:
            kw["target_pix"] = np.array(queries(c, s)); tx, ty = kw["target_pix"]
        else:
            kw.update(x_range=xr, y_range=yr, n_gridx=c["n"][0], n_gridy=c["n"][1])
            tx, ty = [q.ravel() for q in np.meshgrid(np.linspace(*xr, c["n"][0]), np.linspace(*yr, c["n"][1]))]
        path = os.path.join(rec.dir, "ct_map.csv") if c["save"] == 1 else os.path.join(rec.dir, "own.csv")
        if c["save"]:
            kw["save"] = True
            if c["save"] == 2: kw["filepath"] = path
        go = lambda: quiet(ct.CreateCTMap, s.ds, s.cal_pam, s.cal, **kw)
        try:
            want = s.cal.InterpolateCT(tx, ty, s.ds, s.cal_pam, logr=c["logr"])
        except ValueError:
            rejects(go, (ValueError,), "map without valid positions"); return
        rec.nt()
        got = go()
        eq(got, np.array([want[1], want[2], want[0]]), "throughput map (x, y, throughput)")
        if c["save"]:
            require(os.path.exists(path), "map saved with filepath={} is not at {}", kw.get("filepath"), path)
            close(np.loadtxt(path, delimiter=",", ndmin=2), got, 1e-12, 1e-12, "saved map")
        else:
            require(not os.listdir(rec.dir), "map saved without being asked: {}", os.listdir(rec.dir))
    finally:
        corgidrp.default_cal_dir = old


def nearest(c, s, x, y, step, wrap):
    """expected PSF: smallest radial distance in bins of `step`, then smallest angle (bins of 0.1 pixel); None if several are equally near"""
    d = np.abs(np.hypot(x, y) - np.hypot(s.x, s.y)) / step
    tie = lambda z: np.any(np.abs(z % 1 - 0.5) < 1e-6)     # rounding decides the bin
    if tie(d):
        return None
    d = np.round(d)
    i = np.flatnonzero(d == d.min())
    if len(i) > 1:
        da = np.abs(np.arctan2(y, x) - np.arctan2(s.y[i], s.x[i]))
        if wrap:
            da = np.minimum(da, 2 * np.pi - da)
        b = 0.1 / np.hypot(x, y)
        if tie(da / b):
            return None
        da = np.round(da / b)
        i = i[da == da.min()]
    return s.cal.data[i].mean(axis=0) if len(i) <= 2 else None


@PROP.sub("nearest_psf", st.fixed_dictionaries(dict(lbase, form=st.sampled_from(["array", "list", "scalar"]), a0=st.floats(-3.1, -2), span=st.floats(3, 6.2), nr=st.integers(1, 4), dr=st.floats(0.3, 4), jit=st.booleans(), at=st.booleans())), 160, 3000, shards=2)
def nearest_psf(c, rec):
    s = Scene(c)
    x, y = queries(c, s)
    if c["at"]:
        j = rng(c["s"] + 3).permutation(len(s.x))[:c["q"]]; x, y = s.x[j], s.y[j]
    if c["form"] == "scalar":
        x, y = x[:1], y[:1]
    rad, qr = np.hypot(s.x, s.y), np.hypot(x, y)
    near = np.abs(qr[:, None] - [rad.min(), rad.max()]).min(axis=1) < 1e-7
    x, y, qr = x[~near], y[~near], qr[~near]
    if not len(x):
        return
    ax, ay = {"array": (x, y), "list": (list(map(float, x)), list(map(float, y))), "scalar": (float(x[0]), float(y[0]))}[c["form"]]
    keep = (qr >= rad.min()) & (qr <= rad.max())
    go = lambda: quiet(s.cal.GetPSF, ax, ay, s.ds, s.cal_pam)
    if not keep.any():
        rec.nt(); rec.label("outside")
        rejects(go, (ValueError,), "positions outside the calibrated radii"); return
    want = [(nearest(c, s, a, b, 0.1, True), nearest(c, s, a, b, 1.0, False)) for a, b in zip(x[keep], y[keep])]
    if any(w is None for p in want for w in p):
        rec.label("more than two equally near"); return
    rec.nt()
    psf, ox, oy = go()
    eq(ox, x[keep], "x of the valid positions"); eq(oy, y[keep], "y of the valid positions")
    require(len(psf) == keep.sum(), "{} PSFs for {} valid positions", len(psf), keep.sum())
    for k, (doc, code) in enumerate(want):
        require(any(d.tobytes() == q.tobytes() for d in s.cal.data for q in [psf[k]]) or np.allclose(psf[k], doc, rtol=0, atol=1e-12) or np.allclose(psf[k], code, rtol=0, atol=1e-12), "the PSF returned is not one of the calibration")
        if np.allclose(doc, code, rtol=0, atol=1e-12):
            close(psf[k], doc, 0, 1e-12, "PSF nearest to {}".format((ox[k], oy[k])))
        else:
            # recorded finding: radial bins of 1 pixel and unwrapped angles
            rec.label("differs by the recorded finding")
            require(np.allclose(psf[k], doc, rtol=0, atol=1e-12) or np.allclose(psf[k], code, rtol=0, atol=1e-12), "PSF nearest to {}", (ox[k], oy[k]))


@PROP.known("C32-getpsf-bins")
def known_bins(rec):
    """nearest PSF: radial distances are binned to a whole pixel instead of a tenth"""
    cal = calib([110., 100.], [100., 110.4], [0.5, 0.4], [6854., 22524.], [29471., 12120.])
    ds = dset([img(np.zeros((4, 4)), "L3", ext=dict(STARLOCX=100., STARLOCY=100., FPAM_H=6854., FPAM_V=22524., FSAM_H=29471., FSAM_V=12120.), filename=fname(1, "L3_"))])
    a = 0.7
    p = quiet(cal.GetPSF, 10.39 * np.cos(a), 10.39 * np.sin(a), ds, data.FpamFsamCal(np.array([])))[0]
    require(np.array_equal(p[0], cal.data[1]), "GetPSF at radius 10.39 returns the PSF at radius 10.0 instead of the one at 10.4")


@PROP.known("C32-getpsf-wrap")
def known_wrap(rec):
    """nearest PSF: the angular distance does not wrap at 180 degrees"""
    th = np.array([-3.1, 1.0])
    cal = calib(100 + 10 * np.cos(th), 100 + 10 * np.sin(th), [0.5, 0.4], [6854., 22524.], [29471., 12120.])
    ds = dset([img(np.zeros((4, 4)), "L3", ext=dict(STARLOCX=100., STARLOCY=100., FPAM_H=6854., FPAM_V=22524., FSAM_H=29471., FSAM_V=12120.), filename=fname(1, "L3_"))])
    cal.ct_excam[0, 1] += 1e-3
    p = quiet(cal.GetPSF, 10.0001 * np.cos(3.1), 10.0001 * np.sin(3.1), ds, data.FpamFsamCal(np.array([])))[0]
    require(np.array_equal(p[0], cal.data[0]), "GetPSF at azimuth 3.1 rad returns the PSF at 1.0 rad instead of the one at -3.1 rad")


@PROP.sub("one_d", st.fixed_dictionaries(dict(lbase, det=st.one_of(st.none(), st.tuples(st.integers(0, 500), st.integers(0, 500))), seps=st.lists(st.floats(0, 30), min_size=1, max_size=8))), 100, 2000)
def one_d(c, rec):
    s = Scene(c)
    e = dict(STARLOCX=c["star"][0], STARLOCY=c["star"][1])
    d = c["det"] or (0, 0)
    f = img(np.zeros((4, 4)), "L3", ext=e, filename=fname(1, "L3_"))
    for k in ("DETPIX0X", "DETPIX0Y"):
        if k in f.ext_hdr: del f.ext_hdr[k]
    if c["det"]:
        f.ext_hdr["DETPIX0X"], f.ext_hdr["DETPIX0Y"] = d
        s.cal.ct_excam[0] += d[0]; s.cal.ct_excam[1] += d[1]
    out = ct.get_1d_ct(s.cal, f, c["seps"])
    rec.nt()
    require(out.shape == (2, len(c["seps"])), "shape {}", out.shape)
    eq(out[0], c["seps"], "separations")
    # pixel centres are half a pixel from the stored star position
    dist = np.hypot(s.cal.ct_excam[0] - c["star"][0] - d[0] - 0.5, s.cal.ct_excam[1] - c["star"][1] - d[1] - 0.5)
    for sep, v in zip(c["seps"], out[1]):
        g = np.abs(dist - sep)
        ok = s.v[g <= g.min() + 1e-9]
        require((np.abs(ok - v) < 1e-12).any(), "throughput {} at separation {}, the nearest measurement gives {}", v, sep, ok)
    rejects(lambda: ct.get_1d_ct(s.cal, f, c["seps"], method="linear"), (NotImplementedError,), "unknown method")
