"""C38: injected companions, annular noise, throughput of the subtraction, and the flux ratio noise curve."""
from vf.common import *
from vf.core import Prop, require
import contextlib, io, warnings
from scipy.ndimage import map_coordinates
from scipy.interpolate import RegularGridInterpolator
from corgidrp import klip_fm as K, astrom as A, l4_to_tda as T

PROP = Prop("C38", "Separations, angles and offsets of all sizes, scalars and arrays: conversions, distances and their inverses against complex arithmetic. Frames of any shape, star position and roll, calibrations with random PSFs at random positions: position, shape and peak of the injected PSF, choice of the PSF, linearity, everything else unchanged. "
            "Cubes with random, annular or masked-companion values: standard deviation within the annulus by enumeration, insensitivity to pixels outside of it and to masked companions. Injection and recovery through the PSF subtraction of star-free noise: throughput near one, FWHM of the PSF, order of the separations. "
            "Flux-ratio noise of 1-3 frames with different throughput tables, pixel scales, stars and separations, default and requested ones: the defining formula evaluated independently. Non-trivial: every generated case.")


def q(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


@PROP.sub("polar", st.fixed_dictionaries({"p": st.lists(st.tuples(st.floats(0, 1e3), st.floats(-720, 720)), min_size=2, max_size=5), "cx": st.floats(-50, 1100), "cy": st.floats(-50, 1100), "arr": st.booleans(), "k": st.floats(0.01, 100)}), 500, 5000)
def polar(c, rec):
    """separation and angle <-> offsets"""
    rec.nt()
    z = [s * np.exp(1j * np.radians(p)) for s, p in c["p"]]        # real part to the north (up), imaginary part to the east (left)
    if c["arr"]:
        s, p = np.array(c["p"]).T
        dxy, xy = A.seppa2dxdy(s, p), A.seppa2xy(s, p, c["cx"], c["cy"])
    else:
        dxy = np.array([A.seppa2dxdy(*v) for v in c["p"]]).T; xy = np.array([A.seppa2xy(*v, c["cx"], c["cy"]) for v in c["p"]]).T
    require(dxy.shape == (2, len(z)), "shape {}", dxy.shape)
    close(dxy[0], [-v.imag for v in z], 0, 1e-9 * 1e3, "x offsets"); close(dxy[1], [v.real for v in z], 0, 1e-9 * 1e3, "y offsets")
    close(xy[0], dxy[0] + c["cx"], 0, 1e-9, "x"); close(xy[1], dxy[1] + c["cy"], 0, 1e-9, "y")
    for a, v in zip(c["p"], z):
        for b, w in zip(c["p"], z):
            if abs(v - w) < 1e-3 * max(abs(v), abs(w), 1):
                continue                      # the cosine rule loses the digits of a small distance
            close(A.get_polar_dist(a, b), abs(v - w), 1e-6, 1e-6, "distance"); close(A.get_polar_dist(b, a), abs(v - w), 1e-6, 1e-6, "distance the other way")


def gauss(shape, y, x, amp, fwhm):
    yy, xx = np.indices(shape)
    return amp * np.exp(-4 * np.log(2) * ((yy - y) ** 2 + (xx - x) ** 2) / fwhm ** 2)


def ctcal(xs, ys, cube, vals=None):
    p, h = hdrs("CAL", ext={"CFAMNAME": "1F", "EXTNAME": "PSFCUBE"})
    vals = np.ones(len(xs)) if vals is None else vals
    hd = [fits.ImageHDU(data=np.array([xs, ys, vals], float), name="CTEXCAM"), fits.ImageHDU(data=np.array([6854., 22524.]), name="CTFPAM"), fits.ImageHDU(data=np.array([29471., 12120.]), name="CTFSAM")]
    return data.CoreThroughputCalibration(cube, pri_hdr=p, ext_hdr=h, input_hdulist=hd, dq=np.zeros(cube.shape, int), input_dataset=dset([img(np.zeros((4, 4)), "L3", filename=fname(1, "L3_"))]))


icase = {"s": seeds, "sh": st.tuples(st.integers(30, 60), st.integers(30, 60)).map(list), "cx": st.floats(-3, 3), "cy": st.floats(-3, 3), "roll": st.one_of(st.sampled_from([0, 90.0, -15, 283.0]), st.floats(-180, 360)), "sep": st.one_of(st.sampled_from([0, 10.0, 5, 12]), st.floats(0, 25)),
         "pa": st.one_of(st.sampled_from([0, 90.0, 180, 270]), st.floats(-360, 720)), "amp": st.floats(0.01, 1e5), "n": st.integers(1, 8), "size": st.sampled_from([7, 9, 13, 15]), "fw": st.floats(2, 4), "kind": st.sampled_from(["gauss", "gauss", "lop"])}


@PROP.sub("inject", st.fixed_dictionaries(icase), 250, 3000)
def inject(c, rec):
    """an injected companion is the scaled PSF of the nearest calibrated position, where it was asked for in the sky frame of that image"""
    rec.nt()
    r = rng(c["s"]); h, w = c["sh"]; n, m = c["n"], c["size"] // 2
    x0, y0 = w / 2 + c["cx"], h / 2 + c["cy"]
    xs, ys = r.uniform(0, w, n), r.uniform(0, h, n)
    cube = np.array([gauss((c["size"],) * 2, m, m, a, c["fw"]) for a in r.uniform(0.1, 10, n)])
    if c["kind"] == "lop":
        cube = cube * (1 + 0.3 * r.random(cube.shape))
    cal = ctcal(xs, ys, cube)
    f = img(r.normal(0, 1, (h, w)), "L3", err=r.random((h, w)), dq=dq_array(5, (h, w)), pri={"ROLL": c["roll"]}, ext={"STARLOCX": x0, "STARLOCY": y0}, filename=fname(2, "L3_"))
    s0, s1 = snap(f), snap(cal)
    out, model, cen = K.inject_psf(f, cal, c["amp"], c["sep"], c["pa"])
    same(s0, snap(f), "the frame injected into"); same(s1, snap(cal), "the calibration")
    t = np.radians(c["pa"] - c["roll"])
    x, y = x0 - c["sep"] * np.sin(t), y0 + c["sep"] * np.cos(t)
    close(cen, [x, y], 0, 1e-6, "reported position")
    # calibrated positions count from the corner of the first pixel
    d = np.hypot(xs - 0.5 - x, ys - 0.5 - y)
    best = [k for k in range(n) if d[k] <= d.min() + 1e-9]
    require(any(np.allclose(model, cube[k] * c["amp"] / cube[k].max(), rtol=1e-9) for k in best), "the PSF is not that of the nearest position ({} of {})", best, n)
    require(abs(model.max() / c["amp"] - 1) < 1e-9, "peak {} instead of {}", model.max(), c["amp"])
    diff = out.data - f.data
    if not (0 <= x <= w - 1 and 0 <= y <= h - 1):     # companions outside of the image may be left out
        return
    for xi in {int(round(x)), int(np.floor(x)), int(np.ceil(x))}:
        for yi in {int(round(y)), int(np.floor(y)), int(np.ceil(y))}:
            if abs(xi - x) > 0.5 + 1e-6 or abs(yi - y) > 0.5 + 1e-6:
                continue
            want = np.zeros((h, w))
            Y, X = np.indices((h, w)); on = (np.abs(X - xi) <= m) & (np.abs(Y - yi) <= m)
            want[on] = map_coordinates(model, [(Y - y + m)[on], (X - x + m)[on]], mode="constant", cval=0.0)
            # a sample a rounding error outside of the PSF image counts as outside
            edge = on & ((np.abs(X - xi) == m) | (np.abs(Y - yi) == m))
            rim = 1.5 * max(np.abs(model[[0, -1]]).max(), np.abs(model[:, [0, -1]]).max())
            if np.all(np.abs(diff - want) <= np.where(edge, rim, 0) + 1e-6 * c["amp"] + 1e-9):
                break
        else:
            continue
        break
    else:
        Y, X = np.indices((h, w)); p = np.unravel_index(np.argmax(diff), diff.shape)
        require(False, "injected at (x={}, y={}) with peak {}, expected (x={:.3f}, y={:.3f}) and {}", p[1], p[0], diff.max(), x, y, c["amp"])
    eq(out.err, f.err, "uncertainties"); eq(out.dq, f.dq, "flags")
    # twice the amplitude, twice the signal
    o2 = K.inject_psf(f, cal, 2 * c["amp"], c["sep"], c["pa"])[0]
    close(o2.data - f.data, 2 * diff, 1e-6, 1e-6 * c["amp"] + 1e-9, "signal at twice the amplitude")
    # turning the telescope turns the companion the other way
    g = f.copy(); g.pri_hdr["ROLL"] = c["roll"] + 37.0
    close(K.inject_psf(g, cal, c["amp"], c["sep"], c["pa"] + 37.0)[2], [x, y], 0, 1e-6, "position at another roll")


ncase = {"s": seeds, "sh": st.tuples(st.integers(24, 50), st.integers(24, 50)).map(list), "nk": st.integers(1, 3), "cx": st.sampled_from([0, 0.5, -1.25, 3.0]), "cy": st.sampled_from([0, 0.5, 2.75, -3.0]), "seps": st.lists(st.one_of(st.sampled_from([5.0, 8, 10.0]), st.floats(3, 11)), min_size=1, max_size=4), "hw": st.one_of(st.sampled_from([1.0, 1.5, 2]), st.floats(0.8, 3)),
         "cand": st.lists(st.tuples(st.floats(3, 12), st.floats(0, 360)), max_size=2), "nan": st.booleans(), "idx": st.sampled_from([None, None, 0, -1])}


@PROP.sub("noise", st.fixed_dictionaries(ncase), 250, 3000)
def noise(c, rec):
    """the noise at a separation is the scatter of the pixels of the annulus there, without known companions, for each plane"""
    rec.nt()
    r = rng(c["s"]); h, w = c["sh"]
    x0, y0 = w / 2 + c["cx"], h / 2 + c["cy"]
    d = r.normal(3, 1, (c["nk"], h, w)) * r.uniform(0.1, 10, (c["nk"], 1, 1))
    if c["nan"]:
        d[r.random(d.shape) < 0.05] = np.nan
    Y, X = np.indices((h, w)); R = np.hypot(X - x0, Y - y0)
    f = img(d, "L4", err=np.ones(d.shape), ext={"STARLOCX": x0, "STARLOCY": y0}, filename=fname(2, "L4_"))
    s0 = snap(f)
    got = q(K.measure_noise, f, np.array(c["seps"], float), c["hw"], c["idx"], list(c["cand"]))
    same(s0, snap(f), "the input image")
    require(got.shape == ((len(c["seps"]), c["nk"]) if c["idx"] is None else (len(c["seps"]),)), "shape {}", got.shape)
    got = got.reshape(len(c["seps"]), -1)
    planes = range(c["nk"]) if c["idx"] is None else [c["idx"] % c["nk"]]
    for i, s in enumerate(c["seps"]):
        near = np.abs(np.abs(R - s) - c["hw"]) < 1e-9            # on the edge of the annulus
        on = np.abs(R - s) < c["hw"]
        for cs, cp in c["cand"]:
            D = np.hypot(X - x0 + cs * np.sin(np.radians(cp)), Y - y0 - cs * np.cos(np.radians(cp)))
            on &= D > 5 * c["hw"]; near |= np.abs(D - 5 * c["hw"]) < 1e-9
        for j, k in enumerate(planes):
            v = d[k][on & ~near]; v = v[np.isfinite(v)]
            v2 = d[k][on | near]; v2 = v2[np.isfinite(v2)]
            if len(v) < 2:
                continue
            if near.any():
                require(abs(got[i, j] - v.std()) < 0.5 * v.std() + 1e-9, "noise {} at separation {}, expected about {}", got[i, j], s, v.std())
            else:
                close(got[i, j], v.std(), 1e-9, 0, "noise at separation %s, half-width %s, plane %d" % (s, c["hw"], k))


@PROP.sub("noise_local", st.fixed_dictionaries(ncase), 100, 1000)
def noise_local(c, rec):
    """pixels outside of the annulus, and companions that are masked, do not matter; a constant does not, a factor scales"""
    rec.nt()
    r = rng(c["s"]); h, w = c["sh"]; x0, y0 = w / 2 + c["cx"], h / 2 + c["cy"]
    d = r.normal(0, 1, (1, h, w)); s = c["seps"][0]
    Y, X = np.indices((h, w)); R = np.hypot(X - x0, Y - y0)
    mk = lambda a: img(a, "L4", err=np.ones(a.shape), ext={"STARLOCX": x0, "STARLOCY": y0}, filename=fname(2, "L4_"))
    a = q(K.measure_noise, mk(d), np.array([s]), c["hw"], None, list(c["cand"]))
    e = d.copy(); e[0][np.abs(R - s) > c["hw"] + 1e-6] += 1e6
    for cs, cp in c["cand"]:
        D = np.hypot(X - x0 + cs * np.sin(np.radians(cp)), Y - y0 - cs * np.cos(np.radians(cp)))
        e[0][D < 2 * c["hw"]] += 1e6
    eq(q(K.measure_noise, mk(e), np.array([s]), c["hw"], None, list(c["cand"])), a, "noise with other pixels elsewhere")
    close(q(K.measure_noise, mk(5 * d + 7), np.array([s]), c["hw"], None, list(c["cand"])), 5 * a, 1e-9, 1e-12, "noise of a rescaled image")


@PROP.sub("throughput", st.fixed_dictionaries({"s": seeds, "ns": st.integers(1, 2), "n": st.integers(62, 70), "roll0": st.sampled_from([0, 40.0, 283.0]), "droll": st.sampled_from([0, 26.0, 60.0]), "kl": st.sampled_from([[1], [1, 2]]), "seps": st.sampled_from([[8.0, 16.0], [16.0, 8.0], [9.0], [17.0, 10.0]]), "pas": st.sampled_from([[0.0, 180.0], [45.0, 165.0, 285.0]]), "cand": st.sampled_from([None, None, 0]), "snr": st.sampled_from([20, 40]), "fw": st.floats(2.6, 3.6), "cx": st.sampled_from([0, 0.5, -1]), "cy": st.sampled_from([0, -0.5, 2])}), 60, 600, shards=4)
def throughput(c, rec):
    """companions injected into star-free noise come back with their flux and width, listed by the separations asked for"""
    rec.nt()
    r = rng(c["s"]); n = c["n"]; fr = []
    for i in range(c["ns"] + 2):
        f = img(r.normal(0, 1, (n, n)), err=np.ones((n, n)), level="L3", pri={"ROLL": c["roll0"] + i * c["droll"] if i < c["ns"] else 0.0, "TELESCOP": "ROMAN", "INSTRUME": "CGI", "PSFREF": int(i >= c["ns"])},
                ext={"STARLOCX": n // 2 + c["cx"], "STARLOCY": n // 2 + c["cy"], "CFAMNAME": "1F", "PLTSCALE": 21.8, "FSMPRFL": "NFOV", "LSAMNAME": "NFOV", "FPAMNAME": "HLC12_C2R1"}, filename=fname(i, "L3"))
        fr.append(f)
    sci, ref = data.Dataset(fr[:c["ns"]]), data.Dataset(fr[c["ns"]:])
    res = r.normal(0, 1, (len(c["kl"]), n, n)) * np.arange(1, len(c["kl"]) + 1)[:, None, None]
    psub = dset([img(res, "L4", err=np.ones(res.shape), ext={"STARLOCX": n // 2 + c["cx"], "STARLOCY": n // 2 + c["cy"]}, filename=fname(9, "L4"))])
    xs, ys = [v.ravel() + n / 2.0 for v in np.meshgrid(np.arange(-20., 21, 5), np.arange(-20., 21, 5))]
    m = 10
    cube = np.array([gauss((21, 21), m, m, 1 + 0.01 * k, c["fw"]) for k in range(len(xs))])
    cand = [] if c["cand"] is None else [(c["seps"][0], c["pas"][0])]
    s0 = [snap(v) for v in (sci, ref, psub)]
    out = q(K.meas_klip_thrupt, sci, ref, psub, ctcal(xs, ys, cube), {"mode": "RDI", "annuli": 1, "subsections": 1, "movement": 1, "numbasis": c["kl"], "outdir": rec.dir}, inject_snr=c["snr"] * 20, seps=np.array(c["seps"]), pas=np.array(c["pas"]), cand_locs=cand, num_processes=1)
    for b, v, t in zip(s0, (sci, ref, psub), ("the science frames", "the reference frames", "the subtracted image")):
        same(b, snap(v), t)
    require(out.shape == (1 + len(c["kl"]), len(c["seps"]), 2), "shape {}", out.shape)
    eq(out[0, :, 0], np.array(c["seps"]), "separations"); eq(out[0, :, 1], np.array(c["seps"]), "separations")
    require(np.all(np.abs(out[1:, :, 0] - 1) < 0.1), "throughput {} of a subtraction that removes nothing", out[1:, :, 0])
    # averaging frames after rotation widens the PSF a little
    require(np.all(np.abs(out[1:, :, 1] / c["fw"] - 1) < 0.1), "FWHM {} of PSFs of FWHM {}", out[1:, :, 1], c["fw"])


@PROP.sub("throughput_sep", st.fixed_dictionaries({"s": seeds, "n": st.integers(62, 70), "seps": st.sampled_from([[7.0, 17.0], [17.0, 7.0]]), "w": st.floats(0.4, 0.7)}), 16, 160, shards=2)
def throughput_sep(c, rec):
    """a subtraction that removes flux at one separation shows it there"""
    rec.nt()
    r = rng(c["s"]); n = c["n"]
    e = {"STARLOCX": n // 2, "STARLOCY": n // 2, "CFAMNAME": "1F", "PLTSCALE": 21.8, "FSMPRFL": "NFOV", "LSAMNAME": "NFOV", "FPAMNAME": "HLC12_C2R1"}
    mk = lambda d, i, ref: img(d, err=np.ones((n, n)), level="L3", pri={"ROLL": 0.0, "TELESCOP": "ROMAN", "INSTRUME": "CGI", "PSFREF": ref}, ext=e, filename=fname(i, "L3"))
    xs, ys = [v.ravel() + n // 2 + 0.5 for v in np.meshgrid(np.arange(-20., 21, 5), np.arange(-20., 21, 5))]
    cube = np.array([gauss((21, 21), 10, 10, 1, 3.0) for k in range(len(xs))])
    cal = ctcal(xs, ys, cube)
    # the reference holds companions at the inner separation
    d = r.normal(0, 0.01, (n, n)); f = mk(d, 5, 1)
    pas = [0.0, 120.0, 240.0]
    inner = min(c["seps"]); k = c["seps"].index(inner); off = k * 360. / len(pas) / 3
    for pa in pas:
        f = K.inject_psf(f, cal, 100.0, inner, pa + off)[0]
    res = r.normal(0, 1, (1, n, n))
    psub = dset([img(res, "L4", err=np.ones(res.shape), ext={"STARLOCX": n // 2, "STARLOCY": n // 2}, filename=fname(9, "L4"))])
    out = q(K.meas_klip_thrupt, dset([mk(r.normal(0, 0.01, (n, n)), 1, 0)]), dset([f]), psub, cal, {"mode": "RDI", "annuli": 1, "subsections": 1, "movement": 1, "numbasis": [1], "outdir": rec.dir}, inject_snr=30, seps=np.array(c["seps"]), pas=np.array(pas), cand_locs=[], num_processes=1)
    t = out[1, :, 0]
    require(t[k] < 0.4 and abs(t[1 - k] - 1) < 0.2, "throughput {} at separations {} although only companions at {} are removed", t, c["seps"], inner)


@st.composite
def fcase(draw):
    n = draw(st.integers(1, 3))
    return {"s": draw(seeds), "n": n, "nk": draw(st.integers(1, 3)), "h": draw(st.integers(40, 52)), "w": draw(st.integers(40, 52)), "req": draw(st.one_of(st.none(), st.lists(st.floats(5, 18), min_size=1, max_size=4))), "hw": draw(st.one_of(st.none(), st.floats(0.7, 3))),
            "loc": draw(st.sampled_from([None, None, "int", "float"])), "fw": [draw(st.floats(3, 6)) for _ in range(n)], "amp": [draw(st.floats(10, 1e6)) for _ in range(n)], "star": [(draw(st.floats(12, 27)), draw(st.floats(12, 27))) for _ in range(n)], "sq": draw(st.sampled_from([(40, 40), (41, 46), (44, 39)])), "flag": draw(st.booleans()), "tr": draw(st.floats(1e-3, 1))}


@PROP.sub("curve", fcase(), 80, 800, shards=3)
def curve(c, rec):
    """flux ratio noise = noise as a Gaussian of the recovered width over the star's flux, corrected for both throughputs, frame by frame"""
    rec.nt(); rec.label("default" if c["req"] is None else "requested"); rec.label("%d frames" % c["n"])
    r = rng(c["s"]); fr, stars = [], []
    for i in range(c["n"]):
        d = r.normal(0, 1, (c["nk"], c["h"], c["w"])) * r.uniform(0.1, 5, (c["nk"], 1, 1))
        x0, y0 = c["w"] / 2 + r.uniform(-1, 1), c["h"] / 2 + r.uniform(-1, 1)
        f = img(d, "L4", err=np.ones(d.shape), ext={"STARLOCX": x0, "STARLOCY": y0, "PLTSCALE": float(r.uniform(15, 25))}, filename=fname(i, "L4"))
        a, b = r.uniform(4, 6), r.uniform(3, 5)
        ks = a + np.cumsum(r.uniform(2.2, 5, r.integers(2, 5))); cs = b + np.cumsum(r.uniform(2.2, 5, r.integers(2, 6)))
        kt = np.zeros((1 + c["nk"], len(ks), 2)); kt[0] = ks[:, None]; kt[1:, :, 0] = r.uniform(0.3, 1, kt.shape[:2])[1:]; kt[1:, :, 1] = r.uniform(2, 4, kt.shape[:2])[1:]
        ctt = np.array([cs, r.uniform(0.05, 0.5, len(cs))])
        f.add_extension_hdu("KL_THRU", data=kt); f.add_extension_hdu("CT_THRU", data=ctt)
        fr.append(f)
        s = gauss(c["sq"], c["star"][i][0], c["star"][i][1], c["amp"][i], c["fw"][i])
        dq = np.zeros(c["sq"], np.uint16)
        if c["flag"]:                                # a bright flagged pixel far from the star
            dq[0, 1] = 8; s[0, 1] = np.nan if (c["s"] + i) % 2 else -0.3 * c["amp"][i]
        stars.append(img(s, "L4", err=np.ones(c["sq"]), dq=dq, filename=fname(10 + i, "L4")))
    g = np.array([[c["tr"], x, y] for x in (-1., 60.) for y in (-1., 60.)])
    nd = data.NDFilterSweetSpotDataset(g, pri_hdr=hdrs("CAL")[0], ext_hdr=hdrs("CAL")[1], input_dataset=dset(stars))
    ds, sd = dset(fr), dset(stars)
    ext0 = [[np.array(f.hdu_list[k].data) for k in ("KL_THRU", "CT_THRU")] for f in ds]
    s0 = [snap(v) for v in (ds, sd, nd)]
    kw = {}
    if c["req"] is not None:
        kw["requested_separations"] = np.array(c["req"])
    if c["hw"] is not None:
        kw["halfwidth"] = c["hw"]
    if c["loc"]:
        p = np.array(c["star"]).T
        kw["unocculted_star_loc"] = np.round(p).astype(int) if c["loc"] == "int" else p
    out = q(T.compute_flux_ratio_noise, ds, nd, sd, **kw)
    for b, v, t in zip(s0, (ds, sd, nd), ("the input dataset", "the star images", "the ND calibration")):
        same(b, snap(v), t)
    require(len(out) == c["n"], "{} frames", len(out))

    def lin(x, y, v):                                # piecewise linear, extended beyond the ends
        v = np.atleast_1d(v); k = np.clip(np.searchsorted(x, v) - 1, 0, len(x) - 2)
        return y[k] + (y[k + 1] - y[k]) * (v - x[k]) / (x[k + 1] - x[k])
    for i, (f, o) in enumerate(zip(ds, out)):
        kt, ctt = [f.hdu_list[k].data for k in ("KL_THRU", "CT_THRU")]
        eq(kt, ext0[i][0], "throughput table of the input"); eq(ctt, ext0[i][1], "throughput table of the input")
        eq(o.hdu_list["KL_THRU"].data, kt); eq(o.hdu_list["CT_THRU"].data, ctt); eq(o.data, f.data, "image")
        ks, cs = kt[0, :, 0], ctt[0]
        seps = ks if c["req"] is None else np.array(c["req"])
        hw = c["hw"] if c["hw"] is not None else min(np.diff(ks).min(), np.diff(cs).min()) / 2
        Y, X = np.indices(f.data.shape[1:]); R = np.hypot(X - f.ext_hdr["STARLOCX"], Y - f.ext_hdr["STARLOCY"])
        Fs = c["tr"] * c["amp"][i] * np.pi * c["fw"][i] ** 2 / 4 / np.log(2)
        got = o.hdu_list["FRN_CRV"].data
        require(got.shape == (2 + c["nk"], len(seps)), "shape {} for {} separations and {} planes", got.shape, len(seps), c["nk"])
        close(got[0], seps, 1e-9, 0, "separations of frame %d" % i); close(got[1], seps * f.ext_hdr["PLTSCALE"], 1e-9, 0, "separations in mas of frame %d" % i)
        for k in range(c["nk"]):
            nz = np.array([f.data[k][np.abs(R - s) < hw].std() for s in seps])
            want = np.pi * nz * lin(ks, kt[1 + k, :, 1], seps) ** 2 / 4 / np.log(2) / Fs / lin(ks, kt[1 + k, :, 0], seps) / lin(cs, ctt[1], seps)
            close(got[2 + k], want, 0.03, 0, "flux ratio noise of frame %d, plane %d" % (i, k))
        require(o.hdu_list["FRN_CRV"].header["BUNIT"] == "Fp/Fs" and any("FRN_CRV" in x for x in hist(o)), "unit or history")
    if c["n"] > 1:
        rejects(lambda: q(T.compute_flux_ratio_noise, ds, nd, dset(stars[:1]), **kw), ValueError, "one star for several frames")
    rejects(lambda: q(T.compute_flux_ratio_noise, ds, nd, sd, halfwidth=-1.0), ValueError, "a negative half-width")


@PROP.known("C38-nd-density")
def known_nd(rec):
    """the filter's optical density is used as if it were its transmission"""
    f = img(rng(1).normal(0, 1, (1, 40, 40)), "L4", err=np.ones((1, 40, 40)), ext={"STARLOCX": 20., "STARLOCY": 20., "PLTSCALE": 21.8}, filename=fname(1, "L4"))
    kt = np.ones((2, 2, 2)); kt[0] = [[6, 6], [12, 12]]; kt[1, :, 1] = 3
    f.add_extension_hdu("KL_THRU", data=kt); f.add_extension_hdu("CT_THRU", data=np.array([[5., 14.], [1., 1.]]))
    g = np.array([[2.25, x, y] for x in (-1., 60.) for y in (-1., 60.)])
    nd = data.NDFilterSweetSpotDataset(g, pri_hdr=hdrs("CAL")[0], ext_hdr=hdrs("CAL")[1], input_dataset=dset([f]))
    star = img(gauss((41, 41), 20, 20, 1e4 * 10 ** -2.25, 4.0), "L4", err=np.ones((41, 41)), filename=fname(2, "L4"))
    got = q(T.compute_flux_ratio_noise, dset([f]), nd, dset([star]), halfwidth=2.0)[0].hdu_list["FRN_CRV"].data[2]
    Y, X = np.indices((40, 40)); R = np.hypot(X - 20, Y - 20)
    want = np.array([f.data[0][np.abs(R - s) < 2].std() for s in (6, 12)]) * 9 / 16 / 1e4
    close(got, want, 0.05, 0, "flux ratio noise behind an ND filter of density 2.25")



@PROP.sub("extensions", st.fixed_dictionaries({"s": seeds, "scn": st.sampled_from(["RDI", "ADI", "ADI+RDI"]), "n": st.integers(62, 68), "kl": st.sampled_from([[1], 1, [1, 2]]), "seps": st.one_of(st.none(), st.sampled_from([[8.0, 16.0], [11.0]])), "pas": st.one_of(st.none(), st.sampled_from([[0.0, 180.0], [40.0, 160.0, 280.0]])),
                                               "kt": st.booleans(), "ct": st.booleans(), "crop": st.sampled_from([None, 48, [52, 50]]), "cx": st.sampled_from([0.5, -0.5]), "cy": st.sampled_from([0.5, 1.5]), "snr": st.sampled_from([20.0, 50.0]), "cand": st.booleans(), "det": st.booleans(), "pre": st.sampled_from(["", "p_"])}), 40, 400, shards=5)
def extensions(c, rec):
    """the subtraction step attaches the throughputs that its own settings give: the same functions called by hand on the same frames"""
    from corgidrp.l3_to_l4 import do_psf_subtraction, crop, nan_flags
    from corgidrp.corethroughput import get_1d_ct
    r = rng(c["s"]); n = c["n"]
    ns, nr = {"RDI": (1, 2), "ADI": (2, 0), "ADI+RDI": (2, 2)}[c["scn"]]
    fr = []
    for i in range(ns + nr):
        ext = {"STARLOCX": n // 2 + c["cx"], "STARLOCY": n // 2 + c["cy"], "CFAMNAME": "1F", "PLTSCALE": 21.8, "FSMPRFL": "NFOV", "LSAMNAME": "NFOV", "FPAMNAME": "HLC12_C2R1"}
        if c["det"]: ext.update(DETPIX0X=7, DETPIX0Y=3)
        fr.append(img(r.normal(0, 1, (n, n)), err=np.ones((n, n)), dq=np.where(r.random((n, n)) < 0.002, 4, 0), level="L3", pri={"ROLL": 15.0 + 40 * i if i < ns else 0.0, "TELESCOP": "ROMAN", "INSTRUME": "CGI", "PSFREF": int(i >= ns)}, ext=ext, filename=fname(i, "L3")))
    sci, ref = data.Dataset(fr[:ns]), data.Dataset(fr[ns:]) if nr else None
    o = (7, 3) if c["det"] else (0, 0)
    xs, ys = [v.ravel() + n / 2.0 for v in np.meshgrid(np.arange(-20., 21, 5), np.arange(-20., 21, 5))]
    vals = 0.2 + 0.5 * r.random(len(xs))
    cube = np.array([gauss((15, 15), 7, 7, 1, 3.0) for _ in xs])
    cal = lambda: ctcal(xs + o[0], ys + o[1], cube, vals)
    cand = [(8.0, 20.0)] if c["cand"] else []
    seps, pas = [None if v is None else np.array(v) for v in (c["seps"], c["pas"])]
    kw = dict(numbasis=c["kl"], outdir=os.path.join(rec.dir, "a"), do_crop=c["crop"] is not None, crop_sizexy=c["crop"], num_processes=1, fileprefix=c["pre"], cand_locs=list(cand), kt_seps=seps, kt_pas=pas, kt_snr=c["snr"])
    cal0 = cal(); s0 = [snap(v) for v in (sci, ref, cal0) if v is not None]
    need = c["kt"] or c["ct"]
    out = q(do_psf_subtraction, sci, cal0 if need else None, ref, measure_klip_thrupt=c["kt"], measure_1d_core_thrupt=c["ct"], **kw)
    for a, v in zip(s0, [v for v in (sci, ref, cal0) if v is not None]): same(a, snap(v), "an input")
    if need: rejects(lambda: q(do_psf_subtraction, sci, None, ref, measure_klip_thrupt=c["kt"], measure_1d_core_thrupt=c["ct"], **kw), Exception, "throughputs without a calibration")
    f = out[0]
    names = [h.name for h in f.hdu_list]
    require(("KL_THRU" in names) == c["kt"] and ("CT_THRU" in names) == c["ct"], "extensions {} for throughput {} and core throughput {}", names, c["kt"], c["ct"])
    mode = f.pri_hdr["KLIP_ALG"]; kl = [c["kl"]] if isinstance(c["kl"], int) else c["kl"]
    sm, rm = [None if v is None else nan_flags(v if c["crop"] is None else crop(v, sizexy=c["crop"])) for v in (sci, ref)]
    if c["kt"]:
        os.makedirs(os.path.join(rec.dir, "b", mode))
        got = f.hdu_list["KL_THRU"].data
        want = q(K.meas_klip_thrupt, sm, rm, out, cal(), {"mode": mode, "annuli": 1, "subsections": 1, "movement": 1, "numbasis": kl, "outdir": os.path.join(rec.dir, "b", mode), "fileprefix": c["pre"]}, inject_snr=c["snr"], seps=seps, pas=pas, cand_locs=list(cand), num_processes=1)
        require(got.shape == want.shape and got.shape[0] == 1 + len(kl), "shape {} of the throughputs, by hand {}", got.shape, want.shape)
        if seps is not None: eq(got[0, :, 0], seps, "separations of the throughputs")
        else: require(abs(got[0, 0, 0] * 21.8 - 140) < 1e-6 and np.all(got[0, :, 0] * 21.8 < 450) and np.all(np.diff(got[0, :, 0]) > 0), "default separations {}", got[0, :, 0])
        close(got[:2], want[:2], 1e-3, 1e-3, "throughputs, attached and by hand")
    if c["ct"]:
        got = f.hdu_list["CT_THRU"].data
        sp = f.hdu_list["KL_THRU"].data[0, :, 0] if c["kt"] else np.array([5., 10, 15, 20, 25, 30, 35])
        require(got.shape == (2, len(sp)), "shape {} of the core throughputs", got.shape)
        close(got[0], sp, 1e-12, 0, "separations of the core throughputs")
        eq(got, get_1d_ct(cal(), sm[0], sp), "core throughputs, attached and by hand")
        # the measurement nearest to that separation from the star of the original frame
        dist = np.hypot(xs + o[0] - (n // 2 + c["cx"] + 0.5 + o[0]), ys + o[1] - (n // 2 + c["cy"] + 0.5 + o[1]))
        for s_, v in zip(sp, got[1]):
            g = np.abs(dist - s_)
            require(np.any(np.abs(vals[g <= g.min() + 1e-9] - v) < 1e-12), "core throughput {} at separation {}", v, s_)
    h = "".join(hist(f)).replace(" ", "")
    require(("KL_THRU" in h) == c["kt"] and ("CT_THRU" in h) == c["ct"], "history {}", h)
    rec.nt(need); rec.label(c["scn"] + (" kt" if c["kt"] else "") + (" ct" if c["ct"] else ""))
