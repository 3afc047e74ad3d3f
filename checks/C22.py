"""C22: exposure-time normalisation, WCS creation, distortion correction."""
from vf.common import *
from vf.core import Prop, require
from vf.products import inputs
from corgidrp.l2b_to_l3 import divide_by_exptime, create_wcs
from corgidrp.l3_to_l4 import distortion_correction
import astropy.wcs
import corgidrp

PROP = Prop("C22", "Random datasets with per-frame exposure times and error layers; random pointings, roll angles, plate scales, north angles and offsets with WCS keywords checked against formulas and against astropy's pixel-to-sky "
            "transform (separation and position angle of pixel offsets); random Legendre distortions (orders 1-3, with cross terms) of smooth scenes. Non-trivial: frames with different exposure times / non-zero roll / non-zero distortion.")


@PROP.sub("exptime", st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 4), "shape": small_shape, "track": st.booleans(), "layers": st.integers(1, 3), "exp": st.lists(st.sampled_from([0.01, 0.5, 1, 2.5, 60.0, 3600]), min_size=4, max_size=4), "f4": st.booleans()}), 250, 4000)
def exptime(c, rec):
    corgidrp.track_individual_errors = c["track"]
    nl = c["layers"] if c["track"] else 1
    fr = []
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        eh = fits.Header()
        for k in range(nl): eh["Layer_%d" % (k + 1)] = "t%d" % k
        f = img((r.normal(size=c["shape"]) * 100).astype("f4" if c["f4"] else "f8"), err=np.abs(r.normal(size=[nl] + c["shape"])), dq=dq_array(c["s"] + i, tuple(c["shape"])), ext={"EXPTIME": c["exp"][i], "BUNIT": "photoelectrons"}, filename=fname(i), err_hdr=eh)
        f.ext_hdr["HISTORY"] = "before"
        fr.append(f)
    ds = data.Dataset(fr)
    s0 = snap(ds)
    out = divide_by_exptime(ds)
    same(s0, snap(ds), "the input")
    t = 1e-5 if c["f4"] else 1e-12
    for i, f in enumerate(out):
        close(f.data, ds[i].data.astype(float) / c["exp"][i], t, 1e-12, "data of frame %d" % i)
        close(f.err, ds[i].err / c["exp"][i], 1e-12, 1e-15, "uncertainties of frame %d" % i)
        eq(f.dq, ds[i].dq, "flags"); eq(f.data, out.all_data[i], "cube"); eq(f.err, out.all_err[i], "cube")
        require(f.ext_hdr["BUNIT"] == "photoelectrons/s", "BUNIT {}", f.ext_hdr["BUNIT"])
        require(f.ext_hdr["EXPTIME"] == c["exp"][i] and f.filename == fname(i), "headers of frame {}", i)
        require("before" in hist(f) and len(hist(f)) > 1, "history {}", hist(f))
    rec.nt(len(set(c["exp"][:c["n"]])) > 1)


ang = st.one_of(st.sampled_from([0.0, 90.0, 180.0, -45.0, 359.0]), st.floats(-360, 360, allow_nan=False))


def astrom(vals, coeffs):
    p, h = hdrs("L2b")
    return data.AstrometricCalibration(np.concatenate([np.array(vals, dtype=float), np.array(coeffs, dtype=float)]), pri_hdr=p, ext_hdr=h, input_dataset=inputs(1, (2, 2)))


def ident(o):
    x = np.zeros((o + 1, o + 1)); y = np.zeros((o + 1, o + 1))
    x[1, 0] = 500; y[0, 1] = 500
    return x, y


def coefs(x, y):
    return np.concatenate([x.ravel(), y.ravel(), [x.shape[0] - 1]])


@PROP.sub("wcs", st.fixed_dictionaries({"n": st.integers(1, 4), "shape": st.tuples(st.integers(3, 40), st.integers(3, 40)).map(list), "rolls": st.lists(ang, min_size=4, max_size=4), "north": ang, "ps": st.floats(5, 60), "ratio": st.sampled_from([1.0, 1.0, 1.1]),
                                        "off": st.tuples(st.floats(-0.01, 0.01), st.floats(-0.01, 0.01)), "ra": st.one_of(st.floats(0, 359.5), st.sampled_from([0.0, 0.004, 359.95, 359.996, 359.5])), "dec": st.floats(-88, 88), "s": seeds}), 250, 4000)
def wcs(c, rec):
    fr = []
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        fr.append(img(r.normal(size=c["shape"]), err=np.abs(r.normal(size=c["shape"])), dq=dq_array(c["s"] + i, tuple(c["shape"])), level="L2b", pri={"RA": (c["ra"] + 0.1 * i) % 360, "DEC": c["dec"] + 0.2 * i, "ROLL": c["rolls"][i]}, filename=fname(i)))
        fr[-1].ext_hdr["HISTORY"] = "before"
    ds = data.Dataset(fr)
    px, py = c["ps"], c["ps"] * c["ratio"]
    cal = astrom([c["ra"], c["dec"], px, py, c["north"], *c["off"]], coefs(*ident(3)))
    s0, c0 = snap(ds), snap(cal)
    out = create_wcs(ds, cal)
    same(s0, snap(ds), "the input"); same(c0, snap(cal), "the calibration")
    ny, nx = c["shape"]
    for i, f in enumerate(out):
        h = f.ext_hdr
        eq(f.data, ds[i].data, "pixels"); eq(f.err, ds[i].err, "errors"); eq(f.dq, ds[i].dq, "flags")
        require(h["CRPIX1"] == (nx - 1) // 2 and h["CRPIX2"] == (ny - 1) // 2, "reference pixel {} {} for shape {}", h["CRPIX1"], h["CRPIX2"], c["shape"])
        d = (h["CRVAL1"] - (c["ra"] + 0.1 * i - c["off"][0]) + 180) % 360 - 180   # RA is an angle
        close([d, h["CRVAL2"]], [0, c["dec"] + 0.2 * i - c["off"][1]], 0, 1e-9, "reference position")
        require(h["CTYPE1"] == "RA---TAN" and h["CTYPE2"] == "DEC--TAN", "CTYPE")
        close([h["CDELT1"], h["CDELT2"], h["PLTSCALE"]], [px / 3.6e6, py / 3.6e6, (px + py) / 2], 1e-10, 0, "plate-scale keywords")
        t = np.radians(c["north"] + c["rolls"][i])
        cd = np.array([[h["CD1_1"], h["CD1_2"]], [h["CD2_1"], h["CD2_2"]]])
        close(np.linalg.det(cd) * 3.6e6 ** 2, -px * py, 1e-9, 0, "pixel area")
        if c["ratio"] == 1:
            close(cd * 3.6e6, px * np.array([[-np.cos(t), np.sin(t)], [np.sin(t), np.cos(t)]]), 1e-9, 1e-9 * px, "CD matrix of frame %d" % i)
            w = astropy.wcs.WCS(h, naxis=2)
            c0_ = w.pixel_to_world(h["CRPIX1"] - 1, h["CRPIX2"] - 1)     # CRPIX is 1-based for astropy
            q = w.pixel_to_world(h["CRPIX1"] - 1, h["CRPIX2"] - 1 + 1)   # one pixel up
            sep = c0_.separation(q).mas; pa = c0_.position_angle(q).deg
            close(sep, px, 1e-4, 0, "sky size of one pixel")
            d = (pa - np.degrees(t) + 180) % 360 - 180
            require(abs(d) < 0.01, "up on the detector is at position angle {}, expected north angle + roll = {}", pa, np.degrees(t) % 360)
        require("before" in hist(f) and len(hist(f)) > 1, "history {}", hist(f))
        require(f.pri_hdr["ROLL"] == c["rolls"][i] and f.filename == fname(i), "headers or order")
    rec.nt(any(x % 360 for x in c["rolls"][:c["n"]]))


cf = st.floats(-1, 1)


dcase = lambda none: st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 2), "order": st.integers(1, 3), "size": st.sampled_from([32, 41, 50]), "cx": st.lists(cf, min_size=16, max_size=16), "cy": st.lists(cf, min_size=16, max_size=16), "rect": st.booleans(), "none": st.just(none)})


@PROP.sub("distortion", [dcase(True), dcase(False)], 120, 1600, shards=2)
def distortion(c, rec):
    o, N = c["order"], c["size"]
    x, y = ident(o)
    shp = (N, N)
    if not c["none"]:
        # coefficient scales that give up to about two pixels of distortion over the image
        sc = {0: 2.0, 1: 20.0, 2: 150.0, 3: 1500.0, 4: 1.5e4, 5: 1.5e5, 6: 1.5e6}
        for a in range(o + 1):
            for b in range(o + 1):
                if a + b <= 3 or c["s"] % 2:
                    x[a, b] += c["cx"][4 * a + b] * sc[a + b] / 2; y[a, b] += c["cy"][4 * a + b] * sc[a + b] / 2
    elif c["rect"]:
        shp = (N, N - 7) if c["s"] % 2 else (N - 7, N)
    rec.label("none" if c["none"] else "order %d" % o)
    yy, xx = np.indices(shp).astype(float)
    fr, g = [], []
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        src = [(r.random() * (shp[1] - 16) + 8, r.random() * (shp[0] - 16) + 8, 50 + 50 * r.random(), 2.5 + r.random()) for _ in range(3)]
        g.append(lambda X, Y, src=src: sum(a * np.exp(-((X - u) ** 2 + (Y - v) ** 2) / 2 / s ** 2) for u, v, a, s in src))
        fr.append(img(g[-1](xx, yy), level="L3", err=np.abs(r.normal(size=shp)), dq=dq_array(c["s"] + i, shp), filename=fname(i)))
        fr[-1].ext_hdr["HISTORY"] = "before"
    ds = data.Dataset(fr)
    cal = astrom([0, 0, 21.8, 21.8, 0, 0, 0], coefs(x, y))
    s0, c0 = snap(ds), snap(cal)
    out = distortion_correction(ds, cal)
    same(s0, snap(ds), "the input"); same(c0, snap(cal), "the calibration")
    for i, f in enumerate(out):
        eq(f.err, ds[i].err, "uncertainty"); eq(f.dq, ds[i].dq, "flags"); eq(f.data, out.all_data[i], "cube")
        require("before" in hist(f) and len(hist(f)) > 1, "history {}", hist(f))
        if c["none"]:
            close(f.data, ds[i].data, 1e-7, 1e-6, "frame %d corrected with no distortion" % i)
            continue
        # corrected position of a detector position: Legendre polynomials about the image centre, coefficients in units of 500 pixels
        L = lambda n, t: {0: np.ones_like(t), 1: t, 2: (3 * t * t - 1) / 2, 3: (5 * t ** 3 - 3 * t) / 2}[n]
        u, v = xx - N // 2, yy - N // 2
        corr = lambda k: sum(k[a, b] / 500 ** (a + b) * L(a, u) * L(b, v) for a in range(o + 1) for b in range(o + 1))
        dx, dy = corr(x) - u, corr(y) - v
        sx, sy = xx - dx, yy - dy
        inside = (sx > 5) & (sx < N - 6) & (sy > 5) & (sy < N - 6)
        want = g[i](sx, sy)
        close(np.where(inside, f.data, 0), np.where(inside, want, 0), 0.01, 0.3, "corrected frame %d" % i)
    rec.nt(not c["none"])


@PROP.sub("nan", st.fixed_dictionaries({"s": seeds, "n": st.integers(16, 40), "k": st.integers(1, 4)}), 30, 300)
def nan(c, rec):
    r = rng(c["s"])
    d = r.normal(size=(c["n"], c["n"]))
    bad = np.zeros(d.shape, bool)
    for _ in range(c["k"]): bad[r.integers(0, c["n"]), r.integers(0, c["n"])] = True
    d[bad] = np.nan
    out = distortion_correction(data.Dataset([img(d, level="L3")]), astrom([0, 0, 21.8, 21.8, 0, 0, 0], coefs(*ident(3))))
    n = int(np.isnan(out.all_data[0]).sum())
    require(n <= 9 * c["k"], "{} NaN pixels turned {} of {} pixels into NaN although there is no distortion", c["k"], n, d.size)
    rec.nt(True)
