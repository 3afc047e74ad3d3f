"""C33: astrometric calibration: centroids, star finding and matching, plate scale, north angle, boresight, distortion."""
from vf.common import *
from vf.core import Prop, require
import itertools, warnings
from astropy.table import Table
from astropy.wcs import WCS
from astropy.coordinates import SkyCoord
from corgidrp import astrom as A

PROP = Prop("C33", "Synthetic star fields: 6-14 isolated Gaussian stars at random subpixel positions, pixel-to-sky transform (tangent plane) with any orientation, scale 15-30 mas/pixel, declination and pointing error. Plate scale, north angle, boresight offset, star identification (RA/Dec of every found star), the whole calibration with "
            "dithers, frame combination and user-given matches against the values used to make the images; centroids under shifts, scaling and a random image reference; pair offsets; combinations; angles; distortion cost zero at the true coefficients and recovered coefficients. Non-trivial: every generated field.")


def cdm(ps, th):
    t = np.radians(th)
    return np.array([[-np.cos(t), np.sin(t)], [np.sin(t), np.cos(t)]]) * ps * 1e-3 / 3600


def wcs(ps, th, pos, n):
    w = WCS(naxis=2)
    n, m = n if isinstance(n, tuple) else (n, n)
    w.wcs.cd = cdm(ps, th); w.wcs.crpix = [n // 2, m // 2]; w.wcs.crval = list(pos); w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    return w


def render(x, y, amp, n, fw=3.0):
    n, ny = n if isinstance(n, tuple) else (n, n)
    im = np.zeros((ny, n)); s = fw / 2.3548; k = 12
    for a, b, c in zip(x, y, amp):
        i, j = int(round(a)), int(round(b))
        y0, y1, x0, x1 = max(0, j - k), min(ny, j + k + 1), max(0, i - k), min(n, i + k + 1)
        if y1 <= y0 or x1 <= x0:
            continue
        yy, xx = np.mgrid[y0:y1, x0:x1]
        im[y0:y1, x0:x1] += c * np.exp(-((xx - a) ** 2 + (yy - b) ** 2) / 2 / s ** 2)
    return im


def field(c, n, off=(0., 0.), center=True):
    """image of a random star field and the table of its stars: pixel and sky positions, magnitudes, brightest first"""
    r = rng(c["s"])
    pos = (c["ra"] + off[0], c["dec"] + off[1])
    w = wcs(c["ps"], c["th"], pos, n)
    P = []
    if center:
        P.append(w.wcs_world2pix([[c["ra"], c["dec"]]], 0)[0])
    m = 22
    for _ in range(4000):
        q = r.uniform(m, n - m if np.isscalar(n) else np.array(n) - m, 2)
        if all(np.hypot(*(q - p)) > 24 for p in P):
            P.append(q)
        if len(P) == c["n"] + center:
            break
    P = np.array(P)
    sky = w.wcs_pix2world(P, 0)
    if center:
        sky[0] = c["ra"], c["dec"]
    amp = np.geomspace(4000, 200, len(P))
    if c["bright"] and center:          # the target need not be the brightest star
        o = r.permutation(len(P)); amp = amp[o]
    im = render(P[:, 0], P[:, 1], amp, n)
    if c.get("bad"):        # bad pixels away from the stars
        yy, xx = np.indices(im.shape)
        q = np.argwhere(np.min([np.hypot(xx - a, yy - b) for a, b in P], axis=0) > 7)
        q = q[r.permutation(len(q))[:c["bad"]]]
        im[q[:, 0], q[:, 1]] = np.nan
    o = np.argsort(-amp)
    return im, Table({"x": P[o, 0], "y": P[o, 1], "RA": sky[o, 0], "DEC": sky[o, 1], "VMAG": -2.5 * np.log10(amp[o])}), amp[o]


angle = st.one_of(st.sampled_from([0.0, 45.0, 90.0, -90.0, 180.0, 270.0, -45.0]), st.floats(-180, 360))
base = {"s": seeds, "n": st.integers(6, 10), "ps": st.one_of(st.just(21.8), st.floats(15, 30)), "th": angle, "ra": st.floats(10, 350), "dec": st.one_of(st.just(-69.5), st.floats(-75, 75)), "bright": st.booleans(), "bad": st.sampled_from([0, 0, 30])}


def dang(a, b):
    return (a - b + 180) % 360 - 180


@PROP.sub("orientation", st.fixed_dictionaries(dict(base, rad=st.sampled_from([0.9, 0.9, 1.0]), self_=st.booleans())), 120, 1200, shards=2)
def orientation(c, rec):
    """plate scale and north angle of a field, from its stars"""
    rec.nt()
    n = 200 if c["n"] < 8 else 240
    im, t, _ = field(c, n, center=c["self_"])
    np.random.seed(c["s"] % 2 ** 31)
    s0 = im.copy(); t0 = t.copy()
    ps, th = A.compute_platescale_and_northangle(im, t["x", "y", "RA", "DEC"], (c["ra"], c["dec"]), center_radius=c["rad"])
    eq(im, s0, "the image given"); require((t == t0).all(), "the table given is modified")
    require(abs(ps - c["ps"]) < 2e-3 * c["ps"], "plate scale {}, made with {}", ps, c["ps"])
    require(abs(dang(th, c["th"])) < 0.02, "north angle {}, made with {}", th, c["th"])


@PROP.sub("oblong", st.fixed_dictionaries(dict(base, self_=st.booleans(), d=st.sampled_from([-60, -40, -20, 20, 40, 60]), off=st.one_of(st.none(), st.tuples(st.floats(-9, 9), st.floats(-9, 9))))), 64, 600, shards=2)
def oblong(c, rec):
    """images that are not square: the same relations about their own centre"""
    rec.nt()
    n = (240 + max(0, c["d"]), 240 + max(0, -c["d"]))
    if c["off"] is None:
        im, t, _ = field(c, n, center=c["self_"])
        np.random.seed(c["s"] % 2 ** 31)
        ps, th = A.compute_platescale_and_northangle(im, t["x", "y", "RA", "DEC"], (c["ra"], c["dec"]), center_radius=1.0)
        require(abs(ps - c["ps"]) < 2e-3 * c["ps"], "plate scale {}, made with {}", ps, c["ps"])
        require(abs(dang(th, c["th"])) < 0.02, "north angle {}, made with {}", th, c["th"])
        return
    dra, ddec = cdm(c["ps"], c["th"]) @ np.array(c["off"])
    dra /= np.cos(np.radians(c["dec"]))
    im, t, _ = field(c, n, off=(dra, ddec), center=False)
    if not ((t["x"] > n[0] // 4 + 1) & (t["x"] < n[0] - n[0] // 4 - 1) & (t["y"] > n[1] // 4 + 1) & (t["y"] < n[1] - n[1] // 4 - 1)).any():
        return
    got = A.compute_boresight(im, t["x", "y", "RA", "DEC"], (c["ra"], c["dec"]), (c["ps"], c["th"]))
    cen = SkyCoord(c["ra"] - got[0], c["dec"] - got[1], unit="deg"); true = SkyCoord(c["ra"] + dra, c["dec"] + ddec, unit="deg")
    e = cen.separation(true).mas / c["ps"]
    require(e < 0.03, "image centre {} is {} pixels from the true pointing {}", (c["ra"] - got[0], c["dec"] - got[1]), e, (c["ra"] + dra, c["dec"] + ddec))


@PROP.sub("boresight", st.fixed_dictionaries(dict(base, off=st.tuples(st.floats(-9, 9), st.floats(-9, 9)))), 120, 1200, shards=2)
def boresight(c, rec):
    """pointing error in pixels along the detector axes -> offset on the sky"""
    n = 200
    dra, ddec = cdm(c["ps"], c["th"]) @ np.array(c["off"])
    dra /= np.cos(np.radians(c["dec"]))
    im, t, _ = field(c, n, off=(dra, ddec), center=False)
    inner = (t["x"] > n // 4 + 1) & (t["x"] < n - n // 4 - 1)
    if (inner & (t["y"] > n // 4 + 1) & (t["y"] < n - n // 4 - 1)).sum() < 1:
        return
    rec.nt(np.hypot(*c["off"]) > 0.5)
    s0 = im.copy()
    got = A.compute_boresight(im, t["x", "y", "RA", "DEC"], (c["ra"], c["dec"]), (c["ps"], c["th"]))
    eq(im, s0, "the image given")
    # position of the image centre = target minus the reported offset
    cen = SkyCoord(c["ra"] - got[0], c["dec"] - got[1], unit="deg"); true = SkyCoord(c["ra"] + dra, c["dec"] + ddec, unit="deg")
    e = cen.separation(true).mas / c["ps"]
    require(e < 0.03, "image centre {} is {} pixels from the true pointing {}", (c["ra"] - got[0], c["dec"] - got[1]), e, (c["ra"] + dra, c["dec"] + ddec))


@PROP.sub("find", st.fixed_dictionaries(dict(base, edge=st.integers(0, 3), mask=st.sampled_from([1, 1, 2]), noise=st.sampled_from([0.0, 1.0]))), 120, 1200, shards=2)
def find(c, rec):
    """every star is found, brightest first, at its position"""
    rec.nt()
    n = 200
    im, t, amp = field(c, n)
    x, y, a = list(t["x"]), list(t["y"]), list(amp)
    r = rng(c["s"] + 1)
    for _ in range(c["edge"]):      # stars near an edge
        for _ in range(100):
            q = r.uniform(5, n - 6); e = r.choice([4.0, n - 5.0]); p = (q, e) if r.random() < 0.5 else (e, q)
            if all(np.hypot(p[0] - u, p[1] - v) > 24 for u, v in zip(x, y)):
                x.append(p[0]); y.append(p[1]); a.append(r.uniform(150, 190)); break
    im = render(x, y, a, n) + c["noise"] * r.normal(size=(n, n))
    s0 = im.copy()
    got = A.find_source_locations(im, threshold=len(x), fwhm=7, mask_rad=c["mask"])
    eq(im, s0, "the image given")
    require(len(got) == len(x), "{} stars found, {} planted", len(got), len(x))
    g = np.array([got["x"], got["y"]]); q = np.array([x, y])
    j = np.hypot(g[0][:, None] - q[0], g[1][:, None] - q[1]).argmin(axis=1)
    require(sorted(j) == list(range(len(x))), "stars found {} planted {}", g.T, q.T)
    d = np.hypot(*(g - q[:, j]))
    require(d.max() < (0.15 if c["noise"] else 0.03), "found position off by {} pixels", d.max())
    pk = np.array(a)[j]
    require((pk[1:] < pk[:-1] * 1.35 + 5).all(), "stars are not returned brightest first: {}", pk)


def write(t, path):
    t["RA", "DEC", "VMAG"].write(path, format="ascii.csv", overwrite=True)


def frame(im, c, i=0, **pri):
    I = img(im, "L2b", filename=fname(i))
    I.pri_hdr["RA"], I.pri_hdr["DEC"] = c["ra"], c["dec"]
    for k, v in pri.items(): I.pri_hdr[k] = v
    return I


def skyerr(ra, dec, t, k):
    return np.hypot((np.array(t["RA"])[k] - ra) * np.cos(np.radians(np.array(t["DEC"])[k])), np.array(t["DEC"])[k] - dec) * 3.6e6


@PROP.sub("match", st.fixed_dictionaries(dict(base, extra=st.integers(0, 4), shuffle=st.booleans())), 120, 1000, shards=2)
def match(c, rec):
    """every star of the image is identified with its catalogue entry"""
    n = 240
    im, t, amp = field(c, n)
    # the brightest three must make a well-conditioned triangle
    p = np.array([t["x"][:3], t["y"][:3]]).T
    sd = np.sort([np.hypot(*(p[i] - p[j])) for i, j in ((0, 1), (1, 2), (2, 0))])
    if sd[0] < 30 or sd[1] / sd[0] < 1.08 or sd[2] / sd[1] < 1.08 or sd[2] > 0.96 * (sd[0] + sd[1]):
        return
    rec.nt(); rec.label("target among the three brightest" if np.any((t["RA"][:3] == c["ra"])) else "target fainter")
    r = rng(c["s"] + 4)
    cat = t.copy()
    for _ in range(c["extra"]):     # catalogue stars outside the image, fainter
        cat.add_row([0, 0, c["ra"] + r.choice([-1, 1]) * r.uniform(0.8, 1) * 0.012, c["dec"] + r.uniform(-0.0119, 0.0119), 5.])
    if c["shuffle"]:
        cat = cat[r.permutation(len(cat))]
    path = os.path.join(rec.dir, "field.csv"); write(cat, path)
    rad = 0.012 / np.cos(np.radians(c["dec"]))
    I = frame(im, c)
    src = t["x", "y"]
    got = A.match_sources(I, src, path, comparison_threshold=len(t), rad=rad, platescale_guess=c["ps"] * 1.02, platescale_tol=0.1)
    eq(np.array(got["x"]), np.array(t["x"]), "x of the sources"); eq(np.array(got["y"]), np.array(t["y"]), "y of the sources")
    e = skyerr(np.array(got["RA"]), np.array(got["DEC"]), t, np.arange(len(t))) / c["ps"]
    require(e.max() < 0.1, "star {} at pixel {} is identified with a catalogue star {} pixels away", int(e.argmax()), (t["x"][e.argmax()], t["y"][e.argmax()]), e.max())
    for i in range(len(t)):
        v = [float(q) for q in I.ext_hdr["star%d" % (i + 1)].split(",")]
        require(np.allclose(v, [got[k][i] for k in ("x", "y", "RA", "DEC")], rtol=1e-12, atol=0), "header record of star {}", i + 1)


@PROP.sub("whole", st.fixed_dictionaries(dict(base, n=st.integers(6, 8), nf=st.integers(1, 3), mode=st.sampled_from(["auto", "auto", "tables", "one table", "files", "combine"]), pert=st.floats(0.96, 1.04), track=st.booleans())), 72, 600, shards=6)
def whole(c, rec):
    n = 200
    tabs, frames = [], []
    c = dict(c)
    nf = 2 * c["nf"] if c["mode"] == "combine" else c["nf"]
    rad = 0.012 / np.cos(np.radians(c["dec"]))
    offs, cats = [], []
    r = rng(c["s"] + 11)
    for i in range(nf):
        k = 0 if c["mode"] == "combine" else i
        ci = dict(c, s=c["s"] + 1000 * k, ra=c["ra"] + 0.1 * k)   # separate patches of sky
        o = np.array([0., 0.]) if c["mode"] != "tables" and c["mode"] != "files" else r.uniform(-6, 6, 2)
        dra, ddec = cdm(c["ps"], c["th"]) @ o
        off = (dra / np.cos(np.radians(c["dec"])), ddec)
        im, t, amp = field(ci, n, off=off)
        if c["mode"] == "auto" or c["mode"] == "combine":
            p = np.array([t["x"][:3], t["y"][:3]]).T
            sd = np.sort([np.hypot(*(p[a] - p[b])) for a, b in ((0, 1), (1, 2), (2, 0))])
            if sd[0] < 30 or sd[1] / sd[0] < 1.08 or sd[2] / sd[1] < 1.08 or sd[2] > 0.96 * (sd[0] + sd[1]):
                return
        q = (t["x"] > n // 4 + 1) & (t["x"] < n - n // 4 - 1) & (t["y"] > n // 4 + 1) & (t["y"] < n - n // 4 - 1)
        if not q.any():
            return
        frames.append(frame(im * (1 if c["mode"] != "combine" else [0.5, 1.5][i % 2]), ci, i)); tabs.append(t); offs.append(off); cats.append(ci)
    rec.nt(); rec.label(c["mode"])
    if c["mode"] == "one table":
        frames = [frame(frames[0].data.copy(), cats[0], i) for i in range(nf)]; tabs = [tabs[0]] * nf; offs = [offs[0]] * nf; cats = [cats[0]] * nf
    from astropy.table import vstack
    path = os.path.join(rec.dir, "field.csv")
    write(vstack(tabs[:1] if c["mode"] in ("combine", "one table") else tabs), path)
    ds = data.Dataset(frames)
    kw = dict(field_path=path, find_threshold=len(tabs[0]), comparison_threshold=len(tabs[0]), search_rad=rad, platescale_guess=c["ps"] * c["pert"])
    if c["mode"] == "tables":
        kw["field_matches"] = [t["x", "y", "RA", "DEC"] for t in tabs]
    elif c["mode"] == "one table":
        kw["field_matches"] = [tabs[0]["x", "y", "RA", "DEC"]]
    elif c["mode"] == "files":
        kw["field_matches"] = []
        for i, t in enumerate(tabs):
            p = os.path.join(rec.dir, "m%d.csv" % i); t["x", "y", "RA", "DEC"].write(p, format="ascii.csv"); kw["field_matches"].append(p)
    elif c["mode"] == "combine":
        kw["frames_to_combine"] = 2
    if c["mode"] in ("tables", "one table", "files"):      # the catalogue is not needed when the matches are given
        Table({"RA": [0.0], "DEC": [0.0], "VMAG": [1.0]}).write(path, format="ascii.csv", overwrite=True)
    s0 = snap(ds)
    np.random.seed(c["s"] % 2 ** 31)
    cal = A.boresight_calibration(ds, **kw)
    s1 = snap(ds)
    for a, b in zip(s0["frames"], s1["frames"]) if "frames" in s0 else []:
        eq(a["data"], b["data"], "data of the input")
    require([f.ext_hdr.get("DATATYPE") for f in ds] == [f.ext_hdr.get("DATATYPE") for f in frames] and all(f.ext_hdr.get("DATATYPE") != "AstrometricCalibration" and f.ext_hdr["DATALVL"] != "CAL" for f in ds), "the input headers became those of a calibration: {}", [f.ext_hdr.get("DATATYPE") for f in ds])
    require(abs(cal.platescale[0] - c["ps"]) < 3e-3 * c["ps"] and cal.platescale[0] == cal.platescale[1], "plate scale {}, made with {}", cal.platescale, c["ps"])
    # stars other than the target are used about the assumed centre: a pointing error tilts each angle a little
    tol = 0.05 if not np.any(offs) else 8.0
    require(abs(dang(float(cal.northangle), c["th"])) < tol, "north angle {}, made with {}", cal.northangle, c["th"])
    if not np.any(offs):
        want = (c["ra"], c["dec"])
        e = SkyCoord(cal.boresight[0], cal.boresight[1], unit="deg").separation(SkyCoord(*want, unit="deg")).mas / c["ps"]
        require(e < 0.15, "pointing {} is {} pixels from {}", cal.boresight, e, want)
    else:
        # the reported offsets are those computed frame by frame with the frame's own scale and angle
        exp = []
        for f, t, ci in zip(ds, tabs, cats):
            np.random.seed(c["s"] % 2 ** 31)
            p = A.compute_platescale_and_northangle(f.data, t["x", "y", "RA", "DEC"], (ci["ra"], ci["dec"]))
            exp.append(A.compute_boresight(f.data, t["x", "y", "RA", "DEC"], (ci["ra"], ci["dec"]), tuple(p)))
        close(cal.avg_offset, np.mean(exp, axis=0), 0, 2e-3 * c["ps"] / 3.6e6 * 30, "average pointing offset")
        close(cal.boresight, np.array([cats[0]["ra"], cats[0]["dec"]]) - exp[0], 0, 2e-3 * c["ps"] / 3.6e6 * 30, "corrected pointing of the first frame")
    o = int(cal.distortion_coeffs[-1])
    require(o == 3 and len(cal.distortion_coeffs) == 33, "distortion coefficients {}", cal.distortion_coeffs)
    xx, yy = np.meshgrid([-300., 0, 40, 500], [-500., 10, 250])
    T = 500. ** (np.arange(4)[:, None] + np.arange(4)[None, :])
    k = cal.distortion_coeffs[:-1]
    close(np.polynomial.legendre.legval2d(xx, yy, k[:16].reshape(4, 4) / T), xx, 1e-12, 1e-9, "default distortion, x")
    close(np.polynomial.legendre.legval2d(xx, yy, k[16:].reshape(4, 4) / T), yy, 1e-12, 1e-9, "default distortion, y")
    p = os.path.join(rec.dir, "a_AST_CAL.fits"); cal.save(rec.dir, "a_AST_CAL.fits")
    eq(data.AstrometricCalibration(p).data, cal.data, "saved calibration")


@PROP.sub("centroid", st.fixed_dictionaries({"s": seeds, "shape": st.tuples(st.integers(1, 30), st.integers(1, 30)).map(list), "k": st.floats(1e-3, 1e4), "roi": st.integers(1, 8), "guess": st.one_of(st.none(), st.tuples(st.floats(0, 29), st.floats(0, 29))), "neg": st.booleans(), "nan": st.integers(0, 5)}), 200, 4000)
def centroid(c, rec):
    rec.nt()
    r = rng(c["s"])
    a = np.abs(r.normal(size=c["shape"])) + 0.1
    ny, nx = c["shape"]
    if a.size > 20 * c["nan"] > 0:      # bad pixels don't contribute, wherever they are
        g, R = c["guess"], c["roi"]
        if g is not None:
            g = (min(g[0], nx - 1), min(g[1], ny - 1))
        b = a.copy(); b[r.integers(0, ny, c["nan"]), r.integers(0, nx, c["nan"])] = np.nan
        z = np.nan_to_num(b)
        py, px = np.unravel_index(z.argmax(), a.shape) if g is None else (int(round(g[1])), int(round(g[0])))
        yy, xx = np.mgrid[:ny, :nx]
        m = (np.abs(yy - py) <= R) & (np.abs(xx - px) <= R)
        if z[m].sum() > 0:
            gx, gy = A.centroid_with_roi(b, roi_radius=R, centering_initial_guess=g)
            require(abs(gx - (xx * z)[m].sum() / z[m].sum()) < 1e-9 and abs(gy - (yy * z)[m].sum() / z[m].sum()) < 1e-9, "centroid with bad pixels {}", (gx, gy))
    s0 = a.copy()
    x, y = A.centroid(a)
    require(abs(x - (a.sum(axis=0) @ np.arange(nx)) / a.sum()) < 1e-9 and abs(y - (a.sum(axis=1) @ np.arange(ny)) / a.sum()) < 1e-9, "centroid {}", (x, y))
    x2, y2 = A.centroid(a * c["k"]); require(abs(x2 - x) < 1e-9 and abs(y2 - y) < 1e-9, "centroid depends on the flux scale")
    x3, y3 = A.centroid(np.pad(a, ((2, 5), (3, 1)))); require(abs(x3 - x - 3) < 1e-9 and abs(y3 - y - 2) < 1e-9, "centroid does not follow a shift")
    x4, y4 = A.centroid(a.T); require(abs(x4 - y) < 1e-9 and abs(y4 - x) < 1e-9, "centroid of the transposed image")
    # region of interest about the brightest pixel or the guess
    g = c["guess"]
    if g is not None:
        g = (min(g[0], nx - 1), min(g[1], ny - 1))
    py, px = np.unravel_index(a.argmax(), a.shape) if g is None else (int(round(g[1])), int(round(g[0])))
    R = c["roi"]
    yy, xx = np.mgrid[:ny, :nx]
    m = (np.abs(yy - py) <= R) & (np.abs(xx - px) <= R)
    gx, gy = A.centroid_with_roi(a, roi_radius=R, centering_initial_guess=g)
    require(abs(gx - (xx * a)[m].sum() / a[m].sum()) < 1e-9 and abs(gy - (yy * a)[m].sum() / a[m].sum()) < 1e-9, "centroid in the region of interest {}", (gx, gy))
    require(A.centroid_with_roi(a, R, (None, None)) == A.centroid_with_roi(a, R), "a guess of None is the brightest pixel")
    eq(a, s0, "the image given")


@PROP.sub("offset", st.fixed_dictionaries({"s": seeds, "p1": st.tuples(st.floats(12, 88), st.floats(12, 88)), "p2": st.tuples(st.floats(12, 88), st.floats(12, 88)), "e": st.tuples(st.floats(-1, 1), st.floats(-1, 1)), "amp": st.floats(50, 5000), "ratio": st.floats(0.3, 3), "fw": st.floats(2.8, 4)}), 100, 1500, shards=2)
def offset(c, rec):
    """offset of one star from another, from a guess up to a pixel off"""
    (x1, y1), (x2, y2) = c["p1"], c["p2"]
    if np.hypot(x1 - x2, y1 - y2) < 24:
        return
    rec.nt()
    n = 101
    im = render([x1, x2], [y1, y2], [c["amp"], c["amp"] * c["ratio"]], n, c["fw"])
    (dx, dy), err = A.measure_offset(im, x1, y1, x2 - x1 + c["e"][0], y2 - y1 + c["e"][1], guessflux=1)
    require(np.hypot(dx - (x2 - x1), dy - (y2 - y1)) < 0.05, "offset {} between stars {} apart", (dx, dy), (x2 - x1, y2 - y1))
    require(len(err) == 3, "fit errors {}", err)


@PROP.sub("pairs", st.fixed_dictionaries({"n": st.integers(0, 9), "r": st.integers(1, 4), "a": st.tuples(st.floats(-50, 50), st.floats(-50, 50)), "b": st.tuples(st.floats(-50, 50), st.floats(-50, 50)), "rot": st.floats(-180, 180)}), 200, 3000)
def pairs(c, rec):
    rec.nt()
    require(list(A.compute_combinations(range(c["n"]), r=c["r"])) == list(itertools.combinations(range(c["n"]), c["r"])), "combinations of {} by {}", c["n"], c["r"])
    a, b = np.array(c["a"]), np.array(c["b"])
    if np.abs(b - a).min() < 1e-6:
        return
    pa = A.angle_between(tuple(a), tuple(b))
    want = np.degrees(np.arctan2(-(b - a)[0], (b - a)[1]))
    require(abs(dang(pa, want)) < 1e-9, "angle from {} to {} is {}, expected {}", c["a"], c["b"], pa, want)
    require(abs(dang(A.angle_between(tuple(b), tuple(a)), want + 180)) < 1e-9, "angle of the reversed pair")


def legendre(k, x, y, o):
    T = 500. ** (np.arange(o + 1)[:, None] + np.arange(o + 1)[None, :])
    return np.polynomial.legendre.legval2d(x, y, k / T)


@PROP.sub("distortion", st.fixed_dictionaries({"s": seeds, "o": st.integers(1, 3), "ps": st.floats(15, 30), "th": angle, "n": st.integers(40, 60), "amp": st.sampled_from([0.0, 0.5, 2.0])}), 40, 500, shards=2)
def distortion(c, rec):
    """the fitted distortion maps measured to true pixel offsets"""
    rec.nt(c["amp"] > 0)
    r = rng(c["s"])
    o, m = c["o"], (c["o"] + 1) ** 2
    kx, ky = np.zeros((o + 1, o + 1)), np.zeros((o + 1, o + 1))
    kx[1, 0] = ky[0, 1] = 500
    if o > 1:
        kx += c["amp"] * r.normal(size=kx.shape) * (np.add.outer(np.arange(o + 1), np.arange(o + 1)) == 2)
        ky += c["amp"] * r.normal(size=kx.shape) * (np.add.outer(np.arange(o + 1), np.arange(o + 1)) == 2)
    p1 = np.array([np.full(c["n"], 511.), np.full(c["n"], 511.)]) + r.uniform(-150, 150, (2, c["n"]))
    d = r.uniform(-300, 300, (2, c["n"]))
    q1, q2 = p1 - 511, p1 - 511 + d
    tx = legendre(kx, *q2, o) - legendre(kx, *q1, o); ty = legendre(ky, *q2, o) - legendre(ky, *q1, o)
    sky = np.array([np.hypot(tx, ty) * c["ps"], (np.degrees(np.arctan2(-tx, ty)) + c["th"]) % 360])
    err = np.full((2, c["n"]), 0.3)
    true = np.concatenate([kx.ravel(), ky.ravel()])
    res = A.fit_distortion_solution(true, o, c["ps"], c["th"], p1, d, sky, err)
    require(res.shape == (2 * c["n"],) and np.abs(res).max() < 1e-6, "residuals of the true distortion up to {}", np.abs(res).max())
    # ten times the error -> a tenth of the residuals, for any trial coefficients
    trial = true + r.normal(size=true.size)
    a, b = (A.fit_distortion_solution(trial, o, c["ps"], c["th"], p1, d, sky, e) for e in (err, err * 10))
    close(a, b * 10, 1e-9, 1e-9, "residuals scaled with the position errors")
    require(np.abs(a).max() > 1e-3, "a wrong distortion has no residuals")
    ds = dset([img(np.zeros((8, 8)), "L2b")])
    k, oo = A.compute_distortion(ds, p1, d, sky, err, c["ps"], c["th"], fitorder=o)
    require(oo == o and len(k) == 2 * m, "fit of order {}: {}", o, len(k))
    fx = legendre(k[:m].reshape(o + 1, o + 1), *q2, o) - legendre(k[:m].reshape(o + 1, o + 1), *q1, o)
    fy = legendre(k[m:].reshape(o + 1, o + 1), *q2, o) - legendre(k[m:].reshape(o + 1, o + 1), *q1, o)
    require(max(np.abs(fx - tx).max(), np.abs(fy - ty).max()) < 0.02, "the fitted distortion misses the true offsets by {}", max(np.abs(fx - tx).max(), np.abs(fy - ty).max()))


@PROP.sub("map", st.fixed_dictionaries({"s": seeds, "o": st.integers(1, 3), "ps": st.floats(15, 30), "th": angle, "ra": st.floats(10, 350), "dec": st.floats(-75, 75), "n": st.integers(80, 160), "amp": st.sampled_from([0.0, 0.3, 1.0]), "nf": st.integers(1, 2), "comb": st.booleans(), "perr": st.sampled_from([None, None, 0.5, 2])}), 16, 200, shards=4)
def distmap(c, rec):
    """the whole calibration of a distorted field: the map takes the star positions to their places on the sky about the image centre"""
    r = rng(c["s"])
    n, o, m = 1024, c["o"], (c["o"] + 1) ** 2
    kx, ky = np.zeros((o + 1, o + 1)), np.zeros((o + 1, o + 1))
    kx[1, 0] = ky[0, 1] = 500
    if o > 1:
        q = np.add.outer(np.arange(o + 1), np.arange(o + 1)) == 2
        kx += c["amp"] * r.normal(size=kx.shape) * q
        ky += c["amp"] * r.normal(size=kx.shape) * q
    x0, y0 = legendre(kx, 0., 0., o), legendre(ky, 0., 0., o)
    w = WCS(naxis=2)
    w.wcs.cd = cdm(c["ps"], c["th"]); w.wcs.crpix = [512, 512]; w.wcs.crval = [c["ra"], c["dec"]]; w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    frames, tabs = [], []
    for i in range(c["nf"]):
        P = []
        for _ in range(4000):
            q = r.uniform(40, n - 40, 2)
            if all(np.hypot(*(q - p)) > 30 for p in P) and np.hypot(*(q - 511)) > 30:
                P.append(q)
            if len(P) == c["n"]:
                break
        P = np.array(P)
        q = P - 511.
        if (np.abs(q).max(axis=1) < 150).sum() < 4:      # the scale and the angle are measured near the centre
            return
        u = np.array([legendre(kx, q[:, 0], q[:, 1], o) - x0, legendre(ky, q[:, 0], q[:, 1], o) - y0]).T + 511.
        sky = w.wcs_pix2world(u, 0)
        amp = np.geomspace(4000, 200, len(P))
        im = render(P[:, 0], P[:, 1], amp, n)
        t = Table({"x": P[:, 0], "y": P[:, 1], "RA": sky[:, 0], "DEC": sky[:, 1]})
        for k in ([0.5, 1.5] if c["comb"] else [1]):
            frames.append(frame(im * k, c, len(frames)))
        tabs.append(t)
    rec.nt(o > 1 and c["amp"] > 0); rec.label("frames combined" if c["comb"] else "frames as they are"); rec.label("position error %s" % c["perr"])
    path = os.path.join(rec.dir, "none.csv")
    Table({"RA": [0.0], "DEC": [0.0], "VMAG": [1.0]}).write(path, format="ascii.csv", overwrite=True)
    np.random.seed(c["s"] % 2 ** 31)
    kw = {"frames_to_combine": 2} if c["comb"] else {}
    if c["perr"] is not None:
        kw["position_error"] = c["perr"]
    cal = A.boresight_calibration(data.Dataset(frames), field_path=path, field_matches=tabs, find_distortion=True, fitorder=o, center_radius=0.65, **kw)
    require(int(cal.distortion_coeffs[-1]) == o and len(cal.distortion_coeffs) == 2 * m + 1, "{} coefficients of order {}", len(cal.distortion_coeffs), cal.distortion_coeffs[-1])
    ps, th = float(np.mean(cal.platescale)), float(cal.northangle)
    require(abs(ps - c["ps"]) < 0.02 * c["ps"] and abs(dang(th, c["th"])) < 2, "plate scale {} and north angle {}, made with {} and {}", ps, th, c["ps"], c["th"])
    k = cal.distortion_coeffs[:-1]
    kx, ky = k[:m].reshape(o + 1, o + 1), k[m:].reshape(o + 1, o + 1)
    target = SkyCoord(c["ra"], c["dec"], unit="deg")
    for t in tabs:
        s = SkyCoord(np.array(t["RA"]), np.array(t["DEC"]), unit="deg")
        sep, pa = target.separation(s).mas / ps, np.radians(target.position_angle(s).deg - th)
        qx, qy = np.array(t["x"]) - 511, np.array(t["y"]) - 511
        e = np.hypot(legendre(kx, qx, qy, o) - legendre(kx, 0., 0., o) + sep * np.sin(pa), legendre(ky, qx, qy, o) - legendre(ky, 0., 0., o) - sep * np.cos(pa))
        require(e.max() < 0.1, "the distortion map puts star {} at {} {} pixels from its place on the sky", int(e.argmax()), (t["x"][e.argmax()], t["y"][e.argmax()]), e.max())


@PROP.sub("disc", st.fixed_dictionaries({"shape": st.tuples(st.integers(1, 25), st.integers(1, 25)).map(list), "cen": st.one_of(st.none(), st.tuples(st.floats(-3, 28), st.floats(-3, 28))), "r": st.one_of(st.none(), st.floats(0, 15), st.integers(0, 12)), "kind": st.sampled_from([list, tuple, np.array]).map(lambda f: f.__name__)}), 200, 2500)
def disc(c, rec):
    """the pixels within a radius of a centre, by default of the image's"""
    ny, nx = c["shape"]
    rec.nt(ny != nx)
    kw = {k: v for k, v in (("center", c["cen"] and {"list": list, "tuple": tuple, "array": np.array}[c["kind"]](c["cen"])), ("r", c["r"])) if v is not None}
    x, y = c["cen"] if c["cen"] else ((nx - 1) / 2, (ny - 1) / 2)
    r = c["r"] if c["r"] is not None else min(x, y, nx - x, ny - y)
    m = A.create_circular_mask({"list": list, "tuple": tuple, "array": np.array}[c["kind"]](c["shape"]), **kw)
    want = np.array([[np.hypot(i - x, j - y) for i in range(nx)] for j in range(ny)])
    require(m.shape == (ny, nx) and m.dtype == bool, "mask of shape {} {}", m.shape, m.dtype)
    sure = np.abs(want - r) > 1e-9
    eq(m[sure], (want <= r)[sure], "mask of radius {} about {}".format(r, (x, y)))
