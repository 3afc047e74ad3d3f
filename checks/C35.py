"""C35: neutral-density filter calibration: optical densities at dither positions, interpolation, flags."""
from vf.common import *
from vf.core import Prop, require
from vf import phot as P
import itertools, warnings
from corgidrp import fluxcal as F
from corgidrp import nd_filter_calibration as N

PROP = Prop("C35", "Sets of images of standard stars with and without an ND filter (1-3 bright targets of any brightness with 3-6 dithers each, planted density per dither; 0-3 unattenuated stars or a given calibration factor; both photometry methods; flux and irradiance; spectra served in place of the download); sweet-spot maps from random points and queries inside and outside "
            "their hull; FPAM offsets and transformation matrices. Non-trivial: every generated case.")

od = st.floats(0.5, 5)


def kwa(c):
    if c["meth"] == "Aperture":
        return dict(encircled_radius=6, frac_enc_energy=1.0, method="exact", background_sub=c["bsub"], r_in=8, r_out=11, centering_method="xy", centroid_roi_radius=5)
    return dict(fwhm=3.0, fit_shape=21, background_sub=c["bsub"], r_in=8, r_out=11, centering_method="xy", centroid_roi_radius=5)


def irr(star, seed, filt, kind):
    w, t = P.curve(filt); s = P.sed_of(star, seed)(w)
    i = lambda y: np.sum((y[1:] + y[:-1]) / 2 * np.diff(w))
    return i(s * t) if kind == "irr" else i(s * t * w) / i(t * w)


def build(c):
    r = rng(c["s"])
    stars = list(np.array(P.STARS)[r.permutation(len(P.STARS))])
    k = irr(stars[0], c["s"], c["filt"], c["kind"]) / 10 ** c["bright"]        # counts of the first star without filter
    H, V = r.uniform(1000, 60000, 2)
    frames, truth, n = [], {}, 40
    for t in range(c["nb"]):
        s = str(stars[t]); true = irr(s, c["s"], c["filt"], c["kind"]) / k
        base = c["od"] + 0.3 * t
        for d in range(c["nd"][t]):
            o = base + (0.0 if d % 2 == 0 else c["spread"][t])
            x, y = r.uniform(14, n - 15, 2)
            fn = fname(len(frames), "L2b")
            frames.append(P.star((n, n), x, y, true * 10 ** -o, 3.0, bg=c["bg"] * true * 10 ** -o if c["bsub"] else 0., err=0.01 * true * 10 ** -o, filt=c["filt"], target=s, fpam="ND%d" % c["nd_name"], h=H + r.uniform(-0.5, 0.5), v=V + r.uniform(-0.5, 0.5), fn=fn))
            truth[fn] = (o, x, y, s)
    for t in range(c["dim"]):
        s = str(stars[-1 - t]); true = irr(s, c["s"], c["filt"], c["kind"]) / k
        frames.append(P.star((n, n), *r.uniform(14, n - 15, 2), true, 3.0, err=0.01 * true, filt=c["filt"], target=s, fpam="HOLE", h=40504.4, v=9616.8, fn=fname(len(frames), "L2b")))
    frames = [frames[i] for i in r.permutation(len(frames))]
    return frames, truth, k, (H, V)


@PROP.sub("calibration", st.fixed_dictionaries({"s": seeds, "nb": st.integers(1, 3), "nd": st.lists(st.integers(2, 5), min_size=3, max_size=3), "od": od, "spread": st.lists(st.sampled_from([0.0, 0.0, 0.05, 0.15, 0.4, 0.6]), min_size=3, max_size=3), "dim": st.integers(0, 3), "bright": st.floats(3, 9),
                                               "meth": st.sampled_from(["Aperture", "Aperture", "Gaussian"]), "kind": st.sampled_from(["irr", "irr", "flux"]), "bsub": st.booleans(), "bg": st.floats(0, 0.001), "filt": st.sampled_from(["3C", "1F", "4B", "2A"]), "nd_name": st.sampled_from([225, 475]), "obj": st.booleans(),
                                               "thr": st.sampled_from([0.1, 0.1, 0.01, 1.0])}), 70, 700, shards=2)
def calibration(c, rec):
    """densities at every dither position, whatever the stars' brightness, with the flag for scatter"""
    rec.nt()
    frames, truth, k, (H, V) = build(c)
    ds = data.Dataset(frames)
    kw_ = kwa(c)
    fac = None
    with P.archive(rec.dir, c["s"]), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["dim"] == 0:
            # no unattenuated stars: the calibration factor is given
            fac = k
            if c["obj"]:
                p, e = hdrs("CAL", ext={"CFAMNAME": c["filt"], "FPAMNAME": "HOLE"})
                fac = data.FluxcalFactor(np.array([[k]]), err=np.array([[[0.0]]]), pri_hdr=p, ext_hdr=e, input_dataset=data.Dataset([img(np.zeros((2, 2)), "L2b", filename=fname(99, "L2b"))]))
        before = dict(snap(ds), ids=0); k0 = dict(kw_)
        cal = N.create_nd_filter_cal(ds, c["thr"], c["meth"], c["kind"], kw_, fluxcal_factor=fac)
        same(before, dict(snap(ds), ids=0), "the input of the ND calibration")
        require(kw_ == k0, "photometry settings were changed")
    require(isinstance(cal, data.NDFilterSweetSpotDataset), "the product is a {}", type(cal))
    require(cal.data.shape == (len(truth), 3), "{} rows for {} dithers", cal.data.shape, len(truth))
    left = dict(truth)
    for o, x, y in cal.data:
        fn = min(left, key=lambda f: np.hypot(left[f][1] - x, left[f][2] - y))
        t = left.pop(fn)
        close(np.array([x, y]), np.array(t[1:3]), 0, 0.25 if c["bsub"] else 0.05, "position of the dither")
        # the aperture (6 pixels, Gaussian of 3 pixels) holds the star within 1e-3; 1 % in flux is 0.004 in density
        close(o, t[0], 0, 0.01, "density at the dither position")
    require(cal.ext_hdr["FPAMNAME"] == "ND%d" % c["nd_name"], "filter recorded: {}", cal.ext_hdr["FPAMNAME"])
    require(abs(cal.ext_hdr["FPAM_H"] - H) <= 0.5 and abs(cal.ext_hdr["FPAM_V"] - V) <= 0.5, "FPAM position recorded: {}", (cal.ext_hdr["FPAM_H"], cal.ext_hdr["FPAM_V"]))
    std = [np.std([t[0] for t in truth.values() if t[3] == s]) for s in set(t[3] for t in truth.values())]
    if all(abs(v - c["thr"]) > 0.004 for v in std):
        want = any(v >= c["thr"] for v in std)
        rec.label("flagged" if want else "steady")
        require(bool(cal.ext_hdr["ODFLAG"]) == want, "scatter {} against the limit {} gives ODFLAG {}", std, c["thr"], cal.ext_hdr["ODFLAG"])
    require(cal.ext_hdr["DRPNFILE"] == len(frames), "{} parents recorded for {}", cal.ext_hdr["DRPNFILE"], len(frames))
    # round trip on disk, and the product's own interpolation at a measured point
    cal.save(rec.dir, "nd_L2b.fits")
    back = data.NDFilterSweetSpotDataset(os.path.join(rec.dir, "nd_L2b.fits"))
    eq(back.data, cal.data, "saved sweet-spot map")
    eq(back.od_values, cal.data[:, 0]); eq(back.x_values, cal.data[:, 1]); eq(back.y_values, cal.data[:, 2])


@PROP.sub("consistency", st.fixed_dictionaries({"s": seeds, "what": st.sampled_from(["FPAMNAME", "FPAM_H", "FPAM_V", "CFAMNAME"]), "across": st.booleans(), "d": st.floats(-5, 5), "meth": st.sampled_from(["Aperture", "Gaussian", "nope"])}), 60, 400)
def consistency(c, rec):
    """dithers taken with different filter or mechanism positions are rejected beyond the 1.2 um repeatability"""
    if abs(abs(c["d"]) - 1.2) < 1e-3:
        return
    rec.nt()
    n = 40; r = rng(c["s"])
    st_ = ["Vega", "109 Vir"]
    H, V = 5000.0, 6000.0
    frames = []
    for i in range(3):
        odd = i == 2
        h = H + (c["d"] if odd and c["what"] == "FPAM_H" else 0); v = V + (c["d"] if odd and c["what"] == "FPAM_V" else 0)
        frames.append(P.star((n, n), *r.uniform(15, 24, 2), 100., 3.0, filt="1F" if odd and c["what"] == "CFAMNAME" else "3C", fpam="ND225" if odd and c["what"] == "FPAMNAME" else "ND475", h=h, v=v,
                             target=st_[1] if odd and c["across"] else st_[0], fn=fname(i, "L2b")))
    bad = c["what"] in ("FPAMNAME", "CFAMNAME") or abs(c["d"]) > 1.2
    kw_ = kwa({"meth": "Gaussian" if c["meth"] == "Gaussian" else "Aperture", "bsub": False})
    with P.archive(rec.dir, c["s"]), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        go = lambda: N.create_nd_filter_cal(data.Dataset(frames), 0.1, c["meth"], "irr", kw_, fluxcal_factor=1e-12)
        if bad or c["meth"] == "nope":
            rec.label("rejected")
            rejects(go, (ValueError,), "a set with inconsistent %s" % c["what"])
        else:
            rec.label("accepted")
            require(len(go().data) == 3, "dithers within the tolerance")


pts = st.fixed_dictionaries({"s": seeds, "n": st.integers(4, 12), "lo": st.floats(0, 4), "hi": st.floats(0, 3), "plane": st.booleans(), "q": st.integers(1, 8), "order": st.booleans()})


def cloud(c):
    r = rng(c["s"])
    for _ in range(200):
        p = r.uniform(20, 80, (c["n"], 2))
        if min(np.hypot(*(a - b)) for a, b in itertools.combinations(p, 2)) > 2 and np.linalg.matrix_rank((p - p.mean(0)), tol=8) == 2:
            break
    z = 1 + c["lo"] + c["hi"] * (0.01 * (p[:, 0] - 50) - 0.007 * (p[:, 1] - 50)) if c["plane"] else c["lo"] + r.uniform(0, c["hi"] + 0.1, c["n"])
    return p, z, r


def product(p, z, h=0., v=0.):
    a, b = hdrs("CAL", ext={"FPAM_H": h, "FPAM_V": v})
    return data.NDFilterSweetSpotDataset(np.column_stack([z, p]), pri_hdr=a, ext_hdr=b, input_dataset=data.Dataset([img(np.zeros((2, 2)), "L2b", filename=fname(99, "L2b"))]))


@PROP.sub("interpolate", pts, 300, 3000)
def interpolate(c, rec):
    """interpolated densities: measured at measured points, within the measured range between, exact for a tilted plane, in any row order"""
    rec.nt()
    p, z, r = cloud(c)
    arr = np.column_stack([z, p]); a0 = arr.copy()
    cal = product(p, z)
    for (x, y), v in zip(p, z):
        close(N.interpolate_od(arr, float(x), float(y)), v, 1e-9, 1e-9, "density at a measured point")
        close(N.interpolate_od(arr, float(x), float(y), "nearest"), v, 1e-9, 1e-9, "nearest density at a measured point")
        close(float(cal.interpolate_od(x, y)), v, 1e-9, 1e-9, "product's density at a measured point")
    w = r.dirichlet(np.ones(c["n"]), c["q"])
    q = w @ p
    vals = N.interpolate_od(arr, q[:, 0], q[:, 1])
    require(np.shape(vals) == (c["q"],), "{} values for {} queries", np.shape(vals), c["q"])
    near = N.interpolate_od(arr, q[:, 0], q[:, 1], "nearest")
    for i in range(c["q"]):
        one = N.interpolate_od(arr, float(q[i, 0]), float(q[i, 1])); own = float(cal.interpolate_od(q[i, 0], q[i, 1]))
        require(isinstance(one, float), "a single query gives a {}", type(one))
        close(np.array([vals[i], own]), np.array([one, one]), 1e-9, 1e-9, "array, single and product interpolation")
        require(z.min() - 1e-9 <= one <= z.max() + 1e-9, "{} interpolated from densities within {}..{}", one, z.min(), z.max())
        if c["plane"]:
            close(one, 1 + c["lo"] + c["hi"] * (0.01 * (q[i, 0] - 50) - 0.007 * (q[i, 1] - 50)), 1e-9, 1e-8, "density of a tilted plane")
        d = np.hypot(*(p - q[i]).T); o = np.sort(d)
        if o[1] - o[0] > 1e-6:
            close(near[i], z[np.argmin(d)], 1e-12, 0, "nearest density")
    if c["order"]:
        perm = r.permutation(c["n"])
        close(N.interpolate_od(arr[perm], q[:, 0], q[:, 1]), vals, 1e-7, 1e-7, "densities from rows in another order")
    require(np.isnan(N.interpolate_od(arr, 500.0, 500.0)), "a density was invented outside the measured region")
    eq(arr, a0, "the map")
    rejects(lambda: data.NDFilterSweetSpotDataset(np.zeros((c["n"], 4)), *hdrs("CAL")), (ValueError,), "a map with four columns")


@PROP.sub("newlocation", st.fixed_dictionaries(dict({"base": pts}, diag=st.sampled_from([0, 0, 1, 2]), m=st.lists(st.one_of(st.floats(-0.5, 0.5), st.floats(-0.5, 0.5), st.just(0.0)), min_size=4, max_size=4), dh=st.floats(-20, 20), dv=st.floats(-20, 20), h=st.floats(-5e4, 5e4), v=st.floats(-5e4, 5e4), prim=st.booleans())), 120, 1000)
def newlocation(c, rec):
    """the density for a star elsewhere: its position plus the transformed filter offset"""
    b = dict(c["base"], plane=True)
    p, z, r = cloud(b)
    M = np.array(c["m"]).reshape(2, 2)
    if c["diag"]: M[c["diag"] - 1] = 0      # the filter moves the image along one axis only
    off = M @ np.array([c["dh"], c["dv"]])
    target = r.dirichlet(np.ones(b["n"])) @ p
    star = target - off
    if not (8 < star[0] < 92 and 8 < star[1] < 92):
        rec.label("outside"); return
    rec.nt()
    path = os.path.join(rec.dir, "m.fits")
    (fits.PrimaryHDU(M) if c["prim"] else fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(M)])).writeto(path, overwrite=True)
    eq(N.load_transformation_matrix_from_fits(path), M, "transformation matrix")
    cal = product(p, z, c["h"], c["v"])
    f = P.star((100, 100), star[0], star[1], 1000., 2.5, h=c["h"] + c["dh"], v=c["v"] + c["dv"])
    s0, s1 = snap(f), snap(cal)
    got = N.calculate_od_at_new_location(f, path, cal)
    same(s0, snap(f), "the clean frame"); same(s1, snap(cal), "the calibration")
    want = 1 + b["lo"] + b["hi"] * (0.01 * (target[0] - 50) - 0.007 * (target[1] - 50))
    if np.isnan(got):
        # at the hull's edge the centroid's rounding may fall outside
        rec.label("edge"); return
    close(got, want, 0, 2e-3 * (1 + b["hi"]), "density at the star's place behind the filter")


@PROP.sub("factors", st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 4), "meth": st.sampled_from(["Aperture", "Gaussian"]), "kind": st.sampled_from(["irr", "flux"]), "off": st.lists(st.floats(0.5, 2), min_size=4, max_size=4)}), 40, 300)
def factors(c, rec):
    """the average calibration factor is the mean over the unattenuated stars"""
    rec.nt()
    r = rng(c["s"]); kw_ = kwa({"meth": c["meth"], "bsub": False})
    frames = []; want = []
    for i in range(c["n"]):
        s = P.STARS[int(r.integers(len(P.STARS)))]
        t = irr(s, c["s"], "3C", c["kind"])
        k = 1e-14 * c["off"][i]
        frames.append(P.star((40, 40), *r.uniform(15, 24, 2), t / k, 3.0, err=0.01 * t / k, target=s, fn=fname(i, "L2b"))); want.append(k)
    with P.archive(rec.dir, c["s"]):
        ds = data.Dataset(frames); s0 = snap(ds)
        got = N.compute_avg_calibration_factor(ds, c["meth"], c["kind"], kw_)
        same(s0, snap(ds), "the unattenuated stars")
        close(got, np.mean(want), 0.01, 0, "average factor")
        rejects(lambda: N.compute_avg_calibration_factor(ds, "nope", c["kind"], kw_), (ValueError,), "an unknown photometry method")
