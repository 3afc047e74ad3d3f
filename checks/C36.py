"""C36: fluxes and magnitudes: conversion of images, fluxes of sources, apparent magnitudes, colour correction, zero points."""
from vf.common import *
from vf.core import Prop, require
from vf import phot as P
import warnings
from corgidrp import fluxcal as F
from corgidrp import l4_to_tda as T

PROP = Prop("C36", "Images and datasets of any shape, values, uncertainty layers and tracking setting converted to flux with any factor, factor error and colour correction; datasets of 1-4 images of one source measured by both photometry methods; every standard star, filter and scale factor, given by name or file; spectra served in place of the download. "
            "Oracle: the defining formulas evaluated independently. Non-trivial: every generated case.")


def integ(y, x):
    return np.sum((y[1:] + y[:-1]) / 2 * np.diff(x))


def fac(v, e, filt="3C"):
    p, h = hdrs("CAL", ext={"CFAMNAME": filt, "FPAMNAME": "HOLE"})
    return data.FluxcalFactor(np.array([[v]]), err=np.array([[[e]]]), pri_hdr=p, ext_hdr=h, input_dataset=data.Dataset([img(np.zeros((2, 2)), "L2b", filename=fname(99, "L2b"))]))


@PROP.sub("convert", st.fixed_dictionaries({"s": seeds, "shape": small_shape, "n": st.integers(1, 4), "layers": st.integers(1, 4), "track": st.booleans(), "lf": st.floats(-20, 5), "rel": st.one_of(st.just(0.0), st.floats(1e-4, 1)), "K": st.one_of(st.none(), st.floats(0.2, 5)), "neg": st.booleans(), "dt": st.sampled_from(["f8", "f8", "f4"]), "own": st.sampled_from([None, None, [1.0, 1.7, 0.4, 1.2], [0.9, None, 1.1, None]])}), 250, 2500)
def convert(c, rec):
    """conversion to flux units scales data and every uncertainty layer, and adds the factor's error in quadrature"""
    rec.nt()
    r = rng(c["s"]); f = 10 ** c["lf"]; fe = f * c["rel"]
    import corgidrp
    corgidrp.track_individual_errors = c["track"]
    frames = []
    # every frame's own colour correction
    Ks = c["own"] or [c["K"]] * 4
    for i in range(c["n"]):
        d = r.normal(0 if c["neg"] else 50, 10, c["shape"]).astype(c["dt"])
        g = img(d, "L4", err=r.uniform(0.1, 3, c["shape"]), dq=dq_array(r.integers(2 ** 31), tuple(c["shape"])), ext={"COL_COR": Ks[i]} if Ks[i] is not None else {}, filename=fname(i, "L4"))
        if Ks[i] is None and "COL_COR" in g.ext_hdr:
            del g.ext_hdr["COL_COR"]
        for j in range(1, c["layers"]):
            g.add_error_term(r.uniform(0.1, 3, c["shape"]), "term%d" % j)
        frames.append(g)
    ds = data.Dataset(frames); cal = fac(f, fe)
    s0, s1 = snap(ds), snap(cal)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        out = T.convert_to_flux(ds, cal)
    same(s0, snap(ds), "the input dataset"); same(s1, snap(cal), "the flux calibration")
    require((None in Ks[:c["n"]]) == any("COL_COR" in str(w.message) for w in ws), "warning about the missing colour correction")
    require(len(out) == c["n"], "{} frames from {}", len(out), c["n"])
    for a, b, K in zip(ds, out, [k or 1.0 for k in Ks]):
        rt = 1e-5 if c["dt"] == "f4" else 1e-10
        require(b.filename == a.filename, "frame order")
        close(b.data, a.data.astype(float) * f / K, rt, 0, "data in flux units")
        term = np.abs(a.data.astype(float)) * fe / K
        close(b.err[0], np.sqrt((a.err[0] * f / K) ** 2 + term ** 2), rt, 0, "combined uncertainty")
        if c["track"]:
            require(b.err.shape[0] == a.err.shape[0] + 1, "{} layers from {}", b.err.shape, a.err.shape)
            close(b.err[1:-1], a.err[1:] * f / K, 1e-10, 0, "earlier layers, rescaled")
            close(np.abs(b.err[-1]), term, rt, 0, "layer of the factor's error")
        else:
            require(b.err.shape[0] == 1, "{} layers", b.err.shape)
        eq(b.dq, a.dq, "flags")
        require(b.ext_hdr["BUNIT"] == "erg/(s*cm^2*AA)" and b.ext_hdr["FLUXFAC"] == f, "unit {!r}, factor {}", b.ext_hdr["BUNIT"], b.ext_hdr["FLUXFAC"])
        require(len(hist(b)) > len(hist(a)), "no history entry")
    eq(out.all_data, np.array([b.data for b in out])); eq(out.all_err, np.array([b.err for b in out]))


src = {"s": seeds, "shape": st.tuples(st.integers(36, 52), st.integers(36, 52)).map(list), "n": st.integers(1, 4), "flux": st.lists(st.floats(10, 1e5), min_size=4, max_size=4), "meth": st.sampled_from(["aperture", "aperture", "2dgauss"]), "e": st.floats(1e-4, 0.1), "bsub": st.booleans(), "bg": st.floats(0, 0.002),
       "lf": st.floats(-18, 2), "rel": st.one_of(st.just(0.0), st.floats(1e-4, 0.5)), "K": st.one_of(st.none(), st.floats(0.2, 5)), "filt": st.sampled_from(sorted(P.FILTERS)), "rad": st.floats(3, 6), "fee": st.floats(0.3, 1), "default": st.sampled_from([False, False, True])}


@PROP.sub("flux", st.fixed_dictionaries(src), 120, 1000, shards=2)
def flux(c, rec):
    """a source's flux, error and magnitude from its photometry and the calibration"""
    rec.nt()
    r = rng(c["s"]); f = 10 ** c["lf"]; fe = f * c["rel"]
    frames = []
    h, w = c["shape"]
    for i in range(c["n"]):
        x, y = r.uniform(15, w - 16), r.uniform(15, h - 16)
        g = P.star((h, w), x, y, c["flux"][i], 3.0, bg=c["bg"] * c["flux"][i] if c["bsub"] else 0., err=c["e"] * c["flux"][i], filt=c["filt"], fn=fname(i, "L4"), level="L4")
        if c["K"] is not None:
            g.ext_hdr["COL_COR"] = c["K"]
        frames.append(g)
    if c["meth"] == "aperture":
        k = dict(encircled_radius=c["rad"], frac_enc_energy=c["fee"], method="exact", background_sub=c["bsub"], r_in=8, r_out=11); fn = F.aper_phot
        dk = dict(encircled_radius=5, frac_enc_energy=1.0, method="subpixel", subpixels=5)
    else:
        k = dict(fwhm=3.0, fit_shape=21, background_sub=c["bsub"], r_in=8, r_out=11); fn = F.phot_by_gauss2d_fit
        dk = dict(fwhm=3)
    ds = data.Dataset(frames); cal = fac(f, fe, c["filt"])
    k0 = dict(k); s0, s1 = snap(ds), snap(cal)
    with P.archive(rec.dir, c["s"]), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = T.determine_flux(ds, cal, c["meth"], None if c["default"] else k)
        same(s0, snap(ds), "the input dataset"); same(s1, snap(cal), "the flux calibration")
        require(k == k0, "photometry settings were changed")
        res = np.array([fn(g, **(dk if c["default"] else k)) for g in ds], float)
        rejects(lambda: T.determine_flux(ds, cal, "psf", k), (ValueError,), "an unknown photometry method")
    n, e = res[:, 0].mean(), res[:, 1].mean()
    K = c["K"] or 1.0
    want = n * f / K
    w_, t_ = P.curve(c["filt"]); v = P.sed_of("Vega", c["s"])(w_)
    vb = integ(v * t_ * w_, w_) / integ(t_ * w_, w_)
    require(len(out) == c["n"], "{} frames from {}", len(out), c["n"])
    for a, b in zip(ds, out):
        q = b.ext_hdr
        close(q["FLUX"], want, 1e-9, 0, "flux")
        rel = np.sqrt((e / n) ** 2 + c["rel"] ** 2)
        close(q["FLUXERR"], want * rel, 1e-9, 0, "flux error")
        close(q["APP_MAG"], -2.5 * np.log10(want / vb), 0, 6e-3, "apparent magnitude")
        close(q["MAGERR"], 2.5 / np.log(10) * rel, 1e-9, 0, "magnitude error")
        close(q["LOCBACK"], res[:, 2].mean() if c["bsub"] and not c["default"] else 0.0, 1e-9, 1e-12, "background")
        require(q["FLUXFAC"] == f, "factor recorded: {}", q["FLUXFAC"])
        eq(b.data, a.data, "pixels"); eq(b.err, a.err, "uncertainties"); eq(b.dq, a.dq, "flags")
        require(b.filename == a.filename and len(hist(b)) > len(hist(a)), "order and history")


mg = {"s": seeds, "star": st.sampled_from(P.STARS), "ref": st.sampled_from(P.STARS), "filt": st.sampled_from(sorted(P.FILTERS)), "n": st.integers(1, 3), "scale": st.floats(1e-4, 1e3), "file": st.booleans(), "single": st.booleans(), "other": st.sampled_from(["none", "CFAMNAME", "TARGET"]), "rad": st.floats(3, 6), "flux": st.floats(10, 1e6), "a": st.floats(0.01, 100), "bsub": st.booleans()}


@PROP.sub("magnitude", st.fixed_dictionaries(mg), 80, 700)
def magnitude(c, rec):
    """apparent magnitudes, colour corrections and zero points of standard stars, by name or file"""
    rec.nt()
    frames = [P.star((40, 40), 18.3, 20.6, c["flux"], 3.0, err=0.01 * c["flux"], filt=c["filt"], target=c["star"], fn=fname(i, "L4"), level="L4") for i in range(c["n"])]
    ds = frames[0] if c["single"] else data.Dataset(frames)
    w, t = P.curve(c["filt"])
    S = lambda n: P.sed_of(n, c["s"])
    with P.archive(rec.dir, c["s"]), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        star = c["star"]
        if c["file"]:
            star = os.path.join(rec.dir, "model.v1.fits"); P.write_sed(star, S(c["star"]), extra=True)
        s0 = snap(ds)
        out = T.determine_app_mag(ds, star, scale_factor=c["scale"])
        same(s0, snap(ds), "the input")
        require(isinstance(out, data.Dataset) and len(out) == (1 if c["single"] else c["n"]), "the result is a {} of {}", type(out), len(out))
        want = -2.5 * np.log10(integ(S(c["star"])(w) * t, w) / integ(S("Vega")(w) * t, w) * c["scale"])
        for b in out:
            close(b.ext_hdr["APP_MAG"], want, 0, 6e-3, "apparent magnitude")
        m1 = T.determine_app_mag(ds, star)[0].ext_hdr["APP_MAG"]
        close(m1 - out[0].ext_hdr["APP_MAG"], 2.5 * np.log10(c["scale"]), 1e-9, 1e-9, "magnitude of a star scaled by %g" % c["scale"])
        close(T.determine_app_mag(ds, "Vega")[0].ext_hdr["APP_MAG"], 0.0, 0, 1e-12, "magnitude of Vega")
        dd = data.Dataset([frames[0]]) if c["single"] else ds
        s0 = snap(dd)
        col = T.determine_color_cor(dd, c["ref"], star)
        same(s0, snap(dd), "the input")
        lr = np.sqrt(integ(w * t, w) / integ(t / w, w))
        lr2 = F.calculate_pivot_lambda(t, w)
        close(lr2, lr, 3e-4, 0, "pivot wavelength")
        a, b = S(c["star"]), S(c["ref"])
        K = (integ(w * t * a(w), w) / a(lr)) / (integ(w * t * b(w), w) / b(lr))
        for g in col:
            close(g.ext_hdr["LAM_REF"], lr2, 1e-12, 0, "reference wavelength")
            close(g.ext_hdr["COL_COR"], K, 5e-3, 0, "colour correction")
        close(T.determine_color_cor(dd, star, c["star"])[0].ext_hdr["COL_COR"], 1.0, 1e-6, 0, "colour correction of a star with itself")
        # zero point: counts and zero point give back the star's magnitude
        kw = dict(frac_enc_energy=0.9, method="exact", background_sub=c["bsub"], r_in=8, r_out=11)
        im = frames[0]; s0 = snap(im)
        zp = T.calculate_zero_point(im, star, c["rad"], kw)
        same(s0, snap(im), "the image")
        require(np.ndim(zp) == 0, "the zero point is {!r}", zp)
        n = F.aper_phot(im, c["rad"], **kw)[0]
        close(-2.5 * np.log10(n) + zp, m1, 1e-9, 1e-9, "magnitude from the counts and the zero point")
        im2 = P.star((40, 40), 18.3, 20.6, c["flux"] * c["a"], 3.0, err=0.01, filt=c["filt"], target=c["star"], level="L4")
        close(T.calculate_zero_point(im2, star, c["rad"], kw) - zp, 2.5 * np.log10(c["a"]), 1e-6, 1e-6, "zero point with counts scaled by %g" % c["a"])
        require(np.isfinite(T.calculate_zero_point(im, star, 5)), "zero point with default settings")
        if c["other"] != "none" and c["n"] > 1:
            bad = [g.copy() for g in frames]
            (bad[-1].ext_hdr if c["other"] == "CFAMNAME" else bad[-1].pri_hdr)[c["other"]] = "1B" if c["other"] == "CFAMNAME" and c["filt"] != "1B" else ("2B" if c["other"] == "CFAMNAME" else "Another")
            rejects(lambda: T.determine_app_mag(data.Dataset(bad), star), (ValueError,), "a set with two values of %s" % c["other"])
            rec.label("mixed")
