"""C34: band quantities, aperture and Gaussian photometry, flux-calibration factors."""
from vf.common import *
from vf.core import Prop, require
from vf import phot as P
from corgidrp import fluxcal as F
from corgidrp import l4_to_tda as T

PROP = Prop("C34", "Every shipped filter and random smooth dense filter curves and spectra (band flux, effective and pivot wavelengths, irradiance, colour correction against independent integrals and identities); spectra served in place of the CALSPEC download; images of one Gaussian star at any subpixel position on any image shape with "
            "background, uncertainties and flagged pixels (photometry: proportionality, background and position independence, exact sums for whole-pixel apertures, errors in quadrature); flux-calibration factors by both methods applied back to the same star. Non-trivial: every generated case.")

W = lambda c: np.linspace(c["lo"], c["lo"] + c["w"], c["n"])
spec = st.tuples(st.floats(0.1, 100), st.floats(-5, 4), st.floats(-0.5, 0.5))


def filt(c, w):
    u = (w - w[0]) / (w[-1] - w[0])
    return 0.9 * np.sin(np.pi * u) ** c["p"] * (1 + c["tilt"] * (u - 0.5)) + 1e-3


def integ(y, x):
    return np.sum((y[1:] + y[:-1]) / 2 * np.diff(x))


@PROP.sub("band", st.fixed_dictionaries({"lo": st.floats(4000, 8000), "w": st.floats(100, 2500), "n": st.integers(1500, 2500), "p": st.floats(0.5, 3), "tilt": st.floats(-1, 1), "a": spec, "b": spec, "k": st.floats(1e-3, 1e3)}), 200, 2000)
def band(c, rec):
    """band quantities against independent integrals"""
    rec.nt()
    w = W(c); t = filt(c, w); fa, fb = P.sed(c["a"])(w), P.sed(c["b"])(w)
    close(F.calculate_band_flux(t, fa, w), integ(fa * t * w, w) / integ(t * w, w), 1e-4, 0, "band flux")
    close(F.calculate_band_flux(t, np.full_like(w, c["k"]), w), c["k"], 1e-12, 0, "band flux of a constant spectrum")
    close(F.calculate_effective_lambda(t, fa, w), integ(fa * t * w * w, w) / integ(fa * t * w, w), 1e-5, 0, "effective wavelength")
    piv = F.calculate_pivot_lambda(t, w)
    close(piv, np.sqrt(integ(t * w, w) / integ(t / w, w)), 1e-6, 0, "pivot wavelength")
    require(w[0] <= piv <= w[-1], "pivot wavelength {} outside the band", piv)
    close(F.calculate_band_irradiance(t, fa, w), integ(fa * t, w), 1e-4, 0, "band irradiance")
    close(F.calculate_flux_ref(w, fa, piv), P.sed(c["a"])(piv), 1e-4, 0, "flux at the reference wavelength")
    K = F.compute_color_cor(t, w, fa, piv, fb)
    ra, rb = P.sed(c["a"])(piv), P.sed(c["b"])(piv)
    close(K, (integ(t * w * fb, w) / rb) / (integ(t * w * fa, w) / ra), 2e-4, 0, "colour correction")
    close(F.compute_color_cor(t, w, fa, piv, fa * c["k"]), 1.0, 1e-10, 0, "colour correction between spectra of one shape")
    close(F.compute_color_cor(t, w, fb, piv, fa) * K, 1.0, 1e-10, 0, "colour corrections of a pair of spectra")
    # a photon-counting detector calibrated on a, observing b: counts * factor / K is b's flux at the reference wavelength
    na, nb = integ(t * w * fa, w), integ(t * w * fb, w)
    close(nb * (ra / na) / K, rb, 2e-4, 0, "colour-corrected flux at the reference wavelength")


@PROP.sub("filters", st.fixed_dictionaries({"f": st.sampled_from(sorted(P.FILTERS)), "bad": st.sampled_from(["5C", "9Z", "CLEAR", "POL0", "3c"]), "s": seeds, "star": st.sampled_from(P.STARS), "k": st.floats(0.01, 100)}), 60, 400, examples=[{"f": f, "bad": "5C", "s": i, "star": P.STARS[i % len(P.STARS)], "k": 1.0} for i, f in enumerate(sorted(P.FILTERS))])
def filters(c, rec):
    """filter lookup, curves, spectra and magnitudes of standard stars"""
    rec.nt()
    f = img(np.zeros((2, 2)), ext={"CFAMNAME": c["f"]})
    path = F.get_filter_name(f)
    require(os.path.samefile(path, P.FILTERS[c["f"]]), "filter {} is read from {}", c["f"], path)
    w, t = F.read_filter_curve(path)
    w0, t0 = P.curve(c["f"])
    close(w, w0, 1e-12, 0, "filter wavelengths (Angstrom)"); close(t, t0, 1e-12, 1e-15, "filter transmission")
    bad = img(np.zeros((2, 2)), ext={"CFAMNAME": c["bad"]})
    rejects(lambda: F.get_filter_name(bad), (ValueError,), "an unknown filter")
    log = []
    with P.archive(rec.dir, c["s"], log):
        p = F.get_calspec_file(c["star"])
        require(os.path.isfile(p) and log == [F.calspec_url + P.FILES[c["star"]]], "{} was fetched as {} from {}", c["star"], p, log)
        require(os.path.realpath(p).startswith(os.path.realpath(rec.dir)), "spectrum stored at {}, outside the configured folder", p)
        s = F.read_cal_spec(p, w)
        inside = (w > w[0] + 2) & (w < w[-1] - 2)
        close(s[inside], P.sed_of(c["star"], c["s"])(w)[inside], 1e-5, 0, "spectrum on the filter's wavelengths")
        close(s, P.sed_of(c["star"], c["s"])(w), 5e-3, 0, "spectrum at the filter's edges")
        rejects(lambda: F.get_calspec_file("Todesstern"), (ValueError,), "a star that is not a standard")
        va = P.sed_of("Vega", c["s"])(w)
        vb = integ(va * t * w, w) / integ(t * w, w)
        close(F.calculate_vega_mag(vb * c["k"], path), -2.5 * np.log10(c["k"]), 0, 5e-3, "magnitude of a multiple of Vega's band flux")
        m1, m2 = F.calculate_vega_mag(vb, path), F.calculate_vega_mag(vb * c["k"], path)
        close(m2 - m1, -2.5 * np.log10(c["k"]), 1e-9, 1e-9, "magnitude difference")
        from corgidrp import nd_filter_calibration as ND
        sd = P.sed_of(c["star"], c["s"])(w)
        close(ND.compute_expected_band_irradiance(c["star"], c["f"]), integ(sd * t, w), 5e-3, 0, "expected band irradiance")


shape = st.tuples(st.integers(31, 60), st.integers(31, 60)).map(list)
starc = {"shape": shape, "fx": st.floats(0, 1), "fy": st.floats(0, 1), "flux": st.floats(1, 1e6), "fwhm": st.floats(2, 4), "bg": st.one_of(st.just(0.0), st.floats(-20, 200)), "s": seeds,
         "rad": st.floats(2.5, 7), "fee": st.one_of(st.just(1.0), st.floats(0.05, 1)), "cen": st.sampled_from(["xy", "xy", "guess", "wcs"])}


def pos(c, m=13):
    h, w = c["shape"]
    return m + c["fx"] * (w - 1 - 2 * m), m + c["fy"] * (h - 1 - 2 * m)


def kw(c, x, y, **k):
    d = {"centering_method": "wcs" if c["cen"] == "wcs" else "xy", "centroid_roi_radius": 6}
    if c["cen"] == "guess":
        d["centering_initial_guess"] = (x, y)
    return dict(d, **k)


def make(c, flux=None, bg=None, err=None, dq=None, xy=None, shape_=None):
    x, y = xy or pos(c)
    return P.star(tuple(shape_ or c["shape"]), x, y, c["flux"] if flux is None else flux, c["fwhm"], c["bg"] if bg is None else bg, 1.0 if err is None else err, dq=dq)


@PROP.sub("aperture", st.fixed_dictionaries(dict(starc, a=st.floats(0.1, 100), b=st.floats(-100, 100), sub=st.integers(3, 12), meth=st.sampled_from(["subpixel", "exact", "center"]), dx=st.integers(-4, 4), dy=st.integers(-4, 4), e=st.floats(1e-3, 10))), 300, 3000)
def aperture(c, rec):
    """aperture photometry: proportional, background- and position-independent, corrected for the enclosed fraction"""
    rec.nt()
    corgidrp.track_individual_errors = bool(c["s"] % 2)
    x, y = pos(c); h, w = c["shape"]
    if c["cen"] != "wcs":
        c = dict(c, bg=0.0 if c["bg"] < 0 else min(c["bg"], 0.01 * c["flux"]))
    r = rng(c["s"])
    err = r.uniform(0.1, 2, (h, w)) * c["e"]
    k = dict(encircled_radius=c["rad"], frac_enc_energy=c["fee"], method=c["meth"], subpixels=c["sub"])
    # no background: proportional to flux
    one = make(c, bg=0, err=err); s0 = snap(one)
    f1, e1 = F.aper_phot(one, **k, **kw(c, x, y))
    same(s0, snap(one), "the measured image")
    tol2 = {"exact": 1e-6, "subpixel": 0.02, "center": 0.2}[c["meth"]]      # the centroid's rounding can move a sub-pixel across the rim
    f2, e2 = F.aper_phot(make(c, flux=c["flux"] * c["a"], bg=0, err=err * c["a"]), **k, **kw(c, x, y))
    close(f2, f1 * c["a"], tol2, 0, "flux of a star %g times brighter" % c["a"])
    close(e2, e1 * c["a"], tol2, 0, "error with uncertainties %g times larger" % c["a"])
    s = c["fwhm"] / 2.354820045
    enc = 1 - np.exp(-c["rad"] ** 2 / (2 * s * s))
    tol = {"exact": 0.05, "subpixel": 0.06, "center": 0.25}[c["meth"]]
    close(f1 * c["fee"], c["flux"] * enc, tol, 0, "flux in the aperture")
    if c["meth"] != "center":
        close(e1 * c["fee"], np.sqrt(np.pi) * c["rad"] * c["e"] * np.sqrt(np.mean(r.uniform(0.1, 2, 100000) ** 2)), 0.5, 0, "error in the aperture")
    # moved by whole pixels with its uncertainties
    xs, ys = x + c["dx"], y + c["dy"]
    if 13 <= xs <= w - 14 and 13 <= ys <= h - 14:
        f3, e3 = F.aper_phot(make(c, bg=0, err=np.roll(err, (c["dy"], c["dx"]), (0, 1)), xy=(xs, ys)), **k, **kw(c, xs, ys))
        close(f3, f1, {"exact": 1e-6, "subpixel": 0.02, "center": 0.2}[c["meth"]], 0, "flux of the star moved by whole pixels")
        close(e3, e1, {"exact": 1e-6, "subpixel": 0.02, "center": 0.2}[c["meth"]], 0, "error of the star moved by whole pixels")
    # a swap of the axes
    t = make(c, bg=0, err=err.T.copy(), xy=(y, x), shape_=(w, h))
    f4, e4 = F.aper_phot(t, **k, **kw(c, y, x))
    close(f4, f1, {"exact": 1e-6, "subpixel": 0.02, "center": 0.2}[c["meth"]], 0, "flux after swapping the axes")
    close(e4, e1, {"exact": 1e-6, "subpixel": 0.02, "center": 0.2}[c["meth"]], 0, "error after swapping the axes")
    # background subtraction
    fb, eb, back = F.aper_phot(make(c, bg=0, err=err), background_sub=True, r_in=9, r_out=12, **k, **kw(c, x, y))
    fc, ec, back2 = F.aper_phot(make(c, err=err), background_sub=True, r_in=9, r_out=12, **k, **kw(c, x, y))
    if c["cen"] == "wcs":
        close(back2 - back, c["bg"], 1e-9, 1e-9 * (1 + c["flux"]), "background estimate")
        close(fc, fb, 1e-9, 1e-6 * (1 + abs(c["bg"])), "flux on a constant background")
        close(ec, eb, 1e-12, 0, "error on a constant background")
    close(back2, c["bg"], 1e-6, 1e-6 * c["flux"], "background estimate")
    require(abs(fb - f1) <= 1e-3 * c["flux"] / c["fee"], "subtracting no background changed the flux from {} to {}", f1, fb)
    rejects(lambda: F.aper_phot(one, 3, frac_enc_energy=0), (ValueError,), "an enclosed fraction of 0")
    rejects(lambda: F.aper_phot(one, 3, frac_enc_energy=1.001), (ValueError,), "an enclosed fraction above 1")
    rejects(lambda: F.aper_phot(one, 3, centering_method="nope"), (ValueError,), "an unknown centring method")


@PROP.sub("pixels", st.fixed_dictionaries({"shape": shape, "s": seeds, "px": st.integers(8, 22), "py": st.integers(8, 22), "rad": st.floats(1.1, 6), "ndq": st.integers(0, 8), "nerr": st.integers(0, 2), "bits": st.sampled_from([1, 2, 4, 128, 256]), "ox": st.integers(-3, 3), "oy": st.integers(-3, 3)}), 200, 2000)
def pixels(c, rec):
    """whole-pixel apertures: exact sums, errors in quadrature, flagged pixels left out, centre from the sky coordinates"""
    corgidrp.track_individual_errors = bool(c["s"] % 2)
    h, w = c["shape"]; r = rng(c["s"])
    px, py = c["px"], c["py"]
    d = r.normal(10, 5, (h, w)); e = r.uniform(0.1, 3, (h, w))
    dq = np.zeros((h, w), np.uint16)
    for _ in range(c["ndq"]):
        dq[py + r.integers(-5, 6), px + r.integers(-5, 6)] = c["bits"]
    f = P.star((h, w), px, py, 1., 3., err=e, dq=dq)
    f.data[:] = d
    # the target is offset from the reference pixel by whole pixels (1 pixel = CDELT)
    f.ext_hdr["CRPIX1"] = px - c["ox"]; f.ext_hdr["CRPIX2"] = py - c["oy"]
    from astropy.wcs import WCS
    sky = WCS(f.ext_hdr).wcs_pix2world([[px, py]], 1)[0]
    f.pri_hdr["RA"], f.pri_hdr["DEC"] = sky
    yy, xx = np.mgrid[:h, :w]
    rr = np.hypot(xx - px, yy - py)
    if np.any(np.abs(rr - c["rad"]) < 1e-4):
        rec.label("boundary"); c = dict(c, rad=c["rad"] + 3e-4)
    m = (rr < c["rad"]) & (dq == 0)
    rec.nt(m.any())
    fl, er = F.aper_phot(f, c["rad"], method="center", centering_method="wcs")
    close(fl, d[m].sum(), 1e-9, 1e-9, "sum over the aperture's unflagged pixels")
    close(er, np.sqrt((e[m] ** 2).sum()), 1e-9, 1e-12, "error over the aperture's unflagged pixels")
    # flagged pixels do not matter, whatever they hold
    g = f.copy(); g.data[dq > 0] = 1e9; g.err[0][dq > 0] = 1e9
    eq(np.array(F.aper_phot(g, c["rad"], method="center", centering_method="wcs", background_sub=True, r_in=6, r_out=8)),
       np.array(F.aper_phot(f, c["rad"], method="center", centering_method="wcs", background_sub=True, r_in=6, r_out=8)), "photometry with wild values in flagged pixels")
    # nor do they if they are bad (NaN), with the centre found on the image
    g.data[dq > 0] = np.nan; k = f.copy(); k.data[dq > 0] = 0
    if k.data[py - 3:py + 4, px - 3:px + 4].sum() > 20:
        o = dict(method="center", centering_method="xy", centroid_roi_radius=3, centering_initial_guess=(px, py))
        g.err[0][dq > 0] = 1
        close(np.array(F.aper_phot(g, c["rad"], **o)), np.array(F.aper_phot(k, c["rad"], **o)), 1e-9, 1e-9, "photometry with bad pixels")
    # uniform image, exact overlap
    u = f.copy(); u.data[:] = 3.0; u.err[:] = 2.0; u.dq[:] = 0
    fl, er = F.aper_phot(u, c["rad"], method="exact", centering_method="wcs")
    close(fl, 3 * np.pi * c["rad"] ** 2, 1e-9, 0, "sum over a uniform image")
    close(er, 2 * np.sqrt(np.pi) * c["rad"], 1e-9, 0, "error over a uniform image")
    fl, er, b = F.aper_phot(u, c["rad"], method="exact", centering_method="wcs", background_sub=True)
    close(np.array([fl, b]), np.array([0., 3.]), 1e-12, 1e-9, "uniform image, background subtracted")


@PROP.sub("gauss", st.fixed_dictionaries(dict(starc, a=st.floats(0.1, 100), e=st.floats(1e-3, 10), fit=st.sampled_from([None, None, 21, (23, 19), 25]), zero=st.booleans())), 100, 900, shards=2)
def gaussfit(c, rec):
    """Gaussian-fit photometry returns the star's flux for any position, brightness, background and image shape"""
    corgidrp.track_individual_errors = bool(c["s"] % 2)
    rec.nt()
    x, y = pos(c)
    fit = tuple(c["fit"]) if isinstance(c["fit"], (list, tuple)) else c["fit"]
    if c["cen"] != "wcs":
        c = dict(c, bg=0.0 if c["bg"] < 0 else min(c["bg"], 0.01 * c["flux"]))
    k = dict(fwhm=c["fwhm"], fit_shape=fit, **kw(c, x, y))
    err = 0.0 if c["zero"] else c["e"]
    f0 = make(c, bg=0, err=err); s0 = snap(f0)
    a = F.phot_by_gauss2d_fit(f0, **k)
    same(s0, snap(f0), "the measured image")
    close(a[0], c["flux"], 1e-3, 0, "fitted flux")
    b = F.phot_by_gauss2d_fit(make(c, flux=c["flux"] * c["a"], bg=0, err=err), **k)
    close(b[0], c["flux"] * c["a"], 1e-3, 0, "fitted flux of a star %g times brighter" % c["a"])
    n = make(c, bg=0, err=err); r = rng(c["s"])     # bad pixels, flagged or not
    for _ in range(3):
        i, j = int(y) + r.integers(-6, 7), int(x) + r.integers(-6, 7)
        n.data[i, j] = np.nan; n.dq[i, j] = 4 * r.integers(0, 2)
    close(F.phot_by_gauss2d_fit(n, **k)[0], c["flux"], 2e-3, 0, "fitted flux with bad pixels")
    d = F.phot_by_gauss2d_fit(make(c, err=err), background_sub=True, r_in=9, r_out=12, **k)
    close(d[0], c["flux"], 5e-3, 0, "fitted flux on a background")
    close(d[2], c["bg"], 1e-6, 1e-6 * c["flux"], "background estimate")
    rejects(lambda: F.phot_by_gauss2d_fit(f0, 3, centering_method="nope"), (ValueError,), "an unknown centring method")


@PROP.sub("factor", st.fixed_dictionaries(dict(starc, filt=st.sampled_from(sorted(P.FILTERS)), star=st.sampled_from(P.STARS), meth=st.sampled_from(["aper", "aper", "gauss"]), irr=st.booleans(), bsub=st.booleans(), e=st.floats(1e-3, 10), ds=st.integers(0, 3), a=st.floats(0.1, 100), default=st.booleans())), 120, 1000, shards=2)
def factor(c, rec):
    """flux-calibration factor: catalogue band flux over measured count rate, and back"""
    rec.nt()
    x, y = pos(c)
    c = dict(c, bg=0.0 if c["bg"] < 0 else min(c["bg"], 0.01 * c["flux"]))
    if not c["bsub"] or c["default"]:
        c = dict(c, bg=0.0)
    if c["meth"] == "aper":
        k = dict(encircled_radius=c["rad"], frac_enc_energy=c["fee"], method="subpixel", subpixels=5, background_sub=c["bsub"], r_in=9, r_out=12, **kw(c, x, y))
        fn, meas = F.calibrate_fluxcal_aper, F.aper_phot
    else:
        k = dict(fwhm=c["fwhm"], fit_shape=21, background_sub=c["bsub"], r_in=9, r_out=12, **kw(c, x, y))
        fn, meas = F.calibrate_fluxcal_gauss2d, F.phot_by_gauss2d_fit
    frame = lambda i, a=1.0: P.star(tuple(c["shape"]), x, y, c["flux"] * a, c["fwhm"], c["bg"], c["e"], filt=c["filt"], target=c["star"], fn=fname(i, "L2b"))
    f0 = frame(1)
    inp = f0 if c["ds"] == 0 else data.Dataset([f0] + [frame(1 + i, 1 + i) for i in range(1, c["ds"])])
    k0 = dict(k)
    dk = dict(encircled_radius=5, frac_enc_energy=1.0, method="subpixel", subpixels=5, centering_method="xy", centroid_roi_radius=5) if c["meth"] == "aper" else dict(fwhm=3, fit_shape=None, centering_method="xy", centroid_roi_radius=5)
    with P.archive(rec.dir, c["s"]):
        before = snap(inp)
        cal = fn(inp, "irr" if c["irr"] else "flux", None if c["default"] else k)
        same(before, snap(inp), "the input of the flux calibration")
        require(k == k0, "the photometry settings were changed: {}", k)
        res = meas(f0, **(dk if c["default"] else k))
        fl, er = res[0], res[1]
        w, t = P.curve(c["filt"]); s = P.sed_of(c["star"], c["s"])(w)
        want = integ(s * t, w) if c["irr"] else integ(s * t * w, w) / integ(t * w, w)
        require(isinstance(cal, data.FluxcalFactor) and cal.data.shape == (1, 1) and cal.err.shape == (1, 1, 1), "the product is {} of shape {}, {}", type(cal), cal.data.shape, cal.err.shape)
        close(cal.fluxcal_fac * fl, want, 6e-3, 0, "factor times measured counts (catalogue flux)")
        close(cal.fluxcal_err / cal.fluxcal_fac, er / fl, 1e-9, 0, "relative error of the factor")
        require(cal.filter == c["filt"] and cal.fluxcal_fac == cal.data[0, 0], "filter {} recorded for {}", cal.filter, c["filt"])
        require(("irr" if c["irr"] else "flux") and cal.ext_hdr["BUNIT"] == ("erg/(s * cm^2)/(electron/s)" if c["irr"] else "erg/(s * cm^2 * AA)/(electron/s)"), "unit {!r}", cal.ext_hdr["BUNIT"])
        require(cal.ext_hdr["DATATYPE"] == "FluxcalFactor" and cal.ext_hdr["DATALVL"] == "CAL", "product type {} level {}", cal.ext_hdr["DATATYPE"], cal.ext_hdr["DATALVL"])
        require(("LOCBACK" in cal.ext_hdr) == (c["bsub"] and not c["default"]), "LOCBACK present: {}", "LOCBACK" in cal.ext_hdr)
        if "LOCBACK" in cal.ext_hdr:
            close(cal.ext_hdr["LOCBACK"], c["bg"], 1e-6, 1e-6 * c["flux"], "recorded background")
        n = max(1, c["ds"])
        require(cal.ext_hdr["DRPNFILE"] == n and [cal.ext_hdr["FILE%d" % i] for i in range(n)] == [fname(1 + i, "L2b") for i in range(n)], "recorded parents")
        # a brighter image of the same star gives a proportionally smaller factor
        if not c["default"]:
            c2 = fn(frame(9, c["a"]), "irr" if c["irr"] else "flux", k)
            close(c2.fluxcal_fac * c["a"], cal.fluxcal_fac, 1e-2 if c["meth"] == "gauss" or c["bsub"] else 2e-2, 0, "factor from a star %g times brighter" % c["a"])
        if not c["irr"]:
            # applying the factor to the same star gives back its catalogue flux and magnitude
            with np.errstate(all="ignore"):
                out = T.determine_flux(data.Dataset([f0]), cal, "aperture" if c["meth"] == "aper" else "2dgauss", None if c["default"] else k)
            close(out[0].ext_hdr["FLUX"], want, 6e-3, 0, "flux of the standard star itself")
            v = P.sed_of("Vega", c["s"])(w); vb = integ(v * t * w, w) / integ(t * w, w)
            close(out[0].ext_hdr["APP_MAG"], -2.5 * np.log10(want / vb), 0, 0.01, "magnitude of the standard star itself")
        rejects(lambda: fn(inp, "nope", k), (ValueError,), "an unknown flux kind")
        bad = frame(3); bad.pri_hdr["TARGET"] = "Todesstern"
        rejects(lambda: fn(bad, "flux", k), (ValueError,), "a star that is not a standard")
