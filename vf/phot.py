"""Synthetic standard stars: spectra served in place of the CALSPEC download, and images of a Gaussian star."""
import os, contextlib, csv, glob
import urllib.request
import numpy as np
import astropy.io.fits as fits
import corgidrp
from corgidrp import fluxcal
from vf.common import img, rng

FILTERS = {os.path.basename(p).split("_")[2]: p for p in glob.glob(os.path.join(os.path.dirname(fluxcal.__file__), "data", "filter_curves", "*.csv"))}
STARS = sorted(fluxcal.calspec_names)
FILES = dict(fluxcal.calspec_names)


def curve(name):
    """(wavelength in Angstrom, transmission fraction) of a shipped filter, read independently"""
    rows = [r for r in csv.reader(l for l in open(FILTERS[name]) if not l.startswith("#"))]
    a = np.array([[float(x) for x in r[:2]] for r in rows[1:] if r])
    return a[:, 0] * 10, a[:, 1] / 100


def sed(p):
    """smooth positive spectrum: p = (level, slope, curvature)"""
    return lambda w: 1e-12 * p[0] * (w / 7000.0) ** p[1] * np.exp(p[2] * ((w - 7000.0) / 2000.0) ** 2)


def sed_of(star, seed):
    r = rng((seed, sum(map(ord, star))))
    return sed((float(10 ** r.uniform(-1, 2)), float(r.uniform(-4, 2)), float(r.uniform(-0.3, 0.3))))


def write_sed(path, f, lo=3000., hi=11000., step=2.0, extra=False):
    w = np.arange(lo, hi, step)
    cols = [fits.Column("WAVELENGTH", "D", array=w), fits.Column("FLUX", "E", array=f(w))]
    if extra:
        cols.append(fits.Column("STATERROR", "E", array=0 * w))
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(cols)]).writeto(path, overwrite=True)


@contextlib.contextmanager
def archive(d, seed, log=None):
    """Serve synthetic spectra for every CALSPEC file; files land under the scratch directory d."""
    old, oldc = urllib.request.urlretrieve, corgidrp.config_filepath
    names = {v: k for k, v in FILES.items()}

    def get(url, filename=None, *a, **k):
        if log is not None:
            log.append(url)
        star = names[os.path.basename(url)]
        write_sed(filename, sed_of(star, seed))
        return filename, None
    urllib.request.urlretrieve = get
    corgidrp.config_filepath = os.path.join(d, "corgidrp.cfg")
    try:
        yield
    finally:
        urllib.request.urlretrieve, corgidrp.config_filepath = old, oldc


def gauss(shape, x, y, flux, fwhm):
    """a round Gaussian star, integrated over each pixel"""
    from scipy.special import erf
    s = fwhm / (2 * np.sqrt(2 * np.log(2))) * np.sqrt(2)
    g = lambda n, c: (erf((np.arange(n) + 0.5 - c) / s) - erf((np.arange(n) - 0.5 - c) / s)) / 2
    return flux * np.outer(g(shape[0], y), g(shape[1], x))


def star(shape, x, y, flux, fwhm, bg=0., err=1., filt="3C", target="Vega", fpam="HOLE", h=2503.7, v=6124.9, fn=None, dq=None, level="L2b", ra=80.553428801, dec=-69.514096821, exptime=1.0, dtype=float):
    e = np.broadcast_to(np.asarray(err, float), shape).copy() if np.ndim(err) < 2 else err
    if corgidrp.track_individual_errors and np.ndim(e) == 2: e = np.array([e, 3 * e + 1, e * 0])      # the combined error and two of its parts
    f = img((gauss(shape, x, y, flux, fwhm) + bg).astype(dtype), level, err=e, dq=dq,
            pri={"TARGET": target, "RA": ra, "DEC": dec},
            ext={"CFAMNAME": filt, "FPAMNAME": fpam, "FPAM_H": h, "FPAM_V": v, "EXPTIME": exptime, "BUNIT": "photoelectron/s",
                 "CRPIX1": x, "CRPIX2": y, "CTYPE1": "RA---TAN", "CTYPE2": "DEC--TAN", "CDELT1": 21.8e-3 / 3600, "CDELT2": 21.8e-3 / 3600, "CRVAL1": ra, "CRVAL2": dec}, filename=fn)
    for k in ("CD1_1", "CD1_2", "CD2_1", "CD2_2", "PC1_1", "PC1_2", "PC2_1", "PC2_2"):
        if k in f.ext_hdr:
            del f.ext_hdr[k]
    return f
