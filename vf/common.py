"""Helpers shared by the checks: frame/dataset construction, state snapshots, array generators."""
import os, copy, datetime, hashlib
import numpy as np
import astropy.io.fits as fits
from hypothesis import strategies as st

import corgidrp
import corgidrp.data as data
import corgidrp.mocks as mocks
from vf.core import require, Violation

_settings0 = {k: getattr(corgidrp, k) for k in
              ("track_individual_errors", "skip_missing_cal_steps", "jit_calib_id", "caldb_filepath", "default_cal_dir")}
_attrs0 = set(vars(corgidrp))
_worker = {"caldb": None}


def reset_globals():
    for k, v in _settings0.items():
        setattr(corgidrp, k, v)
    if _worker["caldb"]:
        corgidrp.caldb_filepath = _worker["caldb"]


def enter_worker(wd):
    os.chdir(wd)
    _worker["caldb"] = os.path.join(wd, "caldb.csv")
    if os.path.exists(_settings0["caldb_filepath"]):
        import shutil
        shutil.copy(_settings0["caldb_filepath"], _worker["caldb"])
    reset_globals()


# ---------------------------------------------------------------- headers and frames
_cache = {}
_makers = {"L1": mocks.create_default_L1_headers, "L2a": mocks.create_default_L2a_headers,
           "L2b": mocks.create_default_L2b_headers, "L3": mocks.create_default_L3_headers,
           "L4": mocks.create_default_L4_headers, "TP": mocks.create_default_L1_TrapPump_headers}


def hdrs(level="L2a", arrtype="SCI", pri=None, ext=None):
    key = (level, arrtype)
    if key not in _cache:
        if level == "CAL":
            _cache[key] = mocks.create_default_calibration_product_headers()
        else:
            _cache[key] = _makers[level](arrtype)
    p, e = _cache[key]
    p, e = p.copy(), e.copy()
    for k, v in (pri or {}).items():
        p[k] = v
    for k, v in (ext or {}).items():
        e[k] = v
    return p, e


def fname(i, level="L2a", stamp="20250415T0305102"):
    return "CGI_%019d_%s_%s.fits" % (200000000000000000 + i, stamp, level if level in ("L2a", "L2b") else level + "_")


def img(arr, level="L2a", err=None, dq=None, pri=None, ext=None, filename=None, arrtype="SCI", err_hdr=None, dq_hdr=None, hdul=None, cls=None, **kw):
    p, e = hdrs(level, arrtype, pri, ext)
    cls = cls or data.Image
    if cls is data.Image:
        f = data.Image(arr, pri_hdr=p, ext_hdr=e, err=err, dq=dq, err_hdr=err_hdr, dq_hdr=dq_hdr, input_hdulist=hdul)
    else:
        f = cls(arr, pri_hdr=p, ext_hdr=e, **kw)
    if filename is not None:
        f.filename = filename
    return f


def dset(frames):
    return data.Dataset(frames)


# ---------------------------------------------------------------- snapshots
def _h(a):
    a = np.ascontiguousarray(a)
    return "%s%s%s" % (a.dtype.str, a.shape, hashlib.md5(a.tobytes()).hexdigest())


def hdr_cards(h):
    return [(c.keyword, repr(c.value), c.comment) for c in h.cards]


def snap(o):
    """A comparable value that captures the full observable state of a frame, dataset or argument."""
    if isinstance(o, data.Dataset):
        return {"type": "Dataset", "n": len(o.frames), "ids": [id(f) for f in o.frames], "all_data": _h(o.all_data), "all_err": _h(o.all_err),
                "all_dq": _h(o.all_dq), "frames": [snap(f) for f in o.frames]}
    if isinstance(o, data.Image):
        r = {"type": type(o).__name__}
        for k, v in sorted(vars(o).items()):
            r[k] = snap(v)
        return r
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return [snap(x) for x in o.ravel()]
        return _h(o)
    if isinstance(o, fits.Header):
        return hdr_cards(o)
    if isinstance(o, fits.HDUList):
        return [(h.name, None if h.data is None else _h(h.data), hdr_cards(h.header)) for h in o]
    if isinstance(o, dict):
        return {str(k): snap(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [snap(x) for x in o]
    return repr(o)


def diff(a, b, path=""):
    """First difference between two snapshots, as text (or None)."""
    if type(a) != type(b):
        return "%s: %r -> %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s: %s" % (path, k, "appeared" if k not in a else "vanished")
            d = diff(a[k], b[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        if len(a) != len(b):
            return "%s: length %d -> %d (%r)" % (path, len(a), len(b), (a + b)[-1])
        return None
    if a != b:
        return "%s: %r -> %r" % (path, a, b)
    return None


def same(a, b, what):
    d = diff(a, b)
    require(d is None, "{}: {}", what, d)


def hist(f):
    return [str(x) for x in f.ext_hdr.get("HISTORY", [])] if "HISTORY" in f.ext_hdr else []


# ---------------------------------------------------------------- arrays
seeds = st.integers(0, 2**32 - 1)


def rng(seed):
    return np.random.default_rng(seed)


def close(a, b, rtol=1e-9, atol=1e-9, what="arrays", equal_nan=True):
    a = np.asarray(a); b = np.asarray(b)
    require(a.shape == b.shape, "{}: shape {} != expected {}", what, a.shape, b.shape)
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    if not np.all(ok):
        i = tuple(int(x) for x in np.argwhere(~ok)[0]) if a.ndim else ()
        raise Violation("%s: at %s got %r, expected %r (%d of %d differ)" % (what, i, a[i], b[i], int((~ok).sum()), ok.size))


def eq(a, b, what="arrays"):
    a = np.asarray(a); b = np.asarray(b)
    require(a.shape == b.shape, "{}: shape {} != expected {}", what, a.shape, b.shape)
    ok = (a == b) | ((a != a) & (b != b))
    if not np.all(ok):
        i = tuple(int(x) for x in np.argwhere(~ok)[0]) if a.ndim else ()
        raise Violation("%s: at %s got %r, expected %r (%d of %d differ)" % (what, i, a[i], b[i], int((~ok).sum()), ok.size))


DQ_BITS = [1, 2, 4, 8, 16, 32, 64, 128, 256]


def dq_array(seed, shape, frac=0.2, bits=DQ_BITS, dtype=np.uint16):
    r = rng(seed)
    out = np.zeros(shape, dtype=dtype)
    for b in bits:
        out |= np.where(r.random(shape) < frac / max(1, len(bits)) * 2, np.dtype(dtype).type(b), np.dtype(dtype).type(0))
    return out


def rejects(fn, exc=(ValueError, TypeError, KeyError, IndexError, Exception), what="call"):
    try:
        fn()
    except exc:
        return True
    raise Violation("%s was accepted but must be rejected" % what)


small_shape = st.tuples(st.integers(2, 9), st.integers(2, 9)).map(list)
