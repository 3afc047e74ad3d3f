"""Watches calls of the code under test: every listed function is replaced, wherever it is bound, by a
wrapper that tells an observer about the outermost calls.  Used to judge relations that hold for *every*
call, on the calls that the generators of the other checks make."""
import sys, contextlib, importlib, inspect, types
import numpy as np
import astropy.io.fits as fits
import corgidrp.data as data
from vf.core import Rec

MODULES = ["l1_to_l2a", "l2a_to_l2b", "l2b_to_l3", "l3_to_l4", "l4_to_tda", "combine", "darks", "flat", "photon_counting", "sorting", "bad_pixel_calibration", "calibrate_kgain", "calibrate_nonlin",
           "pump_trap_calibration", "astrom", "fluxcal", "nd_filter_calibration", "corethroughput", "klip_fm", "find_source", "measure_companions", "detector", "star_center"]


def functions():
    """(qualified name, function) of every public function of the pipeline's modules"""
    out = []
    for m in MODULES:
        mod = importlib.import_module("corgidrp." + m)
        for k, f in sorted(vars(mod).items()):
            if isinstance(f, types.FunctionType) and f.__module__ == mod.__name__ and not k.startswith("_"):
                out.append((m + "." + k, f))
    return out


def methods():
    """(qualified name, class, attribute) of methods that analyse data they are given"""
    out = [("CoreThroughputCalibration." + k, data.CoreThroughputCalibration, k) for k in ("GetCTFPMPosition", "InterpolateCT", "GetPSF")]
    out += [("NDFilterSweetSpotDataset.interpolate_od", data.NDFilterSweetSpotDataset, "interpolate_od"), ("PyKLIPDataset", data.PyKLIPDataset, "__init__")]
    return [(n, c, k) for n, c, k in out if k in vars(c)]


@contextlib.contextmanager
def watching(observer, names=None):
    """observer(name, bound arguments) -> callback(result, exception) or None"""
    depth = [0]
    wrap = {}

    def wrapper(name, f):
        sig = inspect.signature(f)

        def g(*a, **k):
            if depth[0]:
                return f(*a, **k)
            try:
                b = sig.bind(*a, **k); b.apply_defaults()
            except TypeError:
                return f(*a, **k)
            done = observer(name, b.arguments)
            depth[0] += 1
            try:
                r = f(*a, **k)
            except Exception as e:
                if done:
                    done(None, e)
                raise
            finally:
                depth[0] -= 1
            if done:
                done(r, None)
            return r
        g.__wrapped__ = f
        g.__name__ = f.__name__; g.__module__ = f.__module__; g.__doc__ = f.__doc__
        return g
    for name, f in functions():
        if names is None or name in names:
            wrap[id(f)] = (f, wrapper(name, f))
    undo, undo_m = [], []
    for name, c, k in methods():
        if names is None or name in names:
            f = vars(c)[k]
            undo_m.append((c, k, f)); setattr(c, k, wrapper(name, f))
    for mn, m in list(sys.modules.items()):
        if m is None or not (mn == "corgidrp" or mn.startswith(("corgidrp.", "checks.", "vf."))) or mn == __name__:
            continue
        for k, v in list(vars(m).items()):
            if isinstance(v, types.FunctionType) and id(v) in wrap:
                undo.append((vars(m), k, v)); setattr(m, k, wrap[id(v)][1])
            elif isinstance(v, dict) and not k.startswith("__"):
                for kk, vv in list(v.items()):
                    if isinstance(vv, types.FunctionType) and id(vv) in wrap:
                        undo.append((v, kk, vv)); v[kk] = wrap[id(vv)][1]
    try:
        yield
    finally:
        for d, k, v in undo:
            d[k] = v
        for c, k, f in undo_m:
            setattr(c, k, f)


def parts(o, depth=0):
    """(what, array or header) of everything editable in a frame, a dataset or a collection of them"""
    if isinstance(o, data.Dataset):
        out = [("all_" + k, getattr(o, "all_" + k)) for k in ("data", "err", "dq")]
        for i, f in enumerate(o.frames):
            out += [("frame %d %s" % (i, w), x) for w, x in parts(f)]
        return out
    if isinstance(o, data.Image):
        out = []
        for k, v in vars(o).items():
            if isinstance(v, (np.ndarray, fits.Header)):
                out.append((k, v))
            elif isinstance(v, fits.HDUList):
                for h in v:
                    out += [(k + " " + h.name + " header", h.header)] + ([] if h.data is None else [(k + " " + h.name, h.data)])
        return out
    if isinstance(o, (list, tuple)) and depth < 3:
        return [x for e in o for x in parts(e, depth + 1)]
    if isinstance(o, dict) and depth < 3:
        return [x for e in o.values() for x in parts(e, depth + 1)]
    return []


def shared(a, b):
    """first editable part that two objects share, as text"""
    for wa, x in a:
        for wb, y in b:
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                if x.size and y.size and np.may_share_memory(x, y):
                    try:
                        if np.shares_memory(x, y, max_work=10000):
                            return "%s of the input is %s of the result" % (wa, wb)
                    except Exception:
                        pass
            elif isinstance(x, fits.Header) and x is y:
                return "%s of the input is %s of the result" % (wa, wb)
    return None


def drive(sub, case, rec, observer, names=None):
    """runs another check's case for the sake of the calls it makes; what that check itself says is not of interest here"""
    r = Rec(); r.dir = rec.dir
    with watching(observer, names):
        try:
            sub.fn(case, r)
        except Exception as e:
            if type(e).__module__.split(".")[0] == "hypothesis":
                raise
            rec.label("ends " + type(e).__name__)
