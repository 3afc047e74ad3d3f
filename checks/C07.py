"""C07: inputs of processing steps are left alone."""
from vf.common import *
from vf.core import Prop, require
from vf import watch
import importlib

PROP = Prop("C07", "The calls that the generators of the other checks make of every step, calibration builder and analysis function; before and after each outermost call everything given to it is compared bit by bit (pixels, uncertainties, flags, cubes, every header card, history, names, "
            "extra extensions, lists, dictionaries, arrays), also when it raises, and the result is searched for pixels and headers shared with what was given. Non-trivial: at least one call was judged.")

# how many cases of which sub-check
PLAN = {"C06": {"promote": 8}, "C12": {"model": 20, "rowconst": 4}, "C13": {"flags": 24}, "C14": {"model": 20, "reject": 10}, "C15": {"select": 30}, "C16": {"steps": 40, "scaling": 6}, "C17": {"synth": 16, "master": 24, "rejects": 12}, "C18": {"inverse": 20}, "C19": {"mask": 20}, "C20": {"groups": 30, "mean_combine": 16},
        "C21": {"stack": 24, "count": 4, "converged": 4, "rejects": 11}, "C22": {"exptime": 16, "wcs": 16, "distortion": 12, "nan": 6}, "C23": {"window": 20, "nested": 8, "rejects": 4}, "C24": {"rotate": 20}, "C25": {"find": 4, "spots": 4}, "C26": {"scene": 16, "pyklip": 6, "rejects": 8}, "C27": {"lsq": 16, "trad": 20, "reject": 8},
        "C28": {"map": 16, "parts": 16, "flat": 12, "on sky": 8}, "C29": {"campaign": 16, "reject": 6}, "C30": {"kgain": 4, "nonlin": 8}, "C31": {"illumination": 8, "dipoles": 12, "analysis": 4, "table": 8}, "C32": {"estimate": 12, "product": 12, "interpolate": 12, "map": 10, "nearest_psf": 12, "one_d": 12},
        "C33": {"boresight": 10, "find": 8, "match": 10, "whole": 10, "centroid": 8, "offset": 8, "distortion": 6}, "C34": {"aperture": 16, "gauss": 12, "factor": 12}, "C35": {"calibration": 10, "interpolate": 16, "newlocation": 10, "factors": 10}, "C36": {"convert": 16, "flux": 12, "magnitude": 12},
        "C37": {"sources": 5, "companions": 8, "cropped": 10}, "C38": {"inject": 16, "noise": 12, "throughput": 4, "curve": 10}, "C11": {"compose": 24, "levels": 22}}

SHARDS = {"C25 find": 4, "C25 spots": 4, "C11 compose": 4, "C11 levels": 4, "C29 campaign": 4, "C30 kgain": 2, "C30 nonlin": 2, "C31 analysis": 4, "C21 stack": 2}

# helpers that are there to write into the header of the frame they are given
ANNOTATE = ("astrom.match_sources", "measure_companions.update_companion_location_in_cropped_image")


def judge(seen, bad, start=0):
    seen_ = [start]

    def observer(name, args):
        for v in args.values():
            if isinstance(v, data.Dataset) and seen_[0] % 2 == 0:       # frames may carry extensions of their own
                for f in v.frames:
                    if "EXTRA" not in f.hdu_names:
                        f.add_extension_hdu("EXTRA", data=np.arange(6.).reshape(2, 3))
        seen_[0] += 1
        before = {k: snap(v) for k, v in args.items()}
        pin = [x for v in args.values() for x in parts(v)]

        def done(result, exc):
            seen.append(name)
            for k, v in args.items():
                if k == "image" and name in ANNOTATE or name == "PyKLIPDataset" and k == "self":
                    continue
                d = diff(before[k], snap(v), k)
                if d:
                    bad.append("%s changed its argument%s: %s" % (name, " (and raised)" if exc else "", d))
            s = None if name in ANNOTATE else watch.shared([p for p in pin if not (".update_to_" in name and isinstance(p[1], np.ndarray) and "hdu_list" not in p[0])], parts(result))
            if s:
                bad.append("%s: %s" % (name, s))
        return done
    return observer


parts = watch.parts

for _c in sorted(PLAN):
    _m = importlib.import_module("checks." + _c)
    _subs = {s.name: s for s in _m.PROP.subs}
    for _n, _k in PLAN[_c].items():
        def _fn(case, rec, sub=_subs[_n]):
            seen, bad = [], []
            watch.drive(sub, case, rec, judge(seen, bad, len(repr(case))))
            for n in seen:
                rec.label(n)
            rec.nt(bool(seen))
            require(not bad, "{}", "; ".join(bad[:3]))
        PROP.sub(_c + " " + _n, _subs[_n].strategy, _k, shards=SHARDS.get(_c + " " + _n, 1))(_fn)
