"""C03: saving a data product and loading it back gives the same product."""
from vf.common import *
from vf.products import make, KINDS, product_cases, DERIVED
from vf.core import Prop, require

PROP = Prop("C03", "Random instances of every data product class (float32/64 data, NaNs, 2-D/3-D arrays, multi-layer errors, 9-bit flags, extra "
            "extensions, long/bool/int/float/string header values, history) saved and loaded through the class, through the generic loader and through a "
            "dataset, twice; every loaded value is compared with the original. The calls that the generators of the other checks make are made again with every array in the byte order of FITS files, and must give the same result. Non-trivial: the file was written, read back and fully compared.")

STRUCT = {"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4", "EXTEND", "XTENSION", "PCOUNT", "GCOUNT", "BSCALE", "BZERO", "CHECKSUM", "DATASUM", "EXTNAME"}


def hdr_values(h):
    out = {}
    for c in h.cards:
        if c.keyword in STRUCT or c.keyword in ("", "HISTORY", "COMMENT"):
            continue
        out[c.keyword] = c.value
    return out


def cmp_hdr(a, b, what, loaded_extra=()):
    va, vb = hdr_values(a), hdr_values(b)
    for k, v in va.items():
        require(k in vb, "{}: keyword {} = {!r} lost", what, k, v)
        w = vb[k]
        if isinstance(v, bool) or isinstance(w, bool):
            require(isinstance(w, bool) and v == w, "{}: {} was {!r}, loaded {!r}", what, k, v, w)
        elif isinstance(v, (int, float)):
            require(isinstance(w, (int, float)) and abs(v - w) <= 1e-9 * abs(v), "{}: {} was {!r}, loaded {!r}", what, k, v, w)
        elif isinstance(v, str):
            require(isinstance(w, str) and v.rstrip() == w.rstrip(), "{}: {} was {!r}, loaded {!r}", what, k, v, w)
    for k in vb:
        require(k in va or k in loaded_extra, "{}: keyword {} = {!r} appeared", what, k, vb[k])
    ha = [str(x) for x in a["HISTORY"]] if "HISTORY" in a else []
    hb = [str(x) for x in b["HISTORY"]] if "HISTORY" in b else []
    require("".join(ha) == "".join(hb), "{}: history was {}, loaded {}", what, ha, hb)


def cmp_arr(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    eq(b, a, what)
    require(a.dtype.kind == b.dtype.kind and a.dtype.itemsize == b.dtype.itemsize, "{}: type {} became {}", what, a.dtype, b.dtype)


def cmp_frame(o, l, kind, what):
    require(type(l) is type(o), "{}: loaded as {}", what, type(l).__name__)
    cmp_arr(o.data, l.data, what + " data")
    oe = np.asarray(o.err)
    le = np.asarray(l.err)
    if oe.shape != le.shape and kind in ("DetectorParams", "FpamFsamCal"):
        oe = oe.reshape((1,) + oe.shape)
    cmp_arr(oe, le, what + " err")
    if kind != "KGain":
        cmp_arr(o.dq, l.dq, what + " dq")
    require(l.err.shape[1:] == l.data.shape, "{}: loaded err shape {} for data {}", what, l.err.shape, l.data.shape)
    require(l.dq.shape == l.data.shape, "{}: loaded dq shape {} for data {}", what, l.dq.shape, l.data.shape)
    cmp_hdr(o.pri_hdr, l.pri_hdr, what + " primary header", ("ORIGIN",))
    cmp_hdr(o.ext_hdr, l.ext_hdr, what + " image header", ("DESMEAR", "CTI_CORR", "IS_BAD", "RN", "RN_ERR", "PC_STAT"))
    cmp_hdr(o.err_hdr, l.err_hdr, what + " error header", ("TRK_ERRS",))
    if kind != "KGain":
        cmp_hdr(o.dq_hdr, l.dq_hdr, what + " DQ header")
        require([h.name for h in o.hdu_list] == [h.name for h in l.hdu_list], "{}: extensions {} became {}", what, [h.name for h in o.hdu_list], [h.name for h in l.hdu_list])
        for x, y in zip(o.hdu_list, l.hdu_list):
            cmp_arr(x.data, y.data, what + " extension " + x.name)
            cmp_hdr(x.header, y.header, what + " extension header " + x.name)
    for a in DERIVED.get(kind, []):
        u, v = getattr(o, a), getattr(l, a)
        if isinstance(u, fits.Header):
            cmp_hdr(u, v, what + " " + a)
        elif isinstance(u, (dict, str)):
            require(u == v if isinstance(u, str) else set(u) == set(v), "{}: {} was {!r}, loaded {!r}", what, a, u, v)
            if isinstance(u, dict):
                for k in u:
                    require(u[k] == v[k] or (u[k] is not None and abs(u[k] - v[k]) <= 1e-9 * abs(u[k])), "{}: {}[{}] was {!r}, loaded {!r}", what, a, k, u[k], v[k])
        else:
            close(v, u, 1e-9, 0, what + " " + a)


@PROP.sub("roundtrip", [st.fixed_dictionaries({"p": p, "long": st.integers(0, 300), "history": st.lists(st.text("abc XYZ_:0123.", min_size=1, max_size=150).filter(lambda t: t.strip()), max_size=3)}) for p in product_cases], 420, 5000, shards=3)
def roundtrip(c, rec):
    o, cls = make(c["p"])
    kind = c["p"]["kind"]
    o.ext_hdr["RECIPE"] = "r" * c["long"]
    for h in c["history"]:
        o.ext_hdr["HISTORY"] = h.strip()
    before = snap([o.data, o.err, o.dq, o.pri_hdr, o.ext_hdr, o.err_hdr, o.dq_hdr, o.hdu_list])
    o.save(filedir=rec.dir, filename="prod.fits")
    require(o.filepath == os.path.join(rec.dir, "prod.fits") and os.path.exists(o.filepath), "saved to {}", o.filepath)
    same(before, snap([o.data, o.err, o.dq, o.pri_hdr, o.ext_hdr, o.err_hdr, o.dq_hdr, o.hdu_list]), "content of the %s after saving it" % kind)
    l = cls(o.filepath)
    cmp_frame(o, l, kind, kind)
    require(l.filename == "prod.fits" and l.filedir == rec.dir and l.filepath == o.filepath, "loaded path {} / {}", l.filedir, l.filename)
    # generic loader
    if kind == "Image3D":
        rejects(lambda: data.autoload(o.filepath), (ValueError,), "generic loading of a 3-D frame without a type")
    else:
        cmp_frame(o, data.autoload(o.filepath), kind, "autoloaded " + kind)
    # a second trip changes nothing more; saving over an existing file replaces it
    l.save(filename="prod2.fits")
    cmp_frame(o, cls(l.filepath), kind, "re-saved " + kind)
    if cls is data.Image:
        o.data[...] = 3
        o.save()
        eq(data.Image(o.filepath).data, o.data, "data after overwriting the file")
    rec.nt(); rec.label(kind)


@PROP.sub("wrong_type", [st.fixed_dictionaries({"p": p, "as_": st.sampled_from([k for k in KINDS if not k.startswith("Image")])}) for p in product_cases], 120, 1500)
def wrong_type(c, rec):
    """Loading a file as a different calibration type is rejected; without a path headers are required."""
    o, cls = make(c["p"])
    o.save(filedir=rec.dir, filename="p.fits")
    other = getattr(data, c["as_"])
    if other is cls:
        other(o.filepath)
        return
    rejects(lambda: other(o.filepath), Exception, "a %s file loaded as %s" % (c["p"]["kind"], c["as_"]))
    rec.nt()


@PROP.sub("dataset", st.fixed_dictionaries({"n": st.integers(1, 5), "shape": small_shape, "names": st.booleans(), "s": seeds, "track": st.booleans()}), 90, 900)
def dataset(c, rec):
    import corgidrp
    corgidrp.track_individual_errors = c["track"]
    r = rng(c["s"])
    fr = []
    for i in range(c["n"]):
        eh = fits.Header(); eh["Layer_1"] = "combined_error"; eh["Layer_2"] = "b"
        fr.append(img(r.normal(size=c["shape"]), err=np.abs(r.normal(size=(2,) + tuple(c["shape"]))), dq=dq_array(c["s"] + i, tuple(c["shape"])), filename=fname(i), ext={"EXPTIME": i + 0.5}, err_hdr=eh))
    ds = data.Dataset(fr)
    names = ["x%d.fits" % i for i in range(c["n"])] if c["names"] else None
    ds.save(filedir=rec.dir, filenames=names)
    want = names or [fname(i) for i in range(c["n"])]
    require(sorted(os.listdir(rec.dir)) == sorted(want), "files written: {}", sorted(os.listdir(rec.dir)))
    back = data.Dataset([os.path.join(rec.dir, w) for w in want])
    for i in range(c["n"]):
        cmp_frame(ds[i], back[i], "Image", "frame %d" % i)
    rec.nt()


# ---- what is read back from disk (big-endian arrays) is processed like what is in memory -------------------------------------------
from vf import watch
import importlib, copy, inspect, random

STORED = {"C12": {"model": 12}, "C13": {"flags": 24}, "C14": {"model": 10}, "C15": {"select": 8}, "C16": {"steps": 12}, "C17": {"synth": 8, "master": 8}, "C18": {"inverse": 8}, "C19": {"mask": 8}, "C20": {"groups": 16}, "C21": {"stack": 8},
          "C22": {"exptime": 6, "wcs": 6, "distortion": 6}, "C23": {"window": 8}, "C24": {"rotate": 8}, "C25": {"find": 2}, "C26": {"scene": 2}, "C27": {"trad": 8, "lsq": 4}, "C28": {"map": 8, "flat": 8}, "C32": {"estimate": 6}, "C34": {"factor": 4},
          "C36": {"convert": 8, "flux": 8}, "C37": {"sources": 3}, "C38": {"inject": 8, "noise": 8}}


def swapped(v, depth=0):
    """a deep copy with the arrays in the byte order of FITS files"""
    def be(a):
        return a.astype(a.dtype.newbyteorder(">")) if isinstance(a, np.ndarray) and a.dtype.kind in "fiu" and a.dtype.itemsize > 1 else a
    if isinstance(v, data.Dataset):
        d = copy.deepcopy(v)
        for f in d.frames:
            for k, x in list(vars(f).items()):
                setattr(f, k, be(x))
        for k in ("data", "err", "dq"):
            cube = be(getattr(d, "all_" + k)); setattr(d, "all_" + k, cube)
            for f, x in zip(d.frames, cube):
                setattr(f, k, x)
        return d
    if isinstance(v, data.Image):
        d = copy.deepcopy(v)
        for k, x in list(vars(d).items()):
            setattr(d, k, be(x))
        return d
    if isinstance(v, (list, tuple)) and depth < 2 and any(isinstance(x, (data.Image, data.Dataset)) for x in v):
        return type(v)(swapped(x, depth + 1) for x in v)
    return copy.deepcopy(v)


def reread(bad, seen):
    fns = dict(watch.functions())

    def observer(name, args):
        if name not in fns or not any(isinstance(v, (data.Dataset, data.Image)) or (isinstance(v, (list, tuple)) and any(isinstance(x, (data.Dataset, data.Image)) for x in v)) for v in args.values()):
            return None
        f = fns[name]
        f = getattr(f, "__wrapped__", f)
        res = []
        for how in (copy.deepcopy, swapped):
            b = inspect.signature(f).bind_partial(); b.arguments.update({k: how(v) for k, v in args.items()})
            np.random.seed(1); random.seed(1)
            try:
                r = f(*b.args, **b.kwargs)
                res.append([(w, x) for w, x in watch.parts(r) if isinstance(x, np.ndarray)] + ([("array", r)] if isinstance(r, np.ndarray) else []))
            except Exception as e:
                res.append(e)
        seen.append(name)
        if isinstance(res[0], Exception) != isinstance(res[1], Exception):
            bad.append("%s: with arrays in memory %s, read from a file %s" % ((name,) + tuple(repr(r)[:150] if isinstance(r, Exception) else "a result" for r in res)))
        elif not isinstance(res[0], Exception):
            for (w, x), (_, y) in zip(*res):
                if x.dtype.kind in "fiub" and y.dtype.kind in "fiub":
                    a = 1e-6 * (1 + np.nanmax(np.abs(np.where(np.isfinite(x), x, 0)), initial=0))
                    if x.shape != y.shape or not np.allclose(x, y, rtol=1e-4, atol=1e-3 if x.dtype.itemsize < 8 and x.dtype.kind == "f" else a, equal_nan=True):
                        bad.append("%s: %s of the result differs when the arrays have the byte order of FITS files" % (name, w)); break
        return None
    return observer


for _c in sorted(STORED):
    _m = importlib.import_module("checks." + _c)
    _subs = {s.name: s for s in _m.PROP.subs}
    for _n, _k in STORED[_c].items():
        def _fn(case, rec, sub=_subs[_n]):
            seen, bad = [], []
            watch.drive(sub, case, rec, reread(bad, seen))
            for n in seen:
                rec.label(n)
            rec.nt(bool(seen))
            require(not bad, "{}", "; ".join(bad[:3]))
        PROP.sub("read " + _c + " " + _n, _subs[_n].strategy, _k, _k * 12)(_fn)
