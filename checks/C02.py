"""C02: a copy is independent of its original (data on request, headers always)."""
from vf.common import *
from vf.products import make, KINDS, product_cases
from vf.core import Prop, require

PROP = Prop("C02", "A random instance of every data product (and datasets of them), copied with and without data copying, then every part of "
            "the copy is modified and the original compared with its snapshot, and the reverse; non-trivial when the copy carried values equal "
            "to the original before the modification and at least one header or array was changed after it.")

SKIP_HDR = {"DRPCTIME", "DRPVERSN", "SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "EXTEND", "XTENSION", "PCOUNT", "GCOUNT", "EXTNAME"}


def content(f, kind=None):
    """values of a frame that a copy has to reproduce"""
    r = {"type": type(f).__name__, "filename": f.filename, "filedir": f.filedir}
    for k in ("data", "err", "dq"):
        r[k] = snap(getattr(f, k))
    for k in ("pri_hdr", "ext_hdr", "err_hdr", "dq_hdr"):
        r[k] = [x for x in hdr_cards(getattr(f, k)) if x[0] not in ("DRPCTIME", "DRPVERSN")]
    r["hdus"] = snap(f.hdu_list)
    return r


def scribble_headers(f):
    for nm in ("pri_hdr", "ext_hdr", "err_hdr", "dq_hdr"):
        h = getattr(f, nm)
        h["SCRIB"] = 1
        h["HISTORY"] = "scribbled"
        for k in list(h.keys()):
            if k not in SKIP_HDR and k not in ("HISTORY", "COMMENT", "") and isinstance(h[k], (int, float)) and not isinstance(h[k], bool):
                h[k] = 12345
    f.filename = "scribble.fits"
    f.filedir = "/nowhere"


def scribble_data(f):
    for nm in ("data", "err", "dq"):
        a = getattr(f, nm)
        a[...] = 77
    for h in f.hdu_list:
        if h.data is not None:
            h.data[...] = 66
        h.header["SCRIB"] = 1


def add_ext(f):
    if hasattr(f, "hdu_names"):
        f.add_extension_hdu("SCRIBEXT", data=np.ones((2, 2)))


def only_stamps(before, after, what):
    """allow no change at all"""
    same(before, after, what)


@PROP.sub("image", [st.fixed_dictionaries({"p": p, "copy_data": st.booleans(), "modify_copy": st.booleans(), "how": st.sampled_from(["headers", "data", "both"])}) for p in product_cases], 250, 3500)
def image(c, rec):
    o, cls = make(c["p"])
    o.filedir = "somewhere"
    s0 = snap(o)
    ct0 = content(o)
    k = o.copy() if c["copy_data"] else o.copy(copy_data=False)
    # asking for a copy does not alter the original
    same(s0, snap(o), "original after copy()")
    require(type(k) is type(o) and k is not o, "copy has type {}", type(k))
    same(ct0, content(k), "content of the copy of a " + c["p"]["kind"])
    victim, watched = (k, o) if c["modify_copy"] else (o, k)
    w0 = snap(watched)
    how = c["how"] if c["copy_data"] else "headers"
    if how in ("headers", "both"):
        scribble_headers(victim)
        add_ext(victim)
    if how in ("data", "both"):
        scribble_data(victim)
    rec.nt(); rec.label(c["p"]["kind"]); rec.label("deep" if c["copy_data"] else "header-only")
    same(w0, snap(watched), "%s of a %s (copy_data=%s) after editing the other one's %s" % ("original" if c["modify_copy"] else "copy", c["p"]["kind"], c["copy_data"], how))


@PROP.sub("dataset", st.fixed_dictionaries({"n": st.integers(1, 4), "shape": small_shape, "copy_data": st.booleans(), "modify_copy": st.booleans(), "track": st.booleans(), "extra": st.booleans(), "s": seeds}), 120, 1500)
def dataset(c, rec):
    import corgidrp
    corgidrp.track_individual_errors = c["track"]
    r = rng(c["s"])
    hd = fits.HDUList([fits.ImageHDU(np.arange(6.).reshape(2, 3), name="EXTRA")]) if c["extra"] else None
    fr = [img(r.normal(size=c["shape"]), err=np.abs(r.normal(size=(2 if c["track"] else 1,) + tuple(c["shape"]))), dq=r.integers(0, 9, size=c["shape"]).astype(np.uint16), filename=fname(i), hdul=hd) for i in range(c["n"])]
    a = data.Dataset(fr)
    content0 = [content(f) for f in a]
    hs0 = [snap([f.pri_hdr, f.ext_hdr, f.err_hdr, f.dq_hdr, f.hdu_list]) for f in a]
    d0 = [a.all_data.copy(), a.all_err.copy(), a.all_dq.copy()]
    b = a.copy() if c["copy_data"] else a.copy(copy_data=False)
    require(len(b) == len(a), "length changed")
    for x, y in zip(content0, b):
        same(x, content(y), "content of the copied frame")
    same(hs0, [snap([f.pri_hdr, f.ext_hdr, f.err_hdr, f.dq_hdr, f.hdu_list]) for f in a], "original's headers after copy()")
    victim, watched = (b, a) if c["modify_copy"] else (a, b)
    hs = [snap([f.pri_hdr, f.ext_hdr, f.err_hdr, f.dq_hdr]) for f in watched]
    for f in victim:
        scribble_headers(f)
    if c["copy_data"]:
        victim.all_data[...] = 5; victim.all_err[...] = 6; victim.all_dq[...] = 7
        victim.update_after_processing_step("edited")
        for f in watched:
            require(not np.any([np.shares_memory(f.data, g.data) or np.shares_memory(f.err, g.err) or np.shares_memory(f.dq, g.dq) for g in victim]), "memory shared between copy and original")
        eq(watched.all_data, d0[0], "data of the untouched dataset"); eq(watched.all_err, d0[1], "err"); eq(watched.all_dq, d0[2], "dq")
    same(hs, [snap([f.pri_hdr, f.ext_hdr, f.err_hdr, f.dq_hdr]) for f in watched], "headers of the untouched dataset (copy_data=%s)" % c["copy_data"])
    rec.nt()
