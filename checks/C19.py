"""C19: bad-pixel correction."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.l2a_to_l2b import correct_bad_pixels
from vf.products import inputs

PROP = Prop("C19", "Random datasets with flag maps using any of the nine bits (and higher bits in wider types), random bad-pixel maps and float32/64 data: NaN positions, kept values, flags (no bit lost, replaced bit added), errors, "
            "idempotence and independence of frames. Non-trivial: some pixel flagged only by the map and some only by the frame.")
case = st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 4), "shape": small_shape, "frac": st.sampled_from([0.0, 0.1, 0.4, 1.0]), "bp": st.sampled_from([0.0, 0.1, 0.4, 1.0]), "f4": st.booleans(),
                              "bits": st.lists(st.sampled_from(DQ_BITS), min_size=1, max_size=9, unique=True), "bpbits": st.lists(st.sampled_from([1, 4, 8, 64, 128, 256]), min_size=1, max_size=3, unique=True), "nan": st.booleans()})


@PROP.sub("mask", case, 500, 8000, shards=2)
def mask(c, rec):
    shp = tuple(c["shape"]); fr = []
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        d = r.normal(size=shp).astype("f4" if c["f4"] else "f8")
        if c["nan"]: d[0, 0] = np.nan
        f = img(d, err=np.abs(r.normal(size=shp)), dq=dq_array(c["s"] + 10 + i, shp, c["frac"], c["bits"]), filename=fname(i))
        f.ext_hdr["HISTORY"] = "before"
        fr.append(f)
    ds = data.Dataset(fr)
    p, h = hdrs("L2b")
    bp = data.BadPixelMap(dq_array(c["s"] + 5, shp, c["bp"], c["bpbits"]), pri_hdr=p, ext_hdr=h, input_dataset=inputs(1, shp))
    s0, b0 = snap(ds), snap(bp)
    out = correct_bad_pixels(ds, bp)
    same(s0, snap(ds), "the input"); same(b0, snap(bp), "the bad-pixel map")
    tot = ds.all_dq | bp.data.astype(ds.all_dq.dtype)
    bad = tot != 0
    require(len(out) == c["n"] and [f.filename for f in out] == [fname(i) for i in range(c["n"])], "frames out")
    eq(out.all_data, np.where(bad, np.nan, ds.all_data), "data")
    eq(out.all_dq, np.where(bad, tot | 2, tot), "flags")
    eq(out.all_err, ds.all_err, "uncertainty")
    for i, f in enumerate(out):
        eq(f.data, out.all_data[i], "frame vs cube"); eq(f.dq, out.all_dq[i], "frame vs cube")
        require(f.dq.dtype == ds[i].dq.dtype, "flag type became {}", f.dq.dtype)
        hh = hist(f); require(hh[0] == "before" and len(hh) > 1, "history {}", hh)
    again = correct_bad_pixels(out, bp)
    eq(again.all_data, out.all_data, "second correction"); eq(again.all_dq, out.all_dq, "second correction: flags")
    rec.nt(bool((bp.data != 0).any()) and bool(((ds.all_dq != 0) & (bp.data == 0)).any()) and not bad.all())
    for b in c["bits"]: rec.label(b)
