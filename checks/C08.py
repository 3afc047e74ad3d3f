"""C08: order, headers, history and flags through every frame-wise step."""
from vf.common import *
from vf.core import Prop, require, canon
from vf import watch
import importlib
from corgidrp import detector

PROP = Prop("C08", "The calls that the generators of the other checks make of every frame-wise step; before each call every frame is marked in both headers and gets random flags of all nine kinds on a few pixels; the result is compared frame by frame: order, marks, every earlier header card, the earlier history as the "
            "beginning of the new one, one more entry at least, and every flag. flag_nans/nan_flags and the bit conversions have generators of their own. Non-trivial: at least one call was judged.")

# step -> header keywords it is there to change
STEPS = {"l1_to_l2a.prescan_biassub": "NAXIS1 NAXIS2", "l1_to_l2a.detect_cosmic_rays": "FWC_PP_E FWC_EM_E SAT_DN", "l1_to_l2a.correct_nonlinearity": "", "l1_to_l2a.update_to_l2a": "DATALVL",
         "l2a_to_l2b.add_photon_noise": "", "l2a_to_l2b.convert_to_electrons": "BUNIT KGAINPAR KGAIN_ER RN RN_ERR", "l2a_to_l2b.correct_bad_pixels": "", "l2a_to_l2b.cti_correction": "CTI_CORR", "l2a_to_l2b.dark_subtraction": "BUNIT", "l2a_to_l2b.desmear": "DESMEAR",
         "l2a_to_l2b.em_gain_division": "BUNIT", "l2a_to_l2b.flat_division": "", "l2a_to_l2b.frame_select": "FRMSEL01 FRMSEL02 FRMSEL03 FRMSEL04 FRMSEL05 FRMSEL06 IS_BAD", "l2a_to_l2b.update_to_l2b": "DATALVL",
         "l2b_to_l3.create_wcs": "CD1_1 CD1_2 CD2_1 CD2_2 CRPIX1 CRPIX2 CTYPE1 CTYPE2 CDELT1 CDELT2 CRVAL1 CRVAL2 PLTSCALE", "l2b_to_l3.divide_by_exptime": "BUNIT", "l2b_to_l3.update_to_l3": "DATALVL",
         "l3_to_l4.crop": "NAXIS1 NAXIS2 NAXIS3 DETPIX0X DETPIX0Y STARLOCX STARLOCY CRPIX1 CRPIX2 MASKLOCX MASKLOCY", "l3_to_l4.distortion_correction": "", "l3_to_l4.find_star": "STARLOCX STARLOCY", "l3_to_l4.northup": "CD1_1 CD1_2 CD2_1 CD2_2 CRPIX1 CRPIX2 STARLOCX STARLOCY",
         "l3_to_l4.update_to_l4": "DATALVL CTCALFN FLXCALFN", "l4_to_tda.convert_to_flux": "BUNIT FLUXFAC", "l4_to_tda.determine_flux": "FLUXFAC LOCBACK FLUX FLUXERR APP_MAG MAGERR", "l4_to_tda.determine_app_mag": "APP_MAG", "l4_to_tda.determine_color_cor": "LAM_REF COL_COR", "l4_to_tda.update_to_tda": "DATALVL"}
TYPES = ["u2", "u2", "u2", "i8", "i8", "i4", "u4", "u1"]
STAMPS = {"DRPCTIME", "DRPVERSN", "HISTORY", "COMMENT", ""}
HDRS = ("pri_hdr", "ext_hdr", "err_hdr", "dq_hdr")


def cards(h):
    return {k: repr(h[k]) for k in h if k not in STAMPS}


def window(dq, out, name, before, after):
    """some placement of the cut-out keeps every flag inside it"""
    (H, W), (h, w) = dq.shape[-2:], out.shape[-2:]
    if "DETPIX0X" in after and name.endswith("crop"):
        y, x = [int(after["DETPIX0" + k]) - int(before.get("DETPIX0" + k, 0)) for k in "YX"]
        return bool(np.all((dq[..., y:y + h, x:x + w] & ~out) == 0))
    return any(np.all((dq[..., y:y + h, x:x + w] & ~out) == 0) for y in range(H - h + 1) for x in range(W - w + 1))


def judge(r, seen, bad):
    def observer(name, args):
        if name not in STEPS:
            return None
        ds = [v for v in args.values() if isinstance(v, data.Dataset)]
        if not ds or not len(ds[0]):
            return None
        ds = ds[0]
        short = name.split(".")[1]
        # flags beyond the nine of today, and flag maps of other integer types
        dt = np.dtype(r.choice(TYPES))
        q = np.asarray(ds.all_dq)
        if q.dtype.kind in "ui" and dt != q.dtype and q.min(initial=0) >= 0 and int(q.max(initial=0)) <= np.iinfo(dt).max:
            ds.all_dq = q.astype(dt)
            for f, x in zip(ds.frames, ds.all_dq):
                f.dq = x
        bits = r.choice([9, 9, 14, 30])
        bits = min(int(bits), ds.all_dq.dtype.itemsize * 8 - 1)
        for i, f in enumerate(ds.frames):
            for h in HDRS:
                getattr(f, h)["VFMARK"] = int(r.integers(1, 10 ** 6)) * 1000 + i
            f.ext_hdr["HISTORY"] = "earlier entry %d" % f.ext_hdr["VFMARK"]
            if f.dq is not None and f.dq.dtype.kind in "ui":
                n = max(2, f.dq.size // 25) if short in ("prescan_biassub", "crop") else int(r.integers(0, min(12, f.dq.size // 4) + 1))
                ix = np.unravel_index(r.choice(f.dq.size, n, replace=False), f.dq.shape)
                f.dq[ix] |= (1 << r.integers(0, bits, n)).astype(f.dq.dtype)
                if not np.shares_memory(f.dq, ds.all_dq):
                    ds.all_dq[i] = f.dq
        was = [(f.filename, {h: cards(getattr(f, h)) for h in HDRS}, hist(f), f.dq.copy(), f.ext_hdr.copy()) for f in ds.frames]

        def done(result, exc):
            if exc is not None:
                return
            seen.append(name)
            if not isinstance(result, data.Dataset):
                bad.append("%s gave a %s" % (name, type(result).__name__)); return
            order = [f.ext_hdr.get("VFMARK") for f in result.frames]
            marks = [int(w[1]["ext_hdr"]["VFMARK"]) for w in was]
            if short in ("frame_select", "find_star"):      # these leave frames out
                if [m for m in marks if m in order] != order:
                    bad.append("%s: frames %s became %s" % (name, marks, order)); return
            elif order != marks:
                bad.append("%s: frames %s became %s" % (name, marks, order)); return
            for f in result.frames:
                fn, hs, hi, dq, eh = was[marks.index(f.ext_hdr["VFMARK"])]
                if f.filename != fn and "DATALVL" not in STEPS[name]:
                    bad.append("%s: file name %s became %s" % (name, fn, f.filename))
                for h in HDRS:
                    new = cards(getattr(f, h))
                    for k, v in hs[h].items():
                        if k not in new:
                            bad.append("%s: %s keyword %s vanished" % (name, h, k))
                        elif new[k] != v and k not in STEPS[name].split() and not (h == "err_hdr" and k.startswith("LAYER_")):
                            bad.append("%s: %s keyword %s changed from %s to %s" % (name, h, k, v, new[k]))
                hn = hist(f)
                if hn[:len(hi)] != hi:
                    bad.append("%s: the earlier history %s became %s" % (name, hi[-3:], hn[-5:]))
                elif len(hn) == len(hi) and short != "cti_correction" and not (short == "correct_nonlinearity" and args["non_lin_correction"] is None):   # a step that does nothing yet, and one that was told to do nothing
                    bad.append("%s: no history entry was added" % name)
                if short == "northup":      # flags are rotated
                    continue
                if f.dq.shape == dq.shape:
                    lost = dq & ~f.dq
                    if lost.any():
                        ix = tuple(int(x) for x in np.argwhere(lost)[0])
                        bad.append("%s: flags %d of pixel %s became %d" % (name, dq[ix], ix, f.dq[ix]))
                elif short in ("crop", "prescan_biassub"):
                    if not window(dq, f.dq, name, eh, f.ext_hdr):
                        bad.append("%s: flags of the part that was cut out are lost" % name)
                else:
                    bad.append("%s: flag map of shape %s became %s" % (name, dq.shape, f.dq.shape))
        return done
    return observer


PLAN = {"C06": {"promote": 20}, "C12": {"model": 40}, "C13": {"flags": 40}, "C14": {"model": 40}, "C15": {"select": 60}, "C16": {"steps": 80, "scaling": 6}, "C17": {"synth": 24, "master": 24}, "C18": {"inverse": 30}, "C19": {"mask": 40}, "C22": {"exptime": 30, "wcs": 30, "distortion": 24}, "C23": {"window": 40, "nested": 10},
        "C24": {"rotate": 30}, "C25": {"find": 14}, "C34": {"factor": 10}, "C36": {"convert": 30, "flux": 20, "magnitude": 20}, "C11": {"compose": 40, "levels": 44}}
SHARDS = {"find": 7, "compose": 4, "levels": 4}

for _c in sorted(PLAN):
    _m = importlib.import_module("checks." + _c)
    _subs = {s.name: s for s in _m.PROP.subs}
    for _n, _k in PLAN[_c].items():
        def _fn(case, rec, sub=_subs[_n]):
            seen, bad = [], []
            watch.drive(sub, case, rec, judge(rng(int(hashlib.md5(canon(case).encode()).hexdigest()[:8], 16)), seen, bad))
            for n in seen:
                rec.label(n)
            rec.nt(bool(seen))
            require(not bad, "{}", "; ".join(bad[:3]))
        PROP.sub(_c + " " + _n, _subs[_n].strategy, _k, shards=SHARDS.get(_n, 1))(_fn)


@PROP.sub("nans", st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 3), "shape": small_shape, "cube": st.booleans(), "flag": st.sampled_from(DQ_BITS), "thr": st.sampled_from([1, 2, 4, 100, 512]), "wide": st.booleans()}), 60, 1000)
def nans(c, rec):
    """marking NaN pixels in the flags, and flagged pixels with NaN"""
    r = rng(c["s"])
    sh = tuple(([2] if c["cube"] else []) + c["shape"])
    fr = []
    for i in range(c["n"]):
        a = np.where(r.random(sh) < 0.3, np.nan, r.normal(size=sh))
        fr.append(img(a, dq=dq_array(c["s"] + i, sh, 0.4, DQ_BITS + [2 ** 17, 2 ** 40], np.int64) if c["wide"] else dq_array(c["s"] + i, sh, 0.4), filename=fname(i)))
    ds = dset(fr); a, q = ds.all_data.copy(), ds.all_dq.copy()
    rec.nt(bool(np.any(np.isnan(a) & (q > 0))))
    o = detector.flag_nans(ds, c["flag"])
    eq(o.all_dq, np.where(np.isnan(a), q | q.dtype.type(c["flag"]), q), "flags after flag_nans"); eq(o.all_data, a, "pixels after flag_nans")
    o = detector.nan_flags(ds, c["thr"])
    eq(o.all_dq, q, "flags after nan_flags"); eq(o.all_data, np.where(q >= c["thr"], np.nan, a), "pixels after nan_flags")
    for x, y in zip(o.frames, o.all_dq):
        eq(x.dq, y, "frame's flags")


@PROP.sub("bits", st.fixed_dictionaries({"s": seeds, "shape": st.lists(st.integers(1, 5), min_size=1, max_size=3), "v": st.lists(st.one_of(st.integers(0, 511), st.integers(0, 2 ** 16 - 1), st.integers(0, 2 ** 64 - 1)), min_size=1, max_size=6), "dt": st.sampled_from(["u2", "u4", "u8", ">u8", "i8"])}), 200, 4000)
def bits(c, rec):
    """flag values -> bits -> flag values, and names of bits"""
    big = c["dt"] in ("u8", ">u8")
    v = [x if big else x % (2 ** (15 if c["dt"] == "u2" else 31)) for x in c["v"]]
    n = int(np.prod(c["shape"]))
    a = np.array([v[i % len(v)] for i in range(n)], dtype=c["dt"]).reshape(c["shape"])
    b = data.unpackbits_64uint(a.copy()[..., None], axis=-1)
    eq(np.array(b.shape), np.array(list(c["shape"]) + [64]), "shape of the bits")
    for bit in range(64):
        eq(b[..., 63 - bit].astype(int), np.array([(int(x) >> bit) & 1 for x in a.ravel()]).reshape(c["shape"]), "bit %d" % bit)
    p = data.packbits_64uint(b, axis=-1)
    eq(p[..., 0].astype(np.uint64), a.astype(np.uint64), "values after unpacking and packing")
    rec.nt(bool(np.any(a)))
    f2b, f2v, v2f, b2f = data.get_flag_to_bit_map(), data.get_flag_to_value_map(), data.get_value_to_flag_map(), data.get_bit_to_flag_map()
    require(len(f2b) == 9 and set(f2b) == set(f2v) == set(v2f.values()) == set(b2f.values()), "names of the flags differ between the maps")
    for name, bit in f2b.items():
        require(f2v[name] == 2 ** bit and v2f[2 ** bit] == name and b2f[bit] == name, "flag {} of bit {}: {} {} {}", name, bit, f2v[name], v2f.get(2 ** bit), b2f.get(bit))
    require([b2f[k] for k in (2, 3, 5, 6, 7)] == ["bad_pixel", "hot_pixel", "full_well_saturated_pixel", "non_linear_pixel", "pixel_affected_by_cosmic_ray"], "meaning of the bits")


@PROP.sub("masked", st.fixed_dictionaries({"s": seeds, "shape": st.lists(st.integers(1, 6), min_size=2, max_size=3), "v": st.lists(st.one_of(st.just(0), st.sampled_from(DQ_BITS), st.integers(0, 2 ** 16 - 1), st.integers(0, 2 ** 40)), min_size=1, max_size=7), "dt": st.sampled_from(["u1", "u2", "u8", ">u2", "i4"]), "nan": st.booleans()}), 150, 2000)
def masked(c, rec):
    """the masked data hide exactly the flagged pixels, and the image stays as it is"""
    r = rng(c["s"])
    a = r.normal(size=c["shape"]); n = a.size
    if c["nan"]: a.flat[0] = np.nan
    q = np.array([x % 2 ** {"u1": 8, "i4": 31, "u8": 64}.get(c["dt"], 16) for x in c["v"]])[np.arange(n) % len(c["v"])].reshape(c["shape"]).astype(c["dt"])
    I = img(a, "L2b", filename=fname(0)); I.dq = q.copy()
    rec.nt(bool((q > 0).any() and (q == 0).any()))
    s0 = snap(I)
    m = I.get_masked_data()
    same(s0, snap(I), "the image")
    eq(np.ma.getmaskarray(m), q != 0, "mask"); eq(np.ma.getdata(m), a, "masked data")
    if (q == 0).any() and not (c["nan"] and q.flat[0] == 0):
        require(abs(m.mean() - a[q == 0].mean()) < 1e-12, "mean of the good pixels {}", m.mean())
