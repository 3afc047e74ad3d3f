"""C15: frame selection."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.l2a_to_l2b import frame_select

PROP = Prop("C15", "Random datasets of 1-7 frames with random flag maps (several flags per frame, also above the sixteenth bit), over-exposure and pointing keywords (values on, just below and above the thresholds) and random combinations of criteria: kept frames, order, "
            "bad marks, recorded criteria and reasons compared with a direct model. Non-trivial: at least one frame kept and one rejected.")

val = st.sampled_from([-10.0, -1.0, 0.0, 0.5, 1.0, 1.0000001, 2.0, 30.0])
thr = st.one_of(st.none(), st.sampled_from([-5.0, 0.0, 0.5, 1.0, 5.0]))
case = st.fixed_dictionaries({"fr": st.lists(st.fixed_dictionaries({"over": st.booleans(), "z": st.tuples(val, val, val, val), "fill": st.sampled_from([0, 0, 1, 3, 6, 12]), "bits": st.lists(st.sampled_from([1, 2, 4, 6, 7, 128, 130, 256, 1 << 15, 1 << 16, 1 << 20 | 4, 1 << 30]), min_size=1, max_size=3), "s": seeds}), min_size=1, max_size=7),
                              "frac": st.sampled_from([0.0, 1 / 12, 0.25, 0.3, 0.5, 0.99, 1.0]), "allow": st.sampled_from([0, 2, 4, 6, 128, 130, 511]), "over": st.booleans(), "rms": thr, "bias": thr, "discard": st.booleans(), "dqt": st.sampled_from(["u2", "u2", "u4", "i8", ">u4"]), "defaults": st.booleans()})


def flags(f, t):
    dq = np.zeros(12, dtype=t)
    bits = [b & (0xffff if t == "u2" else -1) or 1 for b in f["bits"]]
    for n, k in enumerate(rng(f["s"]).permutation(12)[:f["fill"]]):
        dq[k] = bits[n % len(bits)]
    return dq


def build(c):
    fr = []
    for i, f in enumerate(c["fr"]):
        dq = flags(f, c["dqt"])
        ext = dict(zip(("Z2VAR", "Z3VAR", "Z2RES", "Z3RES"), f["z"]))
        ext["OVEREXP"] = f["over"]
        x = img(rng(f["s"]).normal(size=(3, 4)), dq=dq.reshape(3, 4), err=np.abs(rng(f["s"]).normal(size=(3, 4))), ext=ext, filename=fname(i))
        x.ext_hdr["HISTORY"] = "before %d" % i
        fr.append(x)
    return data.Dataset(fr)


@PROP.sub("select", case, 600, 12000, shards=2)
def select(c, rec):
    if not c["defaults"] and c["rms"] is None and c["bias"] is None:
        pass
    ds = build(c)
    kw = {} if c["defaults"] else dict(bpix_frac=c["frac"], allowed_bpix=c["allow"], overexp=c["over"], tt_rms_thres=c["rms"], tt_bias_thres=c["bias"], discard_bad=c["discard"])
    frac, allow, over, rms, bias, disc = (1.0, 0, False, None, None, True) if c["defaults"] else (c["frac"], c["allow"], c["over"], c["rms"], c["bias"], c["discard"])
    bad = []
    for f in c["fr"]:
        why = []
        if frac < 1 and sum(int(v) & ~allow != 0 for v in flags(f, c["dqt"])) / 12 > frac: why.append("bad pix")
        if over and f["over"]: why.append("OVEREXP")
        for k, v, t in zip(("Z2VAR", "Z3VAR", "Z2RES", "Z3RES"), f["z"], (rms, rms, bias, bias)):
            if t is not None and v > t: why.append(k)
        bad.append(why)
    s0 = snap(ds)
    keep = [i for i, b in enumerate(bad) if not b]
    if not keep:
        rejects(lambda: frame_select(ds, **kw), (ValueError,), "a selection that leaves no frame")
        rec.label("none left"); return
    out = frame_select(ds, **kw)
    same(s0, snap(ds), "the input of frame_select")
    want = keep if disc else list(range(len(bad)))
    got = [f.filename for f in out]
    require(got == [fname(i) for i in want], "kept {}, expected {} (reasons {})", got, want, bad)
    for f, i in zip(out, want):
        eq(f.data, ds[i].data, "pixels"); eq(f.dq, ds[i].dq, "flags"); eq(f.err, ds[i].err, "err")
        require(bool(f.ext_hdr.get("IS_BAD", False)) == bool(bad[i]), "frame {} marked IS_BAD={} with reasons {}", i, f.ext_hdr.get("IS_BAD"), bad[i])
        require(f.ext_hdr["FRMSEL01"] == frac and bool(f.ext_hdr["FRMSEL02"]) == over, "criteria recorded as {} {}", f.ext_hdr["FRMSEL01"], f.ext_hdr["FRMSEL02"])
        for k, t in (("FRMSEL03", rms), ("FRMSEL04", rms), ("FRMSEL05", bias), ("FRMSEL06", bias)):
            v = f.ext_hdr[k]
            require((v is None or v == "" or isinstance(v, fits.card.Undefined)) if t is None else v == t, "{} records {}, threshold {}", k, v, t)
        h = hist(f)
        require(h[:1] == ["before %d" % i] or "before %d" % i in h, "earlier history lost")
        txt = "".join(h).replace(" ", "") # (long entries are stored in several cards, which drop the spaces where they meet)
        require(str(len(bad) - len(keep)) + "framesasbad" in txt, "history does not state {} rejected frames: {}", len(bad) - len(keep), txt)
        for j, b in enumerate(bad):
            if b:
                require(fname(j) in txt, "rejected frame {} not named in the history", j)
                for w in b:
                    require(w.replace(" ", "") in txt, "reason {} of frame {} not in the history {}", w, j, txt)
            else:
                require(fname(j) + "(" not in txt, "kept frame {} named as rejected", j)
    eq(out.all_data, ds.all_data[want], "cube")
    rec.nt(len(keep) < len(bad)); rec.label("discard" if disc else "mark")
