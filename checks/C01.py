"""C01: a dataset's cube and its frames are the same data, through any sequence of operations."""
from vf.common import *
from vf.core import Prop, require
import numpy as np

PROP = Prop("C01", "Random datasets (1-5 frames, 2-D or 3-D data, of integer and floating types, 1-3 error layers, random flags) driven through random "
            "sequences of in-place edits, whole-cube updates, error additions/rescalings, copies and slices, compared after every "
            "operation with a plain array model; non-trivial when at least two operations changed the state.")

ops = st.one_of(
    st.fixed_dictionaries({"op": st.just("update"), "data": st.booleans(), "err": st.sampled_from([0, 0, 1, 2, 3]), "dq": st.booleans(), "hdr": st.booleans(), "s": seeds}),
    st.fixed_dictionaries({"op": st.just("edit_frame"), "i": st.integers(0, 9), "what": st.sampled_from(["data", "err", "dq"]), "s": seeds}),
    st.fixed_dictionaries({"op": st.just("edit_cube"), "i": st.integers(0, 9), "what": st.sampled_from(["data", "err", "dq"]), "s": seeds}),
    st.fixed_dictionaries({"op": st.just("add_err"), "per_frame": st.booleans(), "s": seeds}),
    st.fixed_dictionaries({"op": st.just("scale_err"), "per_frame": st.booleans(), "s": seeds}),
    st.fixed_dictionaries({"op": st.just("copy")}),
    st.fixed_dictionaries({"op": st.just("slice"), "a": st.integers(0, 4), "b": st.integers(0, 4)}),
    st.fixed_dictionaries({"op": st.just("pick"), "idx": st.lists(st.integers(0, 9), min_size=1, max_size=4)}),
    st.fixed_dictionaries({"op": st.just("bad_update"), "which": st.sampled_from(["data", "err", "dq"]), "how": st.sampled_from(["more_frames", "rows", "cols"])}),
)

case = st.fixed_dictionaries({"n": st.integers(1, 5), "shape": small_shape, "cube": st.booleans(), "layers": st.integers(1, 3), "track": st.booleans(), "types": st.sampled_from(["f8 f8 u2", "f8 f8 u2", "f4 f4 i8", "i4 f8 u1", "u2 i4 u2", ">i2 >f4 >u2"]),
                              "s": seeds, "ops": st.lists(ops, min_size=1, max_size=7)})


def make(c):
    import corgidrp
    corgidrp.track_individual_errors = c["track"]
    r = rng(c["s"])
    shp = tuple(c["shape"])
    if c["cube"]:
        shp = (2,) + shp
    nl = c["layers"] if c["track"] else 1
    frames = []
    for i in range(c["n"]):
        td, te, tq = c["types"].split()
        frames.append(img((np.abs(r.normal(size=shp)) * 100).astype(td), err=(np.abs(r.normal(size=(nl,) + shp)) * 3).astype(te), dq=r.integers(0, 256 if tq == "u1" else 512, size=shp).astype(tq), filename=fname(i),
                          ext={"EXPTIME": float(i + 1)}))
    return frames


def check_sync(ds, m, what):
    require(len(ds) == len(m["data"]), "{}: len {} != {}", what, len(ds), len(m["data"]))
    eq(ds.all_data, m["data"], what + ": all_data")
    tol = m["tol"]
    close(ds.all_err, m["err"], tol, tol, what + ": all_err")
    eq(ds.all_dq, m["dq"], what + ": all_dq")
    for i, f in enumerate(ds):
        require(ds[i] is f, "{}: ds[{}] is not the iterated frame", what, i)
        require(ds.frames[i] is f, "{}: frames[{}] is not the iterated frame", what, i)
        eq(f.data, m["data"][i], "%s: frame %d data" % (what, i))
        close(f.err, m["err"][i], tol, tol, "%s: frame %d err" % (what, i))
        eq(f.dq, m["dq"][i], "%s: frame %d dq" % (what, i))
        require(f.data.size == 0 or np.shares_memory(f.data, ds.all_data), "{}: frame {} data is not a view of the cube", what, i)
        require(np.shares_memory(f.err, ds.all_err), "{}: frame {} err is not a view of the error cube", what, i)
        require(np.shares_memory(f.dq, ds.all_dq), "{}: frame {} dq is not a view of the DQ cube", what, i)
        require(f.filename == m["names"][i], "{}: frame {} filename {} != {}", what, i, f.filename, m["names"][i])
        require(f.ext_hdr["EXPTIME"] == m["exp"][i], "{}: frame {} header moved", what, i)


@PROP.sub("ops", case, 350, 6000)
def ops_(c, rec):
    import corgidrp
    frames = make(c)
    m = {"data": np.array([f.data for f in frames]), "err": np.array([f.err for f in frames]), "dq": np.array([f.dq for f in frames]),
         "names": [f.filename for f in frames], "exp": [f.ext_hdr["EXPTIME"] for f in frames], "tol": 1e-12 if frames[0].err.dtype.itemsize == 8 else 1e-5}
    ds = data.Dataset(frames)
    check_sync(ds, m, "new dataset")
    changed = 0
    for k, o in enumerate(c["ops"]):
        r = rng(o.get("s", 0))
        n = len(ds)
        shp = m["data"].shape[1:]
        w = "after %d:%s" % (k, o["op"])
        if o["op"] == "update":
            nd = r.normal(size=m["data"].shape) if o["data"] else None
            ne = np.abs(r.normal(size=(n, o["err"]) + shp)) if o["err"] else None
            nq = r.integers(0, 512, size=m["dq"].shape) if o["dq"] else None      # new values, fractions and flags that the type of the old ones cannot hold
            hd = {"MYKEY": k + 0.5} if o["hdr"] else None
            h0 = [hist(f) for f in ds]
            ds.update_after_processing_step("step %d done" % k, new_all_data=nd, new_all_err=ne, new_all_dq=nq, header_entries=hd)
            if nd is not None: m["data"] = nd.astype(m["data"].dtype) if m["data"].dtype.kind == "f" else nd.copy()
            if ne is not None: m["err"] = ne.copy()
            if nq is not None: m["dq"] = nq.copy()
            for f, h in zip(ds, h0):
                require(hist(f) == h + ["step %d done" % k], "{}: history is {}", w, hist(f))
                if hd: require(f.ext_hdr["MYKEY"] == k + 0.5 and f.err_hdr["MYKEY"] == k + 0.5, "{}: header entry missing", w)
            changed += 1
        elif o["op"] in ("edit_frame", "edit_cube"):
            i = o["i"] % n
            tgt = {"data": "data", "err": "err", "dq": "dq"}[o["what"]]
            idx = tuple(int(r.integers(0, q)) for q in m[tgt].shape[1:])
            v = int(r.integers(0, 256 if m[tgt].dtype.itemsize == 1 else 400))
            if o["op"] == "edit_frame":
                getattr(ds[i], tgt)[idx] = v
            else:
                getattr(ds, "all_" + tgt)[(i,) + idx] = v
            m[tgt][(i,) + idx] = v
            changed += 1
        elif o["op"] == "add_err":
            e = np.abs(r.normal(size=((n,) + shp) if o["per_frame"] else shp))
            ds.add_error_term(e, "term%d" % k)
            ee = e if o["per_frame"] else np.array([e] * n)
            new = m["err"].copy()
            new[:, 0] = np.sqrt(new[:, 0] ** 2 + ee ** 2)
            if corgidrp.track_individual_errors:
                new = np.concatenate([new, ee[:, None]], axis=1)
            m["err"] = new
            changed += 1
        elif o["op"] == "scale_err":
            if c["cube"]:
                continue
            e = np.abs(r.normal(size=((n,) + shp) if o["per_frame"] else shp)) + 0.1
            ds.rescale_error(e, "scale%d" % k)
            ee = e if o["per_frame"] else np.array([e] * n)
            m["err"] = m["err"] * ee[:, None]
            changed += 1
        elif o["op"] == "copy":
            old, oldsnap = ds, snap(ds)
            ds = ds.copy()
            for f, g in zip(old, ds):
                require(f is not g and not np.shares_memory(f.data, g.data), "{}: copied dataset shares data", w)
            ds.all_data[...] += 1
            m["data"] = m["data"] + 1
            same(oldsnap, snap(old), w + ": original of the copied dataset")
        elif o["op"] == "slice":
            a, b = sorted((o["a"] % (n + 1), o["b"] % (n + 1)))
            if a == b:
                continue
            ds = ds[a:b]
            for q in ("data", "err", "dq", "names", "exp"): m[q] = m[q][a:b]
        elif o["op"] == "pick":
            ii = sorted(set(i % n for i in o["idx"]))
            ds = ds[np.array(ii)]
            for q in ("data", "err", "dq"): m[q] = m[q][ii]
            m["names"] = [m["names"][i] for i in ii]; m["exp"] = [m["exp"][i] for i in ii]
        elif o["op"] == "bad_update":
            s = list(m[o["which"]].shape)
            s[{"more_frames": 0, "rows": -2, "cols": -1}[o["how"]]] += 1
            kw = {"new_all_" + o["which"]: np.zeros(s, dtype=m[o["which"]].dtype)}
            rejects(lambda: ds.update_after_processing_step("bad", **kw), (ValueError,), "an update with shape %s for %s %s" % (s, o["which"], m[o["which"]].shape))
        check_sync(ds, m, w)
        rec.label(o["op"])
    rec.nt(changed >= 2)


@PROP.sub("shapes", st.fixed_dictionaries({"shape": small_shape, "ndim": st.sampled_from([1, 2, 3]), "layers": st.integers(0, 4), "track": st.booleans(), "from_file": st.booleans(),
                                           "bad": st.sampled_from([None, "err_row", "err_col", "dq_row", "dq_col"]), "s": seeds}), 200, 2500)
def shapes(c, rec):
    """Every frame has err with one leading layer axis and a DQ map of the data's shape; mismatches are rejected."""
    import corgidrp
    corgidrp.track_individual_errors = c["track"]
    r = rng(c["s"])
    shp = {1: (c["shape"][0],), 2: tuple(c["shape"]), 3: (2,) + tuple(c["shape"])}[c["ndim"]]
    d = r.normal(size=shp)
    e = None if c["layers"] == 0 else np.abs(r.normal(size=shp if c["layers"] == 1 else (c["layers"] - 1,) + shp))
    q = r.integers(0, 300, size=shp).astype(np.uint16)
    bad = c["bad"]
    if bad and bad.endswith("col") and c["ndim"] == 1:
        bad = bad[:-3] + "row"
    if bad and bad.startswith("err") and e is None:
        e = np.ones(shp)
    if bad:
        ax = -1 if bad.endswith("col") or c["ndim"] == 1 else -2
        if bad.startswith("err"):
            e = np.concatenate([e, np.take(e, [0], axis=ax)], axis=ax)
        else:
            q = np.concatenate([q, np.take(q, [0], axis=ax)], axis=ax)
    p, h = hdrs("L2a")
    eh = fits.Header()
    nl = 1 if e is None or e.ndim == d.ndim else e.shape[0]
    for i in range(nl):
        eh["Layer_%d" % (i + 1)] = "combined_error" if i == 0 else "term%d" % i
    if c["from_file"]:
        base = data.Image(d.copy(), pri_hdr=p, ext_hdr=h)
        base.save(filedir=rec.dir, filename="b.fits")
        mk = lambda: data.Image(os.path.join(rec.dir, "b.fits"), err=e, dq=q, err_hdr=eh)
    else:
        mk = lambda: data.Image(d.copy(), pri_hdr=p, ext_hdr=h, err=e, dq=q, err_hdr=eh)
    rec.nt(bad is not None or (e is not None and e.ndim == d.ndim + 1))
    if bad:
        rejects(mk, (ValueError,), "a frame with data %s, err %s, dq %s" % (d.shape, None if e is None else e.shape, q.shape))
        return
    f = mk()
    eq(f.data, d, "data")
    want = np.zeros((1,) + shp) if e is None else (e[None] if e.ndim == d.ndim else (e if c["track"] else e[:1]))
    eq(f.err, want, "err")
    eq(f.dq, q, "dq")
    require([k for k in f.err_hdr if k.startswith("LAYER_")] == ["LAYER_%d" % (i + 1) for i in range(f.err.shape[0])], "error layer names {} for {} layers", [k for k in f.err_hdr if k.startswith("LAYER_")], f.err.shape[0])
    require(f.err_hdr["TRK_ERRS"] == c["track"], "TRK_ERRS header {}", f.err_hdr["TRK_ERRS"])


@PROP.sub("construct", st.fixed_dictionaries({"n": st.integers(1, 4), "shape": small_shape, "s": seeds}), 60, 600)
def construct(c, rec):
    """A dataset built from file paths equals one built from the frames, in the given order; an empty list is rejected."""
    r = rng(c["s"])
    frames, paths = [], []
    for i in range(c["n"]):
        f = img(r.normal(size=c["shape"]), err=np.abs(r.normal(size=c["shape"])), dq=r.integers(0, 99, size=c["shape"]).astype(np.uint16), filename="f%d_%d.fits" % (int(r.integers(0, 100)), i))
        f.save(filedir=rec.dir)
        frames.append(f); paths.append(f.filepath)
    a, b = data.Dataset(paths), data.Dataset(frames)
    for x in ("all_data", "all_err", "all_dq"):
        eq(getattr(a, x), getattr(b, x), x)
    require([f.filename for f in a] == [f.filename for f in frames], "order or names changed")
    require([f.filepath for f in a] == paths, "paths changed")
    rejects(lambda: data.Dataset([]), (ValueError,), "an empty dataset")
    rec.nt(c["n"] > 1)


@PROP.known("C01-subset-relinks")
def relinked(rec):
    """two frames of three are selected, then one is edited through the selection"""
    ds = data.Dataset([img(np.full((3, 3), float(i)), filename=fname(i)) for i in range(3)])
    sub = ds[0:2]
    sub.all_data[0] += 10
    eq(ds.all_data[0], ds.frames[0].data, "cube of the dataset the selection was made from, against its first frame")
