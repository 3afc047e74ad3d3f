"""C04: uncertainty bookkeeping."""
from vf.common import *
from vf.core import Prop, require

PROP = Prop("C04", "Random frames/datasets and random sequences of error additions and rescalings (per frame or shared; zero, tiny, huge and NaN "
            "terms; tracking on or off; 2-D and 3-D data) compared with a layer-by-layer model, incl. names, history, permutation of terms and "
            "save/load in between; non-trivial with two or more terms.")

op = st.one_of(st.fixed_dictionaries({"op": st.just("add"), "per_frame": st.booleans(), "scale": st.sampled_from([0.0, 1e-8, 1.0, 3.0, 1e6]), "s": seeds}),
               st.fixed_dictionaries({"op": st.just("mul"), "per_frame": st.booleans(), "scale": st.sampled_from([0.0, 0.1, 1.0, 7.5]), "s": seeds}))
case = st.fixed_dictionaries({"n": st.integers(1, 3), "shape": small_shape, "cube": st.booleans(), "track": st.booleans(), "level": st.sampled_from(["frame", "dataset"]),
                              "init": st.booleans(), "ops": st.lists(op, min_size=1, max_size=6), "s": seeds, "reload": st.booleans(), "nan": st.booleans(), "whole": st.booleans()})


def build(c):
    r = rng(c["s"])
    shp = ((2,) if c["cube"] else ()) + tuple(c["shape"])
    fr = []
    for i in range(c["n"]):
        e = np.abs(r.normal(size=shp)) if c["init"] else None
        if c["whole"] and e is not None:    # uncertainties given as integers
            e = np.ceil(e * 5).astype(int)
        d = r.normal(size=shp)
        if c["nan"]:
            d.flat[0] = np.nan
        fr.append(img(d, err=e, filename="e%d.fits" % i))
    return data.Dataset(fr), shp


@PROP.sub("layers", case, 320, 5000)
def layers(c, rec):
    import corgidrp
    corgidrp.track_individual_errors = c["track"]
    ds, shp = build(c)
    model = [[f.err[0].copy()] for f in ds]
    names = ["combined_error"]
    hists = []
    d0, q0 = ds.all_data.copy(), ds.all_dq.copy()
    nadd = 0
    for k, o in enumerate(c["ops"]):
        r = rng(o["s"])
        per = o["per_frame"]
        t = np.abs(r.normal(size=((c["n"],) if per else ()) + shp)) * o["scale"]
        ts = t if per else np.array([t] * c["n"])
        keep = t.copy()
        if o["op"] == "add":
            if c["level"] == "dataset":
                ds.add_error_term(t, "term %d" % k)
            else:
                for f, x in zip(ds, ts):
                    f.add_error_term(x, "term %d" % k)
            for m, x in zip(model, ts):
                m[0] = np.sqrt(m[0] ** 2 + x ** 2)
                if c["track"]:
                    m.append(x.copy())
            if c["track"]:
                names.append("term %d" % k)
            nadd += 1
        else:
            if c["cube"]:
                continue
            if c["level"] == "dataset":
                ds.rescale_error(t, "scale %d" % k)
            else:
                for f, x in zip(ds, ts):
                    f.rescale_error(x, "scale %d" % k)
            model = [[l * x for l in m] for m, x in zip(model, ts)]
        hists.append(("term %d" if o["op"] == "add" else "scale %d") % k)
        eq(t, keep, "the error array passed in")
        for i, (f, m) in enumerate(zip(ds, model)):
            close(f.err, np.array(m), 1e-10, 1e-14, "frame %d err after %s" % (i, o["op"]))
            require(f.err_hdr["LAYER_1"] == "combined_error", "layer 1 is called {}", f.err_hdr["LAYER_1"])
            lay = [f.err_hdr["LAYER_%d" % (j + 1)] for j in range(len(names))]
            require(lay == names and "LAYER_%d" % (len(names) + 1) not in f.err_hdr, "layer names {}, expected {}", lay, names)
            h = " ".join(str(x) for x in f.err_hdr["HISTORY"])
            for nm in hists:
                require(nm in h, "error history {} lacks {}", h, nm)
        if c["level"] == "dataset":
            close(ds.all_err, np.array(model), 1e-10, 1e-14, "all_err")
            for i, f in enumerate(ds):
                require(np.shares_memory(f.err, ds.all_err), "frame err detached from the dataset")
    eq(ds.all_data, d0, "data"); eq(ds.all_dq, q0, "dq")
    if c["reload"]:
        for f, m in zip(ds, model):
            f.save(filedir=rec.dir)
            l = data.Image(f.filepath)
            close(l.err, np.array(m), 1e-10, 1e-14, "reloaded err")
            require(not hists or [l.err_hdr["LAYER_%d" % (j + 1)] for j in range(len(names))] == names, "reloaded layer names")
            # a frame with layers, read while tracking is off, keeps only the combined error
            corgidrp.track_individual_errors = False
            l = data.Image(f.filepath)
            close(l.err, np.array(m[:1]), 1e-10, 1e-14, "err read without tracking")
            require("LAYER_2" not in l.err_hdr, "layer names kept without tracking")
            corgidrp.track_individual_errors = c["track"]
    rec.nt(nadd >= 2); rec.label("track" if c["track"] else "notrack")


@PROP.sub("order", st.fixed_dictionaries({"shape": small_shape, "k": st.integers(2, 5), "perm": st.permutations(list(range(5))), "factor": st.floats(0.01, 100), "track": st.booleans(), "s": seeds}), 150, 2000)
def order(c, rec):
    """order of terms is irrelevant; scaling after adding equals adding scaled terms"""
    import corgidrp
    corgidrp.track_individual_errors = c["track"]
    r = rng(c["s"])
    terms = [np.abs(r.normal(size=c["shape"])) * 10 ** r.uniform(-2, 2) for _ in range(c["k"])]
    e0 = np.abs(r.normal(size=c["shape"]))
    a, b, s1, s2 = (img(np.zeros(c["shape"]), err=e0.copy()) for _ in range(4))
    fac = np.full(c["shape"], c["factor"])
    for i in range(c["k"]):
        a.add_error_term(terms[i], "t%d" % i)
        s1.add_error_term(terms[i], "t")
    s1.rescale_error(fac, "f")
    s2.rescale_error(fac, "f")
    for i in [j for j in c["perm"] if j < c["k"]]:
        b.add_error_term(terms[i], "t%d" % i)
        s2.add_error_term(terms[i] * c["factor"], "t")
    close(b.err[0], a.err[0], 1e-10, 0, "combined error in another order of terms")
    close(s2.err[0], s1.err[0], 1e-10, 0, "scaling commutes with adding")
    close(a.err[0], np.sqrt(e0 ** 2 + sum(t ** 2 for t in terms)), 1e-10, 0, "quadrature sum")
    rec.nt()


@PROP.sub("reject", st.fixed_dictionaries({"shape": small_shape, "n": st.integers(1, 3), "dim": st.sampled_from(["rows", "cols", "ndim0", "ndim4"]), "what": st.sampled_from(["add", "mul"]), "level": st.sampled_from(["frame", "dataset"])}), 100, 600)
def reject(c, rec):
    shp = list(c["shape"])
    ds = data.Dataset([img(np.zeros(c["shape"]), err=np.ones(c["shape"])) for _ in range(c["n"])])
    if c["dim"] == "rows": shp[0] += 1
    elif c["dim"] == "cols": shp[1] += 1
    elif c["dim"] == "ndim0": shp = shp[:1]
    else: shp = [1, 1] + shp
    t = np.ones(shp)
    tgt = ds if c["level"] == "dataset" else ds[0]
    s0 = snap(ds.all_err)
    rejects(lambda: (tgt.add_error_term if c["what"] == "add" else tgt.rescale_error)(t, "bad"), (ValueError,), "an error term of shape %s for data %s" % (shp, c["shape"]))
    require(snap(ds.all_err) == s0, "errors changed by a rejected term")
    rec.nt()
