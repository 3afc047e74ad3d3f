"""C16: k-gain conversion, EM-gain division, flat division, photon noise."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.l2a_to_l2b import convert_to_electrons, em_gain_division, flat_division, add_photon_noise
from vf.products import inputs
import corgidrp

PROP = Prop("C16", "Random datasets (1-4 frames, float32/64 data, 1-3 error layers, both tracking settings, gains by measured/applied/commanded keyword) through each step and through random sequences of steps, "
            "compared with an independent per-frame model of data, every error layer, flags and unit. Non-trivial: frames with different gains, or calibration with non-zero uncertainty.")

gain = st.tuples(st.sampled_from(["EMGAIN_M", "EMGAIN_A", "EMGAIN_C"]), st.sampled_from([1.0, 1.5, 0.99, 2.0, 10.0, 1000.0, 5999.5]))
case = st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 4), "shape": small_shape, "track": st.booleans(), "layers": st.integers(1, 3), "gains": st.lists(gain, min_size=4, max_size=4), "f4": st.integers(0, 5).map(lambda x: x == 0),
                              "neg": st.booleans(), "zero": st.booleans(), "steps": st.lists(st.sampled_from(["k", "g", "f", "p"]), min_size=1, max_size=4), "m_too": st.booleans()})


def frames(c):
    fr, gs = [], []
    nl = c["layers"] if c["track"] else 1
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        kw, v = c["gains"][i]
        ext = {"EMGAIN_C": 3.0, "EMGAIN_A": -1.0}
        if kw == "EMGAIN_M": ext.update({"EMGAIN_M": v, "EMGAIN_A": 77.0})
        elif kw == "EMGAIN_A": ext["EMGAIN_A"] = v
        else: ext["EMGAIN_C"] = v
        d = r.normal(size=c["shape"]) * 100 + (0 if c["neg"] else 1000)
        if c["zero"]: d[0, 0] = 0
        e = np.abs(r.normal(size=[nl] + list(c["shape"]))) + 0.1
        eh = fits.Header()
        for k in range(nl): eh["Layer_%d" % (k + 1)] = "combined_error" if k == 0 else "t%d" % k
        f = img(d.astype("f4" if c["f4"] else "f8"), err=e, dq=dq_array(c["s"] + 50 + i, tuple(c["shape"])), ext=ext, filename=fname(i), err_hdr=eh)
        f.ext_hdr["HISTORY"] = "before %d" % i
        fr.append(f); gs.append(v)
    return data.Dataset(fr), gs


def cals(c):
    r = rng(c["s"] ^ 4242)
    p, h = hdrs("L2b")
    h["RN"] = float(r.random() * 100); h["RN_ERR"] = float(r.random())
    k = data.KGain(np.array([[float(r.random() * 8 + 0.5)]]), err=np.array([[float(r.random())]]), pri_hdr=p, ext_hdr=h, input_dataset=inputs(1, (2, 2)))
    p, h = hdrs("L2b")
    fd = 1 + 0.2 * r.normal(size=c["shape"])
    fd[np.abs(fd) < 0.05] = 1
    if c["zero"]: fd[-1, -1] = 0
    f = data.FlatField(fd, pri_hdr=p, ext_hdr=h, input_dataset=inputs(1, (2, 2)))
    f.err = np.abs(r.normal(size=[1] + list(c["shape"])))
    return k, f


def model(step, m, gs, k, f, track):
    d, e, q = m["d"], m["e"], m["q"]
    if step == "k":
        kv, ke = k.value, float(np.ravel(k.error)[0])
        new = e * kv
        new[:, 0] = np.sqrt((kv * e[:, 0]) ** 2 + (d * ke) ** 2)
        m.update(d=d * kv, e=new, bunit="detected EM electrons")
    elif step == "g":
        g = np.array(gs)[:, None, None]
        m.update(d=d / g, e=e / g[:, None], bunit="detected electrons")
    elif step == "f":
        fl, fe = f.data, f.err[0]
        new = e / fl
        t = d * fe / fl ** 2
        new[:, 0] = np.sqrt(new[:, 0] ** 2 + t ** 2)
        if track: new = np.concatenate([new, t[:, None]], axis=1)
        q = q.copy(); q[:, fl == 0] |= 4
        m.update(d=d / fl, e=new, q=q, named="FlatField_error" if track else m["named"])
    elif step == "p":
        t = np.sqrt(np.where(d < 0, 0, d)) * np.sqrt(np.where(np.array(gs) > 1, 2, 1))[:, None, None]
        new = e.copy()
        new[:, 0] = np.sqrt(e[:, 0] ** 2 + t ** 2)
        if track: new = np.concatenate([new, t[:, None]], axis=1)
        m.update(e=new, named="photnoise_error" if track else m["named"])


def run(step, ds, k, f):
    return {"k": lambda: convert_to_electrons(ds, k), "g": lambda: em_gain_division(ds), "f": lambda: flat_division(ds, f), "p": lambda: add_photon_noise(ds)}[step]()


@PROP.sub("steps", case, 600, 12000, shards=3)
def steps(c, rec):
    corgidrp.track_individual_errors = c["track"]
    ds, gs = frames(c)
    k, f = cals(c)
    sk, sf = snap(k), snap(f)
    m = {"d": ds.all_data.astype(float), "e": ds.all_err.astype(float), "q": ds.all_dq.copy(), "bunit": ds[0].ext_hdr["BUNIT"], "named": None}
    fl0 = f.data == 0
    tol = 1e-4 if c["f4"] else 1e-9
    for j, s in enumerate(c["steps"]):
        s0 = snap(ds)
        out = run(s, ds, k, f)
        d = diff(dict(s0, ids=0), dict(snap(ds), ids=0)); require(d is None, "step {} changed its input: {}", s, d)
        with np.errstate(all="ignore"):
            model(s, m, gs, k, f, c["track"])
        w = "after %s" % "".join(c["steps"][:j + 1])
        ok = np.broadcast_to(~fl0 if "f" in c["steps"][:j + 1] else np.ones_like(fl0), m["d"].shape)
        require(out.all_err.shape == m["e"].shape, "{}: {} error layers, expected {}", w, out.all_err.shape, m["e"].shape)
        close(out.all_data[ok], m["d"][ok], tol, tol, w + ": data")
        for L in range(m["e"].shape[1]):
            close(out.all_err[:, L][ok], m["e"][:, L][ok], tol, tol, w + ": error layer %d" % L)
        eq(out.all_dq, m["q"], w + ": flags")
        for i, fr in enumerate(out):
            eq(fr.data, out.all_data[i], w + ": frame vs cube"); eq(fr.err, out.all_err[i], w + ": frame vs cube")
            require(fr.ext_hdr["BUNIT"] == m["bunit"], "{}: BUNIT {} expected {}", w, fr.ext_hdr["BUNIT"], m["bunit"])
            require("before %d" % i in hist(fr) and len(hist(fr)) >= j + 2, "{}: history {}", w, hist(fr))
            require(fr.filename == fname(i), "{}: frame {} is {}", w, i, fr.filename)
            if s == "k":
                h = fr.ext_hdr
                require(h["KGAINPAR"] == k.value and h["KGAIN_ER"] == float(np.ravel(k.error)[0]) and h["RN"] == k.ext_hdr["RN"] and h["RN_ERR"] == k.ext_hdr["RN_ERR"], "{}: k-gain keywords", w)
            if c["track"] and s in "fp":
                require(fr.err_hdr["LAYER_%d" % m["e"].shape[1]] == m["named"], "{}: layer named {}", w, fr.err_hdr["LAYER_%d" % m["e"].shape[1]])
        ds = out
        m["d"], m["e"] = ds.all_data.astype(float), ds.all_err.astype(float)
        rec.label(s)
    same(sk, snap(k), "the k-gain calibration"); same(sf, snap(f), "the flat")
    rec.nt(len(set(gs[:c["n"]])) > 1 or set(c["steps"]) & set("kf") != set())


@PROP.sub("scaling", case, 150, 3000)
def scaling(c, rec):
    """linear steps commute with scaling data and errors; a frame's result does not depend on its neighbours"""
    corgidrp.track_individual_errors = c["track"]
    c = dict(c, f4=False, zero=False)
    k, f = cals(c)
    a = float(rng(c["s"]).random() * 5 + 0.1)
    ds, gs = frames(c)
    ds2 = ds.copy(); ds2.all_data *= a; ds2.all_err *= a
    for s in "kgf":
        o1, o2 = run(s, ds, k, f), run(s, ds2, k, f)
        close(o2.all_data, o1.all_data * a, 1e-9, 1e-9, "step %s on data scaled by %g" % (s, a))
        close(o2.all_err, o1.all_err * a, 1e-9, 1e-9, "step %s on errors scaled by %g" % (s, a))
    for s in "kgfp":
        o1 = run(s, ds, k, f)
        i = c["n"] - 1
        o2 = run(s, data.Dataset([ds[i].copy()]), k, f)
        close(o2.all_data[0], o1.all_data[i], 0, 0, "frame alone: data"); close(o2.all_err[0], o1.all_err[i], 0, 0, "frame alone: errors")
    rec.nt()
