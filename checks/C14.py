"""C14: non-linearity correction."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.l1_to_l2a import correct_nonlinearity
from corgidrp.detector import get_relgains

PROP = Prop("C14", "Random relative-gain tables (2-6 gains, 2-8 count levels, uneven axes) and frames whose pixels lie inside, outside and exactly on the table's axes, with per-frame gains given as measured, applied or commanded: "
            "result compared with scalar bilinear interpolation clamped to the table; thresholds, invalid tables, tables of ones, saved-and-reloaded tables. Non-trivial: gains of the frames differ or pixels straddle the table edge.")


@st.composite
def cases(draw):
    return {"ng": draw(st.integers(2, 6)), "nc": draw(st.integers(2, 8)), "s": draw(seeds), "n": draw(st.integers(1, 4)), "shape": draw(small_shape),
            "gains": draw(st.lists(st.tuples(st.sampled_from(["EMGAIN_M", "EMGAIN_A", "EMGAIN_C"]), st.sampled_from(["node", "in", "below", "above", "one"])), min_size=4, max_size=4)),
            "thr": draw(st.sampled_from([None, 0.2, 0.5, 0.9])), "f4": draw(st.booleans()), "none": draw(st.integers(0, 9)) == 0, "reload": draw(st.booleans()), "nan": draw(st.booleans())}


def table(c, bad=None):
    r = rng(c["s"])
    g = np.cumsum(r.random(c["ng"]) * 100 + 0.5) + 0.5
    k = np.cumsum(r.random(c["nc"]) * 3000 + 1) - 500
    if c["s"] % 4 == 0: g = 1 + (g - g[0]) * 0.01
    if c["s"] % 4 == 1: k = k[0] + (k - k[0]) * 1e-3
    rel = 1 + 0.1 * r.normal(size=(c["nc"], c["ng"]))
    rel[0, :] = np.minimum(rel[0, :], 0.99); rel[-1, :] = np.maximum(rel[-1, :], 1.01)
    if bad == "gain":
        g[1] = g[0] - (0 if c["s"] % 2 else 1)
    elif bad == "count":
        k[-1] = k[-2]
    elif bad == "above":
        rel[:, c["s"] % c["ng"]] = 1.01
    elif bad == "below":
        rel[:, c["s"] % c["ng"]] = 0.97
    t = np.full((c["nc"] + 1, c["ng"] + 1), np.nan)
    t[0, 1:], t[1:, 0], t[1:, 1:] = g, k, rel
    return t


def nl(t):
    p, e = hdrs("L2a")
    ins = data.Dataset([img(np.zeros((2, 2)), level="L1", filename=fname(1, "L1"))])
    return data.NonLinearityCalibration(t, pri_hdr=p, ext_hdr=e, input_dataset=ins)


def interp1(x, xs, ys):
    if x != x: return x
    if x <= xs[0]: return ys[0]
    if x >= xs[-1]: return ys[-1]
    j = int(np.searchsorted(xs, x, side="right")) - 1
    f = (x - xs[j]) / (xs[j + 1] - xs[j])
    return ys[j] * (1 - f) + ys[j + 1] * f


def frames(c, t):
    r = rng(c["s"] ^ 5)
    g, k = t[0, 1:], t[1:, 0]
    fr, used = [], []
    for i in range(c["n"]):
        kw, where = c["gains"][i]
        v = {"node": g[r.integers(0, len(g))], "in": g[0] + r.random() * (g[-1] - g[0]), "below": max(0.01, g[0] * 0.5), "above": g[-1] * 1.7, "one": 1.0}[where]
        ext = {"EMGAIN_C": 3.0, "EMGAIN_A": -1.0}
        if kw == "EMGAIN_M": ext.update({"EMGAIN_M": v, "EMGAIN_A": 77.0})
        else: ext[kw] = v
        p, e = hdrs("L1", ext=ext)
        if kw != "EMGAIN_M" and "EMGAIN_M" in e: del e["EMGAIN_M"]
        a = r.uniform(k[0] - 500, k[-1] + 500, size=c["shape"])
        a.flat[0] = k[r.integers(0, len(k))]
        a = a.astype(np.float32 if c["f4"] else np.float64)
        if c["nan"]: a.flat[-1] = np.nan
        f = data.Image(a, pri_hdr=p, ext_hdr=e, err=np.abs(r.normal(size=c["shape"])), dq=dq_array(c["s"] + i, tuple(c["shape"])))
        f.filename = fname(i, "L1")
        fr.append(f); used.append(float(v))
    return data.Dataset(fr), used


@PROP.sub("model", cases(), 500, 8000)
def model(c, rec):
    t = table(c)
    cal = None if c["none"] else nl(t.copy())
    if cal is not None and c["reload"]:
        cal.save(filedir=rec.dir, filename="nl.fits")
        cal = data.NonLinearityCalibration(cal.filepath)
    ds, used = frames(c, t)
    thr = np.inf if c["thr"] is None else t[1, 0] + c["thr"] * (t[-1, 0] - t[1, 0])
    out = correct_nonlinearity(ds, cal, threshold=thr) if c["thr"] is not None else correct_nonlinearity(ds, cal)
    g, k, rel = t[0, 1:], t[1:, 0], t[1:, 1:]
    for i in range(c["n"]):
        curve = [interp1(used[i], g, rel[j]) for j in range(len(k))]
        a = ds[i].data
        want = np.array([x if cal is None else x * interp1(float(x), k, curve) for x in a.ravel().astype(float)]).reshape(a.shape)
        close(out[i].data, want, 1e-5 if c["f4"] else 1e-9, 1e-4 if c["f4"] else 1e-9, "corrected frame %d (gain %s as %s)" % (i, used[i], c["gains"][i][0]))
        eq(out[i].dq, ds[i].dq | np.where(a > thr, 64, 0), "flags of frame %d" % i)
        eq(out[i].err, ds[i].err, "uncertainty of frame %d" % i)
    rec.nt(len(set(used)) > 1 or c["n"] == 1)
    rec.label("none" if cal is None else "table")


@PROP.sub("ones", cases(), 60, 600)
def ones(c, rec):
    t = table(c); t[1:, 1:] = 1.0
    ds, _ = frames(c, t)
    close(correct_nonlinearity(ds, nl(t)).all_data, ds.all_data, 1e-6, 1e-12, "frames corrected with a table of ones")
    # one curve for all gains: the gain does not matter
    t = table(c); t[1:, 1:] = t[1:, 1:2]
    a = np.asarray(ds[0].data, dtype=float)
    x, y = get_relgains(a, t[0, 1], nl(t)), get_relgains(a, t[0, -1] * 2, nl(t))
    close(x, y, 1e-9, 0, "relative gains for a gain-independent table")
    rec.nt()


@PROP.sub("reject", st.fixed_dictionaries({"c": cases(), "bad": st.sampled_from(["gain", "count", "above", "below", "noemgain", "corner", "shape"])}), 120, 1000)
def reject(z, rec):
    c = z["c"]
    ds, _ = frames(c, table(c))
    if z["bad"] == "noemgain":
        del ds[0].ext_hdr["EMGAIN_C"]
        rejects(lambda: correct_nonlinearity(ds, nl(table(c))), (ValueError,), "a frame without commanded EM gain")
    elif z["bad"] == "corner":
        t = table(c); t[0, 0] = 0.0
        rejects(lambda: nl(t), (ValueError,), "a table whose corner is not NaN")
    elif z["bad"] == "shape":
        rejects(lambda: nl(np.full((1, 4), np.nan)), (ValueError,), "a 1x4 table")
    else:
        rejects(lambda: correct_nonlinearity(ds, nl(table(c, z["bad"]))), (ValueError,), "a table with a bad %s" % z["bad"])
    rec.nt(); rec.label(z["bad"])
