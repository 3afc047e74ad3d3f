"""C18: desmearing."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.l2a_to_l2b import desmear
import astropy.time as time

PROP = Prop("C18", "Random images (1-12 rows, 1-8 columns; 1-4 frames), per-frame exposure times and row read-out times over six decades: a smear applied by an independent forward model is removed, "
            "linearity, per-frame exposure times, first-row and zero-read-time cases. Non-trivial: smear larger than 1e-6 of the data.")

case = st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 4), "shape": st.tuples(st.integers(1, 12), st.integers(1, 8)).map(list), "row": st.sampled_from([0.0, 1e-6, 223.5e-6, 1e-3, 0.05, 0.5]),
                              "exp": st.lists(st.sampled_from([0.01, 0.1, 1.0, 2.5, 60.0, 5]), min_size=4, max_size=4), "f4": st.booleans()})


def params(row):
    return data.DetectorParams({"ROWREADT": row}, date_valid=time.Time("2023-11-01 00:00:00", scale="utc"))


def smear(img_, k):
    """frame transfer: every row, on its way out, collects k times the true image of all rows up to itself"""
    return img_ + k * np.cumsum(img_, axis=0)


@PROP.sub("inverse", case, 500, 8000, shards=2)
def inverse(c, rec):
    row = c["row"]
    fr, truth = [], []
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        t = r.random(c["shape"]) * 1000
        truth.append(t)
        # row r of the smeared frame = true row r plus (dt/T) x sum of true rows 0..r
        s = smear(t, row / c["exp"][i])
        f = img(s.astype("f4" if c["f4"] else "f8"), err=np.abs(r.normal(size=c["shape"])), dq=dq_array(c["s"] + i, tuple(c["shape"])), ext={"EXPTIME": c["exp"][i]}, filename=fname(i))
        f.ext_hdr["HISTORY"] = "before"
        fr.append(f)
    ds = data.Dataset(fr)
    dp = params(row)
    s0, p0 = snap(ds), snap(dp)
    out = desmear(ds, dp)
    same(s0, snap(ds), "the input"); same(p0, snap(dp), "the detector parameters")
    tol = 2e-4 if c["f4"] else 1e-9
    for i in range(c["n"]):
        close(out[i].data, truth[i], tol, tol * 1000 * (1 + 12 * row / c["exp"][i]), "desmeared frame %d" % i)
        eq(out[i].err, ds[i].err, "uncertainty"); eq(out[i].dq, ds[i].dq, "flags")
        eq(out[i].data, out.all_data[i], "cube")
        require(out[i].ext_hdr["DESMEAR"] is True or out[i].ext_hdr["DESMEAR"] == True, "DESMEAR is {}", out[i].ext_hdr["DESMEAR"])
        h = hist(out[i]); require(h[0] == "before" and len(h) > 1, "history {}", h)
        require(out[i].filename == fname(i), "order")
    rec.nt(any(row / e > 1e-6 for e in c["exp"][:c["n"]]) and c["shape"][0] > 1)
    rec.label("k>0.1" if max(row / e for e in c["exp"][:c["n"]]) > 0.1 else "k<=0.1")


@PROP.sub("whole", case, 40, 600)
def whole(c, rec):
    """whole numbers stored as integers are desmeared like the same numbers stored as floats"""
    dp = params(c["row"])
    r = rng(c["s"])
    a = r.integers(0, 1000, size=[c["n"]] + c["shape"])
    o = [desmear(data.Dataset([img(x.astype(t), ext={"EXPTIME": e}, filename=fname(i)) for i, (x, e) in enumerate(zip(a, c["exp"]))]), dp) for t in ("i4", "f8")]
    close(o[0].all_data, o[1].all_data, 1e-9, 1e-9, "desmeared integers")
    rec.nt(c["row"] > 0)


@PROP.sub("linear", case, 200, 3000)
def linear(c, rec):
    dp = params(c["row"])
    r = rng(c["s"])
    mk = lambda a: data.Dataset([img(x.copy(), ext={"EXPTIME": e}, filename=fname(i)) for i, (x, e) in enumerate(zip(a, c["exp"]))])
    a, b = r.normal(size=[c["n"]] + c["shape"]), r.normal(size=[c["n"]] + c["shape"])
    k = float(r.normal() * 3)
    o = desmear(mk(a + k * b), dp).all_data
    close(o, desmear(mk(a), dp).all_data + k * desmear(mk(b), dp).all_data, 1e-9, 1e-6 * (1 + max(c["row"] / e for e in c["exp"])), "desmear of a linear combination")
    oc = desmear(mk(a[:, :, ::-1]), dp).all_data
    eq(oc[:, :, ::-1], desmear(mk(a), dp).all_data, "desmear of mirrored columns")
    if c["row"] == 0:
        eq(desmear(mk(a), dp).all_data, a, "desmear with zero row time")
    rec.nt(c["row"] > 0)
