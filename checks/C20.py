"""C20: combining frames."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.combine import combine_subexposures, combine_images
from corgidrp.darks import mean_combine
import corgidrp

PROP = Prop("C20", "Random stacks (1-8 frames, flags with all bits, error layers) with all group sizes, both collapse modes and scalings: compared with a per-pixel masked model, order-permutation and grouping relations, headers and provenance; "
            "mean_combine against a scalar model. Non-trivial: some pixel has a partly flagged stack.")

case = st.fixed_dictionaries({"s": seeds, "n": st.sampled_from([6, 4, 8, 3, 5, 7, 2, 1]), "shape": small_shape, "grp": st.sampled_from([3, 2, 0, 4, 1, 5, 6, 7, 8]), "collapse": st.sampled_from(["mean", "median", "Mean", "MEDIAN"]), "scale": st.booleans(), "defaults": st.integers(0, 6).map(lambda x: x == 0),
                              "frac": st.sampled_from([0.3, 0.1, 0.5, 0.95, 0.0]), "track": st.booleans(), "layers": st.integers(1, 3)})


def frames(c):
    fr = []
    nl = c["layers"] if c["track"] else 1
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        eh = fits.Header()
        for k in range(nl): eh["Layer_%d" % (k + 1)] = "combined_error" if k == 0 else "t%d" % k
        f = img(r.normal(size=c["shape"]) * 100, err=np.abs(r.normal(size=[nl] + c["shape"])), dq=dq_array(c["s"] + 30 + i, tuple(c["shape"]), c["frac"], bits=DQ_BITS[i % 3::3]), filename=fname(i), err_hdr=eh, ext={"MARK": i, "EXPTIME": 1.0 + i})
        f.ext_hdr["HISTORY"] = "before %d" % i
        f.err_hdr["MARK"] = i; f.dq_hdr["MARK"] = i; f.pri_hdr["MARK"] = i
        f.add_extension_hdu("BIAS", data=np.full(3, float(i)))
        fr.append(f)
    return data.Dataset(fr)


def model(d, e, q, collapse, scale):
    n, ny, nx = d.shape
    D, E, Q = np.full((ny, nx), np.nan), np.full((e.shape[1], ny, nx), np.nan), np.zeros((ny, nx), dtype=q.dtype)
    k = n if scale else 1
    for y in range(ny):
        for x in range(nx):
            good = [i for i in range(n) if q[i, y, x] == 0]
            if not good:
                for i in range(n): Q[y, x] |= q[i, y, x]
                continue
            v = [d[i, y, x] for i in good]
            if collapse == "mean": D[y, x] = sum(v) / len(v) * k
            else:
                v = sorted(v); h = len(v) // 2
                D[y, x] = (v[h] if len(v) % 2 else 0.5 * (v[h - 1] + v[h])) * k
            f = k / len(v) * (1 if collapse == "mean" else np.sqrt(np.pi / 2))
            E[:, y, x] = np.sqrt(sum(e[i, :, y, x] ** 2 for i in good)) * f
    return D, E, Q


@PROP.sub("groups", case, 400, 6000, shards=3)
def groups(c, rec):
    corgidrp.track_individual_errors = c["track"]
    ds = frames(c)
    s0 = snap(ds)
    kw = {} if c["defaults"] else {"num_frames_per_group": c["grp"] or None, "collapse": c["collapse"], "num_frames_scaling": c["scale"]}
    if c["grp"] and c["n"] % c["grp"] and c["s"] % 4:      # mostly use group sizes that divide the number of frames
        ds = data.Dataset([f for f in frames(dict(c, n=c["grp"] * (1 if c["n"] < 5 else 2)))]); c = dict(c, n=len(ds)); s0 = snap(ds)
    g = c["n"] if c["defaults"] or c["grp"] == 0 else c["grp"]
    col, scale = ("mean", True) if c["defaults"] else (c["collapse"].lower(), c["scale"])
    if c["n"] % g:
        rejects(lambda: combine_subexposures(ds, **kw), (ValueError,), "%d frames in groups of %d" % (c["n"], g)); rec.label("reject"); return
    out = combine_subexposures(ds, **kw)
    same(s0, snap(ds), "the input")
    require(len(out) == c["n"] // g, "{} frames from {} in groups of {}", len(out), c["n"], g)
    part = False
    for j, f in enumerate(out):
        sl = slice(j * g, (j + 1) * g)
        D, E, Q = model(ds.all_data[sl], ds.all_err[sl], ds.all_dq[sl], col, scale)
        close(f.data, D, 1e-9, 1e-9, "combined data of group %d" % j)
        close(f.err, E, 1e-9, 1e-12, "combined uncertainty of group %d" % j)
        eq(f.dq, Q, "combined flags of group %d" % j)
        eq(f.data, out.all_data[j], "cube"); eq(f.dq, out.all_dq[j], "cube")
        require(f.ext_hdr["NUM_FR"] == g, "NUM_FR {}", f.ext_hdr["NUM_FR"])
        require(f.ext_hdr["MARK"] == j * g, "headers come from frame {}, expected the first of the group {}", f.ext_hdr["MARK"], j * g)
        for nm, h in (("primary", f.pri_hdr), ("uncertainty", f.err_hdr), ("flag", f.dq_hdr)):
            require(h["MARK"] == j * g, "the {} header comes from frame {}, expected the first of the group {}", nm, h["MARK"], j * g)
        require(np.all(f.hdu_list["BIAS"].data == j * g), "the extension holds {} instead of that of frame {}", f.hdu_list["BIAS"].data, j * g)
        require(f.filename == fname((j + 1) * g - 1), "named {}", f.filename)
        want = [fname(i) for i in range(j * g, (j + 1) * g)]
        got = [f.ext_hdr["FILE%d" % i] for i in range(g)]
        require(got == want and f.ext_hdr["DRPNFILE"] == g, "parents {}", got)
        h = hist(f); require("before %d" % (j * g) in h and len(h) > 1, "history {}", h)
        for i in range(j * g, (j + 1) * g):
            require(not np.shares_memory(f.data, ds[i].data), "result shares pixels with the input")
        q = ds.all_dq[sl] != 0
        part |= bool((q.any(axis=0) & ~q.all(axis=0)).any())
    rec.nt(part); rec.label("%s g=%d" % (col, g))


@PROP.sub("order", case, 200, 3000, shards=2)
def order(c, rec):
    """the combination does not depend on the order of the frames; a stack of identical good frames gives that frame"""
    ds = frames(c)
    r = rng(c["s"] ^ 3)
    p = r.permutation(c["n"])
    col = c["collapse"].lower()
    a = combine_images(ds.all_data.copy(), ds.all_err.copy(), ds.all_dq.copy(), col, c["scale"])
    b = combine_images(ds.all_data[p], ds.all_err[p], ds.all_dq[p], col, c["scale"])
    close(b[0], a[0], 1e-9, 1e-9, "data after permutation"); close(b[1], a[1], 1e-9, 1e-9, "uncertainty after permutation"); eq(b[2], a[2], "flags after permutation")
    d = np.array([ds.all_data[0]] * c["n"])
    e = np.array([ds.all_err[0]] * c["n"])
    s = combine_images(d.copy(), e, np.zeros_like(ds.all_dq), col, False)
    close(s[0], d[0], 1e-12, 1e-12, "combination of identical frames"); eq(s[2], np.zeros(c["shape"], dtype=s[2].dtype), "flags")
    rejects(lambda: combine_subexposures(ds, collapse="mode"), (ValueError,), "collapse='mode'")
    rec.nt(c["n"] > 1)


@PROP.sub("mean_combine", st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 6), "shape": small_shape, "frac": st.sampled_from([0.5, 0.2, 0.9, 0]), "err": st.booleans(), "form": st.sampled_from(["list", "stack", "single"]), "bad": st.sampled_from([None, None, None, "value", "dtype", "shape", "len", "empty"])}), 300, 4000)
def meanc(c, rec):
    r = rng(c["s"])
    n = 1 if c["form"] == "single" else c["n"]
    ims = r.normal(size=[n] + c["shape"]); ms = (r.random(size=[n] + c["shape"]) < c["frac"]).astype(int)
    i0, m0 = ims.copy(), ms.copy()
    if c["bad"]:
        L, M = list(ims), [m.copy() for m in ms]
        k = int(r.integers(0, n))
        if c["bad"] == "value": M[k][0, 0] = 2
        elif c["bad"] == "dtype": M[k] = M[k].astype(float)
        elif c["bad"] == "shape": M[k] = np.zeros((c["shape"][0] + 1, c["shape"][1]), dtype=int)
        elif c["bad"] == "len": M = M + [M[0]]
        else: L, M = [], []
        rejects(lambda: mean_combine(L, M), (TypeError,), "mean_combine with bad " + c["bad"]); return
    a = {"list": lambda: (list(ims), list(ms)), "stack": lambda: (ims, ms), "single": lambda: (ims[0], ms[0])}[c["form"]]()
    im, bp, cnt, enough = mean_combine(*a, err=c["err"])
    eq(ims, i0, "input"); eq(ms, m0, "input masks")
    good = ms == 0
    N = good.sum(axis=0)
    s = np.where(good, ims ** 2 if c["err"] else ims, 0).sum(axis=0)
    with np.errstate(all="ignore"):
        want = np.where(N > 0, s / np.maximum(N, 1), 0)
    close(im, np.sqrt(want) if c["err"] else want, 1e-9, 1e-12, "mean")
    eq(cnt, N, "count map"); eq(bp, (N == 0).astype(int), "bad-pixel map")
    require(bool(enough) == bool(N.min() >= n / 2), "enough_for_rn {} with minimum count {} of {}", enough, N.min(), n)
    rec.nt(bool((N < n).any() and (N > 0).any()))
