"""C21: photon counting."""
from vf.common import *
from vf.core import Prop, require
from scipy.special import gammaincc
from corgidrp.photon_counting import get_pc_mean, photon_count, corr_photon_count, PhotonCountException
import corgidrp, warnings

PROP = Prop("C21", "Random stacks (2-12 frames, counts around the threshold including exactly at it, flags, per-pixel errors, three gain keywords, thresholds, iterations, group sizes, region-of-interest masks, master darks with several slices): "
            "result compared pixel by pixel with the truncated-Poisson x EM-gain model inverted independently, propagated error, flags, headers; frame-order invariance, flagged samples irrelevant, statistical recovery of a planted "
            "rate; wrong settings rejected. Non-trivial: some flagged samples and some but not all pixels above threshold.")


def eps(lam, t, g):
    """probability that a pixel is above threshold: Poisson truncated at 3 electrons, each through the EM register (Erlang)"""
    q = [gammaincc(k, t / g) for k in (1, 2, 3)]
    num = lam * q[0] + lam ** 2 / 2 * q[1] + lam ** 3 / 6 * q[2]
    den = 1 + lam + lam ** 2 / 2 + lam ** 3 / 6
    dnum = q[0] + lam * q[1] + lam ** 2 / 2 * q[2]
    dden = 1 + lam + lam ** 2 / 2
    return num / den, (dnum * den - num * dden) / den ** 2


def invert(k, n, t, g, niter):
    """reference: (lambda, sound) per pixel"""
    with np.errstate(all="ignore"):
        f = k / n
        x = 1 - f * np.exp(t / g)
        lam = np.where(x > 0, -np.log(np.where(x > 0, x, 1)), f)
        sound = np.ones(lam.shape, bool)
        for _ in range(niter):
            e, de = eps(lam, t, g)
            sound &= ~(np.abs(de) < 1e-3) & ~(np.abs(lam) > 50)
            lam = lam - (e - f) / de
    zero = (k == 0)
    return np.where(zero, 0.0, lam), sound | zero


def variance(lam, t, g, n):
    e = gam(lam, t, g)
    with np.errstate(all="ignore"):
        s2 = n * e * (1 - e); m = n * e; a = np.exp(t / g)
        return s2 * (a / n + a ** 2 * (g - t) / (g * n ** 2) * m + 3 * a ** 3 * (4 * g ** 2 - 8 * g * t + 5 * t ** 2) / (12 * g ** 2 * n ** 3) * m ** 2) ** 2


def gam(lam, t, g):
    return eps(lam, t, g)[0]


shape = st.tuples(st.integers(2, 5), st.integers(2, 5)).map(list)
base = {"s": seeds, "n": st.integers(2, 12), "shape": shape, "rate": st.sampled_from([0.05, 0.2, 0.4, 0.6]), "rn": st.sampled_from([1.0, 50.0, 100.0]), "tf": st.sampled_from([1.0, 5.0, 5.5]), "gf": st.sampled_from([3.0, 10.0, 40.0]),
        "gk": st.sampled_from(["EMGAIN_M", "EMGAIN_A", "EMGAIN_C"]), "niter": st.integers(1, 5), "dqf": st.sampled_from([0.0, 0.2, 0.5]), "err": st.booleans(), "bins": st.integers(1, 4), "dark": st.booleans(), "dbins": st.integers(1, 3), "mask": st.booleans()}


def gain(c):
    return c["tf"] * c["rn"] * c["gf"]


def headers(c, vistype, i):
    g = gain(c)
    e = {"EXPTIME": 1.0, "EMGAIN_C": g * 3 + 1, "EMGAIN_A": -1.0, "KGAINPAR": 7.0, "RN": c["rn"], "ISPC": True, "BUNIT": "detected electrons"}
    if c["gk"] == "EMGAIN_M": e.update(EMGAIN_M=g, EMGAIN_A=g * 2)
    elif c["gk"] == "EMGAIN_A": e.update(EMGAIN_A=g)
    else: e.update(EMGAIN_C=g)
    return {"VISTYPE": vistype}, e


def stack(c, n, vistype="SCI", start=0):
    t = c["tf"] * c["rn"]
    layers = c["s"] // 3 % 3      # further error layers, tracked one by one; the first one is the combined error
    corgidrp.track_individual_errors = layers > 0
    fr = []
    for i in range(n):
        r = rng([c["s"], start + i])
        hit = r.random(c["shape"]) < c["rate"]
        d = np.where(hit, t + r.exponential(gain(c), c["shape"]), t - np.abs(r.normal(size=c["shape"])) * c["rn"])
        d[r.random(c["shape"]) < 0.1] = t
        e = np.abs(r.normal(size=c["shape"])) * c["rn"] * c["err"]
        q = np.where(r.random(c["shape"]) < c["dqf"], r.choice(DQ_BITS, size=c["shape"]), 0).astype(np.uint16)
        if c["s"] % 3 == 0: q[0, 0] = 2
        if layers: e = np.array([e] + [np.abs(r.normal(size=c["shape"])) * c["rn"] * (k + 1) for k in range(layers)])
        p, h = headers(c, vistype, i)
        f = img(d, err=e, dq=q, pri=p, ext=h, level="L2a", filename=fname(start + i, "L2a"), err_hdr=fits.Header([("Layer_%d" % (k + 1), "L%d" % k) for k in range(layers + 1)]))
        f.ext_hdr["HISTORY"] = "before"
        fr.append(f)
    return data.Dataset(fr)


def reference(c, fr):
    t, g = c["tf"] * c["rn"], gain(c)
    D = np.array([f.data for f in fr]); E = np.array([f.err[0] for f in fr]); good = np.array([f.dq for f in fr]) == 0
    n = good.sum(0).astype(float)
    lam, ok = invert(((D > t) & good).sum(0), n, t, g, c["niter"])
    up, ok1 = invert(((D + E > t) & good).sum(0), n, t, g, c["niter"])
    lo, ok2 = invert(((D - E > t) & good).sum(0), n, t, g, c["niter"])
    v = variance(lam, t, g, n)
    err = np.maximum(up + v - lam, lam - lo + v)
    return np.where(n == 0, 0, lam), err, n == 0, ok & ok1 & ok2, np.nanmin([np.nanmin(x) for x in (lam, up, lo)])


def maskfile(rec, shp, m):
    p = os.path.join(rec.dir, "mask.fits")
    fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(m)]).writeto(p, overwrite=True)
    return p


def cmp(a, b, ok, what):
    a, b = np.array(a, float), np.array(b, float)
    close(np.where(ok, a, 0), np.where(ok, b, 0), 1e-6, 1e-9, what)


@PROP.sub("stack", st.fixed_dictionaries(base), 500, 8000, shards=4)
def stack_(c, rec):
    t = c["tf"] * c["rn"]
    n = c["n"]; b = min(c["bins"], n); size = n // b
    kw = {} if size == n else {"bin_size": size}
    nb = n // size
    ds = stack(c, n)
    ref = [reference(c, ds.frames[size * i:size * (i + 1)]) for i in range(nb)]
    lows = [r[4] for r in ref]
    dark = None
    args = dict(T_factor=c["tf"], pc_ecount_max=1e9, niter=c["niter"], **kw)
    if c["dark"]:
        dn = size * c["dbins"] + c["s"] % 2
        dk = stack(c, dn, "DARK", start=50)
        dref = [reference(c, dk.frames[size * i:size * (i + 1)]) for i in range(dn // size)]
        lows += [r[4] for r in dref]
    if any(-1e-7 < l < 0 for l in lows): return
    if c["dark"]:
        s0 = dict(snap(dk), ids=0)
        if min(r[4] for r in dref) < 0:
            rejects(lambda: get_pc_mean(dk, inputmode="darks", T_factor=c["tf"], pc_ecount_max=1e9, niter=c["niter"], bin_size=size), PhotonCountException, "a stack with a negative rate")
            return
        dark = get_pc_mean(dk, inputmode="darks", T_factor=c["tf"], pc_ecount_max=1e9, niter=c["niter"], bin_size=size)
        same(s0, dict(snap(dk), ids=0), "the input darks")
        require(type(dark) is data.Dark and dark.data.shape == (dn // size,) + tuple(c["shape"]), "type/shape of the master dark {} {}", type(dark), dark.data.shape)
        for i, (lam, err, allbad, ok, _) in enumerate(dref):
            cmp(dark.data[i], lam, ok, "dark %d" % i); cmp(dark.err[0][i], err, ok & ~allbad, "dark err %d" % i)
            eq(dark.dq[i] != 0, allbad, "dark dq %d" % i)
        require(dark.ext_hdr["PC_STAT"] == "photon-counted master dark" and dark.ext_hdr["PCTHRESH"] == t and dark.ext_hdr["NUM_FR"] == size, "dark header")
        used = [f.filename for f in dk.frames[:size * (dn // size)]]
        rec_f = [dark.ext_hdr["FILE%d" % j] for j in range(dark.ext_hdr["DRPNFILE"])]
        require(sorted(rec_f) == sorted(used), "the dark was made from {} but records {}", used, rec_f)
    if min(r[4] for r in ref) < 0:
        rejects(lambda: get_pc_mean(ds, pc_master_dark=dark, **args), PhotonCountException, "a stack with a negative rate")
        rec.label("negative"); return
    if c["mask"]: args["mask_filepath"] = maskfile(rec, c["shape"], (rng(c["s"]).random(c["shape"]) < 0.3).astype(float) * (np.arange(c["shape"][0] * c["shape"][1]).reshape(c["shape"]) > 0))
    s0 = dict(snap(ds), ids=0); s1 = snap(dark)
    out = get_pc_mean(ds, pc_master_dark=dark, **args)
    same(s0, dict(snap(ds), ids=0), "the input frames"); same(s1, snap(dark), "the dark")
    require(len(out) == nb, "{} output frames for {} groups", len(out), nb)
    for i, (lam, err, allbad, ok, _) in enumerate(ref):
        last = ds[size * (i + 1) - 1]
        want_err, flags = err, allbad
        if dark is not None:
            j = i % dark.data.shape[0]
            ok = ok & dref[j][3]; lam = np.maximum(lam - dref[j][0], 0); want_err = np.sqrt(err ** 2 + dref[j][1] ** 2); flags = allbad | dref[j][2]
        cmp(out[i].data, lam, ok, "mean of group %d" % i); cmp(out[i].err[0], want_err, ok & ~flags, "err of group %d" % i)
        eq(out[i].dq != 0, flags, "dq of group %d" % i)
        require(out[i].filename == last.filename.replace("L2a", "L2b"), "name {}", out[i].filename)
        h = out[i].ext_hdr
        require(h["PCTHRESH"] == t and h["NUM_FR"] == size, "PCTHRESH {} NUM_FR {}", h["PCTHRESH"], h["NUM_FR"])
        names = [h["FILE%d" % j] for j in range(h["DRPNFILE"])]
        require(sorted(names) == sorted(f.filename for f in ds.frames[size * i:size * (i + 1)]), "group {} records {}", i, names)
        require(hist(out[i])[0] == "before" and len(hist(out[i])) > 1, "history {}", hist(out[i]))
    # frame order within a single group does not matter, nor do the values of flagged samples
    if nb == 1:
        perm = [int(i) for i in rng(c["s"]).permutation(n)]
        fr = [stack(c, n)[i] for i in perm]
        for f in fr: f.data[f.dq != 0] = rng(c["s"] + 5).normal() * 1e4
        o2 = get_pc_mean(data.Dataset(fr), pc_master_dark=dark, **args)
        close(out.all_data, o2.all_data, 1e-12, 0, "result after reordering the frames and changing flagged samples")
        fin = out.all_dq == 0
        close(out.all_err[:, 0][fin], o2.all_err[:, 0][fin], 1e-12, 0, "err after reordering the frames")
    sl = np.array([f.dq for f in ds]) != 0
    ab = np.array([f.data for f in ds]) > t
    rec.nt(sl.any() and ab.any() and not ab.all()); rec.label("%s%s" % ("dark " if dark is not None else "", "bins" if nb > 1 else "single"))


@PROP.sub("count", st.fixed_dictionaries({"s": seeds, "t": st.floats(-5, 500), "shape": shape}), 100, 1000)
def count(c, rec):
    a = rng(c["s"]).normal(size=c["shape"]) * 300
    a[0, 0] = c["t"]; a[0, 1] = np.nextafter(c["t"], 1e9); a[1, 0] = np.nextafter(c["t"], -1e9)
    eq(photon_count(a, c["t"]), (a > c["t"]).astype(int), "photon_count")
    rec.nt(True)


@PROP.sub("converged", st.fixed_dictionaries({"s": seeds, "t": st.floats(0, 500), "g": st.sampled_from([100.0, 1000.0, 6000.0]), "n": st.integers(10, 500), "lam": st.floats(0.001, 1.5)}), 300, 3000)
def converged(c, rec):
    """counts generated from a rate give that rate back"""
    t = min(c["t"], 0.5 * c["g"])
    k = np.array([[c["n"] * gam(c["lam"], t, c["g"]), 0.0]])
    if abs(invert(k, np.full(k.shape, float(c["n"])), t, c["g"], 12)[0][0, 0] - c["lam"]) > 1e-9: return   # Newton's method does not converge from its start value: rate too high for this threshold
    lam = corr_photon_count(k, np.full(k.shape, float(c["n"])), t, c["g"], np.ones(k.shape, bool), niter=12)
    close(lam, [[c["lam"], 0]], 1e-6, 1e-9, "rate")
    rec.nt(True)


@PROP.sub("statistics", st.fixed_dictionaries({"s": seeds, "lam": st.sampled_from([0.05, 0.2, 0.5]), "n": st.sampled_from([40, 120]), "dark": st.booleans()}), 24, 200, shards=2)
def statistics(c, rec):
    r = rng(c["s"]); g, rn, shp, n = 5000.0, 100.0, (24, 24), c["n"]
    hd = {"EXPTIME": 1.0, "EMGAIN_C": g, "EMGAIN_A": -1.0, "KGAINPAR": 7.0, "RN": rn, "ISPC": True}

    def mk(lam, vt):
        ne = r.poisson(lam, (n,) + shp)
        d = np.where(ne > 0, r.gamma(np.maximum(ne, 1), g), 0) + r.normal(size=ne.shape) * rn
        return data.Dataset([img(x, err=np.zeros(shp), level="L2a", pri={"VISTYPE": vt}, ext=hd, filename=fname(i, "L2a")) for i, x in enumerate(d)])
    dark = get_pc_mean(mk(0.02, "DARK"), inputmode="darks", T_factor=5, pc_ecount_max=3) if c["dark"] else None
    out = get_pc_mean(mk(c["lam"] + 0.02 * c["dark"], "SCI"), pc_master_dark=dark, T_factor=5, pc_ecount_max=3)
    m = out.all_data.mean()
    sd = np.sqrt((c["lam"] * 1.6 + 0.04) / (n * 576))
    # Bias of the estimator (small numbers of frames, truncation at 3 electrons) is below a few percent here
    bias = 0.004 * c["dark"] + c["lam"] * (0.02 + 0.15 * c["lam"]) + c["lam"] * 2 / n
    require(abs(m - c["lam"]) < 6 * sd + bias, "planted rate {} measured {} (tolerance {})", c["lam"], m, 6 * sd + bias)
    rec.nt(True)


BAD = ["exptime", "gain", "kgain", "rn", "vistype", "ispc", "threshold", "neg_t", "niter0", "niter_f", "bin_big", "bin0", "dark_mode", "ill_mode", "dark_dark", "dark_type", "dark_stat", "dark_nothr", "dark_thr", "dark_few", "bright", "rn0"]


@PROP.sub("rejects", [st.fixed_dictionaries(dict(base, bad=st.just(b))) for b in BAD], 110, 1100, shards=2)
def rejects_(c, rec):
    c = dict(c, rate=0.2, dqf=0.0, err=False, niter=2, shape=[4, 4], n=max(c["n"], 4))
    b = c["bad"]
    vt = "DARK" if b in ("dark_mode", "dark_dark") else "SCI"
    ds = stack(c, c["n"], vt)
    for f in ds: f.data[:] = np.minimum(f.data, c["tf"] * c["rn"]); f.data[0, 0] = c["tf"] * c["rn"] * 1.1
    for i, f in enumerate(ds): f.data[:] = np.where((np.arange(16).reshape(4, 4) + i) % 4 == 0, gain(c), 0)
    kw = dict(T_factor=c["tf"], pc_ecount_max=10.0, niter=2, inputmode="darks" if vt == "DARK" else "illuminated")
    pdark = lambda n=len(ds): get_pc_mean(data.Dataset([f.copy() for f in mkdark(c, n)]), inputmode="darks", T_factor=c["tf"], pc_ecount_max=10.0)
    good = dict(kw)
    j = c["s"] % len(ds)
    if b == "dark_type": good["pc_master_dark"] = pdark()
    get_pc_mean(ds.copy(), **good)                       # the valid call works
    if b == "exptime": ds[j].ext_hdr["EXPTIME"] = 2.0
    elif b == "gain": ds[j].ext_hdr["EMGAIN_C"] += 1
    elif b == "kgain": ds[j].ext_hdr["KGAINPAR"] = 8.0
    elif b == "rn": ds[j].ext_hdr["RN"] = c["rn"] + 1
    elif b == "vistype": ds[j].pri_hdr["VISTYPE"] = "DARK"
    elif b == "ispc": ds[0].ext_hdr["ISPC"] = False
    elif b == "threshold": kw["T_factor"] = c["tf"] * c["gf"] * 1.0000001
    elif b == "neg_t": kw["T_factor"] = -0.5
    elif b == "niter0": kw["niter"] = -(c["s"] % 2)
    elif b == "niter_f": kw["niter"] = 2.5
    elif b == "bin_big": kw["bin_size"] = len(ds) + 1
    elif b == "bin0": kw["bin_size"] = 0
    elif b == "dark_mode": kw["inputmode"] = "illuminated"
    elif b == "ill_mode": kw["inputmode"] = "darks"
    elif b == "dark_dark": kw["pc_master_dark"] = pdark()
    elif b == "dark_type": kw["pc_master_dark"] = ds[0]
    elif b == "dark_stat": kw["pc_master_dark"] = pdark(); kw["pc_master_dark"].ext_hdr["PC_STAT"] = "something else"
    elif b == "dark_nothr": kw["pc_master_dark"] = pdark(); del kw["pc_master_dark"].ext_hdr["PCTHRESH"]
    elif b == "dark_thr": kw["pc_master_dark"] = pdark(); kw["pc_master_dark"].ext_hdr["PCTHRESH"] += 1
    elif b == "dark_few": kw["pc_master_dark"] = pdark(len(ds) - 1)
    elif b == "bright": kw["pc_ecount_max"] = float(np.mean(ds.all_data) / gain(c)) * 0.99
    elif b == "rn0":
        for f in ds: f.ext_hdr["RN"] = 0.0
    if b == "dark_few" and c["bins"] > 1:      # the same for several groups: the dark has fewer frames than a group
        size = len(ds) // 2
        if size > 1: kw.update(bin_size=size, pc_master_dark=pdark(size - 1))
    rejects(lambda: get_pc_mean(ds, **kw), Exception, b)
    if b == "bright":   # a mask that leaves out the bright pixels makes it acceptable
        m = (np.mean(ds.all_data, axis=0) > 0).astype(float)
        if (m == 0).any(): get_pc_mean(ds, mask_filepath=maskfile(rec, [4, 4], m), **kw)
        # frames whose only bright pixels are masked are fine, those with a bright pixel that is not masked are not
        d2 = ds.copy()
        y, x, v = c["s"] % 4, c["s"] // 4 % 4, 16 * gain(c)
        for f in d2: f.data[:] = 0; f.data[y, x] = v
        m = np.zeros((4, 4)); m[y, x] = 1
        kw2 = dict(kw, pc_ecount_max=0.9)
        get_pc_mean(d2.copy(), mask_filepath=maskfile(rec, [4, 4], m), **kw2)
        rejects(lambda: get_pc_mean(d2.copy(), **kw2), Exception, "a bright pixel without a mask")
        rejects(lambda: get_pc_mean(d2.copy(), mask_filepath=maskfile(rec, [4, 4], np.roll(m, 1, axis=c["s"] // 16 % 2)), **kw2), Exception, "a bright pixel that is not the masked one")
    if b in ("bright", "threshold"): get_pc_mean(ds, safemode=False, **kw)
    rec.nt(True); rec.label(b)


def mkdark(c, n):
    ds = stack(c, n, "DARK", start=90)
    for f in ds: f.data[:] = 0
    for i, f in enumerate(ds): f.data[(i * 3) % 4, 1] = gain(c)
    return ds
