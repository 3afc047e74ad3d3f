"""C27: noise maps from dark stacks, traditional master dark."""
from vf.common import *
from vf.core import Prop, require
from vf.geom import geoms, regions
from corgidrp.darks import calibrate_darks_lsq, build_trad_dark, CalDarksLSQException
import astropy.time as time

PROP = Prop("C27", "Random SCI detector geometries with telemetry rows, 4-8 stacks of 1-6 frames with random gains (measured, applied or commanded) and exposure times, planted fixed-pattern / CIC / dark-current maps, "
            "noise, flags with garbage under them (up to whole stacks masked): fitted maps, errors, flags, bias offset and headers compared with an independent per-pixel least-squares fit of the masked means and, for "
            "noise-free stacks, with the planted maps. Traditional dark likewise. Inconsistent stacks are rejected. Non-trivial: some but not all samples flagged.")
FLAGS = [1, 2, 4, 8, 16, 32, 64, 128, 256]


@st.composite
def gt(draw):
    m = draw(st.integers(4, 8))
    gs = draw(st.lists(st.sampled_from([1.0, 2.0, 5.5, 10.0, 30.0, 100.0]), min_size=2, max_size=4, unique=True))
    ts = draw(st.lists(st.sampled_from([1.0, 2.0, 3.5, 10.0, 60.0]), min_size=2, max_size=4, unique=True))
    pairs = [[g, t] for g in gs for t in ts]
    pairs = draw(st.permutations(pairs))
    while len(pairs) < m:      # add further exposure times
        pairs.append([gs[0], 100.0 + len(pairs)])
    return pairs[:m]


base = {"s": seeds, "g": geoms(("SCI",), 6, 6), "gt": gt(), "n": st.integers(1, 6), "gk": st.sampled_from(["EMGAIN_C", "EMGAIN_A", "EMGAIN_M"]), "dqf": st.sampled_from([0.0, 0.1, 0.4]), "kill": st.booleans(),
        "telem": st.integers(0, 2), "noise": st.booleans(), "err": st.booleans(), "k": st.sampled_from([1.0, 8.7, 0.5]), "shuffle": st.booleans(), "neg": st.booleans()}
case = st.fixed_dictionaries(base)


def params(rows, telem):
    return data.DetectorParams({"TELRSTRT": rows - telem, "TELREND": rows}, date_valid=time.Time("2023-11-01 00:00:00", scale="utc"))


def area(g):
    """the imaging area: the image section with its shielded rows below and columns beside it"""
    return (slice(0, g["r0"] + g["R"]), slice(g["P"], g["P"] + g["I"] + g["dark"]))


def setup(c, maxn=None):
    """-> frames (list of dicts), planted maps, region info"""
    g = c["g"]
    reg = regions(g)
    sci = reg["SCI"]
    R, C = sci["frame_rows"], sci["frame_cols"]
    telem = min(c["telem"], g["par"])
    im = (slice(g["r0"], g["r0"] + g["R"]), slice(g["P"], g["P"] + g["I"]))
    r = rng(c["s"])
    F = r.normal(size=(R, C)) * 5
    K = r.random((R, C)) * 0.02
    if c["neg"]:
        K = K - 0.01
    D = np.zeros((R, C))
    D[area(g)] = r.random(D[area(g)].shape) * 0.01
    return reg, R, C, telem, im, F, K, D


def stacks(c):
    reg, R, C, telem, im, F, K, D = setup(c)
    out = []
    r = rng([c["s"], 7])
    killed = np.zeros((len(c["gt"]), R, C), bool)
    if c["kill"]:
        # pixels masked in every frame of some stacks
        for _ in range(4):
            y, x = r.integers(R), r.integers(C)
            killed[r.permutation(len(c["gt"]))[:r.integers(1, len(c["gt"]) + 1)], y, x] = True
    i = 0
    for j, (gn, t) in enumerate(c["gt"]):
        for k in range(c["n"]):
            d = F + gn * K + gn * t * D
            if c["noise"]:
                d = d + r.normal(size=(R, C)) * 3
            q = np.where((r.random((R, C)) < c["dqf"]) | killed[j], r.choice(FLAGS, size=(R, C)), 0).astype(np.uint16)
            if c["noise"] or not c["dqf"]:
                pass
            d = np.where(q > 0, d + 1000 * r.normal(size=(R, C)), d)
            if telem:
                d[R - telem:] = r.normal(size=(telem, C)) * 1e4
            e = np.abs(r.normal(size=(R, C))) * c["err"]
            ext = {"EXPTIME": t, "EMGAIN_C": gn, "EMGAIN_A": -1.0, "KGAINPAR": c["k"], "BUNIT": "detected electrons"}
            if c["gk"] == "EMGAIN_A": ext.update(EMGAIN_C=gn * 2 + 1, EMGAIN_A=gn)
            if c["gk"] == "EMGAIN_M": ext.update(EMGAIN_C=gn * 2 + 1, EMGAIN_A=gn * 3, EMGAIN_M=gn)
            out.append({"j": j, "d": d, "q": q, "e": e, "ext": ext, "name": fname(i, "L2a")})
            i += 1
    if c["shuffle"]:
        out = [out[k] for k in r.permutation(len(out))]
    return out, (reg, R, C, telem, im, F, K, D)


def make(fr):
    return data.Dataset([img(f["d"].copy(), err=f["e"].copy(), dq=f["q"].copy(), ext=f["ext"], pri={"VISTYPE": "DARK"}, filename=f["name"]) for f in fr])


def means(fr, m, R, C):
    """masked mean, its error, number of samples of each stack"""
    mu, er, num = np.zeros((m, R, C)), np.zeros((m, R, C)), np.zeros((m, R, C), int)
    for j in range(m):
        sel = [f for f in fr if f["j"] == j]
        d = np.stack([f["d"] for f in sel]); e = np.stack([f["e"] for f in sel]); ok = np.stack([f["q"] for f in sel]) == 0
        n = ok.sum(0)
        with np.errstate(all="ignore"):
            mu[j] = np.where(n > 0, (d * ok).sum(0) / np.maximum(n, 1), 0)
            var = ((d - mu[j]) ** 2 * ok).sum(0) / np.maximum(n, 1)
            er[j] = np.sqrt((e ** 2 * ok).sum(0) / np.maximum(n, 1) + var / np.maximum(n, 1))
        num[j] = n
    return mu, er, num


def full_rank(X):
    if len(X) < 4:
        return False
    sv = np.linalg.svd(X / np.maximum(np.abs(X).max(0), 1e-9), compute_uv=False)
    return sv[-1] > 1e-4


@PROP.sub("lsq", [st.fixed_dictionaries(dict(base, noise=st.just(a), kill=st.just(b))) for a in (False, True) for b in (False, True)], 480, 6000, shards=4)
def lsq(c, rec):
    fr, (reg, R, C, telem, im, F, K, D) = stacks(c)
    m = len(c["gt"])
    X = np.array([[1, g, g * t] for g, t in c["gt"]])
    if not full_rank(X):
        rec.label("degenerate design"); return
    ds = make(fr)
    dp = params(R, telem)
    s0, p0, r0 = snap(ds), snap(dp), snap(reg)
    out = calibrate_darks_lsq(ds, dp, reg)
    same(s0, snap(ds), "the input"); same(p0, snap(dp), "the detector parameters"); same(r0, snap(reg), "the regions")
    require(type(out) is data.DetectorNoiseMaps, "type {}", type(out))
    mu, er, num = means(fr, m, R, C)
    half = (num < c["n"] / 2).sum(0)
    none = (num == 0).sum(0)
    dq = np.where(none >= m - 3, 1, np.where(half >= m - 3, 256, 0))
    for k in range(3):
        eq(out.dq[k], dq, "flags of map %d" % k)
    n_fit = 0
    rows = slice(0, R - telem)
    isim = np.zeros((R, C), bool); isim[area(c["g"])] = True
    resid = np.zeros((m, R, C))
    fit = np.zeros((3, R, C)); ok = np.zeros((R, C), bool); cov = {}
    for y in range(R - telem):
        for x in range(C):
            good = num[:, y, x] > 0
            if not full_rank(X[good]):
                continue
            p, *_ = np.linalg.lstsq(X[good] / [1, 10, 100], mu[good, y, x], rcond=None)
            fit[:, y, x] = p / [1, 10, 100]
            ok[y, x] = True
            resid[good, y, x] = mu[good, y, x] - X[good] @ fit[:, y, x]
            n_fit += 1
    tol = 1e-6 * max(1, np.abs(mu).max())
    fpn, cic, dc = np.array(out.data, float)
    e_f, e_c, e_d = np.array(out.err[0], float)
    w = [1, np.abs(X[:, 1]).max(), np.abs(X[:, 2]).max()]
    good = ok & (dq != 1)
    close(fpn[good], fit[0][good], 1e-6, tol, "fixed-pattern noise")
    close(cic[good], np.maximum(fit[1], 0)[good], 1e-6, tol / 10, "clock-induced charge")
    close(dc[good & isim], np.maximum(fit[2], 0)[good & isim], 1e-6, tol / 10, "dark current")
    require(np.all(cic[rows] >= 0) and np.all(dc[rows] >= 0), "negative clock-induced charge or dark current")
    eq(dc[rows][~isim[rows]], np.zeros((~isim[rows]).sum()), "dark current outside the imaging area")
    if telem:
        require(np.all(np.isnan(out.data[:, R - telem:])), "telemetry rows are fitted")
    if not c["noise"]:
        close(fpn[good], F[good], 1e-6, tol, "planted fixed-pattern noise")
        close(cic[good], np.maximum(K, 0)[good], 1e-6, tol / 10, "planted clock-induced charge")
        close(dc[good & isim], D[good & isim], 1e-6, tol / 10, "planted dark current")
    # errors
    nn = (num > 0).sum(0)
    cm = np.linalg.inv(X.T @ X)
    allin = ok & (none == 0)
    s2 = (resid ** 2).sum(0) / np.maximum(nn - 3, 1)
    se = np.sqrt((er ** 2).sum(0) / np.sqrt(m))
    close(e_f[allin], np.sqrt(s2 * cm[0, 0])[allin], 1e-5, tol, "error of the fixed-pattern noise")
    close(e_c[allin], np.sqrt(s2 * cm[1, 1] + se ** 2)[allin], 1e-5, tol, "error of the clock-induced charge")
    close(e_d[allin & isim], np.sqrt(s2 * cm[2, 2])[allin & isim], 1e-5, tol, "error of the dark current")
    # bias offset: the median residual in the prescan
    if not (none > 0).any():
        g = c["g"]
        pre = resid[:, :R - telem, :g["P"]]
        want = np.mean([np.median(pre[j]) / c["k"] for j in range(m)])
        require(abs(out.ext_hdr["B_O"] - want) <= 1e-5 * max(1, np.abs(mu).max()), "bias offset {} != {}", out.ext_hdr["B_O"], want)
        # its error: the change of that when the means are at their upper and the fitted maps at their lower bounds, or the other way round
        wid = [(se + np.sqrt(s2 * cm[0, 0]) + gn * np.sqrt(s2 * cm[1, 1]) + gn * t * np.sqrt(s2 * cm[2, 2]))[:R - telem, :g["P"]] for gn, t in c["gt"]]
        off = [np.mean([np.median(pre[j] + k * wid[j]) / c["k"] for j in range(m)]) for k in (1, -1)]
        require(abs(out.ext_hdr["B_O_ERR"] - max(off[0] - want, want - off[1])) <= 1e-5 * max(1, np.abs(mu).max(), off[0] - want), "error of the bias offset {} != {}", out.ext_hdr["B_O_ERR"], max(off[0] - want, want - off[1]))
    require(out.ext_hdr["B_O_UNIT"] == "DN", "unit of the bias offset")
    require(out.ext_hdr["DATATYPE"] == "DetectorNoiseMaps" and out.ext_hdr["DATALVL"] == "CAL", "data type or level")
    require(out.ext_hdr["DRPNFILE"] == len(fr), "number of files {}", out.ext_hdr["DRPNFILE"])
    require({out.ext_hdr["FILE%d" % k] for k in range(len(fr))} == {f["name"] for f in fr}, "recorded input files")
    require(out.filename.endswith("_DNM_CAL.fits") and not any(x in out.filename for x in ("_L1", "_L2")), "file name {}", out.filename)
    rec.nt((num < c["n"]).any() and (num > 0).any())
    rec.label("gain order: " + ("lowest gt has highest gain" if max(g for g, _ in c["gt"]) == min(c["gt"], key=lambda p: p[0] * p[1])[0] else "usual"))
    if (none > 0).any(): rec.label("stack without samples")
    if (dq == 256).any(): rec.label("256 flags")
    if (dq == 1).any(): rec.label("1 flags")


bad = st.fixed_dictionaries(dict(base, gt=gt().filter(lambda p: full_rank(np.array([[1, g, g * t] for g, t in p]))), kind=st.sampled_from(["three", "uneven", "onegain", "onetime", "lowgain", "negtime", "kgain", "dup", "telem"]), shuffle=st.just(False)))


@PROP.sub("reject", bad, 160, 1600)
def reject(c, rec):
    k = c["kind"]
    fr, (reg, R, C, telem, *_) = stacks(dict(c, kill=False, dqf=0.0))
    exc = CalDarksLSQException
    if k == "three":
        fr = [f for f in fr if f["j"] < 3]
    elif k == "uneven":
        if c["n"] == 1: return
        fr = fr[:-1]
    elif k == "onegain":
        for f in fr: f["ext"].update(EMGAIN_C=5.0, EMGAIN_A=-1.0, EXPTIME=1.0 + f["j"]); f["ext"].pop("EMGAIN_M", None)
    elif k == "onetime":
        for f in fr: f["ext"].update(EMGAIN_C=1.0 + f["j"], EMGAIN_A=-1.0, EXPTIME=4.0); f["ext"].pop("EMGAIN_M", None)
    elif k == "lowgain":
        for f in fr:
            if f["j"] == 1: f["ext"].update(EMGAIN_C=0.9, EMGAIN_A=-1.0); f["ext"].pop("EMGAIN_M", None)
    elif k == "negtime":
        for f in fr:
            if f["j"] == 2: f["ext"].update(EXPTIME=-1.0)
    elif k == "kgain":
        for f in fr:
            if f["j"] == 0: f["ext"].update(KGAINPAR=-0.5)
    elif k == "dup":
        # two stacks that differ only in the k gain
        for f in fr:
            f["ext"].pop("EMGAIN_M", None); f["ext"]["EMGAIN_A"] = -1.0
            f["ext"]["EMGAIN_C"] = c["gt"][f["j"]][0]
            if f["j"] == 1: f["ext"].update(EMGAIN_C=c["gt"][0][0], EXPTIME=c["gt"][0][1], KGAINPAR=c["k"] * 2)
    dp = params(R, telem)
    if k == "telem":
        dp = data.DetectorParams({"TELRSTRT": c["g"]["r0"] + c["g"]["R"] - 1, "TELREND": R}, date_valid=time.Time("2023-11-01 00:00:00", scale="utc"))
        exc = ValueError
        ds = make([f for f in fr if f["j"] == 0])
        rejects(lambda: build_trad_dark(ds, dp, reg), ValueError, "telemetry rows in the image area (traditional dark)")
    ds = make(fr)
    rejects(lambda: calibrate_darks_lsq(ds, dp, reg), exc, "stacks that are wrong (%s)" % k)
    rec.nt(); rec.label(k)


@PROP.sub("trad", [st.fixed_dictionaries(dict(base, full=st.just(a), n=st.integers(1, 8))) for a in (False, True)], 400, 6000, shards=2)
def trad(c, rec):
    fr, (reg, R, C, telem, im, F, K, D) = stacks(dict(c, gt=c["gt"][:1], kill=False, noise=True))
    r = rng([c["s"], 3])
    if c["kill"]:
        y, x = c["g"]["r0"] + r.integers(c["g"]["R"]), c["g"]["P"] + r.integers(c["g"]["I"])
        for f in fr: f["q"][y, x] = 2
    ds = make(fr); dp = params(R, telem)
    s0, p0 = snap(ds), snap(dp)
    out = build_trad_dark(ds, dp, reg, full_frame=c["full"])
    same(s0, snap(ds), "the input"); same(p0, snap(dp), "the detector parameters")
    require(type(out) is data.Dark, "type {}", type(out))
    for f in fr:
        if telem: f["d"][R - telem:] = 0
    mu, er, num = means(fr, 1, R, C)
    mu, er, num = mu[0], er[0], num[0]
    dq = np.where(num == 0, 1, np.where(num < c["n"] / 2, 256, 0))
    if not c["full"]:
        mu, er, num, dq = mu[im], er[im], num[im], dq[im]
    close(out.data, mu, 1e-9, 1e-9, "master dark")
    eq(out.dq, dq, "flags")
    close(out.err[0][num > 0], er[num > 0], 1e-9, 1e-9, "uncertainty")
    require(out.ext_hdr["NAXIS1"] == mu.shape[1] and out.ext_hdr["NAXIS2"] == mu.shape[0], "recorded size")
    require(out.ext_hdr["DATATYPE"] == "Dark" and out.ext_hdr["DATALVL"] == "CAL" and out.ext_hdr["BUNIT"] == "Detected Electrons" and out.err_hdr["BUNIT"] == "Detected Electrons", "headers")
    require(out.ext_hdr["EXPTIME"] == c["gt"][0][1], "exposure time")
    require(out.ext_hdr["DRPNFILE"] == len(fr) and {out.ext_hdr["FILE%d" % k] for k in range(len(fr))} == {f["name"] for f in fr}, "recorded files")
    require(out.filename.endswith("_DRK_CAL.fits"), "file name {}", out.filename)
    same(s0, snap(ds), "the input after")
    rec.nt((num < c["n"]).any() and (num > 0).any())
    # mixed stacks are rejected
    if c["n"] > 1:
        key = ["EXPTIME", "EMGAIN_C", "KGAINPAR"][c["s"] % 3]
        ds.frames[c["s"] % c["n"]].ext_hdr[key] = 77.5
        rejects(lambda: build_trad_dark(ds, dp, reg, full_frame=c["full"]), Exception, "a stack with different " + key)


@PROP.sub("flagged irrelevant", case, 60, 800)
def irrelevant(c, rec):
    """what is recorded under flagged samples, and the order of the frames, do not matter"""
    c = dict(c, dqf=max(c["dqf"], 0.1), kill=False)
    fr, (reg, R, C, telem, *_) = stacks(c)
    if not full_rank(np.array([[1, g, g * t] for g, t in c["gt"]])):
        return
    dp = params(R, telem)
    a = calibrate_darks_lsq(make(fr), dp, reg)
    r = rng([c["s"], 5])
    for f in fr:
        f["d"] = np.where(f["q"] > 0, r.normal(size=(R, C)) * 1e5, f["d"])
        f["e"] = np.where(f["q"] > 0, 1e4, f["e"])
    fr = [fr[i] for i in r.permutation(len(fr))]
    b = calibrate_darks_lsq(make(fr), dp, reg)
    _, _, num = means(fr, len(c["gt"]), R, C)
    ok = (num > 0).all(0)
    close(b.data[:, ok], a.data[:, ok], 1e-6, 1e-6, "maps with other values under the flags")
    close(b.err[0][:, ok], a.err[0][:, ok], 1e-6, 1e-6, "errors with other values under the flags")
    eq(b.dq, a.dq, "flags")
    rec.nt((num < c["n"]).any())
