"""C30: k-gain and non-linearity calibration recover the planted detector response."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.calibrate_kgain import calibrate_kgain
from corgidrp.calibrate_nonlin import calibrate_nonlin
from corgidrp import check as _check

PROP = Prop("C30", "Simulated pupil campaigns on random small detectors. k-gain: Poisson and read noise of a planted k-gain (3-15 e-/DN) and read noise, 5-8 exposure sets of 5-7 frames in any order: k-gain, read noise and "
            "photon-transfer curve against the planted values (tolerance several times the scatter of the estimator), exact covariance with a rescaling of the counts and independence of the order of the sets. "
            "Non-linearity: noise-free frames with planted response (deviating outside the fitted exposures), linear illumination drift, background, 1-3 EM gains by measured/applied/commanded keyword: the table against the planted response, "
            "its axes and normalisation. Incomplete or invalid campaigns rejected, input untouched. Non-trivial: every accepted campaign.")


def stamp(t):
    return "2025-01-%02dT%02d:%02d:%02d" % (1 + t // 86400, t // 3600 % 24, t // 60 % 60, t % 60)


def geom(c):
    pc, rows = c["pc"], c["rows"]
    return {"SCI": {"frame_rows": rows, "frame_cols": pc + 120, "image": {"rows": rows, "cols": 110, "r0c0": [0, pc]}, "prescan": {"rows": rows, "cols": pc, "r0c0": [0, 0], "col_start": 5, "col_end": pc - 5},
                    "prescan_reliable": {"rows": rows, "cols": pc - 10, "r0c0": [0, 5]}, "parallel_overscan": {"rows": 0, "cols": 110, "r0c0": [0, pc]}, "serial_overscan": {"rows": rows, "cols": 10, "r0c0": [0, pc + 110]}}}


kcase = st.fixed_dictionaries({"k": st.floats(3, 15), "rn": st.floats(3, 20), "nset": st.integers(5, 8), "nf": st.integers(5, 7), "s": seeds, "pc": st.sampled_from([40, 45, 60]), "rows": st.sampled_from([120, 130]),
                               "gkey": st.sampled_from(["EMGAIN_C", "EMGAIN_A", "EMGAIN_M"]), "bw": st.sampled_from([15, 20, 25]), "N": st.sampled_from([50, 60, 80]), "tilt": st.sampled_from([0.6, 1.0]), "twice": st.booleans()})


def kframe(c, r, n, flux, obs, et, ext=None, pri=None):
    yy, xx = np.indices((c["rows"], c["pc"] + 120))
    lam = np.where((xx >= c["pc"]) & (xx < c["pc"] + 110), flux * (1 - c["tilt"] / 2 + c["tilt"] * yy / c["rows"]) * c["k"], 0)
    a = r.poisson(lam) / c["k"] + r.normal(size=lam.shape) * c["rn"]       # read noise planted in DN
    e = {"EXPTIME": float(et), "EMGAIN_C": 1.0, "EMGAIN_A": -1.0, "DATETIME": stamp(n * 3)}
    if obs != "MNFRAME" and c["gkey"] != "EMGAIN_C":
        e[c["gkey"]] = 1.02
    e.update(ext or {})
    return img(a, pri=dict({"OBSNAME": obs}, **(pri or {})), ext=e, filename=fname(n))


def kset(c):
    r = rng(c["s"])
    out, n = [[]], 0
    for _ in range(30):
        out[0].append(kframe(c, r, n, 1500, "MNFRAME", 3.0)); n += 1
    for i, f in enumerate(np.linspace(600, 2800, c["nset"])):
        g = []
        for _ in range(c["nf"] * (2 if c["twice"] and i == 1 else 1)):
            g.append(kframe(c, r, n, f, "KGAIN", 5.0 + i)); n += 1
        out.append(g)
    return out


def kpar(c, f=1):
    return dict(rowroi1=3, rowroi2=c["rows"] - 5, colroi1=c["pc"] + 3, colroi2=c["pc"] + 105, rn_bins1=-200 * f, rn_bins2=200 * f + 1, max_DN_val=13000 * f, signal_bins_N=c["N"])


def kcal(c, ds, f=1, **kw):
    a = dict(n_cal=5, n_mean=30, min_val=500 * f, max_val=4000 * f, binwidth=c["bw"], make_plot=False, detector_regions=geom(c), kgain_params=kpar(c, f))
    a.update(kw)
    return calibrate_kgain(ds, **a)


@PROP.sub("kgain", kcase, 18, 600, shards=6)
def kgain(c, rec):
    rec.nt()
    groups = kset(c)
    ds = data.Dataset([f for g in groups for f in g])
    s0 = snap(ds)
    kg = kcal(c, ds)
    same(s0, snap(ds), "the input of calibrate_kgain")
    require(type(kg) is data.KGain and kg.data.shape == (1, 1) and kg.ext_hdr["DATATYPE"] == "KGain", "product {}", type(kg))
    require(abs(kg.value / c["k"] - 1) < 0.25, "k-gain {} measured, {} planted", kg.value, c["k"])
    require(kg.value == kg.data[0, 0] and np.isfinite(kg.err).all() and 0 < kg.err.ravel()[0] < 0.3 * c["k"], "value {} error {}", kg.value, kg.err)
    rn = kg.ext_hdr["RN"] / kg.value
    require(abs(rn / c["rn"] - 1) < 0.06, "read noise {} DN measured, {} planted", rn, c["rn"])
    require(kg.ext_hdr["RN_UNIT"] == "detected electrons" and 0 < kg.ext_hdr["RN_ERR"] < 0.3 * kg.ext_hdr["RN"], "RN_ERR {}", kg.ext_hdr["RN_ERR"])
    require(kg.ptc.shape == (c["N"], 2), "ptc shape {}", kg.ptc.shape)
    ok = np.isfinite(kg.ptc).all(axis=1) & (kg.ptc[:, 0] > 600) & (kg.ptc[:, 0] < 3500)
    require(ok.sum() >= 5, "only {} points of the photon-transfer curve", ok.sum())
    q = kg.ptc[ok, 1] ** 2 / (kg.ptc[ok, 0] / c["k"])
    require(abs(np.median(q) - 1) < 0.12, "photon-transfer variance {} x expected", np.median(q))
    require(kg.ext_hdr["DRPNFILE"] == len(ds), "{} parents", kg.ext_hdr["DRPNFILE"])
    # the order of the exposure sets in the dataset does not matter
    p = rng(c["s"] + 1).permutation(len(groups))
    k2 = kcal(c, data.Dataset([f.copy() for i in p for f in groups[i]]))
    require(abs(k2.value / kg.value - 1) < 1e-9 and abs(k2.ext_hdr["RN"] / kg.ext_hdr["RN"] - 1) < 1e-9, "k-gain {} with the sets in another order, {} before", k2.value, kg.value)
    # twice the counts for the same electrons is half the gain
    d2 = data.Dataset([f.copy() for g in groups for f in g])
    d2.all_data[:] *= 2
    k3 = kcal(c, d2, f=2)
    require(abs(2 * k3.value / kg.value - 1) < 1e-9, "k-gain {} for doubled counts, {} before", k3.value, kg.value)
    require(abs(k3.ext_hdr["RN"] / kg.ext_hdr["RN"] - 1) < 0.06, "read noise {} e- for doubled counts, {} before", k3.ext_hdr["RN"], kg.ext_hdr["RN"])


@PROP.sub("stacks", st.fixed_dictionaries({"s": seeds, "nf": st.integers(1, 4), "reps": st.lists(st.integers(1, 4), min_size=1, max_size=5), "nm": st.integers(0, 3), "gkey": st.sampled_from(["EMGAIN_C", "EMGAIN_A", "EMGAIN_M"]), "mix": st.booleans()}), 150, 2000)
def stacks(c, rec):
    """every calibration frame is in one stack, with frames of its own exposure time; all stacks are as long as the shortest"""
    from corgidrp.calibrate_kgain import kgain_dataset_2_list
    r = rng(c["s"]); fr, tag = [], {}
    m = min(c["reps"])
    reps = [k - m + 1 for k in c["reps"]]      # the shortest set fixes the length of the stacks
    for i, k in enumerate(reps):
        for _ in range(k * c["nf"]):
            e = {"EXPTIME": 2.5 + i, "EMGAIN_C": 1.0, "EMGAIN_A": -1.0, "DATETIME": stamp(len(fr) * 7)}
            e[c["gkey"]] = {"EMGAIN_C": 1.0}.get(c["gkey"], 1.25)
            tag[len(fr)] = i
            fr.append(img(np.full((3, 4), float(len(fr))), pri={"OBSNAME": "KGAIN"}, ext=e, filename=fname(len(fr))))
    nk = len(fr)
    for j in range(c["nm"]):
        fr.append(img(np.full((3, 4), float(len(fr))), pri={"OBSNAME": "MNFRAME"}, ext={"EXPTIME": 100.5, "EMGAIN_C": 1.0, "EMGAIN_A": -1.0, "DATETIME": stamp(len(fr) * 7)}, filename=fname(len(fr))))
    if c["mix"]:
        fr = [fr[i] for i in r.permutation(len(fr))]
    ds = data.Dataset(fr); s0 = snap(ds)
    stack, mean, gain = kgain_dataset_2_list(ds)
    same(s0, snap(ds), "the input")
    ids = [[int(a[0, 0]) for a in q] for q in stack]
    rec.nt(max(reps) > 1); rec.label("repeated %d times" % max(reps))
    require(sorted(i for q in ids for i in q) == list(range(nk)), "frames of the stacks {} of {} calibration frames", ids, nk)
    require(all(len(q) == c["nf"] and len({tag[i] for i in q}) == 1 for q in ids), "stacks {} of frames with exposure times {}", ids, tag)
    require(sorted(int(a[0, 0]) for a in mean) == list(range(nk, nk + c["nm"])), "{} frames for the mean frame", len(mean))
    require(abs(gain - (1.0 if c["gkey"] == "EMGAIN_C" else 1.25)) < 1e-12, "gain {}", gain)


KBAD = {"few mean frames": dict(n_mean=31), "few sets": dict(n_cal=50), "binwidth 9": dict(binwidth=9), "binwidth 801": dict(binwidth=801), "min = max": dict(min_val=2000, max_val=2000), "min > max": dict(min_val=3000, max_val=800),
        "negative min": dict(min_val=-5), "float max": dict(max_val=3000.5), "string binwidth": dict(binwidth="20")}
KEDIT = ["same DATETIME", "two gains", "gain below 1", "int exposure", "zero exposure", "mean frame gain", "uneven sets", "short sets", "number DATETIME"] + sorted(kpar({"rows": 1, "pc": 1, "N": 1}))


@PROP.sub("kgain_rejects", [st.fixed_dictionaries({"k": st.just(9.), "rn": st.just(8.), "nset": st.just(5), "nf": st.just(5), "s": seeds, "pc": st.just(40), "rows": st.just(120), "gkey": st.just("EMGAIN_C"), "bw": st.just(20), "N": st.just(60), "tilt": st.just(1.0), "twice": st.just(False),
                                                     "w": st.sampled_from(x)}) for x in (sorted(KBAD), KEDIT[:9], KEDIT[9:])], 24, 150, shards=2)
def kgain_rejects(c, rec):
    groups = kset(c); w = c["w"]; kw, f1, f2 = {}, groups[2][1], groups[3][2]
    if w in KBAD: kw = KBAD[w]
    elif w == "same DATETIME": f2.ext_hdr["DATETIME"] = f1.ext_hdr["DATETIME"]
    elif w == "two gains":
        for f in groups[2]: f.ext_hdr["EMGAIN_C"] = 3.0
    elif w == "gain below 1":
        for g in groups[1:]:
            for f in g: f.ext_hdr["EMGAIN_C"] = 0.5
    elif w == "int exposure":
        for f in groups[2]: f.ext_hdr["EXPTIME"] = 17
    elif w == "zero exposure":
        for f in groups[2]: f.ext_hdr["EXPTIME"] = 0.0
    elif w == "mean frame gain": groups[0][3].ext_hdr["EMGAIN_C"] = 2.0
    elif w == "uneven sets": groups[2] = groups[2] + [kframe(c, rng(3), 900, 900, "KGAIN", 6.0)]
    elif w == "short sets": groups[1:] = [g[:4] for g in groups[1:]]
    elif w == "number DATETIME": f1.ext_hdr["DATETIME"] = 5
    else:
        p = kpar(c)
        if c["s"] % 2: p.pop(w)
        else: p[w] = "x"
        kw = dict(kgain_params=p)
    rec.nt(); rec.label(w)
    rejects(lambda: kcal(c, data.Dataset([f for g in groups for f in g]), **kw), (Exception,), "k-gain calibration with " + w)


# ------------------------------------------------------------------ non-linearity
P = dict(rowroi1=10, rowroi2=30, colroi1=10, colroi2=30, rowback11=0, rowback12=8, rowback21=32, rowback22=40, colback11=2, colback12=38, colback21=2, colback22=38, min_exp_time=0, num_bins=50, min_bin=200, min_mask_factor=1.1)
nbase = {"gains": st.lists(st.tuples(st.sampled_from([1.0, 2.0, 10.0, 30.5, 200.0]), st.sampled_from(["EMGAIN_C", "EMGAIN_A", "EMGAIN_M"])), min_size=1, max_size=3, unique_by=lambda g: g[0]),
         "n": st.integers(20, 24), "tmin": st.floats(0.5, 5), "rate": st.floats(150, 300), "rep": st.integers(2, 6), "ri": st.integers(0, 18), "dev": st.lists(st.floats(-0.08, 0.08), min_size=9, max_size=9), "drift": st.sampled_from([0, 0, 0.01, -0.02]), "bias": st.floats(-20, 60),
         "norm": st.sampled_from([1000, 2000, 2500, 3000, 4000]), "wr": st.sampled_from([(800.0, 10000.0), (20.0, 14000.0), (801.0, 9999.0), (200, 6000)]), "low": st.integers(1, 2), "upp": st.integers(-3, -2), "s": seeds, "per": st.integers(1, 2), "tstep": st.sampled_from([7, 60]), "mixed": st.booleans()}


def campaign(c):
    """frames and, per gain, the planted relative gain at the exposure times (1 inside the fitted range)"""
    r = rng(c["s"])
    pat = np.zeros((40, 40)); pat[12:28, 12:28] = 1 + 0.1 * (r.random((16, 16)) - 0.5); pat[12:28, 12:28] /= pat[12:28, 12:28].mean()
    ets = np.round(np.linspace(c["tmin"], 10500 / c["rate"], c["n"]), 3)
    groups, t, curves, n = [[]], 0, [], 0

    def add(g, key, et, obs, s):
        nonlocal n
        e = {"EXPTIME": float(et), "EMGAIN_C": float(g), "EMGAIN_A": -1.0, "DATETIME": stamp(t)}
        if key != "EMGAIN_C" and obs != "MNFRAME": e[key] = g * 1.05
        n += 1
        return img(pat * s + c["bias"], pri={"OBSNAME": obs}, ext=e, filename=fname(n))
    for _ in range(30):
        groups[0].append(add(1.0, "", 12.0, "MNFRAME", 2400.0)); t += 1
    for gi, (g, key) in enumerate(sorted(c["gains"])):
        rel = np.ones(c["n"])
        d = c["dev"][3 * gi:3 * gi + 3]
        rel[:c["low"]] += np.array(d[:1] * c["low"]); rel[c["upp"]:] += np.resize(d[1:], -c["upp"])
        if np.sqrt(np.mean((1 - 1 / rel) ** 2)) < 1e-3 or min(c["dev"][3 * gi:3 * gi + 3], key=abs) == 0: rel[:] = 1
        fr, rp = [], 2 + c["ri"] % (c["n"] - 6)
        order = list(range(c["n"])) * c["per"]
        seq = [rp] * c["rep"] + order + [rp] * (c["rep"] + (c["ri"] % 2))
        t0, when = t, {}
        for i in seq:
            t += c["tstep"]
            when.setdefault(i, []).append((t - t0) / (c["tstep"] * len(seq)))
            fr.append(add(g, key, ets[i], ("KGAIN", "NONLIN")[(c["s"] + i) % 2 if c["mixed"] and g == 1 else 1], rel[i] * c["rate"] * ets[i] * (1 + c["drift"] * when[i][-1])))
        groups.append(fr); curves.append((rel, 1 + c["drift"] * np.mean(when[0])))     # illumination when the shortest exposures were taken
    return groups, ets, curves


def ncal(c, ds, **kw):
    a = dict(n_cal=20, n_mean=30, norm_val=c["norm"], min_write=c["wr"][0], max_write=c["wr"][1], make_plot=False, nonlin_params=dict(P), rms_low_limit=1e-5, pfit_upp_cutoff1=c["upp"], pfit_low_cutoff1=c["low"], pfit_upp_cutoff2=c["upp"], pfit_low_cutoff2=c["low"], lowess_frac=2.4 / c["n"])
    a.update(kw)
    return calibrate_nonlin(ds, **a)


@PROP.sub("nonlin", st.fixed_dictionaries(nbase), 60, 1200, shards=6)
def nonlin(c, rec):
    groups, ets, curves = campaign(c)
    rec.nt()
    ds = data.Dataset([f for g in groups for f in g])
    s0 = snap(ds)
    nl = ncal(c, ds)
    same(s0, snap(ds), "the input of calibrate_nonlin")
    require(type(nl) is data.NonLinearityCalibration and nl.ext_hdr["DATATYPE"] == "NonLinearityCalibration", "product {}", type(nl))
    axis = np.arange(20, 14001, 20.0)
    axis = axis[(axis >= c["wr"][0]) & (axis <= c["wr"][1])]
    require(nl.data.shape == (len(axis) + 1, len(c["gains"]) + 1), "table shape {} for {} counts and {} gains", nl.data.shape, len(axis), len(c["gains"]))
    eq(nl.data[1:, 0], axis, "count axis")
    close(nl.data[0, 1:], [g * (1.05 if k != "EMGAIN_C" else 1) for g, k in sorted(c["gains"])], 1e-12, 0, "gain axis")
    require(np.isnan(nl.data[0, 0]), "corner {}", nl.data[0, 0])
    inorm = np.flatnonzero(axis == c["norm"])
    require(len(inorm) == 1 and np.allclose(nl.data[1 + inorm[0], 1:], 1, rtol=1e-12, atol=0), "table at the normalisation {}", nl.data[1 + inorm[0]])
    for j, (rel, ill) in enumerate(curves):
        s = rel * c["rate"] * ets * ill
        grid = axis[(axis >= s.min()) & (axis <= s.max() * (1 - abs(c["drift"])))]
        if not (np.diff(s) > 20).all() or not s[0] < c["norm"] < s[-1]:
            rec.label("curve not invertible"); continue
        want = np.interp(c["norm"], s, rel) / np.interp(grid, s, rel)
        got = nl.data[1:, 1 + j][np.isin(axis, grid)]
        rec.label("drift %s, %s" % (c["drift"] != 0, "curved" if (rel != 1).any() else "linear"))
        # the illumination drift is corrected to first order in the drift
        close(got, want, 0, 1e-8 if not c["drift"] else 6 * c["drift"] ** 2, "relative gain of set {} with drift {}".format(j, c["drift"]))


NBAD = {"few mean frames": dict(n_mean=31), "few frames": dict(n_cal=80), "norm 2510": dict(norm_val=2510), "norm below": dict(norm_val=400, min_write=800.0), "norm above": dict(norm_val=12000, max_write=10000.0), "min = max": dict(min_write=3000.0, max_write=3000.0, norm_val=3000),
        "rms limits": dict(rms_low_limit=0.3, rms_upp_limit=0.2), "negative rms": dict(rms_low_limit=-1.0), "lowess": dict(lowess_frac="x"), "cutoff": dict(pfit_upp_cutoff1="x"), "float norm": dict(norm_val=2500.0), "norm 0": dict(norm_val=0)}
NEDIT = ["same DATETIME", "not ordered", "no repeats", "int exposure", "zero exposure", "mean frame gain", "mean frame exposure", "gain below 1", "measured gain below 1", "OBSNAME", "number DATETIME"] + sorted(P)


@PROP.sub("nonlin_rejects", [st.fixed_dictionaries(dict(nbase, w=st.sampled_from(x))) for x in (sorted(NBAD), NEDIT[:11], NEDIT[11:])], 60, 500, shards=2)
def nonlin_rejects(c, rec):
    c = dict(c, wr=(800.0, 10000.0), norm=2500)
    groups, ets, curves = campaign(c); w = c["w"]; kw = {}
    g = groups[1]; i = 1 + c["s"] % (len(g) - 2)
    if w in NBAD: kw = NBAD[w]
    elif w == "same DATETIME": g[i].ext_hdr["DATETIME"] = g[i + 1].ext_hdr["DATETIME"]
    elif w == "not ordered": g[i].ext_hdr["DATETIME"], g[i + 1].ext_hdr["DATETIME"] = g[i + 1].ext_hdr["DATETIME"], g[i].ext_hdr["DATETIME"]
    elif w == "no repeats": groups[1] = g[c["rep"]:c["rep"] + c["n"]]
    elif w == "int exposure": g[i].ext_hdr["EXPTIME"] = 7
    elif w == "zero exposure": g[i].ext_hdr["EXPTIME"] = 0.0
    elif w == "mean frame gain": groups[0][3].ext_hdr["EMGAIN_C"] = 2.0
    elif w == "mean frame exposure": groups[0][3].ext_hdr["EXPTIME"] = 2.0
    elif w == "gain below 1":
        for f in g: f.ext_hdr["EMGAIN_C"] = 0.5
    elif w == "measured gain below 1":
        for f in g: f.ext_hdr["EMGAIN_M"] = 0.5
    elif w == "OBSNAME": g[i].pri_hdr["OBSNAME"] = "OTHER"
    elif w == "number DATETIME": g[i].ext_hdr["DATETIME"] = 5
    else:
        p = dict(P)
        if c["s"] % 2: p.pop(w)
        else: p[w] = "x"
        kw = dict(nonlin_params=p)
    rec.nt(); rec.label(w)
    rejects(lambda: ncal(c, data.Dataset([f for gr in groups for f in gr]), **kw), (Exception,), "non-linearity calibration with " + w)
