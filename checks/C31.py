"""C31: trap-pumping models, fits and the trap calibration built from them."""
from vf.common import *
from vf.core import Prop, require
import io, contextlib, warnings
from corgidrp import pump_trap_calibration as tp
from corgidrp.detector import detector_areas

PROP = Prop("C31", "Probability models against their closed forms over generated times, constants, offsets and pump numbers; release-time law against CODATA-level physics and its error against numerical derivatives; noise-free planted dipole curves (random scheme, probability "
            "function, phase times, pump number, offset, one or two traps) fitted; planted energy levels and cross sections recovered from release times at 3-8 temperatures; local illumination bins and dipole identification against reference implementations; whole analysis on small "
            "simulated campaigns (every sub-electrode location, 3-5 temperatures, any frame order, e-/DN factor, background), recovered trap table against the planted one, invariance under rescaling of the counts; table <-> dictionary round trip. Non-trivial: every case with a trap / accepted input.")
PE = {1: lambda x: np.exp(-x) - np.exp(-2 * x), 2: lambda x: np.exp(-2 * x) - np.exp(-3 * x), 3: lambda x: np.exp(-x) - np.exp(-4 * x)}
PAIRS = {"P1_P1": (1, 1), "P1_P2": (1, 2), "P2_P2": (2, 2), "P3_P3": (3, 3), "P2_P3": (2, 3)}


def logu(a, b):
    return st.floats(a, b).map(lambda x: float(10 ** x))


@PROP.sub("models", st.fixed_dictionaries({"tc": st.tuples(logu(-8, -3), logu(-8, -3)), "tau": st.tuples(logu(-6, -2), logu(-6, -2)), "off": st.floats(-100, 100), "N": st.one_of(st.none(), st.integers(1, 50000)), "n": st.integers(1, 30), "s": seeds}), 300, 6000)
def models(c, rec):
    rec.nt()
    t = 10 ** rng(c["s"]).uniform(-6.5, -1.5, c["n"])
    N = 2000 if c["N"] is None else c["N"]
    kw = {} if c["N"] is None else {"num_pumps": c["N"]}
    one = lambda p, k: N * (1 - np.exp(-t / c["tc"][k])) * PE[p](t / c["tau"][k])
    for p in (1, 2, 3):
        close(getattr(tp, "P%d" % p)(t, c["off"], c["tc"][0], c["tau"][0], **kw), c["off"] + one(p, 0), 1e-12, 1e-10 * N, "P%d" % p)
    for name, (a, b) in PAIRS.items():
        close(getattr(tp, name)(t, c["off"], c["tc"][0], c["tau"][0], c["tc"][1], c["tau"][1], **kw), c["off"] + one(a, 0) + one(b, 1), 1e-12, 1e-10 * N, name)


def tau_ref(T, E, cs):
    """release time (s): exp(E/kT) / (sigma v_th N_c), hole-trap parameters of silicon; cs in 1e-19 m^2"""
    T = np.asarray(T, float)
    Eg = 1.1692 - 4.9e-4 * T ** 2 / (T + 655)
    me = 9.109e-31
    ml, mt = 0.1963 * me, 0.1905 * 1.1692 * me / Eg
    mdc = 6 ** (2 / 3) * (mt * mt * ml) ** (1 / 3)
    kb, h = 1.381e-23, 6.626e-34
    return np.exp(E / (8.6173e-5 * T)) / (cs * 1e-19 * np.sqrt(3 * kb * T / mdc) * 2 * (2 * np.pi * mdc * kb * T / h ** 2) ** 1.5)


@PROP.sub("release_time", st.fixed_dictionaries({"T": st.lists(st.floats(120, 260), min_size=1, max_size=6), "E": st.floats(0.02, 0.6), "cs": st.floats(0.05, 60), "sE": st.floats(0, 0.05), "scs": st.floats(0, 5), "scalar": st.booleans()}), 300, 6000)
def release_time(c, rec):
    rec.nt()
    T = c["T"][0] if c["scalar"] else np.array(c["T"])
    want = tau_ref(T, c["E"], c["cs"])
    close(tp.tau_temp(T, c["E"], c["cs"]), want, 1e-9, 0, "release time")
    dE = c["E"] * 1e-5; dc = c["cs"] * 1e-5
    gE = (tau_ref(T, c["E"] + dE, c["cs"]) - tau_ref(T, c["E"] - dE, c["cs"])) / (2 * dE)
    gc = (tau_ref(T, c["E"], c["cs"] + dc) - tau_ref(T, c["E"], c["cs"] - dc)) / (2 * dc)
    close(tp.sig_tau_temp(T, c["E"], c["cs"], c["sE"], c["scs"]), np.hypot(gE * c["sE"], gc * c["scs"]), 1e-4, 1e-12 * np.max(want), "error of the release time")


# ------------------------------------------------------------------ one dipole
def probs(s):
    return (1, 2) if s in (1, 2) else (3, 2)


def times(c):
    r = rng(c["s"])
    t = np.logspace(-6, -2, c["n"]) if c["grid"] else np.sort(10 ** r.uniform(-6, -2, c["n"]))
    if c["rep"]:
        t = np.concatenate([t, t[::2]])
    return t[r.permutation(len(t))] if c["shuf"] else t


def r2adj(amps, fit, k):
    return 1 - np.sum((fit - amps) ** 2) / np.sum((amps - amps.mean()) ** 2) * (len(amps) - 1) / (len(amps) - k)


def judge(fd, amps, t, N, thr, const, lim, sch):
    """whatever the fit returns is a curve of the scheme's models, inside the bounds, at least as good as the threshold"""
    if fd is None:
        return None
    tr = [(p, e) for p, es in fd.items() for e in es]
    require(1 <= len(tr) <= 2 and all(p in probs(sch) and len(e) == 4 for p, e in tr), "fit {} for scheme {}", fd, sch)
    fit = np.zeros_like(amps)
    for p, (cap, ce, tau, te) in tr:
        require(lim[0] * (1 - 1e-9) <= tau <= lim[1] * (1 + 1e-9) and lim[2] * (1 - 1e-9) <= cap <= lim[3] * (1 + 1e-9), "fitted trap {} outside the bounds {}", (cap, tau), lim)
        with np.errstate(all="ignore"):
            fit = fit + N * (cap if const else (1 - np.exp(-t / cap)) if cap > 0 else 1) * PE[p](t / tau)
    off = np.clip(np.mean(amps - fit), lim[4], lim[5])
    got = r2adj(amps, fit + off, 2 * len(tr) + 1)
    require(got >= thr - 1e-6, "fit {} has adjusted R^2 {}, the threshold is {}", fd, got, thr)
    return tr


fbase = {"sch": st.integers(1, 4), "k": st.integers(0, 1), "N": st.sampled_from([50, 500, 2000, 2001, 10000]), "n": st.integers(8, 25), "grid": st.booleans(), "rep": st.booleans(), "shuf": st.booleans(), "s": seeds,
         "tau": logu(-5, -3), "off": st.floats(-8, 8), "nz": st.sampled_from([(0, 0), (0, 0.5), (0, 0.9), (0, 0.99), (0, 1 - 1e-6), (0.01, 0.9), (0.3, 0.3)])}


@PROP.sub("fit_const", st.fixed_dictionaries(dict(fbase, pc=st.floats(0.3, 1.5))), 240, 3000, shards=4)
def fit_const(c, rec):
    c["noise"], c["thr"] = c["nz"]
    t = times(c); p = probs(c["sch"])[c["k"]]
    amps = c["off"] + c["N"] * c["pc"] * PE[p](t / c["tau"]) + c["noise"] * c["N"] * 0.2 * rng(c["s"] + 1).normal(size=len(t))
    a0, t0 = amps.copy(), t.copy()
    fd = tp.trap_fit_const(c["sch"], amps, t, c["N"], c["thr"], 0.7e-6, 1.3e-2, 0, 2, -10, 10)
    require((amps == a0).all() and (t == t0).all(), "the fit modified its input")
    tr = judge(fd, amps, t, c["N"], c["thr"], True, (0.7e-6, 1.3e-2, 0, 2, -10, 10), c["sch"])
    if tr:
        rec.nt()
    if tr and len(tr) == 1 and not c["noise"]:
        require(r2adj(amps, a0, 3) == 1, "")
        if tr[0][0] == p and c["grid"] and c["n"] >= 15 and c["thr"] > 0.99:
            rec.label("recovered")
            close([tr[0][1][0], tr[0][1][2]], [c["pc"], c["tau"]], 0.08, 0, "planted capture probability and release time")


@PROP.sub("fit_const_batch", st.fixed_dictionaries({"s": seeds, "N": st.sampled_from([500, 2000, 10000]), "const": st.booleans()}), 16, 200, shards=4)
def fit_batch(c, rec):
    """most of a batch of well-sampled noise-free dipoles are recovered exactly"""
    r = rng(c["s"])
    t = np.logspace(-6, -2, 20)
    ok, m = 0, 20
    for i in range(m):
        sch = int(r.integers(1, 5)); p = probs(sch)[int(r.integers(2))]
        tau, off = 10 ** r.uniform(-5, -3), r.uniform(-8, 8)
        cap = r.uniform(0.4, 1.2) if c["const"] else 10 ** r.uniform(-6.5, -5.2)
        amps = off + c["N"] * (cap if c["const"] else 1 - np.exp(-t / cap)) * PE[p](t / tau)
        lim = (0.7e-6, 1.3e-2, 0, 2 if c["const"] else 1e-5, -10, 10)
        fd = (tp.trap_fit_const if c["const"] else tp.trap_fit)(sch, amps, t, c["N"], 0.99, *lim)
        tr = judge(fd, amps, t, c["N"], 0.99, c["const"], lim, sch)
        if tr and len(tr) == 1 and tr[0][0] == p and abs(tr[0][1][2] / tau - 1) < 0.01:
            ok += 1
    rec.nt(); rec.label("%s: %d of 20" % ("const" if c["const"] else "tauc", ok))
    require(ok >= (7 if c["const"] else 4), "{} of {} planted dipoles recovered (constant capture probability: {})", ok, m, c["const"])


@PROP.sub("fit_two", st.fixed_dictionaries(dict(fbase, const=st.booleans(), k2=st.integers(0, 1), pc=st.floats(0.3, 1), pc2=st.floats(0.3, 1), ratio=st.floats(5, 60), both=st.booleans(), thr=st.sampled_from([0.9, 0.97]))), 60, 1000, shards=4)
def fit_two(c, rec):
    c["noise"] = 0
    t = times(c); ps = probs(c["sch"]); p, q = ps[c["k"]], ps[c["k2"]]
    t2 = c["tau"] * c["ratio"]
    f = [(c["pc"] if c["const"] else 1) * PE[p](t / c["tau"]) * c["N"], (c["pc2"] if c["const"] else 1) * PE[q](t / t2) * c["N"]]
    amps = c["off"] + f[0] + f[1]
    lim = (0.7e-6, 1.3e-2, 0, 2 if c["const"] else 1e-5, -10, 10)
    fn = tp.trap_fit_const if c["const"] else tp.trap_fit
    if not c["both"]:
        if judge(fn(c["sch"], amps, t, c["N"], c["thr"], *lim), amps, t, c["N"], c["thr"], c["const"], lim, c["sch"]):
            rec.nt()
        return
    a = {"amp": c["off"] + f[0], "t": t}           # the first trap is the "above" one
    fd = fn(c["sch"], amps, t, c["N"], c["thr"], *lim, both_a=a)
    if fd is None:
        return
    rec.nt(); rec.label("both")
    require(set(fd) == {"a", "b"} and all(len(d) == 1 and len(list(d.values())[0]) == 1 for d in fd.values()), "fit of a two-orientation pixel {}", fd)
    flat = {}
    for d in fd.values():
        for k, e in d.items():
            flat.setdefault(k, []).extend(e)
    judge(flat, amps, t, c["N"], c["thr"], c["const"], lim, c["sch"])
    # of the two fitted traps, the one whose curve peaks closest to the peak of the "above" dipole is assigned to it
    peak = {1: np.log(2), 2: np.log(1.5), 3: 2 * np.log(2) / 3}
    tpk = t[np.argmax(a["amp"])]
    (pa, ea), (pb, eb) = [(k, e[0]) for k, e in fd["a"].items()][0], [(k, e[0]) for k, e in fd["b"].items()][0]
    da, db = abs(tpk / peak[pa] - ea[2]), abs(tpk / peak[pb] - eb[2])
    require(da <= db * (1 + 1e-9), "the trap assigned to the above dipole peaks at {} s (the other at {} s), the dipole at {} s", ea[2] * peak[pa], eb[2] * peak[pb], tpk)


FB = {"scheme 0": (TypeError, dict(sch=0)), "scheme 5": (TypeError, dict(sch=5)), "2-D amps": (TypeError, dict(amps=np.ones((3, 3)))), "text amps": (TypeError, dict(amps=["a"] * 10)), "2-D times": (TypeError, dict(t=np.ones((3, 3)))), "five times": (IndexError, dict(t=[1e-5, 1e-5, 1e-4, 2e-4, 3e-4, 4e-4, 4e-4, 4e-4, 4e-4, 4e-4])),
      "lengths": (ValueError, dict(amps=np.ones(9))), "no pumps": (TypeError, dict(N=0)), "float pumps": (TypeError, dict(N=10.5)), "threshold < 0": (TypeError, dict(thr=-0.1)), "threshold > 1": (ValueError, dict(thr=1.01)), "tau bounds": (ValueError, dict(l=(1e-3, 1e-3, 0, 1, -1, 1))),
      "capture bounds": (ValueError, dict(l=(0, 1, 2, 1, -1, 1))), "offset bounds": (ValueError, dict(l=(0, 1, 0, 1, 1, 1))), "negative tau": (TypeError, dict(l=(-1, 1, 0, 1, -1, 1))), "negative capture": (TypeError, dict(l=(0, 1, -1, 1, -1, 1))),
      "both_a list": (TypeError, dict(b=[1])), "both_a keys": (KeyError, dict(b={"amp": [1]})), "both_a lengths": (ValueError, dict(b={"amp": [1], "t": [1, 2]}))}


@PROP.sub("fit_rejects", st.fixed_dictionaries({"w": st.sampled_from(sorted(FB)), "const": st.booleans()}), 60, 200)
def fit_rejects(c, rec):
    exc, k = FB[c["w"]]
    rec.nt()
    t = np.logspace(-6, -2, 10)
    a = [k.get("sch", 1), k.get("amps", 500 * PE[1](t / 1e-4)), k.get("t", t), k.get("N", 2000), k.get("thr", 0.8), *k.get("l", (0, 1, 0, 1, -10, 10))]
    rejects(lambda: (tp.trap_fit_const if c["const"] else tp.trap_fit)(*a, both_a=k.get("b")), (exc,), c["w"])


# ------------------------------------------------------------------ temperature fit
@PROP.sub("fit_cs", st.fixed_dictionaries({"E": st.floats(0.1, 0.5), "tau": logu(-5, -3), "T": st.lists(st.integers(150, 220), min_size=1, max_size=8), "Tin": st.floats(150, 220), "rel": st.sampled_from([0, 1e-3, 0.05]), "noise": st.booleans(), "thr": st.sampled_from([0, 0.8, 1]), "s": seeds}), 200, 4000, shards=2)
def fit_cs(c, rec):
    cs = tau_ref(180., c["E"], 1.0) / c["tau"]
    assume_ok = 0.5 <= cs <= 45
    cs = min(max(cs, 0.5), 45)
    T = np.array(c["T"], float)
    taus = tau_ref(T, c["E"], cs)
    errs = c["rel"] * taus
    if c["noise"]:
        taus = taus * (1 + 0.3 * c["rel"] * rng(c["s"]).normal(size=len(T)))
    b = taus.copy(), errs.copy(), T.copy()
    out = tp.fit_cs(taus, errs, T, c["thr"], 0, 1, 0, 50, c["Tin"])
    require(len(out) == 7, "{} results", len(out))
    require(all((x == y).all() for x, y in zip(b, (taus, errs, T))), "fit_cs modified its input")
    if len(set(c["T"])) < 3:
        rec.label("few temperatures")
        require(all(x is None for x in out), "fit of {} temperatures: {}", len(set(c["T"])), out)
        return
    if out[0] is None:
        rec.label("no fit"); return
    rec.nt()
    E, sE, cs_, scs, R, tin, st_ = [float(x) for x in out]
    require(0 <= E <= 1 and 0 <= cs_ <= 50e-15 * (1 + 1e-9), "fit outside the bounds: E {} cs {}", E, cs_)
    close(tin, tau_ref(c["Tin"], E, cs_ * 1e15), 1e-6, 0, "release time at the requested temperature")
    fit = tau_ref(T, E, cs_ * 1e15)
    # the fitted cross section is only known to the rounding of cs*1e-15
    close(R, r2adj(taus, fit, 2), 0, 1e-6 + 1e-6 * abs(R), "adjusted R^2")
    dE = tau_ref(c["Tin"], E, cs_ * 1e15) / (8.6173e-5 * c["Tin"])
    if np.isfinite([sE, scs]).all():
        close(st_, np.hypot(dE * sE, tin / cs_ * scs), 1e-3, 0, "error of the release time")
    if not c["noise"] and assume_ok and c["rel"] and max(c["T"]) - min(c["T"]) >= 15:
        rec.label("recovered" if abs(E - c["E"]) < 0.003 else "missed")
        if abs(R - 1) < 1e-7:
            close(E, c["E"], 0, 2e-3, "energy level")
            close(tin, tau_ref(c["Tin"], c["E"], cs), 0.15, 0, "release time extrapolated to the requested temperature")


@PROP.sub("fit_cs_batch", st.fixed_dictionaries({"s": seeds}), 12, 200, shards=2)
def fit_cs_batch(c, rec):
    r = rng(c["s"]); ok = 0
    for i in range(10):
        E = r.uniform(0.15, 0.4); tau = 10 ** r.uniform(-5, -3)
        cs = min(max(tau_ref(180., E, 1.) / tau, 1), 40)
        T = np.array([160., 168., 176., 184., 192.]); ta = tau_ref(T, E, cs)
        o = tp.fit_cs(ta, 0.01 * ta, T, 0.8, 0, 1, 0, 50, 180.)
        ok += o[0] is not None and abs(o[0] / E - 1) < 1e-3 and abs(o[2] * 1e15 / cs - 1) < 0.02
    rec.nt(); rec.label("%d of 10" % ok)
    require(ok >= 7, "{} of 10 planted traps recovered from noise-free release times", ok)


# ------------------------------------------------------------------ illumination and dipoles
@PROP.sub("illumination", [st.fixed_dictionaries({"sh": st.tuples(st.integers(2, 24), st.integers(2, 24)), "b": b, "corr": k, "s": seeds}) for b, k in ((st.integers(1, 24), st.just(True)), (st.one_of(st.none(), st.integers(1, 30)), st.booleans()))], 200, 4000)
def illumination(c, rec):
    a = rng(c["s"]).normal(100, 30, size=c["sh"])
    a0 = a.copy()
    b = c["b"] if c["b"] is None else min(c["b"], *c["sh"])
    got, loc = tp.illumination_correction(a, b, c["corr"])
    eq(a, a0, "input of the illumination correction")
    want = np.zeros_like(a)
    if c["corr"] and b is not None:
        rec.nt()
        nr, nc = max(1, c["sh"][0] // b), max(1, c["sh"][1] // b)
        for i in range(nr):
            for j in range(nc):
                s = (slice(i * b, (i + 1) * b if i < nr - 1 else None), slice(j * b, (j + 1) * b if j < nc - 1 else None))
                want[s] = np.median(a[s])
    else:
        want[:] = np.median(a)
    close(loc, want, 1e-12, 1e-10, "local illumination, bins of {} in {}".format(b, c["sh"]))
    close(got, a - want, 1e-12, 1e-10, "corrected image")


@PROP.sub("dipoles", st.fixed_dictionaries({"sh": st.tuples(st.integers(5, 14), st.integers(5, 14)), "n": st.integers(3, 9), "lim": st.integers(1, 3), "thr": st.sampled_from([0.5, 1.0, 1.5, 3.0]), "d": st.lists(st.tuples(st.integers(0, 13), st.integers(0, 13), st.sampled_from([-1, 1]), st.integers(0, 511), st.floats(3, 60)), max_size=5),
                                              "s": seeds, "rept": st.integers(1, 3), "noise": st.sampled_from([0.5, 1.0])}), 200, 5000, shards=2)
def dipoles(c, rec):
    r = rng(c["s"]); n = c["n"]
    fr = r.normal(0, c["noise"], size=(n,) + tuple(c["sh"]))
    for row, col, sgn, mask, amp in c["d"]:
        row, col = row % c["sh"][0], col % c["sh"][1]
        if not 0 <= row + sgn < c["sh"][0]:
            continue
        for z in range(n):
            if mask >> z & 1:
                fr[z, row, col] += amp; fr[z, row + sgn, col] -= amp
    t = np.array([1e-6 * (1 + z // c["rept"]) for z in range(n)])
    lo, hi = r.uniform(1, 2, size=c["sh"]), r.uniform(3, 4, size=c["sh"])
    f0 = fr.copy()
    A, B, AB = tp.trap_id(fr, lo, hi, t, c["thr"], c["lim"])
    eq(fr, f0, "images given to trap_id")
    med, sd = np.median(fr, axis=(1, 2)), np.std(fr, axis=(1, 2))
    up = fr > (med + sd * c["thr"])[:, None, None]; dn = fr < (med - sd * c["thr"])[:, None, None]
    ab, be = np.zeros_like(up), np.zeros_like(up)
    ab[:, :-1] = up[:, :-1] & dn[:, 1:]
    be[:, 1:] = up[:, 1:] & dn[:, :-1]
    w = np.array([1 / np.sum(t == x) for x in t])
    # frames sharing a phase time count together as at most one; the sum is rounded up
    sa, sb = np.ceil(np.round((ab * w[:, None, None]).sum(axis=0), 9)), np.ceil(np.round((be * w[:, None, None]).sum(axis=0), 9))
    ra = {tuple(map(int, x)) for x in np.argwhere(sa >= c["lim"])}; rb = {tuple(map(int, x)) for x in np.argwhere(sb >= c["lim"])}
    near = {tuple(map(int, x)) for m, s in ((ab, sa), (be, sb)) for x in np.argwhere(np.abs((m * w[:, None, None]).sum(axis=0) - np.round((m * w[:, None, None]).sum(axis=0))) < 1e-9) if c["rept"] == 3}
    k = lambda d: {tuple(map(int, x)) for x in d} - near
    require(k(A) == ra - rb - near, "above dipoles {} expected {}", sorted(k(A)), sorted(ra - rb))
    require(k(B) == rb - ra - near, "below dipoles {} expected {}", sorted(k(B)), sorted(rb - ra))
    require(k(AB) == (ra & rb) - near, "two-orientation dipoles {} expected {}", sorted(k(AB)), sorted(ra & rb))
    if A or B or AB:
        rec.nt()
    for d, key in ((A, "amps_above"), (B, "amps_below"), (AB, "amps_both")):
        for rc, v in d.items():
            eq(v[key], fr[:, rc[0], rc[1]], key); eq(v["loc_med_min"], lo[rc], "loc_med_min"); eq(v["loc_med_max"], hi[rc], "loc_med_max")
    for rc, v in AB.items():
        rec.label("both")
        for o, m in (("above", ab), ("below", be)):
            s = m[:, rc[0], rc[1]]
            eq(v[o]["amp"], fr[s, rc[0], rc[1]], "%s amplitudes" % o); eq(v[o]["t"], t[s], "%s times" % o)


# ------------------------------------------------------------------ whole analysis
SUB = {"LHSel2": {1: ("a", 2), 2: ("b", 1), 4: ("a", 3)}, "RHSel2": {1: ("a", 1), 2: ("b", 2), 4: ("b", 3)}, "LHSel4": {1: ("b", 1), 2: ("a", 2), 3: ("a", 3)}, "RHSel4": {1: ("b", 2), 2: ("a", 1), 3: ("b", 3)}, "LHSel1": {1: ("b", 1), 3: ("b", 3)}, "CENel1": {3: ("b", 2), 4: ("a", 2)},
       "RHSel1": {1: ("a", 1), 4: ("a", 3)}, "CENel2": {1: ("a", 1), 2: ("b", 1)}, "LHSel3": {2: ("b", 1), 4: ("b", 3)}, "CENel3": {3: ("a", 2), 4: ("b", 2)}, "RHSel3": {2: ("a", 1), 3: ("a", 3)}, "CENel4": {1: ("b", 1), 2: ("a", 1)}}
CODE = {"LHS": 10, "CEN": 20, "RHS": 30}
HAS1 = [s for s in sorted(SUB) if SUB[s].get(1, ("", 0))[1] == 1]


def campaign(c, f=1.0):
    T = [float(x) for x in c["T"]]
    t = np.logspace(-6, -2, c["nt"])
    n, fr = 0, []
    for temp in T:
        for s in (1, 2, 3, 4):
            N = c["N"] + (100 * s if c["Nvar"] else 0)
            for x in t:
                a = np.full(c["sh"], float(c["bg"]))
                for (i, sub, E, lt) in c["traps"]:
                    if s in SUB[sub]:
                        o, p = SUB[sub][s]
                        A = N * PE[p](x / (tau_ref(temp, E, 1.) * 10 ** lt / tau_ref(180., E, 1.))) / c["gain"]
                        r_, k = 3 + 6 * (i // 4), 3 + 6 * (i % 4)
                        a[r_, k] += A; a[r_ + (1 if o == "a" else -1), k] -= A
                e = {"EXCAMT": temp, "TPTAU": x * 1e6, "ARRTYPE": "SCI"}
                e.update({"TPSCHEM%d" % k: (N if k == s else 0) for k in (1, 2, 3, 4)})
                fr.append(img(a * f, ext=e, filename=fname(n))); n += 1
    return [fr[i] for i in rng(c["s"]).permutation(n)] if c["shuf"] else fr


def analyse(fr, **kw):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return tp.tpump_analysis(data.Dataset(fr), **dict(dict(thresh_factor=0.5, length_lim=3), **kw))


trap = st.tuples(st.integers(0, 15), st.sampled_from(sorted(SUB)), st.floats(0.22, 0.3), st.floats(-4.3, -3.7))
tcase = st.fixed_dictionaries({"T": st.lists(st.sampled_from([160, 165, 170, 175, 180, 185, 190]), min_size=3, max_size=4, unique=True), "nt": st.integers(14, 18), "N": st.sampled_from([2000, 10000]), "Nvar": st.booleans(), "gain": st.floats(0.5, 12), "bg": st.sampled_from([0, 500.0]), "sh": st.just((28, 28)),
                               "first": st.tuples(st.sampled_from(HAS1), st.floats(0.24, 0.28)), "traps": st.lists(trap, min_size=1, max_size=3, unique_by=lambda x: x[0]), "shuf": st.booleans(), "s": seeds, "bin": st.sampled_from([None, 10, 7]), "Tin": st.sampled_from([180, 172.5]), "f": st.sampled_from([2.0, 0.25])})


@PROP.sub("analysis", tcase, 16, 300, shards=8)
def analysis(c, rec):
    E0, names = c["first"][1], sorted(SUB)
    turn = lambda l, x: l[(l.index(x) + c["s"]) % len(l)]
    c = dict(c, traps=[(c["s"] % 16, turn(HAS1, c["first"][0]), E0, -4.0)] + [(i, turn(names, sub), E, lt) for i, sub, E, lt in c["traps"] if i != c["s"] % 16])
    kw = dict(bin_size=c["bin"], input_T=c["Tin"])
    fr = campaign(c); h0 = [snap(x) for x in fr]
    cal = analyse(fr, **kw)
    for a, b in zip(h0, fr):
        same(a, snap(b), "a frame given to tpump_analysis")
    require(type(cal) is data.TrapCalibration and cal.data.ndim == 2 and cal.data.shape[1] == 10, "product {} {}", type(cal), cal.data.shape)
    require(cal.ext_hdr["DATATYPE"] == "TrapCalibration" and cal.ext_hdr["DRPNFILE"] == len(fr), "header of the product")
    rec.nt()
    want = {}
    for i, sub, E, lt in c["traps"]:
        cs = tau_ref(180., E, 1.) / 10 ** lt
        want[(3 + 6 * (i // 4), 3 + 6 * (i % 4), CODE[sub[:3]] + int(sub[-1]), 0)] = (sub, E, cs, lt)
    got = {tuple(int(x) for x in row[:4]): row for row in cal.data}
    require(len(got) == len(cal.data), "trap listed twice: {}", cal.data[:, :4])
    require(set(got) == set(want), "traps {} found, {} planted", sorted(got), sorted(want))
    for k, (sub, E, cs, lt) in want.items():
        row = got[k]; rec.label(sub)
        if not 0.3 <= cs <= 45:
            rec.label("cross section outside the fitted range"); continue
        if abs(row[8] - 1) > 1e-3:                      # the temperature fit stopped early: judged by the fit_cs sub-check
            rec.label("temperature fit not converged"); continue
        close(row[6], E, 0, 4e-3, "energy level of {}".format(k))
        close(row[9], tau_ref(c["Tin"], E, cs), 0.05, 0, "release time of {}".format(k))
        s1 = min(SUB[sub]); p1 = SUB[sub][s1][1]
        # capture probability 1: e-/DN is set by the median peak of the scheme-1 dipoles, which are sampled near their peak
        ks = [SUB[s][1][1] for _, s, _, _ in c["traps"] if 1 in SUB[s]]
        if all(p == 1 for p in ks):
            close(row[4], 1, 0.12, 0, "capture probability of {}".format(k))
            N = c["N"] + (100 * s1 if c["Nvar"] else 0)
            close(row[5], N * {1: 1 / 4, 2: 4 / 27, 3: 3 / 4 ** (4 / 3)}[p1], 0.15, 0, "largest dipole amplitude of {}".format(k))
    used = sum(cal.hdu_list["trap_densities"].data[:, 0]) if np.size(cal.hdu_list["trap_densities"].data) else 0
    g = detector_areas["SCI"]                   # imaging area: the frame without prescan and overscans
    nr, nc = g["frame_rows"] - g["parallel_overscan"]["rows"], g["frame_cols"] - g["prescan"]["cols"] - g["serial_overscan"]["cols"]
    close(used * nr * nc, sum(r[8] >= 0.8 for r in cal.data), 1e-9, 0, "total trap density times pixels")
    # counts in other units give the same traps
    c2 = analyse(campaign(c, c["f"]), **kw)
    a, b = cal.data[np.lexsort(cal.data[:, :4].T)], c2.data[np.lexsort(c2.data[:, :4].T)]
    eq(b[:, :4], a[:, :4], "traps found for rescaled counts")
    close(b[:, [4, 5]], a[:, [4, 5]], 1e-3, 0, "capture probability and amplitude for rescaled counts")


# ------------------------------------------------------------------ product
@PROP.sub("table", st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 8), "nf": st.integers(1, 3), "none": st.booleans()}), 80, 1000)
def table(c, rec):
    rec.nt()
    r = rng(c["s"]); d = {}
    for i in range(c["n"]):
        key = ((int(r.integers(1024)), int(r.integers(1024))), "%sel%d" % (["LHS", "CEN", "RHS"][r.integers(3)], r.integers(1, 5)), int(r.integers(3)))
        cap = [list(r.uniform(0, 1000, size=int(r.choice([6, 9])))) for _ in range(int(r.integers(1, 4)))]
        d[key] = {"T": [160], "tau": [1e-6], "sigma_tau": [1e-7], "cap": cap, "E": float(r.uniform(0, 1)), "sig_E": .1, "cs": float(r.uniform(0, 5e-14)), "sig_cs": 1e-15, "Rsq": float(r.uniform(0, 1)), "tau at input T": float(r.uniform(0, 1e-2)), "sig_tau at input T": 1e-6}
        if c["none"] and i == 0:
            d[key].update({"E": None, "cs": None, "Rsq": None, "tau at input T": None})
    ds = dset([img(r.normal(size=(4, 4)), filename=fname(i), ext={"EXCAMT": 180.}) for i in range(c["nf"])])
    s0 = snap(ds)
    cal = tp.create_TrapCalibration_from_trap_dict(d, ds)
    same(s0, snap(ds), "the input dataset")
    require(cal.data.shape == (len(d), 10), "table {} for {} traps", cal.data.shape, len(d))
    for row, (k, v) in zip(cal.data, d.items()):
        nan = lambda x: np.nan if x is None else x
        want = [k[0][0], k[0][1], CODE[k[1][:3]] + int(k[1][-1]), k[2], v["cap"][0][0], v["cap"][0][2], nan(v["E"]), nan(v["cs"]), nan(v["Rsq"]), nan(v["tau at input T"])]
        require(np.array_equal(row, want, equal_nan=True), "row {} for {}", row, want)
    back = tp.rebuild_dict(cal.data)
    require(list(back) == list(d), "keys {} rebuilt from {}", list(back), list(d))
    for k, v in back.items():
        require(v["cap"] == [d[k]["cap"][0][0], 0, d[k]["cap"][0][2]], "cap {}", v["cap"])
        for q in ("E", "cs", "Rsq", "tau at input T"):
            require(v[q] == d[k][q] or (d[k][q] is None and np.isnan(v[q])), "{} {}", q, v[q])
