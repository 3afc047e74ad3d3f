"""C13: cosmic-ray and saturation flags."""
from vf.common import *
from vf.geom import geoms, regions
from vf.core import Prop, require, Violation
from corgidrp.l1_to_l2a import detect_cosmic_rays
from corgidrp import detector

PROP = Prop("C13", "Random small frames with planted hits of any length anywhere (edges, several per row), per-frame gains given as measured/applied/commanded, k-gain from product or detector parameters, random thresholds, filter, "
            "box and tail lengths, image and full mode with random geometries: flags compared with an independent row-scanning model of the documented plateau algorithm; frames judged one by one and in any order. "
            "Non-trivial: the model flags a cosmic ray and leaves other pixels unflagged.")

case = st.fixed_dictionaries({"g": geoms(("SCI", "ENG"), 7, 12), "n": st.integers(1, 3), "mode": st.sampled_from(["image", "image", "full"]), "s": seeds,
                              "sat": st.sampled_from([0.3, 0.7, 0.9, 0.99, 1.0]), "plat": st.sampled_from([0.1, 0.5, 0.7, 0.85, 1.0]), "filt": st.integers(1, 4), "box": st.integers(0, 4), "tail": st.integers(0, 14),
                              "gains": st.lists(st.tuples(st.sampled_from(["EMGAIN_M", "EMGAIN_A", "EMGAIN_C"]), st.sampled_from([1.0, 1.3, 2.0, 10.0, 500.0])), min_size=3, max_size=3),
                              "kg": st.one_of(st.none(), st.floats(1, 12)), "hits": st.integers(0, 5), "dq": st.booleans()})
PP, EM = 9000.0, 10000.0


class KG:
    def __init__(self, v):
        self.value = v
        self.filename = "kg.fits"


def params():
    import astropy.time as time
    return data.DetectorParams({"FWC_PP_E": PP, "FWC_EM_E": EM, "KGAINPAR": 8.7}, date_valid=time.Time("2023-11-01 00:00:00"))


def frames(c):
    reg = regions(c["g"]); arr = c["g"]["arr"]; d = reg[arr]
    shp = (d["frame_rows"], d["frame_cols"]) if c["mode"] == "full" else (d["image"]["rows"], d["image"]["cols"])
    kg = c["kg"] or 8.7
    fr = []
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        a = r.random(shp) * 0.4 * EM / kg * min(c["sat"], c["plat"])
        for _ in range(c["hits"]):
            y, x = r.integers(0, shp[0]), r.integers(0, shp[1])
            ln = int(r.integers(1, 8))
            # exactly at the thresholds, too
            lo = r.choice([0.6, 0.99, 1.0, 1.0, 1.5]) * (min(c["sat"], c["plat"]) * (EM / kg)) if r.random() < 0.3 else c["sat"] * (EM / kg) * r.choice([1.0, 1.001, 2.0])
            if r.random() < 0.2: a[y, :x] = np.where(r.random(x) < 0.5, c["plat"] * (EM / kg), a[y, :x])
            a[y, x:x + ln] = lo * (1 + 0.3 * r.random(len(a[y, x:x + ln])) * r.integers(0, 2))
            if r.random() < 0.5:   # exponential tail
                t = np.arange(len(a[y, x + ln:]))
                a[y, x + ln:] = np.maximum(a[y, x + ln:], 0.8 * lo * np.exp(-t / 2.0))
        kw, v = c["gains"][i]
        ext = {"ARRTYPE": arr, "EMGAIN_C": 3.0, "EMGAIN_A": -1.0}
        if kw == "EMGAIN_M":
            ext.update({"EMGAIN_M": v, "EMGAIN_A": 7.0})
        elif kw == "EMGAIN_A":
            ext["EMGAIN_A"] = v
        else:
            ext["EMGAIN_C"] = v
        p, e = hdrs("L1", ext=ext)
        if kw != "EMGAIN_M" and "EMGAIN_M" in e:
            del e["EMGAIN_M"]
        f = data.Image(a, pri_hdr=p, ext_hdr=e, err=np.abs(r.normal(size=shp)), dq=dq_array(c["s"] + 5 + i, shp) if c["dq"] else np.zeros(shp, dtype=np.uint16))
        f.filename = fname(i, "L1")
        fr.append(f)
    return data.Dataset(fr), reg, d


def oracle(a, c, d, gain):
    """(saturation mask, cosmic mask)"""
    kg = c["kg"] or 8.7
    fpp, fem = PP / kg, EM / kg
    satm = a >= c["sat"] * min(gain * fpp, fem)
    R, C = a.shape
    m = np.zeros((R, C), bool)
    if c["mode"] == "full":
        im = d["image"]
        r0, r1, c0, c1 = im["r0c0"][0], im["r0c0"][0] + im["rows"], im["r0c0"][1], im["r0c0"][1] + im["cols"]
    else:
        r0, r1, c0, c1 = 0, R - 1, 0, C - 1
    n = c["filt"] + 1
    for i in range(max(0, r0), min(R - 1, r1) + 1):
        row = a[i]
        if row.max() < c["sat"] * fem:
            continue
        starts = set()
        for x in range(C):
            win = sorted(row[min(max(x - n // 2 + k, 0), C - 1)] for k in range(n))
            if win[n // 2] < c["sat"] * fem:
                continue
            b = x
            while b > 0 and row[b] >= c["plat"] * fem:
                b -= 1
            if row[b] < c["plat"] * fem:
                b += 1
            starts.add(b)
        over = []
        for b in starts:
            if not c0 <= b <= c1:
                continue
            e = b + c["filt"] + c["tail"] + 1
            m[i, b:min(e, C)] = True
            m[max(i - c["box"], r0):min(i + c["box"], r1) + 1, max(b - c["box"], c0):min(b + c["box"], c1) + 1] = True
            if e > C:
                over.append(e - C)
        if c["mode"] == "full" and over:   # the tail goes on in the next row
            k = max(over)
            flat = m.reshape(-1)
            flat[(i + 1) * C - 1:(i + 1) * C - 1 + k] = True
    return satm, m


def run(ds, c, reg, p):
    return detect_cosmic_rays(ds, p, None if c["kg"] is None else KG(c["kg"]), sat_thresh=c["sat"], plat_thresh=c["plat"], cosm_filter=c["filt"], cosm_box=c["box"], cosm_tail=c["tail"], mode=c["mode"], detector_regions=reg)


@PROP.sub("flags", case, 480, 9000, shards=3)
def flags(c, rec):
    ds, reg, d = frames(c)
    p = params()
    out = run(ds, c, reg, p)
    hit = False
    for i in range(c["n"]):
        g = c["gains"][i][1]
        satm, m = oracle(ds[i].data, c, d, g)
        want = ds[i].dq | np.where(satm, 32, 0) | np.where(m, 128, 0)
        if not np.array_equal(out[i].dq, want):
            y, x = np.argwhere(out[i].dq != want)[0]
            raise Violation("frame %d pixel (%d,%d) has flags %d, expected %d (before: %d; saturated %s, cosmic %s; gain %s)" % (i, y, x, out[i].dq[y, x], want[y, x], ds[i].dq[y, x], satm[y, x], m[y, x], g))
        eq(out[i].data, ds[i].data, "pixel values"); eq(out[i].err, ds[i].err, "uncertainties")
        kg = c["kg"] or 8.7
        close(out[i].ext_hdr["SAT_DN"], c["sat"] * min(g * PP / kg, EM / kg), 1e-9, 0, "SAT_DN of frame %d" % i)
        require(out[i].ext_hdr["FWC_PP_E"] == PP and out[i].ext_hdr["FWC_EM_E"] == EM, "full-well keywords")
        hit |= bool(m.any() and not m.all())
    rec.nt(hit); rec.label(c["mode"] + (" hit" if hit else ""))


@PROP.sub("alone", case, 80, 1000)
def alone(c, rec):
    """each frame's flags do not depend on the other frames or their order"""
    c = dict(c, n=3)
    ds, reg, d = frames(c)
    p = params()
    out = run(ds, c, reg, p)
    for i in range(3):
        eq(run(data.Dataset([ds[i].copy()]), c, reg, p)[0].dq, out[i].dq, "flags of frame %d processed alone" % i)
    rev = run(data.Dataset([ds[k].copy() for k in (2, 0, 1)]), c, reg, p)
    for j, k in enumerate((2, 0, 1)):
        eq(rev[j].dq, out[k].dq, "flags of frame %d in another order" % k)
    rec.nt(any((out[i].dq & 128).any() for i in range(3)))


@PROP.sub("satfwc", st.fixed_dictionaries({"g": st.lists(st.floats(1, 5000), min_size=1, max_size=6), "pp": st.floats(1, 1e5), "em": st.floats(1, 1e5), "t": st.floats(0.01, 1)}), 200, 3000)
def satfwc(c, rec):
    n = len(c["g"])
    got = detector.calc_sat_fwc(np.array(c["g"]), np.full(n, c["pp"]), np.full(n, c["em"]), c["t"])
    close(got, [c["t"] * min(g * c["pp"], c["em"]) for g in c["g"]], 1e-12, 0, "saturation levels")
    rec.nt(n > 1)
