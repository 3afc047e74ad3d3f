"""C29: sorting of pupil images."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.sorting import sort_pupilimg_frames, extract_frame_id

PROP = Prop("C29", "Random PUPILIMG campaigns (mean-frame block, k-gain series, non-linearity series per gain, EM-gain sets, optional second shorter k-gain series), blocks in random time order with random gaps in frame numbers, files "
            "in random order: the sorted data set holds exactly the planted frames with their role, other headers and pixels untouched, independent of the file order; unknown types and incomplete sets rejected. "
            "Non-trivial: frames shuffled and some frames left out.")


@st.composite
def campaigns(draw, permuted):
    nk = draw(st.integers(2, 4)); K = draw(st.integers(3, 6))
    c = {"s": draw(seeds), "nk": nk, "K": K, "rep": draw(st.integers(0, K - 2)), "extra": draw(st.integers(0, 4)), "nem": draw(st.integers(0, 5)), "ngain": draw(st.integers(0 if permuted else 1, 3)), "L": draw(st.integers(3, 6)),
         "lrep": draw(st.integers(0, 1)), "second": draw(st.booleans()), "permuted": permuted, "tm": draw(st.sampled_from([5, 5.0, 0.25, 30.0])), "type": draw(st.sampled_from(["k-gain", "kgain", "K-GAIN", "Kgain", "non-lin", "nonlin", "Non-Linearity", "nonlinearity", "NONLIN"])),
         "id0": draw(st.sampled_from([0, 1, 95, 9990])), "order": draw(st.permutations(list(range(4)))), "emu": draw(st.sampled_from(["mean", "mid", "none"])), "emn": draw(st.integers(1, 3)), "after": draw(st.booleans()), "twin": draw(st.sampled_from(["", "", "before", "after"])), "stray": draw(st.lists(st.sampled_from(["one", "two", "rising", "flat", "falling", "new"]), max_size=2))}
    return c


def plan(c):
    """-> list of (gain, exptime, role) blocks in time order"""
    r = rng(c["s"])
    step = 0.769
    kt = [round(0.077 + step * i, 3) for i in range(c["K"])]
    if c["tm"] in kt: kt = [t + 0.001 for t in kt]
    nm = 3 * c["nk"] + 3 * 3 + 3 + c["extra"]
    mean = [(1, c["tm"], "MNFRAME")] * nm
    kg = [(1, t, "KGAIN") for t in kt + [kt[c["rep"]]] for _ in range(c["nk"])]
    em = []
    # unity sets of the EM-gain calibration: the exposure time of the mean frame or one inside the k-gain range
    if c["emu"] == "mean": em += [(1, c["tm"], None)] * c["emn"]
    if c["emu"] == "mid" and c["rep"] != c["K"] - 1: em += [(1, kt[-1], None)] * c["emn"]
    for i in range(c["nem"]):
        em += [(round(1.007 + 0.31 * i, 3), [5, 10][i % 2], None)] * 3
    nl = []
    gains = [1.65, 8.6, 45.26][:c["ngain"]]
    for g in gains:
        lt = [round((0.076 + 0.758 * i) * (1 + 0.01 * r.random()), 5) for i in range(c["L"])]
        # a shorter series of the same gain
        b = [round({"before": 0.31, "after": 0.013}.get(c["twin"], 0) + 0.601 * i, 4) for i in range(c["L"] - 1)]
        b = [(g, t, None) for t in b + b[:1]] if c["twin"] else []
        if c["twin"] == "before": nl += b
        nl += [(g, t, "NONLIN") for t in lt + [lt[c["lrep"]]]]
        if c["twin"] == "after": nl += b
        if c["after"]: nl += [(g, 77.0, None)] * 2
    # gains that have no complete series
    for i, k in enumerate(c["stray"]):
        g = 70.3 + i
        lt = [round(0.09 + 0.7 * j + 0.01 * i, 4) for j in range(4)]
        nl += [(g, t, None) for t in {"one": lt[:1], "two": lt[:2], "rising": lt, "flat": lt[:1] * 4, "falling": lt[::-1], "new": lt[1:] + lt[:1]}[k]]
    blocks = [mean, kg, em, nl]
    if c["permuted"]:
        blocks = [blocks[i] for i in c["order"]]
        if c["second"] and c["K"] > 3:
            k2 = [round(t * 1.37 + 0.0131, 4) for t in kt[:c["K"] - 2]]
            blocks.insert(int(r.integers(0, 5)), [(1, t, None) for t in k2 + [k2[0]] for _ in range(c["nk"])])
    else:
        blocks = [mean, kg, em, nl]
    out, fid = [], c["id0"]
    for b in blocks:
        if not b: continue
        for x in b:
            out.append((fid,) + x); fid += 1
        if c["permuted"]: fid += int(r.integers(1, 6))
    return out


def frames(p, s):
    r = rng(s)
    fr = []
    for fid, g, t, role in p:
        f = img(r.normal(size=(2, 3)), level="L1", pri={"VISTYPE": "PUPILIMG", "OBSNAME": "x"}, ext={"EMGAIN_C": g, "EXPTIME": t}, filename="CGI_EXCAM_L1_%010d.fits" % fid)
        fr.append(f)
    return fr


def is_nl(t):
    return t.lower().startswith("non")


@PROP.sub("campaign", [campaigns(False), campaigns(True)], 256, 5000, shards=6)
def campaign(c, rec):
    p = plan(c)
    fr = frames(p, c["s"])
    o = rng([c["s"], 1]).permutation(len(p))
    ds = data.Dataset([fr[i] for i in o])
    s0 = snap(ds)
    out = sort_pupilimg_frames(ds, cal_type=c["type"])
    same(s0, snap(ds), "the input")
    roles = {"CGI_EXCAM_L1_%010d.fits" % fid: role for fid, g, t, role in p}
    want = {k: v for k, v in roles.items() if v in (["MNFRAME", "KGAIN"] + (["NONLIN"] if is_nl(c["type"]) else []))}
    got = [f.filename for f in out]
    require(len(set(got)) == len(got), "a frame appears twice")
    gotr = {f.filename: f.pri_hdr["OBSNAME"] for f in out}
    require(set(gotr) == set(want), "missing {}, extra {} (of {})", sorted((want[k], k) for k in set(want) - set(gotr))[:4], sorted((roles[k], k) for k in set(gotr) - set(want))[:4], len(p))
    bad = {k: (gotr[k], want[k]) for k in want if gotr[k] != want[k]}
    require(not bad, "wrong roles {}", list(bad.items())[:3])
    order = ["MNFRAME", "KGAIN", "NONLIN"]
    seq = [order.index(gotr[k]) for k in got]
    require(seq == sorted(seq), "the mean frames come first, then the calibration sets: {}", seq)
    src = {f.filename: f for f in fr}
    for i, f in enumerate(out):
        a = src[f.filename]
        eq(f.data, a.data, "pixels"); eq(f.data, out.all_data[i], "cube"); eq(f.err, a.err, "uncertainty"); eq(f.dq, a.dq, "flags")
        require(f.ext_hdr["EXPTIME"] == a.ext_hdr["EXPTIME"] and f.ext_hdr["EMGAIN_C"] == a.ext_hdr["EMGAIN_C"] and f.pri_hdr["VISTYPE"] == "PUPILIMG", "headers")
        require(len(hist(f)) > len(hist(a)), "no history entry")
    rec.nt(len(want) < len(p) and list(o) != sorted(o))
    rec.label("permuted" if c["permuted"] else "usual order")
    if c["permuted"] and c["second"] and c["K"] > 3: rec.label("second k-gain series")
    # another file order gives the same sets
    o2 = rng([c["s"], 2]).permutation(len(p))
    out2 = sort_pupilimg_frames(data.Dataset([fr[i].copy() for i in o2]), cal_type=c["type"])
    require({f.filename: f.pri_hdr["OBSNAME"] for f in out2} == gotr, "the selection depends on the order of the files")


@PROP.sub("reject", st.tuples(campaigns(False), st.sampled_from(["type", "nounity", "nokgain", "norepeat"]), st.sampled_from(["", "gain", "emgain", "kga", "mean", "xnonlin"])).map(list), 120, 1500)
def reject(x, rec):
    c, kind, bad = x
    p = plan(c)
    t = c["type"]
    if kind == "type": t = bad
    elif kind == "nounity": p = [q for q in p if q[1] != 1]
    elif kind == "nokgain": p = [q for q in p if q[3] != "KGAIN"]
    else:
        # no repeated exposure time at the end of the k-gain series
        k = [i for i, q in enumerate(p) if q[3] == "KGAIN"][-c["nk"]:]
        p = [q for i, q in enumerate(p) if i not in k and not (q[3] is None and q[1] == 1)]
    if not p: return
    ds = data.Dataset(frames(p, c["s"]))
    rejects(lambda: sort_pupilimg_frames(ds, cal_type=t), Exception, "a data set with %s" % (kind if kind != "type" else "calibration type %r" % t))
    rec.nt(); rec.label(kind)


@PROP.sub("frame id", st.tuples(st.integers(0, 10**10 - 1), st.sampled_from(["CGI_EXCAM_L1_", "a_b_", "CGI_0200001001001001001_20250415T0305102_L1_"]), st.integers(1, 12)).map(list), 100, 1000)
def frameid(x, rec):
    n, pre, w = x
    require(extract_frame_id("%s%0*d.fits" % (pre, w, n)) == n, "frame id")
    rec.nt(n > 0)
