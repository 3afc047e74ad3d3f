"""C12: prescan bias subtraction and detector geometry."""
import copy
from vf.common import *
from vf.geom import geoms, regions
from vf.core import Prop, require
from corgidrp.l1_to_l2a import prescan_biassub
from corgidrp import detector

PROP = Prop("C12", "Random detector geometries (all array types), raw frames with random row offsets, outliers, error layers and flags; image-area, imaging-area and full-frame modes, with and without noise maps, "
            "compared with a direct per-row median model; row-constant and frame-order metamorphic relations; slice/embed round trips; default region table consistency. Non-trivial: at least two rows with different bias.")

case = st.fixed_dictionaries({"g": geoms(), "n": st.integers(1, 3), "mode": st.sampled_from(["image", "full", "imaging"]), "off": st.one_of(st.none(), st.tuples(st.floats(-20, 20), st.floats(0, 5)).map(list)),
                              "s": seeds, "err": st.booleans(), "track": st.booleans(), "out": st.booleans(), "dtype": st.sampled_from(["f8", "f4", "i4", "u2"]), "layers": st.integers(1, 3), "pr0": st.sampled_from([0, 0, 1, 2])})


class Maps:
    def __init__(self, o, e):
        self.bias_offset, self.bias_offset_err = o, e


def raw(c, extra_rows=None):
    reg = regions(c["g"]); d = reg[c["g"]["arr"]]
    if c["mode"] == "image":        # only this mode takes the prescan rows next to the image section
        p0 = min(c.get("pr0", 0), c["g"]["r0"])
        for k in ("prescan", "prescan_reliable"):
            d[k]["r0c0"][0] += p0; d[k]["rows"] -= p0
    fr = []
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        rows, cols = d["frame_rows"], d["frame_cols"]
        a = 1000 + 50 * r.normal(size=(rows, 1)) + 10 * r.normal(size=(rows, cols))
        if c["out"]:
            a[r.integers(0, rows), r.integers(0, cols)] += 5000
        a = np.round(a)
        if extra_rows is not None:
            a = a + extra_rows[i][:, None]
        a = a.astype(c["dtype"])
        e = np.abs(r.normal(size=((c["layers"] if c["track"] else 1), rows, cols))) if c["err"] else None
        f = img(a, level="L1", err=e, dq=dq_array(c["s"] + 9 + i, (rows, cols)), filename=fname(i, "L1"), ext={"ARRTYPE": c["g"]["arr"]})
        fr.append(f)
    return data.Dataset(fr), reg, d


def run(ds, c, reg):
    nm = None if c["off"] is None else Maps(*c["off"])
    return prescan_biassub(ds, noise_maps=nm, return_full_frame=c["mode"] == "full", detector_regions=reg, use_imaging_area=c["mode"] == "imaging")


def window(c, d):
    if c["mode"] == "full":
        return 0, d["frame_rows"], 0, d["frame_cols"]
    im = d["image"]
    if c["mode"] == "image":
        return im["r0c0"][0], im["r0c0"][0] + im["rows"], im["r0c0"][1], im["r0c0"][1] + im["cols"]
    # imaging area: everything but prescan, serial and parallel overscan
    ncols = d["frame_cols"] - d["prescan"]["cols"] - d["serial_overscan"]["cols"]
    return 0, d["frame_rows"] - d["parallel_overscan"]["rows"], im["r0c0"][1], min(d["frame_cols"], im["r0c0"][1] + ncols)


@PROP.sub("model", case, 400, 6000)
def model(c, rec):
    import corgidrp
    corgidrp.track_individual_errors = c["track"]
    ds, reg, d = raw(c)
    reg0 = copy.deepcopy(reg)
    out = run(ds, c, reg)
    require(reg == reg0, "the detector-region table was changed")
    off, oerr = c["off"] or (0, 0)
    r0, r1, c0, c1 = window(c, d)
    cs, ce = d["prescan"]["col_start"], d["prescan"]["col_end"]
    require(len(out) == c["n"], "{} frames from {}", len(out), c["n"])
    for i in range(c["n"]):
        f = out[i]
        a = ds[i].data.astype(float)
        med = np.median(ds[i].data[r0:r1, cs:ce], axis=1).astype(float)
        se = np.std(ds[i].data[r0:r1, cs:ce].astype(np.float64), axis=1) / np.sqrt(ce - cs)
        tol = 1e-9 if c["dtype"] != "f4" else 1e-4
        close(f.data, a[r0:r1, c0:c1] - (med - off)[:, None], tol, 1e-3 if c["dtype"] == "f4" else 1e-9, "bias-subtracted frame %d" % i)
        term = np.sqrt(se ** 2 + oerr ** 2)[:, None] * np.ones((r1 - r0, c1 - c0))
        e0 = ds[i].err[:, r0:r1, c0:c1]
        rt = 1e-3 if c["dtype"] == "f4" else 1e-9
        close(f.err[0], np.sqrt(e0[0] ** 2 + term ** 2), rt, 1e-3 if c["dtype"] == "f4" else 1e-12, "uncertainty of frame %d" % i)
        if c["track"]:
            require(f.err.shape[0] == ds[i].err.shape[0] + 1, "{} layers from {}", f.err.shape[0], ds[i].err.shape[0])
            eq(f.err[1:-1], e0[1:], "earlier layers")
            close(f.err[-1], term, rt, 1e-3 if c["dtype"] == "f4" else 1e-12, "bias layer")
        eq(f.dq, ds[i].dq[r0:r1, c0:c1], "flags of frame %d" % i)
        b = [h for h in f.hdu_list if h.name == "BIAS"]
        require(len(b) == 1, "{} BIAS extensions", len(b))
        close(b[0].data, (med - off).astype(np.float32), 1e-5, 1e-3, "recorded bias of frame %d" % i)
        require(f.ext_hdr["NAXIS1"] == c1 - c0 and f.ext_hdr["NAXIS2"] == r1 - r0, "NAXIS {}x{}", f.ext_hdr["NAXIS1"], f.ext_hdr["NAXIS2"])
        require(np.shares_memory(f.data, out.all_data), "frame detached from the cube")
    close(out.all_data, np.array([f.data for f in out]), 0, 0, "cube")
    rec.nt(r1 - r0 > 1); rec.label(c["mode"] + " " + c["g"]["arr"])


@PROP.sub("rowconst", case, 200, 3000)
def rowconst(c, rec):
    """a constant added to a row (including the prescan) changes nothing; a frame is processed independently of its neighbours"""
    c = dict(c, dtype="f8", track=False)
    ds, reg, d = raw(c)
    add = [np.round(rng(c["s"] + 77 + i).normal(size=d["frame_rows"]) * 100) for i in range(c["n"])]
    ds2, _, _ = raw(c, add)
    a, b = run(ds, c, reg), run(ds2, c, reg)
    close(b.all_data, a.all_data, 1e-9, 1e-7, "result with constants added to the rows")
    close(b.all_err, a.all_err, 1e-9, 1e-7, "uncertainty with constants added to the rows")
    one = run(data.Dataset([ds[c["n"] - 1].copy()]), c, reg)
    close(one.all_data[0], a.all_data[-1], 0, 0, "last frame processed alone")
    rec.nt()


@PROP.sub("embed", st.fixed_dictionaries({"g": geoms(), "key": st.sampled_from(["image", "prescan", "prescan_reliable", "parallel_overscan", "serial_overscan", "lower_image", "upper_image"]), "s": seeds, "pad": st.floats(-9, 9)}), 300, 4000)
def embed(c, rec):
    reg = regions(c["g"]); arr = c["g"]["arr"]; d = reg[arr]
    if c["key"] not in d:
        return
    k = d[c["key"]]
    r = rng(c["s"])
    full = r.normal(size=(d["frame_rows"], d["frame_cols"]))
    sec = detector.slice_section(full, arr, c["key"], reg)
    r0, c0 = k["r0c0"]
    eq(sec, full[r0:r0 + k["rows"], c0:c0 + k["cols"]], "section")
    require(tuple(detector.unpack_geom(arr, c["key"], reg)[:2]) == (k["rows"], k["cols"]) and list(detector.unpack_geom(arr, c["key"], reg)[2]) == k["r0c0"], "unpack_geom")
    back = detector.embed(sec, arr, c["key"], pad_val=c["pad"], detector_regions=reg)
    want = np.full(full.shape, float(c["pad"])); want[r0:r0 + k["rows"], c0:c0 + k["cols"]] = sec
    close(back, want, 1e-12, 0, "embedded section")
    eq(detector.slice_section(back, arr, c["key"], reg), sec, "slice of the embedded section")
    rejects(lambda: detector.embed(np.zeros((k["rows"] + 1, k["cols"] + 2)), arr, c["key"], detector_regions=reg), Exception, "embedding data larger than the section")
    rejects(lambda: detector.slice_section(np.zeros((max(r0, 1) if r0 else 0, 0)), arr, c["key"], reg), Exception, "slicing outside the frame")
    reg0 = copy.deepcopy(reg)
    rows, cols, rc = detector.imaging_area_geom(arr, reg)
    require(reg == reg0, "imaging_area_geom changed the region table")
    require(rows == d["frame_rows"] - d["parallel_overscan"]["rows"] and cols == d["frame_cols"] - d["prescan"]["cols"] - d["serial_overscan"]["cols"]
            and list(rc) == [d["image"]["r0c0"][0] + d["image"]["rows"] - rows, d["image"]["r0c0"][1]], "imaging area {} {} {}", rows, cols, rc)
    eq(detector.imaging_slice(arr, full, reg), full[rc[0]:rc[0] + rows, rc[1]:rc[1] + cols], "imaging slice")
    rec.nt(); rec.label(c["key"])


@PROP.sub("rejects", st.fixed_dictionaries({"g": geoms(), "n": st.integers(1, 3), "bad": st.integers(0, 2), "what": st.sampled_from(["rows", "cols", "arr"]), "s": seeds}), 60, 600)
def reject(c, rec):
    cc = dict(c, dtype="f8", err=False, track=False, out=False, layers=1, mode="image", off=None)
    reg = regions(c["g"])
    if c["what"] == "arr":
        ds, _, _ = raw(cc)
        ds[c["bad"] % c["n"]].ext_hdr["ARRTYPE"] = "FOO"
        rejects(lambda: run(ds, cc, reg), Exception, "array type FOO")
    else:
        g = dict(c["g"]); g["par" if c["what"] == "rows" else "dark"] += 1
        ds, _, _ = raw(dict(cc, g=g))
        rejects(lambda: run(ds, cc, reg), Exception, "a frame of the wrong number of " + c["what"])
    rec.nt()


@PROP.sub("default", st.fixed_dictionaries({"arr": st.sampled_from(["SCI", "ENG", "ENG_EM", "ENG_CONV"]), "full": st.booleans(), "s": seeds}), 6, 24, examples=[{"arr": a, "full": False, "s": 1} for a in ("SCI", "ENG", "ENG_EM", "ENG_CONV")])
def default(c, rec):
    """the built-in region table: row biases are removed for every array type"""
    d = detector.detector_areas[c["arr"]]
    r = rng(c["s"])
    rows, cols = d["frame_rows"], d["frame_cols"]
    b = np.round(r.normal(size=(rows, 1)) * 100)
    f = img((b + np.zeros((rows, cols))).astype(np.float64), level="L1", ext={"ARRTYPE": c["arr"]}, filename=fname(1, "L1"))
    out = prescan_biassub(data.Dataset([f]), return_full_frame=c["full"])
    require(out[0].data.shape == ((rows, cols) if c["full"] else (d["image"]["rows"], d["image"]["cols"])), "shape {}", out[0].data.shape)
    eq(out.all_data[0], np.zeros(out[0].data.shape), "bias-only frame after bias subtraction")
    rec.nt(); rec.label(c["arr"])
