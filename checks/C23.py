"""C23: cropping."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.l3_to_l4 import crop
import corgidrp

PROP = Prop("C23", "Random datasets (2-D and 3-D, 1-3 frames with different star positions, error layers), square and rectangular windows, given and recorded centres on and off pixel intersections, windows touching and crossing the edges: "
            "exact window content, keywords, rejections; sequences of up to four crops equal one crop. Non-trivial: window strictly inside, or frames with different centres.")


@st.composite
def cases(draw):
    ny, nx = draw(st.integers(6, 30)), draw(st.integers(6, 30))
    sx, sy = 2 * draw(st.integers(1, nx // 2)), 2 * draw(st.integers(1, ny // 2))
    if draw(st.booleans()): sx = sy = min(sx, sy)
    n = draw(st.integers(1, 3))
    # window start positions; mostly inside the image
    st_ = [[draw(st.integers(0, nx - sx)), draw(st.integers(0, ny - sy))] for _ in range(n)]
    frac_ = draw(st.lists(st.tuples(st.sampled_from([0.0, 0.0, 0.3, -0.4, 0.49, -0.49]), st.sampled_from([0.0, 0.0, 0.2, -0.45])), min_size=n, max_size=n))
    if sx == sy and draw(st.booleans()):     # a centre on the diagonal, which one number states
        st_[0] = [min(st_[0])] * 2; frac_[0] = (frac_[0][0],) * 2
    if draw(st.integers(0, 5)) == 5:
        k = draw(st.integers(0, n - 1)); ax = draw(st.integers(0, 1))
        st_[k][ax] = draw(st.sampled_from([-1, -2, ([nx, ny][ax] - [sx, sy][ax]) + 1, ([nx, ny][ax] - [sx, sy][ax]) + 2]))
    return {"ny": ny, "nx": nx, "sx": sx, "sy": sy, "n": n, "start": st_, "frac": frac_,
            "given": draw(st.booleans()), "cube": draw(st.booleans()), "track": draw(st.booleans()), "layers": draw(st.integers(1, 3)), "crpix": draw(st.sampled_from(["none", "pri", "ext", "both"])), "detpix": draw(st.booleans()), "nostar": draw(st.integers(0, 3)) == 3, "scalar": draw(st.booleans()), "s": draw(seeds)}


def frames(c):
    fr = []
    nl = c["layers"] if c["track"] else 1
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        shp = ((2,) if c["cube"] else ()) + (c["ny"], c["nx"])
        cx = c["start"][i][0] + c["sx"] / 2 - 0.5 + c["frac"][i][0]; cy = c["start"][i][1] + c["sy"] / 2 - 0.5 + c["frac"][i][1]
        ext = {"STARLOCX": cx, "STARLOCY": cy, "LSAMNAME": "NFOV"}
        if c["detpix"]: ext.update(DETPIX0X=100 + i, DETPIX0Y=200 + i)
        eh = fits.Header()
        for k in range(nl): eh["Layer_%d" % (k + 1)] = "t%d" % k
        f = img(r.normal(size=shp), err=np.abs(r.normal(size=(nl,) + shp)), dq=dq_array(c["s"] + 20 + i, shp), level="L3", ext=ext, filename=fname(i, "L3"), err_hdr=eh)
        for h, w in ((f.pri_hdr, "pri"), (f.ext_hdr, "ext")):
            for k in ("CRPIX1", "CRPIX2"):
                if k in h: del h[k]
            if c["crpix"] in (w, "both"):
                h["CRPIX1"] = 11.5 + i; h["CRPIX2"] = 7.25 + i
        if c["given"] and c.get("nostar"):    # images whose star has not been located
            for k in ("STARLOCX", "STARLOCY"): del f.ext_hdr[k]
        f.ext_hdr["HISTORY"] = "before"
        fr.append(f)
    return data.Dataset(fr)


def window(c, i):
    """the window whose centre is the pixel intersection nearest to the centre of frame i (None: outside)"""
    k = 0 if c["given"] else i
    x, y = c["start"][k]
    return (x, y) if 0 <= x <= c["nx"] - c["sx"] and 0 <= y <= c["ny"] - c["sy"] else None


def args(c):
    size = c["sx"] if c["sx"] == c["sy"] and c["scalar"] else [c["sx"], c["sy"]]
    cen = None
    if c["given"]:
        cen = [c["start"][0][0] + c["sx"] / 2 - 0.5 + c["frac"][0][0], c["start"][0][1] + c["sy"] / 2 - 0.5 + c["frac"][0][1]]
        if cen[0] == cen[1] and c["scalar"]: cen = cen[0]
    return size, cen


@PROP.sub("window", cases(), 600, 10000, shards=3)
def win(c, rec):
    corgidrp.track_individual_errors = c["track"]
    ds = frames(c)
    s0 = snap(ds)
    size, cen = args(c)
    w = [window(c, i) for i in range(c["n"])]
    if None in w:
        rejects(lambda: crop(ds, sizexy=size, centerxy=cen), (ValueError,), "a window outside the image"); rec.label("outside"); rec.nt(); return
    out = crop(ds, sizexy=size, centerxy=cen)
    same(s0, snap(ds), "the input")
    require([f.filename for f in out] == [f.filename for f in ds], "frames {}", [f.filename for f in out])
    for i, f in enumerate(out):
        (x, y), o = w[i], ds[i]
        sl = (Ellipsis, slice(y, y + c["sy"]), slice(x, x + c["sx"]))
        eq(f.data, o.data[sl], "pixels of frame %d" % i); eq(f.err, o.err[sl], "uncertainties of frame %d" % i); eq(f.dq, o.dq[sl], "flags of frame %d" % i)
        eq(f.data, out.all_data[i], "cube")
        e = f.ext_hdr
        require(("STARLOCX" in e) == ("STARLOCX" in o.ext_hdr), "a star position appeared or vanished")
        if "STARLOCX" in e: close([e["STARLOCX"], e["STARLOCY"]], [o.ext_hdr["STARLOCX"] - x, o.ext_hdr["STARLOCY"] - y], 0, 1e-9, "star position of frame %d" % i)
        close([e["DETPIX0X"], e["DETPIX0Y"]], [o.ext_hdr.get("DETPIX0X", 0) + x, o.ext_hdr.get("DETPIX0Y", 0) + y], 0, 0, "detector position of frame %d" % i)
        for h, g in ((f.pri_hdr, o.pri_hdr), (f.ext_hdr, o.ext_hdr)):
            require(("CRPIX1" in h) == ("CRPIX1" in g), "CRPIX appeared or vanished")
            if "CRPIX1" in g: close([h["CRPIX1"], h["CRPIX2"]], [g["CRPIX1"] - x, g["CRPIX2"] - y], 0, 1e-9, "WCS reference pixel of frame %d" % i)
        require(e["NAXIS1"] == c["sx"] and e["NAXIS2"] == c["sy"], "NAXIS {} {}", e["NAXIS1"], e["NAXIS2"])
        require("before" in hist(f) and len(hist(f)) > 1, "history {}", hist(f))
    rec.nt(len(set(w)) > 1 or c["sx"] < c["nx"]); rec.label("given" if c["given"] else "own centre")


@PROP.sub("nested", st.fixed_dictionaries({"s": seeds, "ny": st.integers(12, 40), "nx": st.integers(12, 40), "cube": st.booleans(), "k": st.integers(2, 4)}), 150, 2500)
def nested(c, rec):
    """a sequence of crops equals one crop to the final window"""
    r = rng(c["s"])
    shp = ((2,) if c["cube"] else ()) + (c["ny"], c["nx"])
    f = img(r.normal(size=shp), err=np.abs(r.normal(size=shp)), dq=dq_array(c["s"], shp), level="L3", ext={"STARLOCX": 5.5, "STARLOCY": 7.5}, filename=fname(0, "L3"))
    ds = data.Dataset([f])
    cur, X, Y, w, h = ds, 0, 0, c["nx"], c["ny"]
    for _ in range(c["k"]):
        nw, nh = 2 * int(r.integers(1, max(2, w // 2 + 1))), 2 * int(r.integers(1, max(2, h // 2 + 1)))
        if nw > w or nh > h: break
        x, y = int(r.integers(0, w - nw + 1)), int(r.integers(0, h - nh + 1))
        cur = crop(cur, sizexy=[nw, nh], centerxy=[x + nw / 2 - 0.5, y + nh / 2 - 0.5])
        X, Y, w, h = X + x, Y + y, nw, nh
    one = crop(ds, sizexy=[w, h], centerxy=[X + w / 2 - 0.5, Y + h / 2 - 0.5]) if (w % 2 == 0 and h % 2 == 0) else None
    if one is None: return
    eq(cur[0].data, one[0].data, "pixels"); eq(cur[0].err, one[0].err, "err"); eq(cur[0].dq, one[0].dq, "flags")
    for k in ("STARLOCX", "STARLOCY", "DETPIX0X", "DETPIX0Y", "NAXIS1", "NAXIS2"):
        require(cur[0].ext_hdr[k] == one[0].ext_hdr[k], "{}: {} after several crops, {} after one", k, cur[0].ext_hdr[k], one[0].ext_hdr[k])
    rec.nt()


@PROP.sub("rejects", st.fixed_dictionaries({"what": st.sampled_from(["odd", "oddlist", "nostar", "fov"]), "s": seeds}), 30, 200)
def reject(c, rec):
    ext = {"STARLOCX": 9.5, "STARLOCY": 9.5, "LSAMNAME": "NFOV" if c["what"] != "fov" else "WFOV"}
    f = img(rng(c["s"]).normal(size=(20, 20)), level="L3", ext=ext)
    if c["what"] == "nostar":
        del f.ext_hdr["STARLOCX"]; del f.ext_hdr["STARLOCY"]
    size = {"odd": 5, "oddlist": [4, 7], "nostar": 4, "fov": None}[c["what"]]
    rejects(lambda: crop(data.Dataset([f]), sizexy=size), Exception, "crop: " + c["what"]); rec.nt()


@PROP.sub("default", st.fixed_dictionaries({"s": seeds, "x": st.integers(0, 12), "y": st.integers(0, 9)}), 15, 100)
def default(c, rec):
    """the default window is 60x60 around the star for the narrow field of view"""
    f = img(rng(c["s"]).normal(size=(69, 72)), level="L3", ext={"STARLOCX": c["x"] + 29.5, "STARLOCY": c["y"] + 29.5, "LSAMNAME": "NFOV"})
    out = crop(data.Dataset([f]))
    eq(out[0].data, f.data[c["y"]:c["y"] + 60, c["x"]:c["x"] + 60], "default crop"); rec.nt()
