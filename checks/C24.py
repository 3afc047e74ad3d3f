"""C24: north-up rotation."""
from vf.common import *
from vf.core import Prop, require
from corgidrp.l3_to_l4 import northup
import corgidrp

PROP = Prop("C24", "Random frames with smooth scenes, smooth error layers and random flags, different roll/WCS angle per frame, centres by image centre, star position or coordinates: rotated data, errors and flags compared with an "
            "independent per-pixel rotation, sky position angle and separation of sources, CD matrix, star position, NaN pixels, identity rotation. Non-trivial: angle not a multiple of 360.")
ang = st.one_of(st.sampled_from([0.0, 90.0, 180.0, -90.0, 45.0, 30.0, 270.0]), st.floats(-359, 359))
case = st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 3), "shape": st.tuples(st.integers(24, 40), st.integers(24, 40)).map(list), "ang": st.lists(ang, min_size=3, max_size=3), "wcs": st.booleans(), "center": st.sampled_from(["starloc", "default", "im_center", "xy"]), "frac": st.booleans(),
                              "track": st.booleans(), "layers": st.integers(1, 3), "star": st.booleans(), "nan": st.booleans(), "ps": st.floats(10, 50), "zero": st.sampled_from([None, None, 0, 1])})


def scene(r, shp, base):
    src = [(r.random() * (shp[1] - 14) + 7, r.random() * (shp[0] - 14) + 7, base * (1 + r.random()), 2.5 + r.random()) for _ in range(2)]
    return lambda X, Y: 1.0 * base / 10 + sum(a * np.exp(-((X - u) ** 2 + (Y - v) ** 2) / 2 / s ** 2) for u, v, a, s in src)


@PROP.sub("rotate", case, 300, 5000, shards=4)
def rotate(c, rec):
    corgidrp.track_individual_errors = c["track"]
    shp = tuple(c["shape"])
    nl = c["layers"] if c["track"] else 1
    yy, xx = np.indices(shp).astype(float)
    fr, g, ge = [], [], []
    for i in range(c["n"]):
        r = rng(c["s"] + i)
        t = np.radians(c["ang"][i])
        g.append(scene(r, shp, 100)); ge.append([scene(r, shp, 3 + k) if c["zero"] != k else (lambda X, Y: 0 * X) for k in range(nl)])
        d = g[i](xx, yy)
        eh = fits.Header()
        for k in range(nl): eh["Layer_%d" % (k + 1)] = "t%d" % k
        p = c["ps"] / 3.6e6
        ext = {"CD1_1": -np.cos(t) * p, "CD1_2": np.sin(t) * p, "CD2_1": np.sin(t) * p, "CD2_2": np.cos(t) * p, "CRPIX1": float((shp[1] - 1) // 2), "CRPIX2": float((shp[0] - 1) // 2), "CTYPE1": "RA---TAN", "CTYPE2": "DEC--TAN", "CRVAL1": 30.0, "CRVAL2": 10.0, "CDELT1": p, "CDELT2": p}
        if c["star"] or c["center"] == "starloc":
            ext.update(STARLOCX=float(r.integers(8, shp[1] - 8)) + (r.random() if c["frac"] else 0), STARLOCY=float(r.integers(8, shp[0] - 8)) + (r.random() if c["frac"] else 0))
        f = img(d, err=np.array([e(xx, yy) for e in ge[i]]), dq=dq_array(c["s"] + 30 + i, shp), level="L3", ext=ext, pri={"ROLL": c["ang"][i] if not c["wcs"] else 123.0}, filename=fname(i, "L3"), err_hdr=eh)
        if not (c["star"] or c["center"] == "starloc"):
            for k in ("STARLOCX", "STARLOCY"):
                if k in f.ext_hdr: del f.ext_hdr[k]
        f.ext_hdr["HISTORY"] = "before"
        fr.append(f)
    nanpix = None
    if c["nan"]:
        nanpix = (int(rng(c["s"]).integers(0, shp[0])), int(rng(c["s"] + 1).integers(0, shp[1])))
        for f in fr: f.data[nanpix] = np.nan
    ds = data.Dataset(fr)
    xy = (float(rng(c["s"]).integers(8, shp[1] - 8)) + (0.25 if c["frac"] else 0), float(rng(c["s"] + 3).integers(8, shp[0] - 8)))
    kw = {} if c["center"] == "default" else {"rot_center": xy if c["center"] == "xy" else c["center"]}
    s0 = snap(ds)
    out = northup(ds, use_wcs=c["wcs"], **kw)
    same(s0, snap(ds), "the input")
    require([f.filename for f in out] == [f.filename for f in ds], "frames")
    for i, f in enumerate(out):
        h0, h = ds[i].ext_hdr, f.ext_hdr
        cx, cy = {"xy": xy, "starloc": (h0.get("STARLOCX"), h0.get("STARLOCY"))}.get(c["center"], ((shp[1] - 1) // 2, (shp[0] - 1) // 2))
        t = np.radians(c["ang"][i])
        # where each output pixel comes from: a source at angle a (counterclockwise from up) moves to a + t
        sx = (xx - cx) * np.cos(t) + (yy - cy) * np.sin(t) + cx
        sy = -(xx - cx) * np.sin(t) + (yy - cy) * np.cos(t) + cy
        ins = (sx > 3) & (sx < shp[1] - 4) & (sy > 3) & (sy < shp[0] - 4)
        outs = (sx < -1e-6) | (sx > shp[1] - 1 + 1e-6) | (sy < -1e-6) | (sy > shp[0] - 1 + 1e-6)
        ok = ins.copy()
        if c["nan"]:
            near = (np.abs(sx - nanpix[1]) < 6) & (np.abs(sy - nanpix[0]) < 6)
            ok &= ~near
            hit = (np.abs(sx - nanpix[1]) < 0.5) & (np.abs(sy - nanpix[0]) < 0.5)
            require(np.isnan(f.data[hit]).all(), "a NaN pixel got a value by the rotation")
        tol = 0.01 if not c["nan"] else 0.02
        close(np.where(ok, f.data, 0), np.where(ok, g[i](sx, sy), 0), tol, 0.5, "rotated frame %d about (%g,%g) by %g" % (i, cx, cy, c["ang"][i]))
        require(np.isnan(f.data[outs]).all(), "pixels from outside the image have values in frame {}", i)
        require(f.err.shape == ds[i].err.shape, "{} error layers became {}", ds[i].err.shape[0], f.err.shape[0])
        for k in range(nl):
            close(np.where(ins, f.err[k], 0), np.where(ins, ge[i][k](sx, sy), 0), 0.01, 0.02, "rotated error layer %d of frame %d" % (k, i))
        require(np.isnan(f.err[:, outs]).all(), "pixels from outside the image have uncertainties in frame {}", i)
        # flags: the nearest pixel under the same rotation (where that is unambiguous)
        fx, fy = np.abs(sx - np.floor(sx) - 0.5), np.abs(sy - np.floor(sy) - 0.5)
        clear = (fx > 1e-6) & (fy > 1e-6)
        ix, iy = np.round(sx).astype(int), np.round(sy).astype(int)
        inside = (sx > -0.5 + 1e-6) & (sx < shp[1] - 0.5 - 1e-6) & (sy > -0.5 + 1e-6) & (sy < shp[0] - 0.5 - 1e-6)
        want = np.where(inside, ds[i].dq[np.clip(iy, 0, shp[0] - 1), np.clip(ix, 0, shp[1] - 1)], 0)
        core = clear & (ins | outs & ~inside)
        eq(np.where(core, f.dq, 0), np.where(core, want, 0), "rotated flags of frame %d" % i)
        require(f.dq.dtype == ds[i].dq.dtype, "flag type {}", f.dq.dtype)
        if c["wcs"]:
            p = c["ps"] / 3.6e6
            close([h["CD1_1"] / p, h["CD1_2"] / p, h["CD2_1"] / p, h["CD2_2"] / p], [-1, 0, 0, 1], 0, 1e-9, "CD matrix after rotation of frame %d" % i)
        if "STARLOCX" in h0:
            u, v = h0["STARLOCX"] - cx, h0["STARLOCY"] - cy
            close([h["STARLOCX"], h["STARLOCY"]], [cx + u * np.cos(t) - v * np.sin(t), cy + u * np.sin(t) + v * np.cos(t)], 0, 1e-6, "star position of frame %d" % i)
        if c["ang"][i] == 0 and not c["nan"]:
            close(f.data, ds[i].data, 1e-6, 1e-5, "frame already north up"); eq(f.dq, ds[i].dq, "flags of a frame already north up")
        require("before" in hist(f) and len(hist(f)) > 1, "history {}", hist(f))
    rec.nt(any(a % 360 for a in c["ang"][:c["n"]])); rec.label(c["center"] + (" wcs" if c["wcs"] else " roll"))
