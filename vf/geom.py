"""Small, consistent, random detector geometries in the layout of detector_areas."""
from vf.common import *


@st.composite
def geoms(draw, arrtypes=("SCI", "ENG", "ENG_EM", "ENG_CONV"), max_rows=10, max_cols=10):
    P = draw(st.integers(3, 8)); S = draw(st.integers(1, 3)); dark = draw(st.integers(0, 2))
    I = draw(st.integers(2, max_cols)); R = draw(st.integers(2, max_rows))
    if R == I and draw(st.booleans()):
        R += 1
    r0 = draw(st.integers(0, 3)); par = draw(st.integers(1, 3))
    cs = draw(st.integers(0, P - 2)); ce = draw(st.integers(cs + 1, P))
    return {"P": P, "S": S, "dark": dark, "I": I, "R": R, "r0": r0, "par": par, "cs": cs, "ce": ce, "arr": draw(st.sampled_from(list(arrtypes)))}


def regions(g):
    arr = g["arr"]
    rows = g["r0"] + g["R"] + g["par"]
    cols = g["P"] + g["I"] + g["dark"] + g["S"]
    if arr == "ENG_CONV":   # prescan and serial overscan swap sides
        c_im, c_pre, c_ser = g["S"] + g["dark"], g["S"] + g["dark"] + g["I"], 0
    else:
        c_im, c_pre, c_ser = g["P"], 0, cols - g["S"]
    d = {"frame_rows": rows, "frame_cols": cols,
         "image": {"rows": g["R"], "cols": g["I"], "r0c0": [g["r0"], c_im]},
         "prescan": {"rows": rows, "cols": g["P"], "r0c0": [0, c_pre], "col_start": c_pre + g["cs"], "col_end": c_pre + g["ce"]},
         "prescan_reliable": {"rows": rows, "cols": g["ce"] - g["cs"], "r0c0": [0, c_pre + g["cs"]]},
         "parallel_overscan": {"rows": g["par"], "cols": g["I"] + g["dark"], "r0c0": [g["r0"] + g["R"], c_im]},
         "serial_overscan": {"rows": rows, "cols": g["S"], "r0c0": [0, c_ser]}}
    if arr in ("ENG_EM", "ENG_CONV") and g["R"] >= 2:
        h = g["R"] // 2
        d["lower_image"] = {"rows": h, "cols": g["I"], "r0c0": [g["r0"], c_im]}
        d["upper_image"] = {"rows": g["R"] - h, "cols": g["I"], "r0c0": [g["r0"] + h, c_im]}
    return {arr: d}
