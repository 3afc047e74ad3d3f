#!/usr/bin/env python3
"""Fills the "fixed" list of known_findings.json from the fix: commits of /repo (PROPS maps a phrase of the subject to its property)."""
import json, subprocess, sys
PROPS = [("Image.copy(", "C02"), ("DetectorParams and FpamFsamCal made from values", "C02"), ("autoload recognizes", "C03"), ("name the ERR and DQ", "C03"),
         ("record parent files", "C06"), ("BadPixelMap and FluxcalFactor can", "C06"), ("prescan_biassub", "C12"), ("detect_cosmic_rays", "C13"), ("convert_to_electrons", "C16"),
         ("add_photon_noise", "C16"), ("correct_bad_pixels", "C19"), ("crop ", "C23"), ("distortion_correction", "C22"), ("northup", "C24"), ("photon-counted master", "C21"),
         ("custom satellite", "C25"), ("PyKLIPDataset", "C26"), ("build_trad_dark does not modify", "C27"), ("calibrate_darks_lsq", "C27"), ("create_onsky_flatfield", "C28"),
         ("create_bad_pixel_map", "C28"), ("sort_pupilimg_frames", "C29")]
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = os.path.join(here, "tools", "fixed_extra.json")
if os.path.exists(extra):
    PROPS += [tuple(x) for x in json.load(open(extra))]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "7ee5cdd..HEAD"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [pp for k, pp in PROPS if k in s]
    if not p:
        sys.exit("no property for: " + l)
    out.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
f = os.path.join(here, "known_findings.json")
d = json.load(open(f)); d["fixed"] = out
json.dump(d, open(f, "w"), indent=1); open(f, "a").write("\n")
print(len(out), "fixed entries")
