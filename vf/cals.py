"""Calibration products on disk with chosen times, for the database and the walker."""
from vf.common import *
from vf import products as PR
import contextlib, io

LABEL = {"Dark": "Dark", "FlatField": "FlatField", "NonLinearityCalibration": "NonLinearityCalibration", "KGain": "KGain", "BadPixelMap": "BadPixelMap", "DetectorNoiseMaps": "DetectorNoiseMaps", "DetectorParams": "DetectorParams",
         "AstrometricCalibration": "AstrometricCalibration", "TrapCalibration": "TrapCalibration", "FluxcalFactor": "FluxcalFactor", "FpamFsamCal": "FpamFsamCal", "CoreThroughputCalibration": "CoreThroughputCalibration", "NDFilterSweetSpotDataset": "NDFilterSweetSpot"}
CLS = {k: getattr(data, k) for k in LABEL}


def stamp(day, sec=0.0):
    return (datetime.datetime(2026, 1, 1) + datetime.timedelta(days=day, seconds=round(sec, 3))).isoformat()


def save(p, d, i):
    """the product p, saved as d/p['sub']/cal<i>.fits"""
    f, cls = PR.make({"kind": p["kind"], "shape": [3 + i % 3, 4], "n_in": p["n"], "s": p["s"], "day": p["day"], "exptime": p["e"]})
    f.ext_hdr["SCTSRT"] = stamp(p["day"], p["sec"]); f.ext_hdr["EXPTIME"] = p["e"]; f.ext_hdr["DRPCTIME"] = stamp(p["ct"])
    f.ext_hdr["EMGAIN_C"] = p["gain"]; f.ext_hdr["EXCAMT"] = p["ex"]; f.ext_hdr["OPMODE"] = p["op"]; f.pri_hdr["OBSNUM"] = p["obs"]
    os.makedirs(os.path.join(d, p["sub"]), exist_ok=True)
    with contextlib.redirect_stdout(io.StringIO()):
        f.save(filedir=os.path.join(d, p["sub"]), filename="cal%d.fits" % i)
    return os.path.join(d, p["sub"], "cal%d.fits" % i)
