"""Builds a valid random instance of every corgidrp data product from a plain JSON-able case."""
from vf.common import *
import astropy.time as time

KINDS = ["Image", "Image3D", "Dark", "FlatField", "NonLinearityCalibration", "KGain", "BadPixelMap", "DetectorNoiseMaps", "DetectorParams",
         "AstrometricCalibration", "TrapCalibration", "FluxcalFactor", "FpamFsamCal", "CoreThroughputCalibration", "NDFilterSweetSpotDataset"]

def case_of(kind):
    return st.fixed_dictionaries({"kind": st.just(kind), "shape": small_shape, "n_in": st.integers(1, 4), "s": seeds,
                                      "f32": st.booleans(), "nan": st.booleans(), "extra_ext": st.booleans(), "day": st.integers(0, 900), "exptime": st.sampled_from([0.05, 1.0, 2.5, 60.0, 1234.5])})


product_cases = [case_of(k) for k in KINDS]
product_case = st.one_of(*product_cases)


def sctsrt(day):
    return (datetime.datetime(2026, 1, 1) + datetime.timedelta(days=day, seconds=17 * day)).isoformat()


def inputs(n, shape, level="L2b", ext=None, start=0):
    return data.Dataset([img(np.zeros(shape), level=level, filename=fname(start + i, level), ext=ext) for i in range(n)])


def make(c):
    """-> (instance, class)"""
    r = rng(c["s"])
    k = c["kind"]
    shp = tuple(c["shape"])
    ft = np.float32 if c.get("f32") else np.float64
    ext = {"SCTSRT": sctsrt(c.get("day", 0)), "EXPTIME": c.get("exptime", 1.0), "EMGAIN_C": 1.5, "CFAMNAME": "3C", "FPAMNAME": "ND225", "MYFLT": float(r.normal()), "MYSTR": "abc d", "MYBOOL": True}
    pri = {"OBSNUM": int(r.integers(0, 900)), "MYINT": int(r.integers(-5, 99))}
    d = (r.normal(size=shp) * 50).astype(ft)
    e = np.abs(r.normal(size=shp)).astype(ft)
    q = dq_array(c["s"] ^ 77, shp)
    if c.get("nan"):
        d[tuple(int(r.integers(0, s)) for s in shp)] = np.nan
    ins = inputs(c["n_in"], shp)
    eh = fits.Header(); eh["ERRKEY"] = 3.25
    dh = fits.Header(); dh["DQKEY"] = "flags"
    if k in ("Image", "Image3D"):
        hdul = None
        if c.get("extra_ext"):
            hdul = fits.HDUList([fits.ImageHDU(r.normal(size=(2, 3)), name="EXTRA1"), fits.ImageHDU(r.integers(0, 9, size=(4,)).astype(np.int32), name="EXTRA2")])
            hdul[0].header["XKEY"] = 7
        if k == "Image3D":
            d = np.array([d, d * 2]); e = np.array([e, e]); q = np.array([q, q])
        o = img(d, err=e, dq=q, pri=pri, ext=ext, filename=fname(3), err_hdr=eh, dq_hdr=dh, hdul=hdul)
        return o, data.Image
    p, h = hdrs("L2b", pri=pri, ext=ext)
    if k == "Dark":
        o = data.Dark(d, pri_hdr=p, ext_hdr=h, input_dataset=ins, err=e, dq=q, err_hdr=eh)
    elif k == "FlatField":
        o = data.FlatField(d, pri_hdr=p, ext_hdr=h, input_dataset=ins)
    elif k == "NonLinearityCalibration":
        d = r.normal(size=(shp[0] + 1, shp[1] + 1)).astype(ft) * 0.01 + 1
        d[0, 1:] = np.sort(r.random(shp[1]) * 1000 + 1); d[1:, 0] = np.sort(r.random(shp[0]) * 9000)
        d[0, 0] = np.nan
        o = data.NonLinearityCalibration(d, pri_hdr=p, ext_hdr=h, input_dataset=ins)
    elif k == "KGain":
        ptc = r.random((5, 2))
        ph = fits.Header(); ph["PTCKEY"] = 4
        h["RN"] = float(r.random() * 100); h["RN_ERR"] = float(r.random())
        o = data.KGain(np.array([[float(r.random() + 6)]]), err=np.array([[float(r.random())]]), ptc=ptc, pri_hdr=p, ext_hdr=h, err_hdr=eh, ptc_hdr=ph, input_dataset=ins)
    elif k == "BadPixelMap":
        o = data.BadPixelMap(dq_array(c["s"], shp, bits=[4, 8]), pri_hdr=p, ext_hdr=h, input_dataset=ins)
    elif k == "DetectorNoiseMaps":
        h["B_O"] = float(r.normal()); h["B_O_ERR"] = float(r.random())
        d3 = r.normal(size=(3,) + shp).astype(ft)
        o = data.DetectorNoiseMaps(d3, pri_hdr=p, ext_hdr=h, input_dataset=ins, err=np.abs(r.normal(size=(1, 3) + shp)), dq=np.array([q, q, q]), err_hdr=eh)
    elif k == "DetectorParams":
        vals = {"KGAINPAR": float(r.random() * 10), "FWC_PP_E": float(r.random() * 1e5), "NEMGAIN": int(r.integers(100, 900)), "ROWREADT": float(r.random() * 1e-3)}
        o = data.DetectorParams(vals, date_valid=time.Time(ext["SCTSRT"], format="isot", scale="utc"))
        o.pri_hdr["OBSNUM"] = pri["OBSNUM"]
    elif k == "AstrometricCalibration":
        o = data.AstrometricCalibration(r.normal(size=(7 + 37,)), pri_hdr=p, ext_hdr=h, err=np.abs(r.normal(size=(44,))), input_dataset=ins)
    elif k == "TrapCalibration":
        o = data.TrapCalibration(r.normal(size=(shp[0], 10)), pri_hdr=p, ext_hdr=h, input_dataset=ins)
    elif k == "FluxcalFactor":
        o = data.FluxcalFactor(np.array([[float(r.random() * 1e-15)]]), err=np.array([[[float(r.random() * 1e-16)]]]), pri_hdr=p, ext_hdr=h, err_hdr=eh, input_dataset=ins)
    elif k == "FpamFsamCal":
        o = data.FpamFsamCal(r.normal(size=(2, 2, 2)), date_valid=time.Time(ext["SCTSRT"], format="isot", scale="utc"))
        o.pri_hdr["OBSNUM"] = pri["OBSNUM"]
    elif k == "CoreThroughputCalibration":
        n = 3
        h["EXTNAME"] = "PSFCUBE"
        ct = fits.ImageHDU(r.random((3, n)), name="CTEXCAM"); ct.header["COMMENT"] = "ct"
        fp = fits.ImageHDU(r.random(2), name="CTFPAM"); fs = fits.ImageHDU(r.random(2), name="CTFSAM")
        o = data.CoreThroughputCalibration(r.normal(size=(n,) + shp), pri_hdr=p, ext_hdr=h, err=np.abs(r.normal(size=(1, n) + shp)), dq=np.array([q] * n),
                                           input_hdulist=fits.HDUList([ct, fp, fs]), input_dataset=ins)
    elif k == "NDFilterSweetSpotDataset":
        nn = max(3, shp[0])
        o = data.NDFilterSweetSpotDataset(r.random((nn, 3)) * [4, 50, 50], pri_hdr=p, ext_hdr=h, input_dataset=ins, err=np.abs(r.normal(size=(nn, 3))), dq=dq_array(c["s"], (nn, 3)), err_hdr=eh)
    return o, type(o)


DERIVED = {"KGain": ["value", "error", "ptc", "ptc_hdr"], "DetectorNoiseMaps": ["bias_offset", "bias_offset_err", "FPN_map", "CIC_map", "DC_map", "FPN_err", "CIC_err", "DC_err"],
           "DetectorParams": ["params"], "AstrometricCalibration": ["boresight", "platescale", "northangle", "avg_offset", "distortion_coeffs"],
           "FluxcalFactor": ["filter", "nd_filter", "fluxcal_fac", "fluxcal_err"], "CoreThroughputCalibration": ["ct_excam", "ct_fpam", "ct_fsam"],
           "NDFilterSweetSpotDataset": ["od_values", "x_values", "y_values"]}
