"""C09: the calibration database."""
from vf.common import *
from vf.core import Prop, require
from vf.cals import LABEL, CLS, stamp, save
import csv, shutil, contextlib, io
import astropy.time as time
import corgidrp
from corgidrp import caldb as C

PROP = Prop("C09", "Histories of up to 25 operations (register, re-register after changing the product on disk, remove, scan a directory with or without subdirectories, reload, work through a second handle or only in memory, look up) over pools of 3-8 saved calibration products of all 13 types with random times, creation times and exposure times, "
            "with science frames and other files lying around. Oracle: a dictionary of the registered files; the CSV file is read back independently. Non-trivial: histories with at least one registration and one later operation.")

NEAR = [1.0, 1.00001, 1.001, 60, 60.001, 0.1, 0.30000000000000004]     # exposure times that only an exact match tells apart
EXPT = [1.0, 60, 0.1, 0.30000000000000004, 1234.567, 123.45678901234568, 7.1e-05, 1 / 3, 2.675, 1e-3, 60.002, 1.00001]
SEC = st.one_of(st.just(0.0), st.floats(0, 86000))
prod = st.fixed_dictionaries({"kind": st.sampled_from(["Dark", "Dark", "Dark", "Dark"] + sorted(LABEL)), "day": st.integers(0, 900), "sec": st.floats(0, 86000), "ct": st.integers(0, 5000), "e": st.sampled_from(EXPT), "gain": st.sampled_from([1.0, 1.5, 1000, 6.02]), "ex": st.sampled_from([-95.5, -100, 20.1]),
                              "op": st.sampled_from(["NONE", "CORON", "STD 1"]), "sub": st.sampled_from(["a", "a", "a/b", "c"]), "obs": st.integers(0, 999), "n": st.integers(1, 3), "s": seeds})
op = st.one_of(
    st.tuples(st.just("add"), st.integers(0, 7), st.sampled_from([0, 0, 1])), st.tuples(st.just("add"), st.integers(0, 7), st.sampled_from([0, 0, 1])), st.tuples(st.just("add"), st.integers(0, 7), st.sampled_from([0, 0, 1])),
    st.tuples(st.just("change"), st.integers(0, 7), st.sampled_from(EXPT), st.integers(0, 900), st.integers(0, 5000)),
    st.tuples(st.just("remove"), st.integers(0, 7), st.sampled_from([0, 0, 1])), st.tuples(st.just("scan"), st.sampled_from(["a", "a/b", "c", ""]), st.booleans()), st.tuples(st.just("reload"), st.just(0)),
    st.tuples(st.just("get"), st.integers(0, 900), st.sampled_from(EXPT), st.integers(0, 7)), st.tuples(st.just("get"), st.integers(0, 900), st.sampled_from(EXPT), st.integers(0, 7)),
    st.tuples(st.just("latest"), st.integers(0, 7)), st.tuples(st.just("memory"), st.integers(0, 7)))


def record(path, kind):
    """what the database has to know about a file, from the file"""
    with fits.open(path) as h:
        e, p, a = h[1].header, h[0].header, h[1].data
        sh = a.shape
        return {"Type": LABEL[kind], "MJD": time.Time(e["SCTSRT"]).mjd, "EXPTIME": e["EXPTIME"], "Files Used": e.get("DRPNFILE", 0), "Date Created": time.Time(e["DRPCTIME"]).mjd if "DRPCTIME" in e else -1, "DRPVERSN": e.get("DRPVERSN", ""),
                "OBSNUM": p["OBSNUM"], "NAXIS1": sh[-1], "NAXIS2": sh[-2] if len(sh) > 1 else 0, "OPMODE": e["OPMODE"], "EMGAIN_C": e["EMGAIN_C"], "EXCAMT": e["EXCAMT"]}


def table(path):
    with open(path, newline="") as f:
        rows = list(csv.DictReader(f))
    return rows


def compare(rows, model, what):
    got = [r["Filepath"] for r in rows]
    require(len(set(got)) == len(got), "{}: files listed twice: {}", what, got)
    require(set(got) == set(model), "{}: {} listed, expected {}", what, sorted(map(os.path.basename, got)), sorted(map(os.path.basename, model)))
    for r in rows:
        for k, v in model[r["Filepath"]].items():
            if isinstance(v, str):
                require(r[k] == v, "{}: {} of {} is {!r}, in the file {!r}", what, k, r["Filepath"], r[k], v)
            else:
                require(float(r[k]) == float(v) or (k in ("MJD", "Date Created") and abs(float(r[k]) - v) < 1e-9), "{}: {} of {} is {!r}, in the file {!r}", what, k, r["Filepath"], r[k], v)


@PROP.sub("history", st.fixed_dictionaries({"p": st.lists(prod, min_size=3, max_size=8), "ops": st.lists(op, min_size=4, max_size=25), "default": st.booleans()}), 200, 2500, shards=6)
def history(c, rec):
    """the database holds one entry per registered file at any time, and returns the best one"""
    d = os.path.join(rec.dir, "x"); shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, "a"))
    P = [dict(p) for p in c["p"]]; n = len(P)
    paths = [save(p, d, i) for i, p in enumerate(P)]
    # other files in the way
    img(np.zeros((3, 4)), "L2b", filename=fname(40)).save(filedir=os.path.join(d, "a"))
    open(os.path.join(d, "a", "notes.txt"), "w").write("not a calibration")
    dbf = os.path.join(d, "db.csv")
    old = corgidrp.caldb_filepath
    try:
        if c["default"]:
            corgidrp.caldb_filepath = dbf
        mk = lambda: C.CalDB() if c["default"] else C.CalDB(filepath=dbf)
        dbs = [mk(), mk()]
        require(table(dbf) == [], "a new database is not empty")
        model = {}; nreg = later = 0
        load = lambda i: CLS[P[i]["kind"]](paths[i])
        for o in c["ops"]:
            i = o[1] % n if isinstance(o[1], int) else 0
            if o[0] == "add":
                dbs[o[2]].create_entry(load(i)); model[paths[i]] = record(paths[i], P[i]["kind"]); nreg += 1
            elif o[0] == "change":
                P[i].update(e=o[2], day=o[3], ct=o[4]); save(P[i], d, i)
                continue                          # the database only learns of it when the file is registered again
            elif o[0] == "remove":
                if paths[i] in model:
                    dbs[o[2]].remove_entry(load(i)); del model[paths[i]]; later += 1
                else:
                    rejects(lambda: dbs[o[2]].remove_entry(load(i)), ValueError, "removing a file that is not registered")
            elif o[0] == "scan":
                top = os.path.join(d, o[1]) if o[1] else d
                if not os.path.isdir(top):
                    continue
                dbs[0].scan_dir_for_new_entries(top, look_in_subfolders=o[2])
                for j, p in enumerate(paths):
                    if os.path.dirname(p) == top.rstrip("/") or (o[2] and p.startswith(top.rstrip("/") + "/")):
                        model[p] = record(p, P[j]["kind"]); nreg += 1
            elif o[0] == "reload":
                dbs = [mk(), mk()]; later += 1
            elif o[0] == "memory":
                db = mk()
                db.create_entry(load(i), to_disk=False)
                compare(table(dbf), model, "after registering in memory only")
                m2 = dict(model); m2[paths[i]] = record(paths[i], P[i]["kind"])
                require(sorted(db._db["Filepath"]) == sorted(m2), "in memory: {}", list(db._db["Filepath"]))
                k = CLS[P[i]["kind"]]
                got = db.get_calib(None, k, to_disk=False)
                best = max(v["Date Created"] for v in m2.values() if v["Type"] == LABEL[P[i]["kind"]])
                require(abs(m2[got.filepath]["Date Created"] - best) < 1e-9, "latest {} in memory: created {}, expected {}", P[i]["kind"], m2[got.filepath]["Date Created"], best)
                if o[1] % 2:
                    db.save(); model = m2; nreg += 1
            elif o[0] == "get":
                kind = P[o[3] % n]["kind"]
                f = img(np.zeros((3, 4)), "L2b", filename=fname(50), ext={"SCTSRT": stamp(o[1]), "EXPTIME": o[2]})
                f.filedir = d; s0 = snap(f)
                opt = {p: abs(v["MJD"] - time.Time(stamp(o[1])).mjd) for p, v in model.items() if v["Type"] == LABEL[kind] and (kind != "Dark" or v["EXPTIME"] == o[2])}
                if not opt:
                    rejects(lambda: dbs[0].get_calib(f, CLS[kind]), ValueError, "a calibration that is not there")
                    continue
                got = dbs[0].get_calib(f, CLS[kind]); later += 1
                same(s0, snap(f), "the frame a calibration is asked for")
                require(isinstance(got, CLS[kind]), "a {} instead of a {}", type(got).__name__, kind)
                require(got.filepath in opt, "{} {} given, not among {}", kind, got.filepath, sorted(opt))
                require(opt[got.filepath] <= min(opt.values()) + 1e-9, "{} {} days away given, another is {} days away", kind, opt[got.filepath], min(opt.values()))
                j = paths.index(got.filepath)
                w = load(j)
                eq(got.data, w.data, "pixels of the calibration")
            elif o[0] == "latest":
                kind = P[i]["kind"]
                opt = {p: v["Date Created"] for p, v in model.items() if v["Type"] == LABEL[kind]}
                if not opt:
                    rejects(lambda: dbs[1].get_calib(None, CLS[kind]), ValueError, "a calibration that is not there")
                    continue
                got = dbs[1].get_calib(None, CLS[kind]); later += 1
                require(got.filepath in opt and opt[got.filepath] >= max(opt.values()) - 1e-9, "latest {}: {} created {}, expected the one created {}", kind, got.filepath, opt.get(got.filepath), max(opt.values()))
            compare(table(dbf), model, "after " + o[0])
        db = mk()
        compare(table(dbf), model, "at the end")
        require(sorted(db._db["Filepath"]) == sorted(model), "reloaded: {}", list(db._db["Filepath"]))
        rec.nt(nreg > 0 and later > 0)
        rejects(lambda: db.get_calib(None, data.Image), ValueError, "images are no calibrations")
    finally:
        corgidrp.caldb_filepath = old


@PROP.sub("darks", st.fixed_dictionaries({"p": st.lists(st.fixed_dictionaries({"day": st.one_of(st.integers(0, 400), st.integers(10, 12)), "sec": SEC, "e": st.sampled_from(NEAR + [60] * 8), "ct": st.integers(0, 400)}), min_size=1, max_size=6), "day": st.one_of(st.integers(0, 400), st.integers(10, 12)), "sec": SEC, "e": st.sampled_from(NEAR + [60] * 8), "s": seeds}), 160, 1500, shards=2)
def darks(c, rec):
    """lookups in a database of darks: the exposure time has to match, then the nearest in time"""
    d = os.path.join(rec.dir, "y"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    base = {"kind": "Dark", "gain": 1.0, "ex": -95.5, "op": "NONE", "sub": "a", "obs": 1, "n": 1, "s": c["s"]}
    db = C.CalDB(filepath=os.path.join(d, "db.csv"))
    for i, p in enumerate(c["p"]):
        db.create_entry(data.Dark(save(dict(base, **p), d, i)))
    f = img(np.zeros((3, 4)), "L2b", filename=fname(50), ext={"SCTSRT": stamp(c["day"], c["sec"]), "EXPTIME": c["e"]}); f.filedir = d
    away = lambda i: abs((c["p"][i]["day"] - c["day"]) * 86400 + round(c["p"][i]["sec"], 3) - round(c["sec"], 3))
    ok = [i for i, p in enumerate(c["p"]) if p["e"] == c["e"]]
    rec.nt(len(ok) > 1)
    if not ok:
        rejects(lambda: db.get_calib(f, data.Dark), ValueError, "no dark of that exposure time")
    else:
        got = int(os.path.basename(db.get_calib(f, data.Dark).filepath)[3:-5])
        best = min(away(i) for i in ok)
        require(got in ok and away(got) <= best + 0.01, "dark {} of {} for exposure time {} on day {} second {}", got, c["p"], c["e"], c["day"], c["sec"])
    got = int(os.path.basename(db.get_calib(None, data.Dark).filepath)[3:-5])
    require(c["p"][got]["ct"] == max(p["ct"] for p in c["p"]), "the latest dark of {} should not be {}", c["p"], got)


@PROP.sub("in_memory", st.fixed_dictionaries({"p": st.lists(prod, min_size=3, max_size=6), "ops": st.lists(st.tuples(st.sampled_from(["add", "add", "remove", "remove", "remove", "get", "get", "scan"]), st.integers(0, 7), st.integers(0, 900)), min_size=4, max_size=16), "dots": st.integers(0, 5)}), 80, 900, shards=3)
def in_memory(c, rec):
    """a database worked on in memory alone behaves the same, and leaves its file alone until it is saved"""
    d = os.path.join(rec.dir, "w"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    kinds = sorted({p["kind"] for p in c["p"]})[:2]      # few kinds, so that there is something to choose from
    P = [dict(p, kind=kinds[i % len(kinds)], e=60, sub="a") for i, p in enumerate(c["p"])]; n = len(P)
    paths = []
    for i, p in enumerate(P):
        q = save(p, d, i)
        r = q[:-5] + ".v%d" % i * c["dots"] + ".fits"; os.rename(q, r); paths.append(r)
    dbf = os.path.join(d, "db.csv")
    db = C.CalDB(filepath=dbf)
    model = {}; reg = False
    for o, k, day in [("scan", 0, 0)] * (c["dots"] % 2) + c["ops"]:
        i = k % n; kind = P[i]["kind"]; cls = CLS[kind]
        if o == "add":
            db.create_entry(cls(paths[i]), to_disk=False); model[paths[i]] = record(paths[i], kind)
        elif o == "scan":
            db.scan_dir_for_new_entries(d, look_in_subfolders=True, to_disk=False); model = {q: record(q, p["kind"]) for q, p in zip(paths, P)}
        elif o == "remove":
            if paths[i] in model: db.remove_entry(cls(paths[i]), to_disk=False); del model[paths[i]]; reg = True
            else: rejects(lambda: db.remove_entry(cls(paths[i]), to_disk=False), ValueError, "removing a file that is not registered")
        else:
            f = img(np.zeros((3, 4)), "L2b", filename=fname(50), ext={"SCTSRT": stamp(day), "EXPTIME": 60}); f.filedir = d
            opt = {q: abs(v["MJD"] - time.Time(stamp(day)).mjd) for q, v in model.items() if v["Type"] == LABEL[kind]}
            if not opt: rejects(lambda: db.get_calib(f, cls, to_disk=False), ValueError, "a calibration that is not there")
            else:
                got = db.get_calib(f, cls, to_disk=False)
                require(opt.get(got.filepath, np.inf) <= min(opt.values()) + 1e-9, "{} {} given of {}", kind, got.filepath, opt)
        require(sorted(db._db["Filepath"]) == sorted(model), "in memory after {}: {}, expected {}", o, list(db._db["Filepath"]), sorted(model))
        require(table(dbf) == [], "the file of a database used in memory only has changed")
    db.save()
    compare(table(dbf), model, "after saving")
    rec.nt(reg and len(model) > 1)


@PROP.sub("defaults", st.fixed_dictionaries({"pre": st.sampled_from([0, 1, 2]), "s": seeds}), 6, 30)
def defaults(c, rec):
    """setting up the default calibrations creates and registers them once"""
    d = os.path.join(rec.dir, "z"); shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, "cal"))
    old = corgidrp.caldb_filepath, corgidrp.default_cal_dir
    corgidrp.caldb_filepath, corgidrp.default_cal_dir = os.path.join(d, "db.csv"), os.path.join(d, "cal")
    rec.nt()
    try:
        if c["pre"]:
            p = save({"kind": "Dark", "day": 3, "sec": 0.0, "ct": 5, "e": 1.0, "gain": 1.0, "ex": -95.5, "op": "NONE", "sub": "a", "obs": 1, "n": 1, "s": c["s"]}, d, 0)
            C.CalDB().create_entry(data.Dark(p))
        for _ in range(1 + c["pre"] // 2):
            with contextlib.redirect_stdout(io.StringIO()):
                C.initialize()
        rows = table(os.path.join(d, "db.csv"))
        require(sorted(r["Type"] for r in rows) == sorted(["DetectorParams", "FpamFsamCal"] + (["Dark"] if c["pre"] else [])), "entries {}", [r["Type"] for r in rows])
        f = img(np.zeros((3, 4)), "L2b", filename=fname(50)); f.filedir = d
        dp = C.CalDB().get_calib(f, data.DetectorParams)
        require(dp.params == data.DetectorParams({}, date_valid=time.Time("2023-11-01 00:00:00", scale="utc")).params, "default detector parameters {}", dp.params)
        fp = C.CalDB().get_calib(None, data.FpamFsamCal)
        close(fp.data, data.FpamFsamCal([], date_valid=time.Time("2024-02-10 00:00:00", scale="utc")).data, 1e-6, 0, "default FPAM/FSAM matrices")
    finally:
        corgidrp.caldb_filepath, corgidrp.default_cal_dir = old
