"""C40: the settings file, setting up and the operations interface."""
from vf.common import *
from vf.core import Prop, require
from vf.cals import CLS, save, stamp
from checks.C11 import calibrations, science, mini, automatic, by_hand, files_of, compare_files, registry, B1, SV
import contextlib, io, json, shutil
import astropy.time as time
import corgidrp
from corgidrp import caldb as C, ops as O

PROP = Prop("C40", "Settings files with any of the five options in any letter case, other sections and options, comments, no file at all, and the file of an old version; histories of 1-9 operations (setting up again, editing the settings, loading a tree of calibration files among other files, deleting the settings, the database, "
            "some default calibrations or everything) in a scratch home directory against a model of the settings and of the database; whole runs of the operations interface from an empty home directory against the same functions called by hand. Non-trivial: a settings file was there / at least three operations / always.")

FLAGS = ["track_individual_errors", "skip_missing_cal_steps", "jit_calib_id"]
SECTION = {"track_individual_errors": "DATA", "skip_missing_cal_steps": "WALKER", "jit_calib_id": "WALKER", "caldb": "PATH", "default_calibs": "PATH"}


class home:
    """a scratch home directory"""
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        shutil.rmtree(self.d, ignore_errors=True); os.makedirs(self.d)
        self.old = os.environ.get("HOME"), {k: getattr(corgidrp, k) for k in FLAGS + ["config_folder", "config_filepath", "caldb_filepath", "default_cal_dir"]}
        os.environ["HOME"] = self.d
        return os.path.join(self.d, ".corgidrp")

    def __exit__(self, *a):
        os.environ["HOME"] = self.old[0]
        for k, v in self.old[1].items():
            setattr(corgidrp, k, v)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def spell(v, how):
    t = "true" if v else "false"
    return [t, t.capitalize(), t.upper(), t[:2] + t[2:].upper(), "  " + t + "  "][how]


def text(o, style):
    """a settings file; o: option -> text"""
    out = []
    for s in sorted({SECTION[k] for k in o} | ({"OTHER"} if style & 1 else set()), reverse=bool(style & 2)):
        out.append("[%s]" % s)
        if style & 4: out.append("# a note of the user")
        out += ["%s%s%s" % (k.upper() if style & 8 else k, " = " if style & 16 else ":" if style & 32 else "=", v) for k, v in o.items() if SECTION[k] == s]
        if s == "OTHER": out.append("something = else")
    return "\n".join(out) + ("\n" if style & 4 else "")


opt = st.one_of(st.none(), st.tuples(st.booleans(), st.integers(0, 4)))
cfgs = st.fixed_dictionaries({"f": st.tuples(opt, opt, opt), "db": st.sampled_from([None, "a.csv", "sub dir/b.csv", "C.CSV"]), "style": st.integers(0, 63)})


def options(c, d):
    o = {k: spell(*v) for k, v in zip(FLAGS, c["f"]) if v is not None}
    if c["db"]: o["caldb"] = os.path.join(d, c["db"])
    return o


@PROP.sub("settings", st.fixed_dictionaries({"have": st.sampled_from(["file", "file", "file", "folder", "none", "legacy"]), "cfg": cfgs, "defs": st.booleans(), "calls": st.integers(1, 3)}), 600, 6000)
def settings(c, rec):
    """the options are read as written, those not given have their defaults, and the user's files are left alone"""
    with home(os.path.join(rec.dir, "h")) as f:
        o = options(c["cfg"], rec.dir)
        if c["defs"]: o["default_calibs"] = os.path.join(rec.dir, "h", "my calibs")
        cf = os.path.join(f, "corgidrp.cfg"); before = None
        if c["have"] == "legacy":
            o = {"caldb": o.get("caldb", os.path.join(rec.dir, "old.csv"))}
            open(f, "w").write(text(o, c["cfg"]["style"]))
        elif c["have"] != "none":
            os.makedirs(f); open(os.path.join(f, "note.txt"), "w").write("mine")
            if c["have"] == "file":
                before = text(o, c["cfg"]["style"]); open(cf, "w").write(before)
        rec.nt(c["have"] in ("file", "legacy")); rec.label(c["have"])
        for _ in range(c["calls"]):
            quiet(corgidrp.create_config_dir)
        quiet(corgidrp.update_pipeline_settings)
        require(os.path.isdir(f) and os.path.isdir(os.path.join(f, "default_calibs")) and os.path.exists(cf), "the folder of the settings is incomplete: {}", os.listdir(f))
        if before is not None:
            require(open(cf).read() == before, "the settings file of the user was changed to {!r}", open(cf).read())
        if c["have"] in ("file", "folder"):
            require(open(os.path.join(f, "note.txt")).read() == "mine", "a file of the user was changed")
        fresh = before is None
        for k, v in zip(FLAGS, c["cfg"]["f"]):
            want = bool(v[0]) if v is not None and not fresh else False
            require(getattr(corgidrp, k) is want, "{} is {}, the file says {}", k, getattr(corgidrp, k), o.get(k) if not fresh else None)
        want = o.get("caldb") if not fresh or c["have"] == "legacy" else os.path.join(f, "corgidrp_caldb.csv")
        require(corgidrp.caldb_filepath == want, "database {}, expected {}", corgidrp.caldb_filepath, want)
        want = o.get("default_calibs") if not fresh else os.path.join(f, "default_calibs")
        require(corgidrp.default_cal_dir == want, "default calibrations in {}, expected {}", corgidrp.default_cal_dir, want)
        require(corgidrp.config_filepath == cf and corgidrp.config_folder == f, "settings in {}, expected {}", corgidrp.config_filepath, cf)
        # a later edit is picked up
        o2 = {k: spell(not getattr(corgidrp, k), 0) for k in FLAGS}
        open(cf, "w").write(text(dict(o2, caldb="/x.csv"), 0)); quiet(corgidrp.create_config_dir); quiet(corgidrp.update_pipeline_settings)
        require(all(spell(getattr(corgidrp, k), 0) == v for k, v in o2.items()) and corgidrp.caldb_filepath == "/x.csv", "an edit of the settings is not read")
        # what is neither true nor false is refused
        open(cf, "w").write("[%s]\n%s = %s\n" % (SECTION[FLAGS[c["calls"] - 1]], FLAGS[c["calls"] - 1], "maybe"))
        rejects(corgidrp.update_pipeline_settings, what="a setting that is neither true nor false")


DEF = ["DetectorParams_2023-11-01T00:00:00.000.fits", "FpamFsamCal_2024-02-10T00:00:00.000.fits"]
op = st.one_of(st.just(["init"]), st.just(["init"]), cfgs.map(lambda v: ["cfg", v]), st.tuples(st.just("load"), st.integers(0, 2)).map(list), st.just(["rmcfg"]), st.just(["rmdb"]), st.tuples(st.just("rmdef"), st.integers(1, 3)).map(list), st.just(["rmall"]))


def tree(d, i, s):
    """a directory of calibration files, also in folders, among other files -> their paths"""
    d = os.path.join(d, "cal%d" % i)
    out = []
    if not os.path.isdir(d):
        for k, kind in enumerate([["Dark", "KGain"], ["FlatField", "NonLinearityCalibration", "BadPixelMap"], ["AstrometricCalibration"]][i]):
            save({"kind": kind, "day": 3 + k, "sec": 0.0, "ct": 5 + k, "e": 1.0, "gain": 1.0, "ex": -95.5, "op": "NONE", "sub": ["", "a", "a/b"][k], "obs": 1, "n": 1, "s": s + k}, d, k)
        open(os.path.join(d, "readme.txt"), "w").write("calibrations")
        f = img(np.zeros((3, 4)), "L2b", filename=fname(50)); f.save(filedir=d)
    return d, sorted(os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs if f.startswith("cal"))


@PROP.sub("setup", st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=9), "s": seeds}), 240, 2400, shards=3)
def setup(c, rec):
    """setting up at any time makes what is missing and keeps what is there"""
    with home(os.path.join(rec.dir, "h")) as f:
        t = os.path.join(rec.dir, "trees"); shutil.rmtree(t, ignore_errors=True); os.makedirs(t); os.makedirs(os.path.join(t, "sub dir"))
        cf, dd = os.path.join(f, "corgidrp.cfg"), os.path.join(f, "default_calibs")
        dbs = {}; cfg = None; db = None       # database file -> paths registered there; contents of the settings file; the database in use
        flags = None
        rec.nt(len(c["ops"]) >= 3)
        for q in c["ops"] + [["init"]]:
            rec.label(q[0])
            if q[0] == "init":
                db = quiet(O.step_1_initialize)
                if cfg is None:
                    cfg = open(cf).read(); flags = ([False] * 3, os.path.join(f, "corgidrp_caldb.csv"))
                require(open(cf).read() == cfg, "the settings file was changed from {!r} to {!r}", cfg, open(cf).read())
                require([getattr(corgidrp, k) for k in FLAGS] == flags[0] and corgidrp.caldb_filepath == flags[1], "settings {} {}, expected {}", [getattr(corgidrp, k) for k in FLAGS], corgidrp.caldb_filepath, flags)
                require(db.filepath == flags[1], "the database given is {}, the settings say {}", db.filepath, flags[1])
                require(all(os.path.exists(os.path.join(dd, n)) for n in DEF), "default calibrations {}", os.listdir(dd))
                dbs.setdefault(flags[1], set()).update(os.path.join(dd, n) for n in DEF)
            elif q[0] == "cfg" and os.path.isdir(f):
                o = dict(options(q[1], t), default_calibs=dd)
                o.setdefault("caldb", os.path.join(f, "corgidrp_caldb.csv"))
                cfg = text(o, q[1]["style"]); open(cf, "w").write(cfg); db = None
                flags = ([bool(v[0]) if v is not None else False for v in q[1]["f"]], o["caldb"])
            elif q[0] == "load" and db is not None:
                d, paths = tree(t, q[1], c["s"])
                got = quiet(O.step_2_load_cal, db, d)
                require(got.filepath == db.filepath, "database {} returned", got.filepath)
                dbs[db.filepath].update(paths)
            elif q[0] == "rmcfg" and os.path.exists(cf):
                os.remove(cf); cfg = None; db = None
            elif q[0] == "rmdb" and flags is not None and os.path.exists(flags[1]):
                os.remove(flags[1]); dbs.pop(flags[1]); db = None
            elif q[0] == "rmdef" and os.path.isdir(dd):
                for i in (0, 1):
                    if q[1] >> i & 1 and os.path.exists(os.path.join(dd, DEF[i])): os.remove(os.path.join(dd, DEF[i]))
                db = None
            elif q[0] == "rmall":
                shutil.rmtree(f, ignore_errors=True); cfg = None; db = None
                for p in [p for p in dbs if p.startswith(f + os.sep)]: dbs.pop(p)
            else:
                continue
            for p, want in dbs.items():
                rows = [r for r in registry_rows(p)]
                have = sorted(r["Filepath"] for r in rows)
                require(len(set(have)) == len(have) and set(have) >= want, "after {} the database {} has {}, {} are missing", q, os.path.basename(p), [os.path.basename(x) for x in have], [os.path.basename(x) for x in sorted(want - set(have))])
                require(set(have) == want, "after {} the database {} also has {}", q, os.path.basename(p), sorted(set(have) - want))
            if q[0] == "init":
                fr = img(np.zeros((3, 4)), "L2b", filename=fname(51)); fr.filedir = rec.dir
                dp = quiet(C.CalDB().get_calib, fr, data.DetectorParams)
                require(dp.params == data.DetectorParams({}, date_valid=time.Time("2023-11-01 00:00:00", scale="utc")).params, "default detector parameters {}", dp.params)
                quiet(C.CalDB().get_calib, fr, data.FpamFsamCal)


def registry_rows(p):
    import csv
    with open(p, newline="") as h:
        return list(csv.DictReader(h))


PART = [B1(False)[:1] + SV, B1(False)[:2] + SV, B1(False) + SV]


@PROP.sub("process", st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 3), "days": st.lists(st.integers(0, 60), min_size=4, max_size=4), "exp": st.sampled_from([1.0, 7.5]), "cfg": cfgs, "tmpl": st.sampled_from([None, None, 0, 1, 2]), "again": st.booleans(), "tdict": st.booleans()}), 24, 240, shards=3)
def process(c, rec):
    """from an empty home directory: set up, load the calibrations, process the files"""
    d = os.path.join(rec.dir, "p"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    A, B = os.path.join(d, "outA"), os.path.join(d, "outB"); os.makedirs(A); os.makedirs(B); os.makedirs(os.path.join(d, "sub dir"))
    c = dict(c, lv="L1")
    rec.nt(); rec.label("template %s" % c["tmpl"])
    model = calibrations(c, os.path.join(d, "cal"))
    paths = science(c, os.path.join(d, "in"))
    for p in paths:
        f = data.Image(p); f.pri_hdr["VISTYPE"] = "TDEMO"; f.save()
    with home(os.path.join(rec.dir, "h")) as h, mini():
        o = options(c["cfg"], d)
        os.makedirs(h); cf = os.path.join(h, "corgidrp.cfg")
        if c["tmpl"] is None: o.pop("track_individual_errors", None)
        o.setdefault("caldb", os.path.join(d, "db.csv")); o["default_calibs"] = os.path.join(h, "default_calibs")
        open(cf, "w").write(text(o, c["cfg"]["style"]))
        for _ in range(1 + c["again"]):
            db = quiet(O.step_1_initialize)
            db = quiet(O.step_2_load_cal, db, os.path.join(d, "cal"))
        user = {k: getattr(corgidrp, k) for k in FLAGS}
        rows = [r["Filepath"] for r in registry_rows(o["caldb"])]
        defs = [os.path.join(h, "default_calibs", n) for n in DEF]
        require(sorted(rows) == sorted(list(model) + defs), "registered: {}", sorted(set(rows) ^ set(list(model) + defs)))
        for p in rows: require(os.path.exists(p), "{} is registered, but does not exist", p)
        # the calibrations of the database, in the order in which they were registered
        known = {p: model[p] if p in model else {"kind": os.path.basename(p).split("_")[0]} for p in rows}
        steps = copy.deepcopy(PART[2 if c["tmpl"] is None else c["tmpl"]])
        tm = None
        track = user["track_individual_errors"] if c["tmpl"] is not None else False
        if c["tmpl"] is not None:
            tm = {"name": "gen", "template": True, "drpconfig": {"track_individual_errors": track}, "inputs": [], "outputdir": "", "steps": copy.deepcopy(steps)}
            if not c["tdict"]:
                json.dump(tm, open(os.path.join(d, "t.json"), "w")); tm = os.path.join(d, "t.json")
        hand = automatic(steps, known, data.Image(paths[0]), False)
        want, regs, ran, saved, used = by_hand(hand, paths, B, known, track, None, 0)
        if want is not None:
            raise want
        corgidrp.track_individual_errors = user["track_individual_errors"]
        quiet(O.step_3_process_data, paths, "", A, template=tm) if tm is not None else quiet(O.step_3_process_data, paths, "", A)
        require({k: getattr(corgidrp, k) for k in FLAGS} == user, "the settings were left as {}", {k: getattr(corgidrp, k) for k in FLAGS})
        require(open(cf).read() == text(o, c["cfg"]["style"]), "the settings file was changed")
        fa, fb = files_of(A), files_of(B)
        require(sorted(fa) == sorted(fb) and len(fa) == len(paths), "files {}, by hand {}", sorted(fa), sorted(fb))
        for n in fa:
            compare_files(fa[n], fb[n], d + "/outA", d + "/outB")
        require(sorted(r["Filepath"] for r in registry_rows(o["caldb"])) == sorted(rows), "the database changed")
