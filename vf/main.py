"""Entry point: sets up an isolated environment, imports the code under test from /repo's
working tree, runs the check of one property, and reports."""
import os, sys, shutil, tempfile, argparse, traceback, zipfile, glob, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO") or "/repo"


def provide_hypothesis(scratch):
    """Make hypothesis importable for the interpreter that runs the code under test."""
    lib = os.path.join(scratch, "pylib")
    os.makedirs(lib)
    src = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    names = ["hypothesis", "_hypothesis_ftz_detector.py", "_hypothesis_globals.py", "sortedcontainers"]
    if all(os.path.exists(os.path.join(src, n)) for n in names):
        for n in names:
            os.symlink(os.path.join(src, n), os.path.join(lib, n))
    else:
        for pat in ("hypothesis-[0-9]*cp312*.whl", "sortedcontainers*.whl"):
            for whl in glob.glob(os.path.join("/opt/veriftools/wheels", pat))[:1]:
                with zipfile.ZipFile(whl) as z:
                    z.extractall(lib)
    sys.path.insert(0, lib)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    args = ap.parse_args()
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % args.prop, dir="/tmp")
    code = 2
    try:
        os.makedirs(os.path.join(scratch, "home"))
        os.environ["HOME"] = os.path.join(scratch, "home")
        os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        os.environ["XDG_CACHE_HOME"] = os.path.join(scratch, "cache")
        os.environ["XDG_CONFIG_HOME"] = os.path.join(scratch, "cfg")
        for k in ("MPLCONFIGDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
            os.makedirs(os.environ[k])
        os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
        os.chdir(scratch)
        sys.dont_write_bytecode = True
        provide_hypothesis(scratch)
        sys.path.insert(0, REPO)
        sys.path.insert(0, HERE)
        from vf import core
        code = core.run_check(args.prop, tier, seed, scratch, HERE, REPO, replay=args.replay, only=args.sub)
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 2
    except BaseException:
        traceback.print_exc()
        code = 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
