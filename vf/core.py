"""Small runner around Hypothesis: each property is a set of sub-checks; each sub-check is a
strategy that yields plain JSON-able cases plus a function that judges one case against an
oracle.  Sub-checks run in parallel forked processes; results are merged into the evidence
file.  Every failure is shrunk by Hypothesis and written as a JSON replay file."""
import os, sys, json, time, hashlib, traceback, importlib, io, contextlib, warnings, pickle, signal

import numpy as np


class Violation(Exception):
    """The code under test broke the property on this case."""


class _Stop(BaseException):
    pass


def require(cond, msg="", *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Rec:
    """Per-case recorder handed to the judging function."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.dir = None

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, s):
        self.labels.append(str(s))


class Sub:
    def __init__(self, name, fn, strategy, quick, thorough, examples, shards=1):
        self.shards = shards
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.examples = quick, thorough, list(examples or [])


class Prop:
    def __init__(self, pid, rule, level="exploration", assumptions=None):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = assumptions or []
        self.subs = []
        self.knowns = []

    def sub(self, name, strategy, quick, thorough=None, examples=None, shards=1):
        def deco(fn):
            self.subs.append(Sub(name, fn, strategy, quick, thorough or quick * 10, examples, shards))
            return fn
        return deco

    def known(self, fid):
        """Deterministic demonstration of a recorded finding: returns text if it reproduces."""
        def deco(fn):
            self.knowns.append((fid, fn))
            return fn
        return deco


def jdefault(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (tuple, set)):
        return list(o)
    if isinstance(o, np.bool_):
        return bool(o)
    return repr(o)


def canon(case):
    return json.dumps(case, sort_keys=True, default=jdefault)


def touches_repo(tb, repo):
    root = os.path.join(os.path.realpath(repo), "corgidrp") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


CASE_LIMIT = 200    # seconds; cases take a few seconds at most


# what an oracle raises when a result lacks the keyword, the file, the shape or the type that it is stated to have
UNREADABLE = (LookupError, AttributeError, TypeError, ValueError, ArithmeticError, FileNotFoundError, AssertionError)


class _Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Hang()


def judge(sub, case, repo, workdir):
    """-> (rec, None) or (rec, message).  Harness errors propagate."""
    import shutil, tempfile
    from vf import common
    rec = Rec()
    rec.dir = tempfile.mkdtemp(dir=workdir)
    common.reset_globals()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                sub.fn(case, rec)
        return rec, None
    except Violation as e:
        return rec, str(e)
    except _Hang as e:
        if touches_repo(e.__traceback__, repo):
            return rec, "the code under test did not finish within %d s" % CASE_LIMIT
        raise RuntimeError("case not finished within %d s" % CASE_LIMIT)
    except _Stop:
        raise
    except Exception as e:
        if type(e).__module__.split(".")[0] == "hypothesis":
            raise
        if touches_repo(e.__traceback__, repo):
            last = traceback.format_exception_only(type(e), e)[-1].strip()
            fr = [f for f in traceback.extract_tb(e.__traceback__)]
            where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in fr[-3:])
            return rec, "the code under test raised on a valid case: %s (at %s)" % (last, where)
        if isinstance(e, UNREADABLE) and not isinstance(e, UnicodeError):
            f = traceback.extract_tb(e.__traceback__)[-1]
            return rec, "the result does not have the stated form: %s: %s (at %s:%d)" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno)
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        common.reset_globals()
        shutil.rmtree(rec.dir, ignore_errors=True)


def run_sub(sub, tier, seed, scratch, repo, scale, budget, shard=0):
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, Verbosity
    wd = os.path.join(scratch, "sub_%s_%d" % (sub.name, shard))
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    from vf import common
    common.enter_worker(wd)
    st = {"evals": 0, "distinct": set(), "samples": [], "labels": {}, "fail": None, "t_fail": None, "harness": None}
    t0 = time.time()

    def one(case):
        now = time.time()
        if st["fail"] is not None and now - st["t_fail"] > min(60.0, budget / 3):
            raise _Stop()
        if st["fail"] is None and now - t0 > budget:
            st["budget_hit"] = True
            raise _Stop()
        rec, msg = judge(sub, case, repo, wd)
        st["evals"] += 1
        for l in rec.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if rec.nontrivial:
            c = canon(case)
            h = hashlib.md5(c.encode()).hexdigest()
            if h not in st["distinct"]:
                st["distinct"].add(h)
                if len(st["samples"]) < 2:
                    st["samples"].append(c if len(c) < 1500 else c[:1500] + "...")
        if msg is not None:
            if st["fail"] is None:
                st["t_fail"] = time.time() if "did not finish" not in msg else -1e9    # no shrinking of hangs
            st["fail"] = (json.loads(canon(case)), msg)
            raise Violation(msg)

    try:
        for ex in sub.examples if shard == 0 else []:
            try:
                one(ex)
            except Violation:
                raise _Stop()
        n = sub.quick if tier == "quick" else sub.thorough
        n = max(1, int(n * scale) // sub.shards)
        hs = int(hashlib.md5(("%d:%s:%d" % (seed, sub.name, shard)).encode()).hexdigest()[:12], 16)

        strata = sub.strategy if isinstance(sub.strategy, list) else [sub.strategy]
        for k, strat in enumerate(strata):
            @hseed(hs + k)
            @settings(max_examples=max(1, n // len(strata)), database=None, deadline=None, derandomize=False,
                      phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet, print_blob=False)
            @given(strat)
            def test(case):
                one(case)

            with contextlib.redirect_stdout(io.StringIO()):
                test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as e:
        if st["fail"] is None:
            st["harness"] = traceback.format_exc()
    os.chdir("/")
    return {"name": sub.name, "evals": st["evals"], "distinct": sorted(st["distinct"]), "samples": st["samples"],
            "labels": st["labels"], "fail": st["fail"], "harness": st["harness"], "wall": time.time() - t0,
            "budget_hit": st.get("budget_hit", False)}


def run_known(prop, scratch, repo):
    """Run the recorded-finding demonstrations in a child, return {fid: text or None}."""
    out = {}
    wd = os.path.join(scratch, "known")
    os.makedirs(wd, exist_ok=True)
    from vf import common
    common.enter_worker(wd)
    for fid, fn in prop.knowns:
        sub = Sub("known_" + fid, lambda c, r, fn=fn: fn(r), None, 1, 1, None)
        rec, msg = judge(sub, {}, repo, wd)
        out[fid] = msg
    return out


def _child(fn, path):
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            res = fn()
        except BaseException:
            res = {"crash": traceback.format_exc()}
        try:
            with open(path + ".tmp", "w") as f:
                json.dump(res, f, default=jdefault)
            os.rename(path + ".tmp", path)
        except BaseException:
            code = 3
        os._exit(code)
    return pid


def run_check(pid, tier, seed, scratch, here, repo, replay=None, only=None):
    t0 = time.time()
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        mod = importlib.import_module("checks." + pid)
    import corgidrp
    if not os.path.realpath(corgidrp.__file__).startswith(os.path.realpath(repo) + os.sep):
        print("corgidrp imported from %s, not from %s" % (corgidrp.__file__, repo), file=sys.stderr)
        return 2
    prop = mod.PROP
    assert prop.pid == pid

    if replay:
        with open(replay) as f:
            r = json.load(f)
        from vf import common
        wd = os.path.join(scratch, "replay"); os.makedirs(wd)
        common.enter_worker(wd)
        if r["sub"].startswith("known_"):
            fn = dict(prop.knowns)[r["sub"][6:]]
            sub = Sub(r["sub"], lambda c, rr: fn(rr), None, 1, 1, None)
        else:
            sub = [s for s in prop.subs if s.name == r["sub"]][0]
        rec, msg = judge(sub, r["case"], repo, wd)
        if msg is None:
            print("replay of %s/%s: no violation" % (pid, r["sub"]))
            return 0
        print("%s/%s: %s" % (pid, r["sub"], msg))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(replay)))
        return 1

    scale = float(os.environ.get("VF_SCALE") or 1)
    budget = 180.0 if tier == "quick" else 3000.0
    jobs = int(os.environ.get("VF_JOBS") or 0) or min(8, os.cpu_count() or 2)
    subs = [s for s in prop.subs if only is None or s.name == only]
    tasks = [("%s.%d" % (s.name, k), (lambda s=s, k=k: run_sub(s, tier, seed, scratch, repo, scale, budget, k))) for s in subs for k in range(s.shards)]
    if prop.knowns and only is None:
        tasks.append(("__known__", lambda: run_known(prop, scratch, repo)))
    pending, running, results = list(tasks), {}, {}
    sys.stdout.flush(); sys.stderr.flush()
    while pending or running:
        while pending and len(running) < jobs:
            name, fn = pending.pop(0)
            path = os.path.join(scratch, "res_%s.json" % name)
            running[_child(fn, path)] = (name, path)
        p, status = os.wait()
        if p not in running:
            continue
        name, path = running.pop(p)
        if os.path.exists(path):
            with open(path) as f:
                results[name] = json.load(f)
        else:
            results[name] = {"crash": "worker for %s ended with status %s and no result" % (name, status)}

    harness, fails = [], []
    tot, dist, samples, cov = 0, 0, [], {}
    for s in subs:
        parts = [results["%s.%d" % (s.name, k)] for k in range(s.shards)]
        for q in parts:
            if "crash" in q or q["harness"]:
                harness.append((s.name, q.get("crash") or q["harness"]))
        parts = [q for q in parts if "crash" not in q]
        if not parts:
            continue
        r = {"evals": sum(q["evals"] for q in parts), "distinct": len(set(sum((q["distinct"] for q in parts), []))),
             "samples": sum((q["samples"] for q in parts), []), "labels": {}, "wall": max(q["wall"] for q in parts),
             "budget_hit": any(q["budget_hit"] for q in parts), "fail": next((q["fail"] for q in parts if q["fail"]), None)}
        for q in parts:
            for l, v in q["labels"].items():
                r["labels"][l] = r["labels"].get(l, 0) + v
        tot += r["evals"]; dist += r["distinct"]
        for c in r["samples"][:1 if len(subs) > 4 else 2]:
            samples.append({"sub": s.name, "case": json.loads(c) if not c.endswith("...") else c})
        cov[s.name] = {"evaluations": r["evals"], "distinct_nontrivial": r["distinct"], "labels": r["labels"],
                       "wall_s": round(r["wall"], 2), "budget_hit": r["budget_hit"]}
        if r["fail"]:
            fails.append((s.name, r["fail"][0], r["fail"][1]))
    listed = {}
    kf = os.path.join(here, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["findings"]:
            if e["property"] == pid:
                listed[e["id"]] = e["what"]
    known_lines = []
    if "__known__" in results:
        kr = results["__known__"]
        if "crash" in kr:
            harness.append(("known", kr["crash"]))
        else:
            for fid, msg in kr.items():
                if msg is None:
                    continue
                if fid in listed:
                    known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, fid, listed[fid]))
                else:
                    fails.append(("known_" + fid, {}, msg))
    for l in known_lines:
        print(l)
    for name, e in harness:
        print("HARNESS ERROR in %s/%s:\n%s" % (pid, name, e), file=sys.stderr)
    rdir = os.path.join(here, "replay"); os.makedirs(rdir, exist_ok=True)
    for name, case, msg in fails:
        h = hashlib.md5(canon(case).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s-%s.json" % (pid, name.replace(" ", "_"), h))
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": name, "case": case, "message": msg, "seed": seed, "tier": tier}, f, indent=1, default=jdefault)
        print("%s/%s: %s" % (pid, name, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if only is None:
        edir = os.environ.get("VF_EVIDENCE") or os.path.join(here, "evidence")
        os.makedirs(edir, exist_ok=True)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.level,
              "coverage": {"evaluations": tot, "distinct_nontrivial": dist, "rule": prop.rule, "samples": samples[:12], "by_subcheck": cov,
                           "known_findings_reproduced": len(known_lines)},
              "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
        with open(os.path.join(edir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=jdefault)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1fs" % (pid, tier, seed, tot, dist, len(fails), time.time() - t0))
    if os.environ.get("VF_SCALE") or only:
        for k, v in cov.items():
            print("   ", k, json.dumps(v))
    if fails:
        return 1
    if harness:
        return 2
    return 0
