"""Shared runner for every check.

A check module declares one property and a list of Sub-checks.  Each Sub has
  * a Hypothesis strategy producing a JSON-able *case* (all randomness lives there),
  * a `run(case)` that executes the case against the real code from /repo and
    raises Violation when the oracle disagrees; it returns (nontrivial, [classes]),
  * case counts per tier and shard.

`python lib/run.py C01` runs the quick/thorough tier (VERIF_TIER), shards over
worker processes, merges the measured coverage into evidence/<id>.json and
prints the VIOLATION line.  `--replay FILE` re-runs one saved case without
Hypothesis.
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(AssertionError):
    """The code under test contradicted the oracle."""


class CaseHang(Exception):
    """A single case ran past the (generous) real-time limit."""


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, shards=2, thorough_shards=8,
                 corpus=(), case_limit_s=60, shrink_s=45, setup=None, skip_quick=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.shards, self.thorough_shards = shards, thorough_shards
        self.corpus = list(corpus)
        self.case_limit_s, self.shrink_s = case_limit_s, shrink_s
        self.setup = setup
        self.skip_quick = skip_quick


# ------------------------------------------------------------------ bootstrap
_scratch = None


def scratch():
    """Per-worker scratch directory (tmpfs when available); removed by the parent."""
    return os.environ["VERIF_SCRATCH"]


def loop_ip():
    """A loopback address of this worker's own, so that no two workers can ever meet on a port."""
    pid = os.getpid()
    return f"127.{1 + pid % 200}.{(pid // 200) % 250}.1"


_counter = [0]


def fresh_dir(tag="d"):
    _counter[0] += 1
    d = os.path.join(scratch(), f"{tag}{_counter[0]}")
    os.makedirs(d)
    return d


def rmdir(path):
    root = scratch()
    assert os.path.abspath(path).startswith(root + os.sep), path
    shutil.rmtree(path, ignore_errors=True)


def boot(app="verifapp.py", instance="0", extra_argv=("-lfo",), quiet=True):
    """Make `import ekosis` work in this process, from /repo, with every file it
    writes inside the scratch directory."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)
    sys.argv = [app, "-i", instance, *extra_argv]
    d = os.path.join(scratch(), "app")
    os.makedirs(d, exist_ok=True)
    for k in list(os.environ):
        if k.startswith("ECOENV_"):
            del os.environ[k]
    os.environ["ECOENV_LOG_DIR"] = d
    os.environ["ECOENV_LOCK_DIR"] = d
    os.environ["ECOENV_BUFFER_DIR"] = d
    import ekosis  # noqa
    assert os.path.abspath(ekosis.__file__).startswith(os.path.abspath(REPO) + os.sep), ekosis.__file__
    if quiet:
        import logging
        logging.disable(logging.CRITICAL)


def from_repo(tb):
    repo = os.path.abspath(REPO) + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(repo):
            return True
        tb = tb.tb_next
    return False


def any_from_repo(exc, depth=0):
    if exc is None or depth > 10:
        return False
    if from_repo(exc.__traceback__):
        return True
    if any_from_repo(exc.__cause__, depth + 1) or any_from_repo(exc.__context__, depth + 1):
        return True
    for sub in getattr(exc, "exceptions", ()) or ():
        if any_from_repo(sub, depth + 1):
            return True
    return False


def consequence(e):
    """An exception in the check's own code that can only come from what the code under test produced (a missing file or key, an
    unreadable answer, a closed connection), as opposed to a shortage of the machine or an interface that is not there."""
    import errno
    if isinstance(e, BaseExceptionGroup):
        return all(consequence(x) for x in e.exceptions)
    if isinstance(e, AttributeError):
        return "'NoneType'" in str(e)
    if isinstance(e, (ImportError, NameError, AssertionError, MemoryError, NotImplementedError)) or type(e).__module__.startswith("hypothesis"):
        return False
    if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT, errno.EAGAIN, errno.ENOBUFS, errno.EADDRINUSE, errno.EADDRNOTAVAIL):
        return False
    if "is full" in str(e) or "No space left" in str(e):
        return False
    return isinstance(e, (LookupError, ValueError, TypeError, OSError, EOFError, ArithmeticError, Consequence)) or type(e).__module__.startswith(("sqlite3", "sqlalchemy", "pydantic", "asyncio"))


class Consequence(Exception):
    """Raised by a check's own machinery for something only the code under test can have caused."""


def _alarm(signum, frame):
    raise CaseHang("case exceeded its real-time limit")


def run_one(sub, case):
    """Run one case; classify any exception.  Returns (nontrivial, classes)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.case_limit_s)
    try:
        try:
            res = sub.run(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    except Violation:
        raise
    except CaseHang as e:
        raise Violation(f"the case never finished within {sub.case_limit_s}s "
                        f"(typical: milliseconds): " + "".join(traceback.format_tb(e.__traceback__)[-3:]))
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if any_from_repo(e):
            raise Violation("unexpected exception out of the code under test: "
                            f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]) from e
        if consequence(e):
            raise Violation("the check could not make sense of what the code under test produced: "
                            f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]) from e
        raise
    if res is None:
        res = (True, [])
    return res


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def _trim(obj, limit=1500):
    s = json.dumps(obj, default=str)
    return obj if len(s) <= limit else s[:limit] + "...(trimmed)"


# --------------------------------------------------------------------- worker
def worker(mod, subname, seed, n, out):
    sub = next(s for s in mod.subs() if s.name == subname)
    if sub.setup:
        sub.setup()
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    stats = {"evaluations": 0, "classes": {}, "hashes": set(), "samples": [], "sub": subname,
             "violation": None, "unreproduced": None}
    fails = {}
    state = {"first_fail": None}

    def body(case, shrinking=True):
        key = case_key(case)
        bad = fails.get(key)
        if bad is None:
            if state["first_fail"] and time.time() - state["first_fail"] > float(os.environ.get("VERIF_SHRINK", sub.shrink_s)):
                return  # shrink budget used up: only known failures still fail
            if state["first_fail"] is None:
                stats["evaluations"] += 1
            try:
                nontrivial, classes = run_one(sub, case)
            except Violation as e:
                if state["first_fail"] is None:
                    state["first_fail"] = time.time()
                bad = fails[key] = {"case": case, "message": str(e)}
        if bad is not None:
            raise Violation(bad["message"])     # one raise site: one origin for the shrinker
        if state["first_fail"] is None:
            for c in classes:
                stats["classes"][c] = stats["classes"].get(c, 0) + 1
            if nontrivial:
                stats["hashes"].add(key)
                if len(stats["samples"]) < 2 and len(stats["hashes"]) > 3:
                    stats["samples"].append({"sub": subname, "classes": classes, "case": _trim(case)})

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink])
    @given(sub.strategy())
    def prop(case):
        state["last_case"] = case
        body(case)

    failed = False
    try:
        for c in sub.corpus:
            body(c)
        if n > 0:
            prop()
    except Violation:
        failed = True
    except hypothesis.errors.Flaky:
        failed = True
    except BaseExceptionGroup as eg:
        if eg.subgroup(Violation) is None and eg.subgroup(hypothesis.errors.Flaky) is None:
            raise
        failed = True
    if failed:
        # smallest failing case seen; confirm it away from Hypothesis
        cands = sorted(fails.values(), key=lambda f: len(json.dumps(f["case"], default=str)))
        confirmed = None
        for cand in cands[:3]:
            for _ in range(2):
                try:
                    run_one(sub, cand["case"])
                except Violation as e:
                    confirmed = {"case": cand["case"], "message": str(e)}
                    break
            if confirmed:
                break
        if confirmed:
            stats["violation"] = confirmed
        elif cands:
            stats["unreproduced"] = cands[0]
        else:
            raise RuntimeError("hypothesis reported flakiness without a recorded failure")
    stats["hashes"] = sorted(stats["hashes"])
    with open(out, "w") as f:
        json.dump(stats, f, default=str)


def sub_seed(seed, name, shard):
    return int(hashlib.sha256(f"{seed}/{name}/{shard}".encode()).hexdigest()[:12], 16)


# --------------------------------------------------------------------- parent
def _scratch_root():
    for base in ("/dev/shm", "/tmp"):
        try:
            return tempfile.mkdtemp(prefix="verif-", dir=base)
        except OSError:
            continue
    raise RuntimeError("no scratch space")


def _env(scratch_dir):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("ECOENV_"):
            del env[k]
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    env.update(PYTHONPYCACHEPREFIX=os.path.join(os.environ["VERIF_SCRATCH"], "pyc"), PYTHONHASHSEED="0",
               VERIF_SCRATCH=scratch_dir,
               PYTHONPATH=os.path.join(VERIF, "lib") + ":" + VERIF, TMPDIR=scratch_dir,
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch_dir, "hyp"))
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        env.pop(k, None)
    return env


def main_parent(prop, replay=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    root = _scratch_root()
    os.environ["VERIF_SCRATCH"] = root
    runpy = os.path.join(VERIF, "lib", "run.py")
    try:
        if replay:
            with open(replay) as f:
                rep = json.load(f)
            p = subprocess.run([PY, runpy, prop, "--replay-worker", os.path.abspath(replay)],
                               env=_env(root), cwd=VERIF)
            return p.returncode
        # metadata only: ask a worker process for its plan (keeps this process import-free)
        plan = json.loads(subprocess.run(
            [PY, runpy, prop, "--plan"], env=_env(root), cwd=VERIF, check=True,
            stdout=subprocess.PIPE).stdout)
        jobs = []
        for s in plan["subs"]:
            if tier == "quick" and s["skip_quick"]:
                continue
            shards = s["shards"] if tier == "quick" else s["thorough_shards"]
            n = s["quick"] if tier == "quick" else s["thorough"]
            for i in range(shards):
                d = os.path.join(root, f"{s['name']}-{i}")
                os.makedirs(d)
                jobs.append({"sub": s["name"], "shard": i, "dir": d, "n": n,
                             "out": os.path.join(d, "result.json"), "err": os.path.join(d, "stderr"),
                             "seed": sub_seed(seed, s["name"], i)})
        par = int(os.environ.get("VERIF_JOBS", "8"))
        running, waiting, done, errors = [], list(jobs), [], []
        while running or waiting:
            while waiting and len(running) < par:
                j = waiting.pop(0)
                ef = open(j["err"], "wb")
                j["t0"] = time.time()
                j["p"] = subprocess.Popen(
                    [PY, runpy, prop, "--worker", j["sub"], str(j["seed"]), str(j["n"]), j["out"]],
                    env=_env(j["dir"]), cwd=VERIF, stdout=ef, stderr=ef, start_new_session=True)
                ef.close()
                running.append(j)
            time.sleep(0.02)
            for j in list(running):
                if j["p"].poll() is None:
                    continue
                running.remove(j)
                j["wall"] = time.time() - j["t0"]
                try:
                    os.killpg(j["p"].pid, signal.SIGKILL)  # stragglers of this worker
                except (ProcessLookupError, PermissionError):
                    pass
                if j["p"].returncode != 0 or not os.path.exists(j["out"]):
                    with open(j["err"], errors="replace") as f:
                        errors.append((j, f.read()[-6000:]))
                else:
                    with open(j["out"]) as f:
                        done.append((j, json.load(f)))
                    if os.environ.get("VERIF_FAILFAST") and done[-1][1]["violation"]:      # mutation campaigns only
                        for k in running:
                            os.killpg(k["p"].pid, signal.SIGKILL)
                            k["p"].wait()
                        running, waiting = [], []
                        break
        evals, hashes, classes, samples, viols, unrep = 0, set(), {}, [], [], []
        persub = {}
        for j, r in done:
            evals += r["evaluations"]
            hs = {r["sub"] + h for h in r["hashes"]}
            hashes |= hs
            ps = persub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0})
            ps["evaluations"] += r["evaluations"]
            ps["distinct_nontrivial"] += len(hs)
            for c, k in r["classes"].items():
                classes[f"{r['sub']}/{c}"] = classes.get(f"{r['sub']}/{c}", 0) + k
            if sum(1 for s in samples if s["sub"] == r["sub"]) < 2:
                samples += r["samples"]
            if r["violation"]:
                viols.append((r["sub"], r["violation"]))
            if r["unreproduced"]:
                unrep.append({"sub": r["sub"], **r["unreproduced"]})
        known, news = split_known(prop, viols)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": plan["level"],
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes),
                           "rule": plan["rule"], "samples": samples, "per_sub_check": persub,
                           "case_classes": dict(sorted(classes.items()))},
              "assumptions": plan["assumptions"], "wall_s": round(time.time() - t0, 2),
              "violations": len(news)}
        if unrep:
            ev["coverage"]["unreproduced_alarms"] = [_trim(u, 800) for u in unrep]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for fid, what in known:
            print(f"KNOWN-FINDING: property={prop} {what}")
        if news:
            sub, v = min(news, key=lambda x: len(json.dumps(x[1]["case"], default=str)))
            rdir = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f"{prop}-{sub}.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "sub": sub, "case": v["case"], "message": v["message"]},
                          f, indent=1, default=str)
            print(f"[{sub}] {v['message'][:3000]}")
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        if errors:
            print(f"{len(errors)} worker(s) failed; the first:", file=sys.stderr)
            for j, txt in errors[:1]:
                print(f"HARNESS-ERROR in {j['sub']} shard {j['shard']} (rc={j['p'].returncode})\n{txt}",
                      file=sys.stderr)
            return 3
        print(f"{prop} ok: {evals} cases, {len(hashes)} distinct non-trivial, "
              f"{ev['wall_s']}s; " + ", ".join(
                  f"{s}={max(j['wall'] for j, r in done if r['sub'] == s):.0f}s" for s in persub))
        return 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def split_known(prop, viols):
    """Known findings are matched by sub-check and an exact signature in the message."""
    path = os.path.join(VERIF, "known_findings.json")
    known, news, seen = [], [], set()
    entries = []
    if os.path.exists(path):
        with open(path) as f:
            entries = [e for e in json.load(f)["findings"]
                       if e.get("status") == "known" and e["property"] == prop]
    for sub, v in viols:
        hit = next((e for e in entries if e["sub"] == sub and e["signature"] in v["message"]), None)
        if hit:
            if hit["id"] not in seen:
                seen.add(hit["id"])
                known.append((hit["id"], hit["what"]))
        else:
            news.append((sub, v))
    return known, news


def main(argv):
    prop = argv[0]
    if len(argv) > 1 and argv[1] == "--replay":
        return main_parent(prop, replay=argv[2])
    if len(argv) == 1:
        return main_parent(prop)
    sys.path.insert(0, VERIF)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)
    os.environ["TZ"] = "VRF-5:45"       # not UTC, no tz database needed: nothing in a log or trace may depend on it
    time.tzset()
    mod = importlib.import_module(f"checks.{prop.lower()}")
    if argv[1] == "--plan":
        subs = mod.subs()
        print(json.dumps({
            "subs": [{"name": s.name, "quick": s.quick, "thorough": s.thorough, "shards": s.shards,
                      "thorough_shards": s.thorough_shards, "skip_quick": s.skip_quick} for s in subs],
            "level": getattr(mod, "LEVEL", "exploration"), "rule": mod.RULE,
            "assumptions": getattr(mod, "ASSUMPTIONS", [])}))
        return 0
    if argv[1] == "--worker":
        worker(mod, argv[2], int(argv[3]), int(argv[4]), argv[5])
        return 0
    if argv[1] == "--replay-worker":
        with open(argv[2]) as f:
            rep = json.load(f)
        sub = next(s for s in mod.subs() if s.name == rep["sub"])
        if sub.setup:
            sub.setup()
        try:
            run_one(sub, rep["case"])
        except Violation as e:
            print(e)
            print(f"VIOLATION property={prop} replay={argv[2]}")
            return 1
        print("replay: property holds on this case")
        return 0
    raise SystemExit("usage")
