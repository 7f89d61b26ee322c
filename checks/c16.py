"""C16: at most one process runs as a given instance of an application; stale locks never block a start."""
import json
import os
import select
import signal
import sys
import time

import harness as h
import forked
from harness import Sub, eq, check

RULE = ("starts: histories of rounds in which 1..5 processes start the same instance at once, with generated delays injected at "
        "their file and process system calls, while the previous winner lives on, exits or is killed; locks: a single start against a "
        "generated lock file (absent, dead, live, own, foreign-owner pid, truncated) next to locks of other instances; oracle = at most "
        "one process inside at any time, exactly one when none was, refusal names the running process; non-trivial = two or more "
        "simultaneous starters, or a lock file already present")
ASSUMPTIONS = ["one lock directory on a local file system", "a dead process's id has not been taken over by another process",
               "application names without '-'"]


# ------------------------------------------------------------------ concurrent starts
def starts_strategy():
    from hypothesis import strategies as st
    delays = st.lists(st.sampled_from([0, 0, 0, 1, 2, 4]), max_size=8)
    rnd = st.fixed_dictionaries({"starters": st.lists(st.fixed_dictionaries({"at": st.sampled_from([0, 0, 0, 1, 3]), "delays": delays}),
                                                      min_size=1, max_size=5),
                                 "end": st.sampled_from(["keep", "kill", "kill", "exit"])})
    return st.fixed_dictionaries({"initial": st.sampled_from(["none", "none", "stale", "empty"]), "rounds": st.lists(rnd, min_size=1, max_size=3)})


def dead_pid():
    pid = os.fork()
    if pid == 0:
        os._exit(0)
    os.waitpid(pid, 0)
    return pid


def read_all(fd, seconds):
    """Everything until end of file; None on time-out."""
    out, end = b"", time.monotonic() + seconds
    while time.monotonic() < end:
        if select.select([fd], [], [], 0.5)[0]:
            got = os.read(fd, 65536)
            if not got:
                return out
            out += got
            if out.endswith(b"\n"):
                return out
    return None


def starts_program(case, d):
    sys.stdout = sys.stderr = open(os.devnull, "w")
    from ekosis.application_base import ApplicationBase, InstanceAlreadyRunningException
    lock = os.path.join(d, "lock_app-0.lock")
    if case["initial"] == "stale":
        with open(lock, "w") as f:
            f.write(f"{dead_pid()}\n")
    elif case["initial"] == "empty":
        open(lock, "w").close()

    def start(spec, go, res, hold):
        """One starter: waits for the gun, constructs the application, reports, and if inside stays until told."""
        left = list(spec["delays"])

        def hook(event, args):
            if left and (event in ("open", "os.remove", "os.rename", "os.kill", "os.link", "os.truncate") or event.startswith("fcntl.")):
                time.sleep(left.pop(0) / 1000)
        try:
            os.read(go, 1)
            time.sleep(spec["at"] / 1000)
            sys.addaudithook(hook)
            try:
                ApplicationBase()
                msg = {"in": os.getpid()}
            except InstanceAlreadyRunningException as e:
                msg = {"refused": str(e)}
            except BaseException as e:
                msg = {"error": f"{type(e).__name__}: {e}"}
            left.clear()
            os.write(res, (json.dumps(msg) + "\n").encode())
            if "in" in msg:
                os.read(hold, 1)
        finally:
            os._exit(0)

    inside = None           # (pid, hold_w)
    out = []
    pids = []
    try:
        for rnd in case["rounds"]:
            go_r, go_w = os.pipe()
            kids = []
            for spec in rnd["starters"]:
                res_r, res_w = os.pipe()
                hold_r, hold_w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(go_w)
                    os.close(res_r)
                    os.close(hold_w)
                    start(spec, go_r, res_w, hold_r)
                os.close(res_w)
                os.close(hold_r)
                pids.append(pid)
                kids.append((pid, res_r, hold_w))
            os.close(go_r)
            os.close(go_w)          # the gun
            msgs = []
            for pid, res_r, hold_w in kids:
                raw = read_all(res_r, 30)
                os.close(res_r)
                msgs.append(json.loads(raw) if raw else {"error": "no answer"})
            out.append({"running": inside[0] if inside else None, "msgs": msgs})
            winners = [k for k, m in zip(kids, msgs) if "in" in m]
            for k, m in zip(kids, msgs):
                if "in" not in m:
                    os.waitpid(k[0], 0)
            if winners:
                inside = (winners[0][0], winners[0][2])
            if inside and rnd["end"] != "keep":
                if rnd["end"] == "kill":
                    os.kill(inside[0], signal.SIGKILL)
                else:
                    os.close(inside[1])
                os.waitpid(inside[0], 0)
                inside = None
            if len(winners) > 1:
                break
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
    return out


def run_starts(case):
    d = h.fresh_dir()
    try:
        env = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d}
        out = forked.run(lambda: starts_program(case, d), ["lockApp.py", "-i", "0", "-lfo"], env, timeout=55)
        classes = {"initial-" + case["initial"]}
        for n, r in enumerate(out):
            ins = [m["in"] for m in r["msgs"] if "in" in m]
            bad = [m for m in r["msgs"] if "error" in m]
            check(not bad, lambda: f"round {n}: a start failed with something else than a refusal: {bad[0]}")
            if r["running"]:
                eq(len(ins), 0, f"round {n}: processes let in although process {r['running']} was running")
                for m in r["msgs"]:
                    check(str(r["running"]) in m["refused"], lambda: f"round {n}: refusal {m['refused']!r} does not name {r['running']}")
                classes.add("refused-by-running")
            else:
                eq(len(ins), 1, f"round {n}: processes that became instance 0 out of {len(r['msgs'])} simultaneous starts")
                if len(r["msgs"]) > 1:
                    classes.add("simultaneous")
                if n:
                    classes.add("after-" + case["rounds"][n - 1]["end"])
        return bool(classes & {"simultaneous", "refused-by-running"}) or case["initial"] != "none", sorted(classes)
    finally:
        h.rmdir(d)


# ------------------------------------------------------------------ one start against a lock file
def locks_strategy():
    from hypothesis import strategies as st
    kind = st.sampled_from(["none", "dead", "live", "own", "foreign", "empty", "partial", "live-nonl", "zero-dead"])
    return st.fixed_dictionaries({"lock": kind, "script": st.sampled_from(["lockApp.py", "app.py", "App2.py"]), "inst": st.sampled_from(["0", "1", "10", "feeds_cats", "Feeds_Cats", "a.b", "a b"]),
                                  "others": st.lists(st.sampled_from(["1", "10", "100", "0", "other-app", "longer-app", "swap", "swap", "space", "prefix", "suffix"]), max_size=3),
                                  "via": st.sampled_from(["env", "file"])})


def other_lock(d, name, inst, o):
    """Lock file of another application or of another instance, with a name close to the one that starts."""
    return os.path.join(d, {"other-app": f"zzz-{inst}.lock", "longer-app": f"{name}x-{inst}.lock", "swap": f"{name}-{inst.swapcase()}.lock", "space": f"{name}-{inst.replace('_', ' ').replace('.', '_')}.lock",
                            "prefix": f"{name}-{inst[:-1]}.lock", "suffix": f"{name}-{inst}0.lock"}.get(o, f"{name}-{o}.lock"))


def run_locks(case):
    d = h.fresh_dir()
    os.chmod(d, 0o777)
    name = {"lockApp.py": "lock_app", "app.py": "app", "App2.py": "app2"}[case["script"]]
    lock = os.path.join(d, f"{name}-{case['inst']}.lock")
    sleeper = os.fork()
    if sleeper == 0:
        try:
            time.sleep(60)
        finally:
            os._exit(0)
    foreign = case["lock"] == "foreign" and os.getuid() == 0
    if foreign:
        for x in (h.scratch(), os.path.dirname(h.scratch())):
            os.chmod(x, 0o711)
    try:
        for o in case["others"]:
            p = other_lock(d, name, case["inst"], o)
            if p != lock:
                with open(p, "w") as f:
                    f.write(f"{sleeper}\n")
        text = {"none": None, "dead": f"{dead_pid()}\n", "live": f"{sleeper}\n", "live-nonl": f"{sleeper}", "own": "OWN", "foreign": f"{sleeper}\n",
                "empty": "", "partial": "\n", "zero-dead": f"0{dead_pid()}\n"}[case["lock"]]

        def child():
            sys.stdout = sys.stderr = open(os.devnull, "w")
            if text is not None:
                with open(lock, "w") as f:
                    f.write(f"{os.getpid()}\n" if text == "OWN" else text)
                os.chmod(lock, 0o666)
            from ekosis.application_base import ApplicationBase, InstanceAlreadyRunningException
            if foreign:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            try:
                app = ApplicationBase()
            except InstanceAlreadyRunningException as e:
                return {"refused": str(e)}
            return {"in": os.getpid()}

        env = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d}
        argv = [case["script"], "-i", case["inst"], "-lfo"]
        if case["via"] == "file":
            with open(os.path.join(d, "c.json"), "w") as f:
                json.dump({"instances": {case["inst"]: {"lock_directory": d}}}, f)
            env["ECOENV_LOCK_DIR"] = os.path.join(d, "elsewhere")
            argv += ["-c", os.path.join(d, "c.json")]
        got = forked.run(child, argv, env, timeout=40)
        if case["lock"] in ("live", "foreign", "live-nonl"):
            check("refused" in got, lambda: f"started although the lock names the running process {sleeper} ({case['lock']})")
            check(str(sleeper) in got["refused"], lambda: f"refusal does not name the running process: {got}")
            check(os.path.exists(lock), "the lock file of the running instance vanished when another start was refused")
            with open(lock) as f:
                eq(f.read().strip(), str(sleeper), "lock of the running instance after another start was refused")
        else:
            check("in" in got, lambda: f"a start was refused because of a lock that no running process holds ({case['lock']}): {got}")
            check(os.path.exists(lock), lambda: f"an instance started and left no lock file {os.path.basename(lock)}; the directory has {sorted(os.listdir(d))}")
            with open(lock) as f:
                eq(f.read().strip(), str(got["in"]), "lock file of the instance that started")
        for o in case["others"]:
            p = other_lock(d, name, case["inst"], o)
            if p != lock:
                check(os.path.exists(p), lambda: f"the lock of another instance, {os.path.basename(p)}, vanished")
                with open(p) as f:
                    eq(f.read(), f"{sleeper}\n", "lock of another instance")
        return case["lock"] != "none", ["lock-" + case["lock"], *(["others"] if case["others"] else [])]
    finally:
        os.kill(sleeper, signal.SIGKILL)
        os.waitpid(sleeper, 0)
        h.rmdir(d)


def subs():
    return [Sub("starts", starts_strategy, run_starts, quick=100, thorough=1200, shards=4, setup=forked.preload),
            Sub("locks", locks_strategy, run_locks, quick=60, thorough=800, shards=2, setup=forked.preload)]
