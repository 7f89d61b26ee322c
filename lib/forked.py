"""Run one case in a forked child that imports ekosis afresh, with its own environment and argv.

Needed where behaviour is fixed at import time (configuration, logging).  The parent pre-imports only third-party
modules, so a child costs some tens of milliseconds."""
import json
import os
import signal
import sys
import time
import traceback

import harness as h


class DiedError(h.Consequence, RuntimeError):
    """The child ended by a signal or by an exit out of the code under test."""


def preload():
    if h.REPO not in sys.path:
        sys.path.insert(0, h.REPO)
    if h.HYPOTHESIS_SITE not in sys.path:
        sys.path.append(h.HYPOTHESIS_SITE)
    import asyncio, logging.handlers, pydantic, sqlalchemy, sqlalchemy.orm, sqlalchemy.dialects.sqlite  # noqa
    assert "ekosis" not in sys.modules


def run(fn, argv, env, timeout=30):
    """fn() in a child; returns what it returned (JSON round trip).  Violations and exceptions out of the code under
    test come back as Violation, anything else as RuntimeError.  SystemExit comes back as {"exit": code}."""
    out = os.path.join(h.scratch(), f"fork-{os.getpid()}-{time.monotonic_ns()}")
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            f = open(out, "w")      # opened first: fn may give up its privileges
            signal.setitimer(signal.ITIMER_REAL, 0)
            for k in list(os.environ):
                if k.startswith("ECOENV_"):
                    del os.environ[k]
            os.environ.update(env)
            sys.argv = list(argv)
            try:
                res = {"ok": fn()}
            except h.Violation as e:
                res = {"violation": str(e)}
            except SystemExit as e:
                res = {"ok": {"exit": e.code}}
            except BaseException as e:
                kind = "violation" if h.any_from_repo(e) or h.consequence(e) else "error"
                res = {kind: f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"}
            json.dump(res, f)
            f.close()
        except BaseException:
            traceback.print_exc()
            code = 9
        finally:
            os._exit(code)
    end = time.monotonic() + timeout
    status = None
    try:
        while time.monotonic() < end:
            p, s = os.waitpid(pid, os.WNOHANG)
            if p:
                status = s
                break
            time.sleep(0.002)
    finally:
        if status is None:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
    if status is None:
        raise h.Violation(f"the program did not finish within {timeout}s")
    if status != 0 or not os.path.exists(out):
        raise (RuntimeError if status in (9 << 8, signal.SIGKILL) else DiedError)(f"forked case died with status {status}")
    with open(out) as f:
        res = json.load(f)
    os.unlink(out)
    if "violation" in res:
        raise h.Violation(res["violation"])
    if "error" in res:
        raise RuntimeError(res["error"])
    return res["ok"]
