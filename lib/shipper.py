"""Drives the real ekosis_log_shipper binary: builds it from /repo, serves the OTLP endpoint, plays the log-writing application."""
import fcntl
import glob
import http.server
import json
import os
import signal
import subprocess
import threading
import time

import harness as h

SYNC_S = 30


def _binary():
    root = os.path.dirname(h.scratch())
    d = os.path.join(root, "shipper-build")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "shipper")
    with open(os.path.join(d, "flock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            src = os.path.join(h.REPO, "ekosis_log_shipper", "src")
            units = sorted(glob.glob(os.path.join(src, "**", "*.cpp"), recursive=True))
            jobs = []
            for i, u in enumerate(units):
                jobs.append(subprocess.Popen(["g++", "-std=c++20", "-O1", "-w", "-I", src, "-c", u, "-o", f"{d}/{i}.o"],
                                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
            for j in jobs:
                err = j.communicate()[1]
                if j.returncode:
                    raise RuntimeError("log shipper does not compile: " + err.decode(errors="replace")[-1500:])
            subprocess.run(["g++", "-o", exe + ".tmp", *[f"{d}/{i}.o" for i in range(len(units))], "-lSQLiteCpp", "-lsqlite3", "-lcurl", "-lpthread"],
                           check=True)
            os.rename(exe + ".tmp", exe)
    return exe


_exe = [None]


def setup():
    _exe[0] = _binary()


class Endpoint:
    """OTLP/HTTP endpoint; `script` is a list of behaviours for the next requests (default: 200)."""

    def __init__(self):
        self.cond = threading.Condition()
        self.script, self.batches, self.rejected = [], [], 0      # batches: (epoch, payload) accepted
        self.bad = None
        self.fine = 200
        self.epoch = 0
        self.on_kill = None
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_POST(self):
                body = self.rfile.read(int(self.headers.get("Content-Length", 0)))
                self.close_connection = True
                with outer.cond:
                    how = outer.script.pop(0) if outer.script else outer.fine
                    try:
                        payload = json.loads(body.decode("utf-8"))
                    except ValueError as e:
                        outer.bad = f"payload is not JSON: {e}: {body[:200]!r}"
                        payload = None
                    if not (self.headers.get("Content-Type") or "").startswith("application/json"):
                        outer.bad = f"content type {self.headers.get('Content-Type')}"
                    if how == "kill-before":
                        outer.on_kill()
                    if how == "hang":
                        outer.rejected += 1
                        outer.cond.notify_all()
                if how == "hang":            # never answers, until the other side gives up
                    try:
                        self.connection.settimeout(60)
                        self.connection.recv(1)
                    except OSError:
                        pass
                    return
                with outer.cond:
                    ok = how in (200, 201, 202, 204, "kill-after")
                    if ok:
                        outer.batches.append((outer.epoch, payload))
                    else:
                        outer.rejected += 1
                    try:
                        if how in ("close", "kill-before"):
                            self.connection.close()
                        else:
                            code = 200 if how == "kill-after" else how
                            self.send_response(code)
                            if code in (301, 302, 307):
                                self.send_header("Location", f"http://{outer.ip}:{outer.port}/elsewhere")
                            text = b"" if code == 204 else b"{}"
                            if code != 204:
                                self.send_header("Content-Length", str(len(text)))
                            self.send_header("Connection", "close")
                            self.end_headers()
                            self.wfile.write(text)
                            self.wfile.flush()
                    except OSError:
                        pass
                    if how == "kill-after":
                        outer.on_kill()
                    outer.cond.notify_all()

            do_GET = do_PUT = do_POST

        self.ip = h.loop_ip()
        self.srv = http.server.ThreadingHTTPServer((self.ip, 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        self.th = threading.Thread(target=self.srv.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True)
        self.th.start()

    def url(self):
        return f"http://{self.ip}:{self.port}/v1/logs"

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()


class Shipper:
    def __init__(self, d):
        self.watch = os.path.join(d, "logs")
        os.makedirs(self.watch)
        self.db = os.path.join(d, "state.db")
        self.err = os.path.join(d, "stderr")
        self.ep = Endpoint()
        self.ep.on_kill = self._shot
        self.proc = None
        self.shot = False

    def _shot(self):
        self.shot = True
        if self.proc is not None:
            self.proc.kill()

    def up(self):
        return self.proc is not None

    def start(self):
        assert self.proc is None
        with self.ep.cond:
            self.ep.epoch += 1
            self.shot = False
            with open(self.err, "ab") as e:
                self.proc = subprocess.Popen([_exe[0], self.watch, self.ep.url(), self.db], stdout=subprocess.DEVNULL, stderr=e,
                                             env={k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")})

    def reap(self):
        """True when the process has ended because we shot it; a Violation when it ended by itself."""
        if self.proc is None:
            return True
        rc = self.proc.poll()
        if rc is None and not self.shot:
            return False
        if self.shot:
            self.proc.wait()
            self.proc = None
            return True
        self.proc = None
        with open(self.err, "rb") as f:
            tail = f.read()[-400:].decode(errors="replace")
        raise h.Violation(f"the log shipper ended by itself (status {rc}): {tail}")

    def kill(self, sig=signal.SIGKILL):
        if self.reap():
            return
        self.proc.send_signal(sig)
        try:
            self.proc.wait(20)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            self.proc = None
            raise h.Violation(f"the log shipper did not end on signal {sig}")
        self.proc = None

    def attached(self, path):
        """Give a running shipper time to have opened this file (only a wait: nothing is concluded from it)."""
        if self.proc is None or not os.path.exists(path):
            return
        end = time.monotonic() + 1.5
        nudge = 0
        while time.monotonic() < end and self.proc.poll() is None:
            fd = f"/proc/{self.proc.pid}/fd"
            try:
                for x in os.listdir(fd):
                    try:
                        if os.readlink(f"{fd}/{x}").startswith(path):
                            return
                    except OSError:
                        pass
            except OSError:
                pass
            nudge += 1
            if nudge % 20 == 0:
                self.wake()
            time.sleep(0.003)

    def holds(self, what=None):
        """The files in the watched directory that the running shipper has open."""
        out = []
        try:
            for x in os.listdir(f"/proc/{self.proc.pid}/fd"):
                try:
                    p = os.readlink(f"/proc/{self.proc.pid}/fd/{x}")
                except OSError:
                    continue
                if p.startswith(self.watch + os.sep if what is None else what):
                    out.append(p)
        except OSError:
            pass
        return sorted(out)

    def wake(self):
        p = os.path.join(self.watch, "wake.tmp")
        with open(p, "w"):
            pass
        os.unlink(p)

    def wait(self, cond, what):
        """cond() under the endpoint's lock; False when the shipper was shot meanwhile."""
        end = time.monotonic() + SYNC_S
        nudge = 0.03
        while True:
            with self.ep.cond:
                if self.ep.bad:
                    raise h.Violation(self.ep.bad)
                if cond():
                    return True
                before = (len(self.ep.batches), self.ep.rejected)
                self.ep.cond.wait(nudge)
                moved = (len(self.ep.batches), self.ep.rejected) != before
            if self.reap():
                with self.ep.cond:
                    return bool(cond())
            if moved:
                nudge = 0.03
                if self.ep.script:
                    self.wake()
            else:
                self.wake()
                nudge = min(0.5, nudge * 2)
            if time.monotonic() > end:
                raise h.Violation(f"not within {SYNC_S}s: {what() if callable(what) else what}")

    def close(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc = None
        self.ep.close()


def records(payload):
    """[(resource attributes, record)] of one accepted payload; Violation when the envelope is not OTLP."""
    out = []
    try:
        for rl in payload["resourceLogs"]:
            res = {a["key"]: a["value"] for a in rl["resource"]["attributes"]}
            for sl in rl["scopeLogs"]:
                for r in sl["logRecords"]:
                    out.append((res, r))
    except (KeyError, TypeError) as e:
        raise h.Violation(f"not an OTLP logs payload ({type(e).__name__} {e}): {json.dumps(payload)[:300]}")
    return out
