"""Real application processes: start, talk to (raw blocking sockets), signal, reap."""
import json
import os
import signal
import socket
import subprocess
import threading
import time

import harness as h
from harness import Violation

START_S = 60.0
EXIT_S = 30.0


class App:
    def __init__(self, script, d, env, sock=None, args=("-i", "0", "-lfo"), name=None):
        self.d, self.sock = d, sock
        e = {k: v for k, v in os.environ.items() if not k.startswith("ECOENV_")}
        e.update(env)
        e["VERIF_REPO_PATH"] = h.REPO
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        self.err = open(os.path.join(d, "app.stderr"), "ab")
        path = script if os.path.isabs(script) else os.path.join(h.VERIF, "lib", "apps", script)
        self.p = subprocess.Popen([h.PY, path, *args], env=e, cwd=d, stdout=self.err, stderr=self.err,
                                  stdin=subprocess.DEVNULL)

    def stderr(self):
        with open(os.path.join(self.d, "app.stderr"), errors="replace") as f:
            return f.read()[-2500:]

    def wait_up(self):
        end = time.monotonic() + START_S
        while time.monotonic() < end:
            if self.p.poll() is not None:
                raise Violation(f"application exited during start-up, rc={self.p.returncode}: {self.stderr()}")
            try:
                c = Raw(self.sock)
                c.close()
                return self
            except OSError:
                time.sleep(0.01)
        raise h.Consequence(f"application did not come up within {START_S}s: {self.stderr()}")

    def signal(self, name):
        self.p.send_signal(getattr(signal, name))

    def wait_exit(self, what):
        try:
            self.p.wait(EXIT_S)
        except subprocess.TimeoutExpired:
            raise Violation(f"{what}: application did not terminate within {EXIT_S}s of the signal; {self.stderr()}")
        return self.p.returncode

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.err.close()


class Raw:
    """Blocking line client on a unix socket."""

    def __init__(self, path, timeout=40.0):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.settimeout(timeout)
        try:
            self.s.connect(path)
        except BaseException:
            self.s.close()
            raise
        self.buf = b""

    def send(self, route, data, span):
        self.s.sendall((json.dumps({"route_key": route, "span_key": span, "data": data}) + "\n").encode())

    def recv(self):
        """One response line as a dict, or None at end of stream."""
        while b"\n" not in self.buf:
            try:
                got = self.s.recv(65536)
            except (ConnectionResetError, BrokenPipeError):
                return None
            except socket.timeout:
                raise Violation("no response within 40s")
            if not got:
                return None
            self.buf += got
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def rpc(self, route, data, span):
        self.send(route, data, span)
        r = self.recv()
        if r is None:
            raise Violation(f"connection closed instead of a response to {route}")
        return r

    def close(self):
        self.s.close()


class Peer:
    """Minimal server the application forwards to; `answer(request_dict) -> response dict or None (=hang up)`."""

    def __init__(self, path, answer):
        self.path, self.answer = path, answer
        self.seen = []
        self.lock = threading.Lock()
        self.srv = socket.socket(socket.AF_UNIX)
        self.srv.bind(path)
        self.srv.listen(64)
        self.alive = True
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while self.alive:
            try:
                c, _ = self.srv.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        buf = b""
        try:
            while True:
                got = c.recv(65536)
                if not got:
                    return
                buf += got
                while b"\n" in buf:
                    line, buf = buf.split(b"\n", 1)
                    if line[:1] == b"\x05":
                        c.sendall(b"\x06\n")
                        continue
                    req = json.loads(line)
                    with self.lock:
                        self.seen.append(req)
                        res = self.answer(req, len(self.seen))
                    if res is None:
                        return
                    c.sendall((json.dumps(res) + "\n").encode())
        except OSError:
            return
        finally:
            c.close()

    def close(self):
        self.alive = False
        try:
            self.srv.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.srv.close()
