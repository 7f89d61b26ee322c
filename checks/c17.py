"""C17: the log shipper delivers every log line exactly once, in order, through rotations, outages, kills and restarts."""
import json
import os
import signal
import time

import harness as h
import shipper
from harness import Sub, eq, check

RULE = ("histories against the real binary: appends (also long lines and fragments completed later), rotations (several in a row, new "
        "file at once or later, oldest file deleted), new files, endpoint failing in generated ways for the next n requests, process "
        "killed at generated moments (also between a request and its answer, and right after it) and restarted; oracle = the sequence "
        "numbers the writer wrote, per file, against what the endpoint accepted; non-trivial = a rotation, an endpoint failure or a "
        "restart with lines still undelivered")
ASSUMPTIONS = ["rotation happens between lines, as the application's log handler does it", "inode numbers are not reused while the shipper is down",
               "a new file is not rotated before a running shipper has seen it",
               "lines rotated away while the shipper was down, or not yet delivered when it was killed, may be lost (documented)",
               "after a kill the last accepted batch may be delivered again"]
FILES = ["a-0.log", "b-0.log", "zeta-10.log"]
FAIL = [500, 503, 400, 404, 429, 301, 307, "close", 300, 302, 308, 401, 403, 408, 409, 413, 499, 502, 504, 599]


def strategy():
    from hypothesis import strategies as st
    f = st.integers(0, 2)
    rot = st.tuples(st.just("rotate"), f, st.booleans(), st.integers(0, 2))
    app = st.tuples(st.just("append"), f, st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.sampled_from([1, 2, 3, 4, 40, 300, 6000])),
                    st.sampled_from([0, 0, 0, 0, 9000, 20000]))
    step = st.one_of(app, app, app, rot, rot, st.tuples(st.just("rotapp"), f, st.integers(1, 3), st.integers(1, 2)),
                     st.tuples(st.just("partial"), f, st.one_of(st.integers(1, 60), st.sampled_from([5000, 40000, 70000, 140000]))),
                     st.tuples(st.just("overtake"), f, st.integers(2, 4), st.integers(1, 3)),
                     st.tuples(st.just("fail"), st.sampled_from(FAIL), st.integers(1, 4)),
                     st.tuples(st.just("kill"), st.sampled_from([signal.SIGKILL, signal.SIGTERM])),
                     st.tuples(st.just("shot"), st.sampled_from(["kill-before", "kill-after"])),
                     st.tuples(st.just("start")), st.tuples(st.just("sync")), st.tuples(st.just("sync")), st.tuples(st.just("quiet")),
                     st.tuples(st.just("tick"), st.integers(1, 25)))
    return st.fixed_dictionaries({"early": st.booleans(), "keep": st.sampled_from([1, 2, 3, 9]), "fine": st.sampled_from([200, 200, 202, 204]),
                                  "steps": st.lists(step, min_size=4, max_size=22)})


class File:
    def __init__(self, sh, name):
        self.sh, self.name, self.path = sh, name, os.path.join(sh.watch, name)
        self.n = 0               # lines written completely
        self.gens = []           # start index of each generation, oldest first; the last is current
        self.deleted = 0         # generations deleted
        self.away = False        # rotated away, no current file
        self.frag = None         # rest of a line whose beginning is written
        self.got = []            # accepted indices with their epoch, in order
        self.lossy = 0           # lines below this may be lost: they were rotated away when the shipper started
        self.quiet_at = -1       # line count when the shipper last was known to have recorded its position

    def line(self, i, size):
        return json.dumps({"timestamp": f"2026-06-18T17:27:24.{i % 1000000:06d}+00:00", "severity_number": 9, "severity_text": "INFO",
                           "body": f"{self.name}#{i}#" + "x" * size,
                           "attributes": {"application_name": "app_" + self.name, "application_instance": "0", "lineno": i}, "trace_id": None, "span_id": None})

    def _open(self):
        if not self.gens or self.away:
            self.gens.append(self.n)
            self.away = False
        return open(self.path, "ab", buffering=0)

    def append(self, count, size):
        self.finish()
        with self._open() as f:
            if count > 10:               # a burst, in one write
                f.write("".join(self.line(self.n + i, 0) + "\n" for i in range(count)).encode())
                self.n += count
                return
            for _ in range(count):
                f.write((self.line(self.n, size) + "\n").encode())
                self.n += 1

    def partial(self, cut):
        self.finish()
        text = (self.line(self.n, 0 if cut < 100 else cut + cut // 3) + "\n").encode()
        with self._open() as f:
            f.write(text[:cut])
        self.frag = text[cut:]

    def finish(self):
        if self.frag is not None:
            with open(self.path, "ab", buffering=0) as f:
                f.write(self.frag)
            self.frag = None
            self.n += 1

    def rotate(self, reopen, pause, keep, pos, attached):
        if not self.gens or self.away:
            return False
        self.finish()
        live = len(self.gens) - self.deleted              # files on disk, including the current one
        if live > keep:
            g = self.deleted                              # the oldest file goes, as the rotating handler does it
            first, end = self.gens[g], self.gens[g + 1]
            if pos >= end or (attached and first < pos):
                os.remove(f"{self.path}.{live - 1}")
                self.deleted += 1
                live -= 1
        for k in range(live - 1, 0, -1):
            os.rename(f"{self.path}.{k}", f"{self.path}.{k + 1}")
            if pause:
                time.sleep(pause * 0.0005)
        os.rename(self.path, self.path + ".1")
        self.away = True
        if reopen:
            if pause:
                time.sleep(pause * 0.0005)
            self._open().close()
        return True


def run(case):
    d = h.fresh_dir()
    sh = shipper.Shipper(d)
    classes = set()
    try:
        sh.ep.fine = case["fine"]
        files = [File(sh, n) for n in FILES]
        canary = File(sh, "canary.log")
        allf = {f.name: f for f in [*files, canary]}
        seen = [0]

        def absorb():
            """Sort newly accepted records under their files (endpoint lock held)."""
            for epoch, payload in sh.ep.batches[seen[0]:]:
                batch = {}
                for res, r in shipper.records(payload):
                    body = r.get("body", {}).get("stringValue", "")
                    parts = body.split("#")
                    check(len(parts) == 3 and parts[0] in allf and parts[1].isdigit(), lambda: f"a record nobody logged was delivered: {body[:100]!r}")
                    eq(res.get("service.name"), {"stringValue": "app_" + parts[0]}, f"service name of a line of {parts[0]}")
                    batch.setdefault(parts[0], []).append(int(parts[1]))
                for name, idx in batch.items():
                    allf[name].got.append((epoch, idx))
            seen[0] = len(sh.ep.batches)

        def pos(f):
            with sh.ep.cond:
                absorb()
            return (f.got[-1][1][-1] + 1) if f.got else 0

        def behind():
            """Files whose last line has to be delivered in this run and has not been (endpoint lock held)."""
            absorb()
            return [f"{f.name}: {f.n} lines written, last delivered {f.got[-1][1][-1] if f.got else None}" for f in allf.values()
                    if f.n > f.lossy and not (f.got and f.got[-1][1][-1] == f.n - 1)]

        def sync():
            return sh.wait(lambda: not behind(), lambda: "delivery of " + "; ".join(behind()))

        def quiet():
            """The endpoint has accepted everything, and the shipper has gone on to other work since."""
            for _ in range(2):
                canary.append(1, 0)
                if not sync():
                    return False
            if sh.reap():
                return False
            for f in files:
                f.quiet_at = f.n
            return True

        starts = {}          # (file, epoch) -> (lowest, highest) admissible first index

        def start():
            if sh.proc is not None:
                sh.reap()
            if sh.up():
                return
            with sh.ep.cond:
                absorb()
            for f in allf.values():
                if not f.gens:
                    continue
                f.lossy = f.n if f.away else f.gens[-1]
                if not f.got:
                    lo, hi = 0, f.lossy
                else:
                    last = f.got[-1][1]
                    p = last[-1] + 1
                    lo = p if f.quiet_at == p else last[0]
                    hi = max(p, f.lossy)
                starts[(f.name, sh.ep.epoch + 1)] = (lo, hi)
            sh.start()

        owed = False
        if case["early"]:
            start()
            classes.add("early")
        for s in case["steps"]:
            if sh.proc is not None and sh.reap():
                classes.add("shot")
            if s[0] == "append":
                files[s[1]].append(s[2], s[3])
            elif s[0] == "partial":
                files[s[1]].partial(s[2])
                classes.add("partial")
            elif s[0] in ("rotate", "rotapp"):
                f = files[s[1]]
                for _ in range(1 if s[0] == "rotate" else s[2]):
                    sh.attached(f.path)
                    p = pos(f)
                    if f.rotate(s[2] if s[0] == "rotate" else True, s[3] if s[0] == "rotate" else 0, case["keep"], p,
                                sh.up() and bool(f.got) and f.got[-1][0] == sh.ep.epoch):
                        classes.add("rotate")
                        if p < f.n:
                            classes.add("rotate-behind")
                            owed = True
                    if s[0] == "rotapp":
                        f.append(s[3], 0)
            elif s[0] == "overtake" and sh.up():
                # rotations overtake a shipper that is held up by its endpoint, until its file is deleted under it
                f = files[s[1]]
                f.append(1, 0)
                if not sync():
                    continue
                with sh.ep.cond:
                    sh.ep.script += [503] * 5
                    before = sh.ep.rejected
                f.append(1, 0)
                if not sh.wait(lambda: sh.ep.rejected > before, "an attempt to deliver the next line"):
                    continue
                for _ in range(s[2]):
                    if f.rotate(True, 0, case["keep"], pos(f), sh.up() and bool(f.got) and f.got[-1][0] == sh.ep.epoch):
                        classes.add("overtaken")
                        owed = True
                    f.append(s[3], 0)
            elif s[0] == "fail":
                with sh.ep.cond:
                    sh.ep.script += [s[1]] * s[2]
                classes.add("fail")
            elif s[0] == "shot" and sh.up():
                with sh.ep.cond:
                    sh.ep.script.append(s[1])
                classes.add(s[1])
            elif s[0] == "kill":
                if sh.up():
                    with sh.ep.cond:
                        absorb()
                        owed |= any(f.n > (f.got[-1][1][-1] + 1 if f.got else 0) for f in files)
                    sh.kill(s[1])
                    classes.add("kill")
            elif s[0] == "start":
                start()
            elif s[0] in ("sync", "quiet") and sh.up():
                classes.add(s[0] if (sync() if s[0] == "sync" else quiet()) else "shot")
            elif s[0] == "tick":
                time.sleep(s[1] / 1000)
        # the end: a healthy endpoint and a running shipper; everything has to arrive
        with sh.ep.cond:
            sh.ep.script = [x for x in sh.ep.script if x not in ("kill-before", "kill-after")]
        start()
        for _ in range(2):
            for f in files:
                if f.gens:
                    f.append(1, 0)
            check(sync(), "the log shipper was killed")
        quiet()
        with sh.ep.cond:
            absorb()
        for f in allf.values():
            exp = None
            epoch = None
            for e, idx in f.got:
                if e != epoch:
                    epoch = e
                    lo, hi = starts.get((f.name, e), (0, 0))
                    check(lo <= idx[0] <= hi, lambda: f"{f.name}: run {e} of the shipper began with line {idx[0]}, expected {lo}..{hi}; "
                          f"delivered so far {f.got}; generations start at {f.gens}")
                    exp = idx[0]
                for i in idx:
                    check(i == exp, lambda: f"{f.name}: line {i} delivered where line {exp} was due; delivered {f.got}; generations start at {f.gens}")
                    exp += 1
            if f.n:
                eq(exp, f.n, f"{f.name}: lines delivered in the end")
        # rotated files that have been delivered are let go: at most the current file of each log is still open
        allowed = sorted(f.path for f in allf.values())
        end = time.monotonic() + 10
        while True:
            held = sh.holds() if sh.up() else []
            if set(held) <= set(allowed) and len(held) == len(set(held)) and (not sh.up() or len(sh.holds("")) <= len(held) + 16):
                break
            check(time.monotonic() < end, lambda: f"everything has been delivered, and the shipper still has open: {held}, in all: {sh.holds('')}")
            sh.wake()
            time.sleep(0.02)
        if sh.ep.rejected:
            classes.add("rejected")
        return owed or sh.ep.rejected > 0 or "kill-after" in classes, sorted(classes)
    finally:
        sh.close()
        h.rmdir(d)


def hang_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"before": st.integers(1, 4), "during": st.integers(0, 3), "rotate": st.booleans(), "then": st.sampled_from(["none", 503, "close"]),
                                  "codes": st.lists(st.sampled_from([200, 500, "close"]), max_size=2)})


def run_hang(case):
    """An endpoint that takes a request and never answers it: the shipper gives up on it and sends the lines again."""
    d = h.fresh_dir()
    sh = shipper.Shipper(d)
    try:
        f = File(sh, FILES[0])
        with sh.ep.cond:
            sh.ep.script = [x for x in case["codes"] if x != 200] + ["hang"] + ([case["then"]] if case["then"] != "none" else [])
            want = len([x for x in sh.ep.script])
        f.append(case["before"], 0)
        sh.start()
        check(sh.wait(lambda: "hang" not in sh.ep.script, "the request to the endpoint that hangs"), "the log shipper was killed")
        if case["rotate"]:
            sh.attached(f.path)
            f.rotate(True, 0, 9, 0, True)
        if case["during"]:
            f.append(case["during"], 0)

        def got():
            return [int(r["body"]["stringValue"].split("#")[1]) for _, p in sh.ep.batches for _, r in shipper.records(p)]
        check(sh.wait(lambda: len(got()) >= f.n, lambda: f"delivery after an endpoint that hung: got {got()}, written {f.n}"), "the log shipper was killed")
        eq(got(), list(range(f.n)), "lines delivered after an endpoint that hung")
        eq(sh.ep.rejected, want, "requests not accepted")
        return True, ["hang"]
    finally:
        sh.close()
        h.rmdir(d)


def subs():
    return [Sub("hang", hang_strategy, run_hang, quick=1, thorough=12, shards=4, setup=shipper.setup, case_limit_s=150),
            Sub("ship", strategy, run, quick=180, thorough=2500, shards=7, setup=shipper.setup, case_limit_s=150)]
