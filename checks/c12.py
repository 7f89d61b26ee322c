"""C12: the log file holds exactly the records logged, one JSON line each, in order, under the right request."""
import asyncio
import datetime
import functools
import json
import os
import re
import time

import harness as h
import forked
from harness import Sub, eq, check

RULE = ("logging programs (records from overlapping requests and from outside any request, arbitrary text, values that "
        "change after being logged, level and buffer-size changes through the endpoints) under generated level, buffer, "
        "rotation settings given by environment or file, ended by orderly exit, by an exception, or by a kill; each case "
        "runs in a freshly forked process; oracle = the list of records the program logged; non-trivial = buffering, "
        "rotation or a level/buffer change was in play and at least two requests logged")
ASSUMPTIONS = ["log directory is writable", "records are logged from the event loop thread",
               "rotation drops only the oldest files, and only beyond the configured number"]
LEVELS = ["debug", "info", "warn", "error", "critical"]
NUM = {"debug": 10, "info": 20, "warn": 30, "error": 40, "critical": 50}
SEV = {"debug": (5, "DEBUG"), "info": (9, "INFO"), "warn": (13, "WARN"), "error": (17, "ERROR"), "critical": (21, "FATAL")}
for _n in (15, 25, 35, 60):         # levels without a name of their own
    NUM[str(_n)], SEV[str(_n)] = _n, (0, "UNSPECIFIED")


def strategy():
    from hypothesis import strategies as st
    lvl = st.sampled_from(LEVELS)
    txt = st.one_of(st.sampled_from(["m", "plain", "two\nlines", "quote\" back\\slash", "\u2028\u00e9\U0001f600", "%s %d {x}", ""]),
                    st.text(st.characters(blacklist_categories=("Cs",)), max_size=12), st.just("long " * 60), st.sampled_from(["\ud800", "half \udc80 of\udfff it"]))
    rec = st.fixed_dictionaries({"l": st.one_of(lvl, lvl, lvl, st.sampled_from(["15", "25", "35", "60"])), "m": txt, "mut": st.sampled_from([False, False, False, True]),
                                 "named": st.booleans()})
    act = st.one_of(rec, rec, st.sampled_from([-1, 0.5, 1.0, 2.0]))
    req = st.tuples(st.just("req"), st.sampled_from([0, 0, 0.3, 1.2]), st.lists(act, min_size=1, max_size=5))
    breq = st.tuples(st.just("breq"), st.sampled_from([0, 0, 0.3]), st.lists(act, min_size=1, max_size=4))
    step = st.one_of(req, req, breq, st.tuples(st.just("out"), rec), st.tuples(st.just("level"), lvl),
                     st.tuples(st.just("buffer"), st.sampled_from([0, 1, 2, 5, 50, 2500])), st.tuples(st.just("wait"), st.sampled_from([1.0, 0.000457])),
                     st.tuples(st.just("many"), rec, st.sampled_from([40, 300, 1100, 1100])))
    return st.fixed_dictionaries({
        "locale": st.sampled_from([None, None, "ascii", "cp1252"]),
        "level": st.sampled_from([None, None, *LEVELS]), "buf": st.sampled_from([0, 0, 1, 2, 3, 7, 1000, 3000, 3000]),
        "size": st.sampled_from([700, 2000, 5000, 10 ** 7, 10 ** 7]), "files": st.sampled_from([0, 1, 2, 3, 30]),
        "via": st.sampled_from(["env", "env", "file"]), "to": st.sampled_from(["file"] * 6 + ["both", "both", "console", "gone"]), "end": st.sampled_from(["exit", "exit", "raise", "kill"]),
        "steps": st.one_of(st.lists(step, min_size=1, max_size=8), st.lists(step, min_size=5, max_size=12))})


def program(case):
    """Runs in the child: returns the journal of what was logged."""
    import logging
    import vloop
    import eko
    from pydantic import BaseModel
    from ekosis.application_base import ApplicationBase
    from ekosis.requests.endpoint import endpoint
    from ekosis.requests.buffered_endpoint import buffered_endpoint

    journal = []
    root = logging.getLogger()

    class Q(BaseModel):
        k: int

    def emit(rec, span):
        n = len(journal)
        log = logging.getLogger("some.part") if rec["named"] else root
        call = {"debug": log.debug, "info": log.info, "warn": log.warning, "error": log.error,
                "critical": log.critical}.get(rec["l"]) or functools.partial(log.log, NUM[rec["l"]])
        body = f"#{n}#" + rec["m"]
        entry = {"l": rec["l"], "span": span, "t0": time.time()}
        journal.append(entry)
        if rec["mut"]:
            box = [rec["m"]]
            entry["body"] = f"#{n}#{box}"
            call(f"#{n}#%s", box)
            box.append("changed later")
        else:
            entry["body"] = body
            call("%s", body) if n % 2 else call(body)
        entry["t1"] = time.time()

    def key(k):
        """Every third request has a trace id that starts with zeros, every third such a span id."""
        d = eko.sk_dict(k)
        if k % 3 == 1:
            d["trace_id"] = "0000000" + d["trace_id"][7:]
        elif k % 3 == 2:
            d["span_id"] = "00000" + d["span_id"][5:]
        return d

    programs = {}

    @endpoint("log.work", Q)
    async def work(dto, span_key):
        for a in programs[dto.k]:
            if isinstance(a, dict):
                emit(a, str(span_key))
            else:
                await eko.pause(a)
        return Q(k=dto.k)

    @buffered_endpoint("log.buffered", Q, page_size=5, max_retries=2)
    async def bwork(dto, span_key):
        for a in programs[dto.k]:
            if isinstance(a, dict):
                emit(a, str(span_key))
            else:
                await eko.pause(a)
        return True

    async def body():
        await eko.buffered_handler("log.buffered").setup(os.environ["ECOENV_BUFFER_DIR"], "log_app", "x7")
        await asyncio.sleep(0.000123)
        async with eko.uds_server() as path:
            tasks, k = [], 0
            ctl = await eko.Conn(path).open()
            for s in case["steps"]:
                if s[0] == "breq":
                    programs[k] = s[2]
                    r = await ctl.rpc("log.buffered", {"k": k}, key(k))
                    h.eq(r["status"], 0, "buffered request status")
                    k += 1
                    await eko.pause(s[1])
                elif s[0] == "req":
                    programs[k] = s[2]
                    c = await eko.Conn(path).open()
                    tasks.append((k, asyncio.create_task(c.rpc("log.work", {"k": k}, key(k)))))
                    k += 1
                    await eko.pause(s[1])
                elif s[0] == "out":
                    emit(s[1], None)
                elif s[0] == "many":
                    for _ in range(s[2]):
                        emit({**s[1], "m": s[1]["m"][:20]}, None)
                elif s[0] == "wait":
                    await asyncio.sleep(s[1])
                elif s[0] == "level":
                    journal.append({"setting": s[1]})
                    r = await ctl.rpc("eco.log.level", {"level": s[1]}, eko.sk_dict(900))
                    h.eq(r["status"], 0, "eco.log.level status")
                    journal.append({"set": s[1]})
                elif s[0] == "buffer":
                    r = await ctl.rpc("eco.log.buffer", {"size": s[1]}, eko.sk_dict(901))
                    h.eq(r["status"], 0, "eco.log.buffer status")
                    journal.append({"buf": s[1]})
            for i, t in tasks:
                r = await t
                h.eq((r["status"], r["data"]), (0, {"k": i}), "response of the logging endpoint")
            await asyncio.sleep(1000)       # the buffered requests finish
        if case["end"] == "raise":
            raise ValueError("the application fails")

    if case["end"] == "kill":
        vloop.run(body, patch_time=True)
        return journal
    with ApplicationBase():
        vloop.run(body, patch_time=True)
    return journal


def records(lines):
    """The records the program logged, out of lines of the log; every line has to be a JSON object."""
    res = []
    for ln in lines:
        try:
            o = json.loads(ln.decode("utf-8"))
        except ValueError:
            check(False, f"log line is not JSON: {ln[:200]!r}")
        check(isinstance(o, dict), f"log line is not an object: {ln[:200]!r}")
        if o["body"].startswith("#"):
            res.append(o)
    return res


def accept(got, journal):
    """Half a surrogate pair cannot be written: whatever stands for it is fine, as long as the rest of the text is there."""
    odd = {e["body"].split("#")[1]: e["body"] for e in journal if "body" in e and re.search("[\ud800-\udfff]", e["body"])}
    for o in got:
        want = odd.get(o["body"].split("#")[1])
        if want is not None and re.fullmatch(".*".join(re.escape(x) for x in re.split("[\ud800-\udfff]", want)), o["body"], re.S):
            o["body"] = want
    return bool(odd)


def judge(pairs):
    for o, e in pairs:
        what = f"record {e['body']!r}"
        eq((o["severity_number"], o["severity_text"]), SEV[e["l"]], f"{what}: severity")
        span = None if e["span"] is None else e["span"]
        mine = None if o.get("trace_id") is None and o.get("span_id") is None else \
            f"{o['trace_id'][:8]}-{o['trace_id'][8:12]}-{o['trace_id'][12:16]}-{o['trace_id'][16:20]}-{o['trace_id'][20:]}:{o['span_id']}"
        eq(mine, span, f"{what}: request it is attributed to")
        ts = datetime.datetime.fromisoformat(o["timestamp"])
        check(ts.tzinfo is not None and ts.utcoffset() == datetime.timedelta(0), f"{what}: timestamp {o['timestamp']} not UTC")
        check(e["t0"] - 2e-6 <= ts.timestamp() <= e["t1"] + 2e-6,
              lambda: f"{what}: timestamp {ts.timestamp()} not within the call {e['t0']}..{e['t1']}")
        at = o["attributes"]
        eq((at["application_name"], at["application_instance"], at["funcName"]), ("log_app", "x7", "emit"), f"{what}: attributes")


def run(case):
    d = h.fresh_dir()
    classes = set()
    env = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d}
    argv = ["logApp.py", "-i", "x7"] + {"file": ["-lfo"], "console": ["-lco"]}.get(case["to"], [])
    console = os.path.join(d, "console")
    if case["via"] == "env":
        env.update({"ECOENV_LOG_BUF_SIZE": str(case["buf"]), "ECOENV_LOG_MAX_SIZE": str(case["size"]),
                    "ECOENV_LOG_MAX_FILES": str(case["files"])})
        if case["level"]:
            env["ECOENV_LOG_LEVEL"] = case["level"]
    else:
        lg = {"file_logging": {"directory": d, "max_size_in_bytes": case["size"], "max_files": case["files"],
                               "buffer_size": case["buf"]}}
        if case["level"]:
            lg["level"] = case["level"]
        with open(os.path.join(d, "conf.json"), "w") as f:
            json.dump({"instances": {"x7": {"lock_directory": d, "buffer_directory": d, "logging": lg}}}, f)
        argv += ["-c", os.path.join(d, "conf.json")]
    try:
        def child():
            import sys
            sys.stderr = open(os.devnull, "w")
            if case["locale"]:                  # what a file is written in on this machine, unless the program says
                import io
                io.text_encoding = lambda encoding, stacklevel=2: case["locale"] if encoding is None else encoding
            if case["to"] == "gone":            # whoever read the console has left
                r, w = os.pipe()
                os.close(r)
                sys.stdout = open(w, "w", encoding="utf-8")
            else:
                sys.stdout = open(console, "w", encoding="utf-8")
            return program(case)
        journal = forked.run(child, argv, env, timeout=50)
        # what must be in the file
        levels, bufmax, want = [case["level"] or "info"], case["buf"], []
        for e in journal:
            if "setting" in e:
                levels.append(e["setting"])     # from here on, either level may be in force
            elif "set" in e:
                levels = [e["set"]]
                classes.add("level-change")
            elif "buf" in e:
                bufmax = max(bufmax, e["buf"])
                classes.add("buffer-change")
            elif NUM[e["l"]] >= min(NUM[x] for x in levels):
                want.append({**e, "maybe": NUM[e["l"]] < max(NUM[x] for x in levels)})
            else:
                classes.add("below-level")
        base = os.path.join(d, "log_app-x7.log")
        names = [f"{base}.{i}" for i in range(40, 0, -1)] + [base]
        present = [n for n in names if os.path.exists(n)]
        extra = [x for x in os.listdir(d) if ".log" in x and os.path.join(d, x) not in present]
        check(not extra, lambda: f"unexpected log files {extra}")
        check(len(present) <= case["files"] + 1, lambda: f"{len(present)} log files, configured to keep {case['files']} rotated ones")
        if case["to"] == "console":
            eq([x for x in os.listdir(d) if ".log" in x], [], "log files with logging to the console only")
        got, biggest = [], 0
        for n in present:
            with open(n, "rb") as f:
                raw = f.read()
            lines = raw.split(b"\n")
            eq(lines.pop(), b"", f"end of {os.path.basename(n)} (the last line is complete)")
            biggest = max([biggest] + [len(x) + 1 for x in lines])
            if n != base:
                classes.add("rotated")
                check(len(raw) <= case["size"] + biggest, lambda: f"{n} has {len(raw)} bytes, limit {case['size']}")
            elif len(lines) > 1 and case["files"]:
                check(len(raw) <= case["size"] + biggest, lambda: f"{n} has {len(raw)} bytes, limit {case['size']}")
            got += records(lines)
        if accept(got, journal):
            classes.add("surrogates")
        bodies = [o["body"] for o in got]
        maybe = want
        want = [e for e in want if not e["maybe"] or e["body"] in bodies]
        wb = [e["body"] for e in want]
        kept = len(present) < case["files"] + 1 or not case["files"]      # no rotated file can have been dropped
        if case["to"] == "console":
            pairs = []
        elif case["end"] == "kill":
            classes.add("kill")
            check(not kept or bodies == wb[:len(bodies)],
                  lambda: f"log after a kill: {bodies}, logged {wb}")
            if kept:
                lost = len(wb) - len(bodies)
                check(lost <= max(0, bufmax - 1), lambda: f"{lost} records lost by a kill, buffer size {bufmax}")
            idx = {b: i for i, b in enumerate(wb)}
            check(all(b in idx for b in bodies) and [idx[b] for b in bodies] == sorted({idx[b] for b in bodies}),
                  lambda: f"log after a kill: {bodies}, logged {wb}")
            pairs = [(o, want[idx[o["body"]]]) for o in got]
        else:
            if kept:
                eq(bodies, wb, "records in the log files")
            else:
                check(bodies == wb[len(wb) - len(bodies):], lambda: f"log files hold {bodies}, logged {wb}")
            pairs = list(zip(got, want[len(want) - len(got):]))
        judge(pairs)
        if case["to"] in ("both", "console"):
            classes.add("console")
            with open(console, "rb") as f:
                lines = f.read().split(b"\n")
            eq(lines.pop(), b"", "end of the console's output (the last line is complete)")
            shown = records(lines)
            accept(shown, journal)
            bodies = [o["body"] for o in shown]
            want = [e for e in maybe if not e["maybe"] or e["body"] in bodies]
            eq(bodies, [e["body"] for e in want], "records on the console")
            judge(zip(shown, want))
        elif case["to"] == "gone":
            classes.add("console-gone")
        else:
            eq(os.path.getsize(console), 0, "size of the console's output with logging to the file only")
        if case["locale"]:
            classes.add("locale-" + case["locale"])
        if case["buf"] > 1:
            classes.add("buffered")
        if len([s for s in case["steps"] if s[0] in ("req", "breq")]) >= 2:
            classes.add("several-requests")
        classes.add("end-" + case["end"])
    finally:
        h.rmdir(d)
    return bool(classes & {"buffered", "rotated", "level-change", "buffer-change"}) and "several-requests" in classes, sorted(classes)


def subs():
    return [Sub("log-programs", strategy, run, quick=100, thorough=1500, shards=7, setup=forked.preload)]
