"""C22 (CLI): a command line does exactly the one thing it says to the queue, log or statistics it names, and shows the answer."""
import io
import json
import os
import runpy
import socket
import sys
import threading

import harness as h
import forked
import eko
from harness import Sub, eq, check

RULE = ("generated command lines of the four tools (every action, short and long options, any order, missing or surplus options, malformed details and "
        "keys) against a scripted server over TCP, UDP and UDS that answers with generated results or failures; oracle = the exact list of requests "
        "the server must see, and the answer found in the output; non-trivial = a state-changing action, a refused command line or a failing server")
ASSUMPTIONS = ["host names contain no colon", "a command that ends in an error exits with a non-zero status or an exception"]

BEM = {None: "data", "pr|pause_receiving": "receiving.pause", "pp|pause_processing": "processing.pause", "ur|unpause_receiving": "receiving.unpause",
       "up|unpause_processing": "processing.unpause", "pa|pause_all": "all.pause", "ua|unpause_all": "all.unpause"}
BSM = {None: "data", "ps|pause_sending": "send_process.pause", "us|unpause_sending": "send_process.unpause"}
BOTH = {"e10|error_10": "errors.get_first_10", "rpa|reprocess_all": "errors.reprocess.all", "clr|clear": "errors.clear"}
ITEM = {"rp1|reprocess_one": "errors.reprocess.one", "ins|inspect_request": "errors.inspect_request", "pop|pop_request": "errors.pop_request"}
ROUTES = ["app.log_request", "dice_roller.roll_times", "a", "x.y.z", "\u00e9.q", "with space", "-dash", "a=b"]


def strategy():
    from hypothesis import strategies as st
    js = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.sampled_from(["", "text", "\u00e9\n\"", 0, 1.5])),
                      lambda k: st.one_of(st.lists(k, max_size=2), st.dictionaries(st.sampled_from(["a", "b", ""]), k, max_size=2)), max_leaves=4)
    tool = st.sampled_from(["bem", "bem", "bsm", "bsm", "log", "stat"])
    return st.fixed_dictionaries({
        "tool": tool, "act": st.one_of(st.integers(0, 30), st.sampled_from([-1, -2, -3])), "act2": st.one_of(st.none(), st.none(), st.none(), st.none(), st.integers(0, 30)), "long": st.booleans(), "eqform": st.booleans(), "order": st.integers(0, 1000),
        "route": st.sampled_from(ROUTES + [None, ""]), "key": st.one_of(st.integers(0, 20), st.integers(0, 20), st.sampled_from([None, "junk", "", "nocolon", "short", "upper", "tail", "head", "extra", "spaces"])),
        "kind": st.sampled_from(["tcp", "udp", "uds"]), "details": st.sampled_from(["ok"] * 9 + ["nohost", "noport", "badport", "nocolon"]),
        "level": st.sampled_from([None, "debug", "info", "warn", "error", "critical", "loud"]), "buf": st.sampled_from([None, 0, 1, 50, -5, "x"]),
        "type": st.sampled_from([None, "current", "gathered", "full", "none"]),
        "answer": st.sampled_from(["ok"] * 8 + ["fail", "fail", "garbage", "wrong-shape"]), "status": st.sampled_from([100, 200, 300, 310, 400, 500, 600, 999]),
        "info": st.sampled_from(["endpoint", "sender", "keys", "none"]), "nkeys": st.integers(0, 10), "sizes": st.tuples(st.integers(0, 9), st.integers(0, 9)),
        "paused": st.tuples(st.booleans(), st.booleans()), "request_data": js, "stats": st.one_of(js, st.just({"application": {"n": 1}})), "message": st.sampled_from(["done", "No queue for route key: [a]", "\u00e9", ""])})


def preload():
    forked.preload()


class Server:
    """Answers every request with the same scripted answer; records what it saw."""

    def __init__(self, kind, answer):
        self.kind, self.answer, self.seen, self.err = kind, answer, [], None
        if kind == "uds":
            self.dir = h.fresh_dir("cli")
            self.addr = os.path.join(self.dir, "s")
            self.s = socket.socket(socket.AF_UNIX)
            self.s.bind(self.addr)
        else:
            self.dir = None
            self.s = socket.socket(socket.AF_INET, socket.SOCK_STREAM if kind == "tcp" else socket.SOCK_DGRAM)
            self.s.bind((h.loop_ip(), 0))
            self.addr = "%s:%d" % self.s.getsockname()
        if kind != "udp":
            self.s.listen(5)
        self.s.settimeout(0.05)
        self.stop = False
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def reply(self, raw):
        self.seen.append(raw)
        try:
            req = json.loads(raw)
        except ValueError:
            return b"?\n"
        return self.answer(req)

    def loop(self):
        while not self.stop:
            try:
                if self.kind == "udp":
                    raw, peer = self.s.recvfrom(65536)
                    self.s.sendto(self.reply(raw), peer)
                else:
                    c, _ = self.s.accept()
                    with c:
                        c.settimeout(10)
                        f = c.makefile("rb")
                        raw = f.readline()
                        if raw:
                            c.sendall(self.reply(raw))
            except socket.timeout:
                continue
            except OSError:
                continue

    def close(self):
        self.stop = True
        self.t.join(5)
        self.s.close()
        if self.dir:
            h.rmdir(self.dir)


def child(module):
    def fn():
        out, err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = out, err
        code = 0
        try:
            runpy.run_module(module, run_name="__main__", alter_sys=True)
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e:
            code = "%s: %s" % (type(e).__name__, e)
        return {"code": code, "out": out.getvalue(), "err": err.getvalue()}
    return fn


def blobs(text):
    """Every JSON value that starts a line of the output."""
    dec, res, i = json.JSONDecoder(), [], 0
    while i < len(text):
        try:
            v, j = dec.raw_decode(text, i)
            if j == len(text) or text[j] == "\n":
                res.append(v)
                i = j
        except ValueError:
            pass
        n = text.find("\n", i)
        if n < 0:
            break
        i = n + 1
    return res


def run(case):
    tool = case["tool"]
    argv, requests, refused = [], [], False
    srv_err, argv_bad = case["answer"] != "ok", False

    def opt(short_long, value=None):
        s, l = short_long.split("|")
        name = "--" + l if case["long"] else "-" + s
        if value is None:
            return [name]
        if str(value).startswith("-") and not str(value).lstrip("-").isdigit():
            return ["--" + l + "=" + value]
        return ["--" + l + "=" + str(value)] if case["eqform"] else [name, str(value)]

    groups = []
    kind = case["kind"]
    info = {"endpoint": {"route_key": "q.r", "receiving_paused": case["paused"][0], "processing_paused": case["paused"][1],
                         "database_sizes": {"pending": case["sizes"][0], "error": case["sizes"][1]}},
            "sender": {"route_key": "q.s", "send_process_paused": case["paused"][0], "database_sizes": {"pending": case["sizes"][0], "error": case["sizes"][1]}},
            "keys": [eko.sk_str(i) for i in range(case["nkeys"])], "none": None}[case["info"]]
    shown = []
    if tool in ("bem", "bsm"):
        base = "eco.buffered_handler." if tool == "bem" else "eco.buffered_sender."
        acts = list((BEM if tool == "bem" else BSM).items()) + list(BOTH.items()) + list(ITEM.items())
        a = acts[case["act"] % len(acts)]
        if a[0]:
            groups.append(opt(a[0]))
        if case["act2"] is not None:
            b = acts[case["act2"] % len(acts)]
            if b[0]:
                groups.append(opt(b[0]))
                if a[0] and b[0] != a[0]:
                    refused = True          # one action at a time
                elif not a[0]:
                    a = b
        if case["route"] is None:
            refused = True
        else:
            groups.append(opt("rk|route_key", case["route"]))
            refused |= not case["route"]
        key = case["key"]
        text = {"junk": "junk", "": "", "nocolon": eko.sk_str(3).replace(":", ""), "short": eko.sk_str(3)[:-1],
                "tail": eko.sk_str(3) + ":", "head": ":" + eko.sk_str(3), "extra": eko.sk_str(3) + ":" + eko.sk_str(3).split(":")[1], "spaces": eko.sk_str(3) + " x"}.get(key)
        if key == "upper":
            text = eko.sk_str(3).upper()
        elif isinstance(key, int):
            text = eko.sk_str(key)
        if text is not None:
            groups.append(opt("sk|span_key", text))
        data = {"queue_route_key": case["route"]}
        if a[0] in ITEM:
            if isinstance(key, int) or key == "upper":
                data["span_key"] = eko.sk_dict(3 if key == "upper" else key)
            else:
                refused = True
        requests.append((base + a[1], data))
        result = {"queue_data": info, "request_data": case["request_data"], "message": case["message"]}
        shown = [x for x in (info, case["request_data"]) if x is not None]
        texts = [case["message"]]
    elif tool == "log":
        if case["level"] is not None:
            groups.append(opt("l|level", case["level"]))
            requests.append(("eco.log.level", {"level": case["level"]}))
            refused |= case["level"] == "loud"
        if case["buf"] is not None:
            groups.append(opt("b|buff_size", case["buf"]))
            requests.append(("eco.log.buffer", {"size": case["buf"]}))
            refused |= case["buf"] == "x"
        result, texts = None, []
        if case["level"]:
            shown.append(case["level"])
        if case["buf"] is not None:
            shown.append(case["buf"])
    else:
        if case["type"] is not None:
            groups.append(opt("type|type", case["type"]))
        refused |= case["type"] == "none"
        requests.append(("eco.statistics.get", {"type": case["type"] or "current"}))
        stats = case["stats"] if isinstance(case["stats"], dict) else {"v": case["stats"]}
        if case["type"] in ("gathered", "full"):
            stats = [[], [stats], {}, [stats, stats]][case["act"] % 4]
        elif case["act"] % 4 == 0:
            stats = {}
        result, texts, shown = {"statistics": stats}, [case["type"] or "current"], [stats]

    def answer(req):
        st, data = 0, result
        if case["answer"] == "garbage":
            return b"{not json\n"
        if case["answer"] == "fail":
            st, data = case["status"], "refused"
        elif case["answer"] == "wrong-shape":
            data = {"unexpected": 1}
        elif tool == "log":
            data = dict(req["data"])
        return (json.dumps({"span_key": req["span_key"], "status": st, "data": data}) + "\n").encode()

    srv = Server(kind, answer)
    try:
        det = srv.addr
        if kind != "uds" and case["details"] != "ok":
            hst, prt = srv.addr.split(":")
            det = {"nohost": ":" + prt, "noport": hst + ":", "badport": hst + ":port", "nocolon": hst}[case["details"]]
            argv_bad, refused = refused, True
        groups.append(opt("st|server_type", kind))
        groups.append(opt("sd|server_details", det))
        import random
        random.Random(case["order"]).shuffle(groups)
        argv = [x for g in groups for x in g]
        d = h.fresh_dir("clicwd")
        env = {"ECOENV_LOG_DIR": d, "ECOENV_BUFFER_DIR": d, "ECOENV_LOCK_DIR": d}
        try:
            r = forked.run(child(f"ekosis.cli.{tool}"), [f"ekosis.cli.{tool}"] + argv, env)
        finally:
            h.rmdir(d)
    finally:
        srv.close()
    what = f"{tool} {argv}"
    seen = []
    for raw in srv.seen:
        q = json.loads(raw)
        seen.append((q["route_key"], q["data"]))
    detail = f"exit {r['code']}, output {r['out'][-600:]!r}, errors {r['err'][-600:]!r}"
    classes = [tool, kind]
    if refused:
        eq(seen, [], f"{what} must be refused without any request ({detail})")
        check(r["code"] != 0, lambda: f"{what} must be refused: {detail}")
        msg = r["out"] + r["err"] + (str(r["code"]) if isinstance(r["code"], str) else "")
        if kind != "uds" and case["details"] in ("nohost", "noport") and not argv_bad:
            check(det in r["out"] + r["err"], lambda: f"{what}: nothing says that the server details are at fault: {detail}")
        check(msg.strip(), lambda: f"{what} is refused without a message: {detail}")
        return True, classes + ["refused"]
    if not requests:
        eq(seen, [], f"{what}: nothing to do")
        return False, classes + ["nothing"]
    norm = [(a, b) for a, b in seen]
    if srv_err:
        # an answer that can not be understood may be asked for again; what is asked for is still only that
        check(r["code"] != 0, lambda: f"{what}: the server answered {case['answer']} {case['status']} but the tool ended normally: {detail}")
        check(norm and norm[0] == requests[0] and all(x in requests[:1] for x in norm), lambda: f"{what}: expected {requests[:1]}, the server saw {norm}")
        if case["answer"] == "fail" and case["status"] != 500:
            eq(norm, requests[:1], f"{what}: an answered request is not repeated")
        return True, classes + [case["answer"]]
    eq(norm, requests, f"{what}: requests seen by the server ({detail})")
    eq(r["code"], 0, f"{what}: exit status ({detail})")
    for t in texts:
        check(t in r["out"], lambda: f"{what}: {t!r} is missing from the output: {detail}")
    bl = blobs(r["out"])
    for s in shown:
        check(any(type(b) is type(s) and b == s for b in bl), lambda: f"{what}: {json.dumps(s)} is missing from the output: {detail}")
    return requests[0][0] not in ("eco.statistics.get",) and not requests[0][0].endswith(".data"), classes + [requests[0][0]]


def strategy_each():
    """One good command line for each action of a tool."""
    from hypothesis import strategies as st
    return strategy().map(lambda c: {**c, "tool": "bem" if c["tool"] in ("log", "bem") else "bsm", "act2": None, "route": c["route"] or "a.b", "key": c["key"] if isinstance(c["key"], int) else 4,
                                     "details": "ok", "answer": "ok"})


def run_each(case):
    acts = list((BEM if case["tool"] == "bem" else BSM).items()) + list(BOTH.items()) + list(ITEM.items())
    classes = set()
    for k in range(len(acts)):
        _, c = run({**case, "act": k})
        classes |= set(c)
    return True, sorted(classes)


OPTIONS = {"bem": [x for d in (BEM, BOTH, ITEM) for x in d if x] + ["rk|route_key", "sk|span_key"], "bsm": [x for d in (BSM, BOTH, ITEM) for x in d if x] + ["rk|route_key", "sk|span_key"],
           "log": ["l|level", "b|buff_size"], "stat": ["type|type"]}
TELLS = {"bem": ["Clear the error database of a queue completely. - WARNING: All requests in the error queue are deleted!", "Reprocess all entries in an error queue."],
         "bsm": ["Clear the error database of a queue completely. - WARNING: All requests in the error queue are deleted!", "Reprocess all entries in an error queue."],
         "log": ["Set the current log level.", "Set the current file log buffer size."], "stat": []}


def strategy_help():
    from hypothesis import strategies as st
    word = st.sampled_from(["a", "of", "queue", "[HOST:PORT].", "-", ":", "\u00e9t\u00e9", "x" * 30, "deleted!", "0"])
    line = st.lists(word, max_size=14).map(" ".join)
    text = st.lists(line, min_size=1, max_size=4).map("\n".join)
    return st.fixed_dictionaries({"tool": st.sampled_from(sorted(OPTIONS)), "form": st.sampled_from(["-h", "--help"]), "surplus": st.sampled_from([[], ["-st", "tcp"], ["-st", "udp", "-sd", "127.0.0.1:1"]]),
                                  "first": st.booleans(), "cols": st.sampled_from([40, 60, 80, 81, 100, 132, 200, 1000]), "description": text, "helps": st.lists(text, min_size=1, max_size=3)})


def run_help(case):
    import argparse
    tool = case["tool"]
    argv = [case["form"]] + case["surplus"] if case["first"] else case["surplus"] + [case["form"]]
    d = h.fresh_dir("clicwd")
    try:
        r = forked.run(child(f"ekosis.cli.{tool}"), [f"ekosis.cli.{tool}"] + argv, {"ECOENV_LOG_DIR": d, "ECOENV_BUFFER_DIR": d, "ECOENV_LOCK_DIR": d, "COLUMNS": str(case["cols"])})
    finally:
        h.rmdir(d)
    what = f"{tool} {argv} on {case['cols']} columns"
    eq(r["code"], 0, f"{what}: exit status; errors {r['err'][-400:]!r}")
    flat = " ".join(r["out"].split())
    for o in OPTIONS[tool] + ["st|server_type", "sd|server_details"]:
        check("--" + o.split("|")[1] in flat, lambda: f"{what}: --{o.split('|')[1]} is not described: {r['out']!r}")
    for t in TELLS[tool] + ["The type of server you want to interact with.",
                            "Connection details for the server. - For TCP or UDP: - : This should be a string in the format [HOST:PORT]. - For UDS: - : This should be a path to the socket file."]:
        check(t in flat, lambda: f"{what}: {t!r} is missing from the help: {r['out']!r}")
    # the same formatter on other texts: no word is lost, lines stay apart and fit
    from ekosis.cli.argparse_formatter import EcosystemArgparseFormatter as F
    def fmt():
        p = argparse.ArgumentParser(prog="p", add_help=False, description=case["description"], formatter_class=lambda prog: F(prog, width=case["cols"]))
        for n, t in enumerate(case["helps"]):
            p.add_argument(f"--opt{n}", metavar="V", help=t)
        return p.format_help()
    text = fmt()
    want = ["usage:", "p"] + [f"[--opt{n} V]" for n in range(len(case["helps"]))] + [case["description"]] + ["options:"]
    for n, t in enumerate(case["helps"]):
        want += [f"--opt{n} V", t]
    got = text.split()
    eq(got, " ".join(want).split(), f"words of the help on {case['cols']} columns")
    for l in text.split("\n")[2:]:
        check(len(l) <= case["cols"] or len(l.split()) == 1 or l.startswith("  --opt"), lambda: f"a line of help is {len(l)} wide on {case['cols']} columns: {l!r}")
    for t in case["helps"] + [case["description"]]:
        starts = [l.split()[0] for l in t.split("\n") if l.split()]
        firsts = [l.split() for l in text.split("\n")]
        for s in starts:
            check(any(s == f[0] or (f[0].startswith("--opt") and s in f[2:3]) for f in firsts if f), lambda: f"the lines of a help text were joined: {t!r} became {text!r}")
    return any("\n" in t for t in case["helps"]) or case["surplus"] != [], [tool, "help"]


def subs():
    return [Sub("help", strategy_help, run_help, quick=60, thorough=1500, shards=1, setup=preload),
            Sub("each-action", strategy_each, run_each, quick=4, thorough=60, shards=7, setup=preload),
            Sub("command-line", strategy, run, quick=90, thorough=2500, shards=7, setup=preload)]
