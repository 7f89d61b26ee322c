"""C19: the Prometheus exporter publishes exactly what every local service reports, and the health of every one of them."""
import asyncio
import http.server
import json
import os
import socket
import threading

import harness as h
import forked
from harness import Sub, eq, check

RULE = ("the exporter application on virtual time in a forked process, discovering generated services (TCP, UDP, UDS, default socket names, "
        "remote decoys) that answer each poll with generated statistics (routes of any depth, queues, custom values) or fail in generated ways, "
        "pushing to a gateway that sometimes fails; oracle = every push holds exactly the metrics the answers imply; non-trivial = two or "
        "more services or a failing poll or a route that does not have exactly two parts")
ASSUMPTIONS = ["service identities are distinct, one address each", "custom keys do not collide once dots and dashes become underscores",
               "p95/p99 of endpoints without calls are reported as -1 and not published", "eco endpoints are not published"]
ROUTES = ["tracker.log_request", "a.b", "a.c", "plain", "x.y.z", "x.y", "deep.er.still.more", "eco.statistics.get", "eco.buffered_handler.errors.reprocess.all", "\u00e9.\u00fc",
          "ecology.size", "a.with space", "_.b"]
CUSTOM = ["solo", "custom.a", "custom.b.c", "dashed-key.x", "deep.er.still.more", "n1.n2"]


def strategy_stats():
    from hypothesis import strategies as st
    num = st.one_of(st.integers(0, 1), st.integers(0, 1000), st.just(2 ** 31 + 1), st.integers(0, 100).map(lambda k: k / 8))
    dur = st.one_of(st.just(-1.0), num, st.sampled_from([0, 0.0, 1e-7, 3600.25]))
    size = st.one_of(st.integers(0, 1), st.integers(0, 99), st.just(10 ** 7))
    ep = st.tuples(st.sampled_from(ROUTES), num, dur, dur)
    q = st.tuples(st.sampled_from([r for r in ROUTES if not r.startswith("eco.")]), size, size)
    uniq = lambda s, n: st.lists(s, max_size=n, unique_by=lambda t: t[0])
    return st.fixed_dictionaries({"eps": uniq(ep, 5), "queues": uniq(q, 2), "senders": uniq(q, 2),
                                   "custom": uniq(st.tuples(st.sampled_from(CUSTOM), st.one_of(num, st.integers(-50, -1))), 3), "uptime": num, "gp": st.integers(1, 300),
                                   "app": st.sampled_from([True, True, True, False])})


def strategy():
    from hypothesis import strategies as st
    stats = strategy_stats()
    poll = st.one_of(stats, stats, stats, st.just("empty"), st.sampled_from(["status", "garbage", "close", "never", "busy"]))
    svc = st.fixed_dictionaries({"proto": st.sampled_from(["tcp", "udp", "uds", "uds-default"]), "host": st.sampled_from(["127.0.0.1", "127.0.0.1", "localhost", "0.0.0.0", "remote"]),
                                 "name": st.sampled_from(["ROUTER", "MAGIC_EIGHT_BALL", "APP2"]), "inst": st.sampled_from(["0", "1", "17", "A", "X7"]), "polls": st.lists(poll, min_size=3, max_size=3)})
    return st.fixed_dictionaries({"svcs": st.lists(svc, min_size=1, max_size=4, unique_by=lambda s: (s["name"], s["inst"])), "gp": st.sampled_from([1, 5, 30]),
                                  "gate": st.lists(st.sampled_from([200, 200, 202, 500, "close"]), min_size=3, max_size=3), "polls": st.integers(1, 3),
                                  "job": st.sampled_from([None, None, "my_job"])})


def preload():
    forked.preload()
    import sys
    p = os.path.join(h.REPO, "ekosis_prometheus")
    if p not in sys.path:
        sys.path.insert(0, p)
    import prometheus_client.parser  # noqa


def deep(d, key, val):
    ks = key.split(".")
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = val


def build(poll, svc):
    if poll == "empty":
        return {}
    s = {"timestamp": 1700000000.5, "uptime": poll["uptime"], "gather_period": poll["gp"], "endpoint_data": {}}
    if poll["app"]:
        s["application"] = {"name": "real_" + svc["name"].lower(), "instance": "i" + svc["inst"]}
    for r, n, p95, p99 in poll["eps"]:
        for k, v in (("call_count", n), ("p95", p95), ("p99", p99)):
            deep(s, f"endpoint_data.{r}.{k}", v)
    for top, qs in (("buffered_endpoint_sizes", poll["queues"]), ("buffered_sender_sizes", poll["senders"])):
        for r, a, b in qs:
            deep(s, f"{top}.{r}.pending", a)
            deep(s, f"{top}.{r}.error", b)
    for k, v in poll["custom"]:
        deep(s, k, v)
    return s


def expect(poll, svc, excluded=("eco",)):
    """{(metric, service, instance, group, endpoint): value} of one service for one poll."""
    name, inst = svc["name"].lower(), svc["inst"]
    out = {}
    if isinstance(poll, str) and poll != "empty":
        return {("ekosis_service_health", name, inst, None, None): 0.0}
    if poll != "empty" and poll["app"]:
        name, inst = "real_" + name, "i" + inst
    out[("ekosis_service_health", name, inst, None, None)] = 1.0
    if poll == "empty":
        return out
    out[("ekosis_uptime_seconds", name, inst, None, None)] = float(poll["uptime"])
    out[("ekosis_gather_period_seconds", name, inst, None, None)] = float(poll["gp"])

    def split(r):
        g, _, e = r.partition(".")
        return (g, e) if e else ("*", g)
    for r, n, p95, p99 in poll["eps"]:
        if r.split(".")[0] in excluded:
            continue
        g, e = split(r)
        out[("ekosis_endpoint_call_count", name, inst, g, e)] = float(n)
        if p95 >= 0:
            out[("ekosis_endpoint_p95_seconds", name, inst, g, e)] = float(p95)
        if p99 >= 0:
            out[("ekosis_endpoint_p99_seconds", name, inst, g, e)] = float(p99)
    for kind, qs in (("endpoint", poll["queues"]), ("sender", poll["senders"])):
        for r, a, b in qs:
            if r.split(".")[0] in excluded:
                continue
            g, e = split(r)
            out[(f"ekosis_buffered_{kind}_queue_pending", name, inst, g, e)] = float(a)
            out[(f"ekosis_buffered_{kind}_queue_error", name, inst, g, e)] = float(b)
    for k, v in poll["custom"]:
        out[("ekosis_custom_" + k.replace(".", "_").replace("-", "_"), name, inst, None, None)] = float(v)
    return out


class Gateway:
    def __init__(self, script):
        self.pushes = []
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_PUT(self):
                body = self.rfile.read(int(self.headers["Content-Length"]))
                how = script[len(outer.pushes)] if len(outer.pushes) < len(script) else 200
                outer.pushes.append([self.command, self.path, body.decode()])
                if how == "close":
                    self.close_connection = True
                    self.connection.close()
                    return
                self.send_response(how)
                self.send_header("Content-Length", "0")
                self.end_headers()
            do_POST = do_PUT
        self.srv = http.server.ThreadingHTTPServer((h.loop_ip(), 0), H)
        self.srv.daemon_threads = True
        threading.Thread(target=self.srv.serve_forever, kwargs={"poll_interval": 0.01}, daemon=True).start()
        self.url = f"http://{h.loop_ip()}:{self.srv.server_address[1]}"


def program(case, d):
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    gate = Gateway(case["gate"])
    os.environ["ECOENV_EXTRA_PUSHGATEWAY"] = gate.url
    if case["job"]:
        os.environ["ECOENV_EXTRA_JOB_NAME"] = case["job"]
    os.environ["ECOENV_STAT_GP"] = str(case["gp"])
    socks, seen = [], []
    for i, s in enumerate(case["svcs"]):
        var = f"{s['name']}_{s['inst']}"
        if s["proto"] in ("tcp", "udp"):
            so = socket.socket(socket.AF_INET, socket.SOCK_STREAM if s["proto"] == "tcp" else socket.SOCK_DGRAM)
            so.bind((h.loop_ip() if s["host"] == "remote" else "127.0.0.1", 0))
            host = h.loop_ip() if s["host"] == "remote" else "127.0.0.1" if s["proto"] == "udp" and s["host"] == "localhost" else s["host"]
            os.environ[f"ECOENV_{s['proto'].upper()}_{var}"] = f"{host}:{so.getsockname()[1]}"
            socks.append(so)
        elif s["proto"] == "uds":
            os.environ[f"ECOENV_UDS_{var}"] = f"{d}/sock{i}"
            socks.append(f"{d}/sock{i}")
        else:
            os.environ[f"ECOENV_UDS_{var}"] = f"{d}/DEFAULT"
            socks.append(f"{d}/{s['name'].lower()}_{s['inst']}.uds.sock")
    import vapp
    vapp.install()
    from ekosis_prometheus.application import EkosisPrometheusApp

    def answer(i, line):
        s = case["svcs"][i]
        req = json.loads(line)
        seen.append([i, req.get("route_key"), req.get("data")])
        n = len(gate.pushes)
        poll = s["polls"][n] if n < len(s["polls"]) else "empty"
        if poll in ("close", "never"):
            return poll, None
        if poll == "garbage":
            return "reply", b"{nope\n"
        if poll in ("status", "busy"):
            rep = {"span_key": req["span_key"], "status": 600 if poll == "status" else 500, "data": "problem"}
        else:
            rep = {"span_key": req["span_key"], "status": 0, "data": {"statistics": build(poll, s)}}
        return "reply", (json.dumps(rep) + "\n").encode()

    async def driver(app):
        servers = []
        for i, (s, so) in enumerate(zip(case["svcs"], socks)):
            async def cb(r, w, i=i):
                try:
                    line = await r.readline()
                    if line.endswith(b"\n"):
                        act, rep = answer(i, line)
                        if act == "never":
                            await asyncio.sleep(10000)
                        elif act == "reply":
                            w.write(rep)
                            await w.drain()
                            await r.read(1)
                except ConnectionError:
                    pass
                finally:
                    w.close()
            if s["proto"] == "tcp":
                servers.append(await asyncio.start_server(cb, sock=so, limit=2**22))
            elif s["proto"] == "udp":
                class D(asyncio.DatagramProtocol):
                    def __init__(self, i):
                        self.i = i

                    def connection_made(self, tr):
                        self.tr = tr

                    def datagram_received(self, data, addr):
                        act, rep = answer(self.i, data)
                        if act == "reply":
                            self.tr.sendto(rep, addr)
                tr, _ = await asyncio.get_running_loop().create_datagram_endpoint(lambda i=i: D(i), sock=so)
                servers.append(tr)
            else:
                servers.append(await asyncio.start_unix_server(cb, so, limit=2**22))
        start = vapp.now()
        while len(gate.pushes) < case["polls"] and vapp.now() - start < 1000 * case["polls"]:
            await asyncio.sleep(0.5)
        out = {"pushes": gate.pushes[:case["polls"]], "seen": seen, "took": vapp.now() - start}
        for s in servers:
            s.close()
        return out

    return vapp.run(driver, app_class=EkosisPrometheusApp)


def run(case):
    d = h.fresh_dir()
    env = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d}
    try:
        def child():
            import logging
            logging.disable(logging.CRITICAL)
            return program(case, d)
        res = forked.run(child, ["ekosisPrometheus.py", "-i", "0", "-lfo"], env, timeout=50)
        from prometheus_client.parser import text_string_to_metric_families
        classes = set()
        remote = {i for i, s in enumerate(case["svcs"]) if s["host"] == "remote" and s["proto"] in ("tcp", "udp")}
        eq(len(res["pushes"]), case["polls"], "number of pushes")
        for i, route, data in res["seen"]:
            check(i not in remote, "a remote service was contacted")
            eq((route, data), ("eco.statistics.get", {"type": "gathered"}), "request to a service")
        job = case["job"] or "ekosis_prometheus-0"
        for n, (method, path, body) in enumerate(res["pushes"]):
            eq((method, path), ("PUT", f"/metrics/job/{job}"), "push target")
            got = {}
            for fam in text_string_to_metric_families(body):
                for s in fam.samples:
                    L = dict(s.labels)
                    k = (s.name, L.pop("service", None), L.pop("instance", None), L.pop("group", None), L.pop("endpoint", None))
                    check(not L, f"unexpected labels {L} on {s.name}")
                    check(k not in got, f"metric twice: {k}")
                    got[k] = s.value
            want = {}
            for i, s in enumerate(case["svcs"]):
                if i not in remote:
                    want.update(expect(s["polls"][n], s))
                    if isinstance(s["polls"][n], str):
                        classes.add("poll-" + s["polls"][n])
                    elif any(len(e[0].split(".")) != 2 for e in s["polls"][n]["eps"] if not e[0].startswith("eco.")):
                        classes.add("odd-depth")
                    classes.add(s["proto"])
            # a route of a single part has no group: which label value stands for that is not specified
            single = {k for k in want if k[3] == "*"}
            for k in single:
                m = [g for g in got if (g[0], g[1], g[2], g[4]) == (k[0], k[1], k[2], k[4]) and g not in want]
                check(len(m) == 1, lambda: f"push {n}: route {k[4]} of {k[1]}-{k[2]}: metric {k[0]} is missing; pushed {sorted(map(str, got))}")
                got[k] = got.pop(m[0])
            missing = {k: v for k, v in want.items() if got.get(k) != v}
            extra = {k: v for k, v in got.items() if want.get(k) != v}
            check(not missing and not extra, lambda: f"push {n}: expected {missing}, instead {extra}")
            if case["gate"][n] in (500, "close") and n + 1 < case["polls"]:
                classes.add("after-failed-push")
        if remote:
            classes.add("remote")
        return len(case["svcs"]) > 1 or any(c.startswith("poll-") for c in classes) or "odd-depth" in classes, sorted(classes)
    finally:
        h.rmdir(d)


# ---------------------------------------------------------------- the translation on its own
def strategy_tr():
    from hypothesis import strategies as st
    poll = strategy_stats()
    return st.fixed_dictionaries({"poll": poll, "excl": st.one_of(st.none(), st.none(), st.sets(st.sampled_from(sorted({r.split(".")[0] for r in ROUTES} | {"no-such"})), max_size=3).map(sorted)),
                                  "drop": st.lists(st.sampled_from(["p95", "p99", "uptime", "gather_period", "pending", "error"]), max_size=3, unique=True)})


def without(d, names):
    return {k: without(v, names) for k, v in d.items() if k not in names} if isinstance(d, dict) else d


def run_tr(case):
    from ekosis_prometheus.stats_translator import translate_gathered_stats
    svc = {"name": "ROUTER", "inst": "1"}
    stats = without(build(case["poll"], svc), case["drop"])         # a service of another version may not tell everything
    before = json.dumps(stats)
    args = [] if case["excl"] is None else [set(case["excl"])]
    got = {}
    for name, value, labels in translate_gathered_stats(stats, "router", "1", *args):
        L = dict(labels)
        k = (name.replace("-", "_"), L.pop("service", None), L.pop("instance", None), L.pop("group", None), L.pop("endpoint", None))
        check(not L, f"unexpected labels {L} on {name}")
        check(k not in got, f"metric twice: {k}")
        got[k] = value
    eq(json.dumps(stats), before, "the statistics after they were translated")
    want = expect(case["poll"], svc, case["excl"] if case["excl"] is not None else ["eco"])
    gone = tuple({"p95": "_p95_seconds", "p99": "_p99_seconds", "uptime": "ekosis_uptime_seconds", "gather_period": "ekosis_gather_period_seconds", "pending": "_queue_pending", "error": "_queue_error"}[x] for x in case["drop"])
    want = {k: v for k, v in want.items() if k[0] != "ekosis_service_health" and not (gone and k[0].endswith(gone))}
    for k in [k for k in want if k[3] == "*"]:
        m = [g for g in got if (g[0], g[1], g[2], g[4]) == (k[0], k[1], k[2], k[4]) and g not in want]
        check(len(m) == 1, lambda: f"route {k[4]}: metric {k[0]} is missing; got {sorted(map(str, got))}")
        got[k] = got.pop(m[0])
    missing = {k: v for k, v in want.items() if got.get(k) != v}
    extra = {k: v for k, v in got.items() if want.get(k) != v}
    check(not missing and not extra, lambda: f"leaving out {case['excl']}: expected {missing}, instead {extra}")
    return bool(case["poll"]["eps"]) and (case["excl"] is not None or bool(case["drop"])), ["excl-" + ("default" if case["excl"] is None else "none" if not case["excl"] else "some")]


def subs():
    return [Sub("translate", strategy_tr, run_tr, quick=400, thorough=8000, shards=1, setup=preload),
            Sub("scrape", strategy, run, quick=110, thorough=1200, shards=7, setup=preload)]
