"""C20: every request of a traced application appears in the traces exactly once, in its own trace, with all processing attempts."""
import asyncio
import collections
import http.server
import json
import os
import threading

import harness as h
import forked
from harness import Sub, eq, check

RULE = ("a traced application on virtual time in a forked process: overlapping calls with scripted durations and outcomes (success, "
        "application error, exception, invalid data, unknown route), same span key used for several routes at once, buffered requests with "
        "scripted attempts, reprocessing, a second run on the same queues; oracle = the journal of requests and attempts against the spans "
        "the collector received; non-trivial = overlapping requests or a failed request or more than one attempt")
ASSUMPTIONS = ["an attempt cut off by termination need not have a span", "unknown routes are not traced",
               "a process span of a request received by an earlier run may hang under the receive span or under the request's own span"]
ROUTES = ["plain.one", "plain.two"]
BUF = ["buf.one", "buf.two"]


def strategy():
    from hypothesis import strategies as st
    tenth = st.integers(0, 20).map(lambda k: k / 10)
    call = st.tuples(st.just("call"), st.integers(0, 1), st.integers(0, 3), tenth, st.sampled_from(["ok", "ok", "app", "raise", "bad", "unknown", "blank"]))
    att = st.lists(st.tuples(tenth, st.sampled_from(["ok", "fail", "fail", "raise", "blank"])), min_size=1, max_size=4)
    push = st.tuples(st.just("push"), st.integers(0, 1), st.integers(0, 3), att)
    both = st.tuples(st.just("both"), st.integers(0, 3), att, att)
    step = st.one_of(call, call, push, both, st.tuples(st.just("wait"), tenth), st.tuples(st.just("wait"), st.just(9.0)), st.tuples(st.just("reprocess"), st.integers(0, 1)))
    return st.fixed_dictionaries({"wire": st.sampled_from(["setup", "manual"]), "late": st.sampled_from([False, False, True]), "transport": st.just("uds"),
                                  "runs": st.lists(st.lists(step, min_size=2, max_size=9), min_size=1, max_size=2)})


def preload():
    forked.preload()
    p = os.path.join(h.REPO, "ekosis_otlp_traces")
    import sys
    if p not in sys.path:
        sys.path.insert(0, p)
    import opentelemetry.sdk.trace.export, opentelemetry.exporter.otlp.proto.http.trace_exporter  # noqa
    import opentelemetry.proto.collector.trace.v1.trace_service_pb2, requests  # noqa
    import opentelemetry.semconv.attributes.service_attributes  # noqa
    assert "ekosis" not in sys.modules


class Collector:
    def __init__(self):
        from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest
        self.spans = []
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_POST(self):
                raw = self.rfile.read(int(self.headers["Content-Length"]))
                if self.headers.get("Content-Encoding") == "gzip":
                    import gzip
                    raw = gzip.decompress(raw)
                m = ExportTraceServiceRequest()
                m.ParseFromString(raw)
                for rs in m.resource_spans:
                    service = {a.key: a.value.string_value for a in rs.resource.attributes}.get("service.name")
                    for ss in rs.scope_spans:
                        for s in ss.spans:
                            attrs = {}
                            for a in s.attributes:
                                attrs[a.key] = getattr(a.value, a.value.WhichOneof("value"))
                            outer.spans.append({"service": service, "name": s.name, "trace": s.trace_id.hex(), "id": s.span_id.hex(), "parent": s.parent_span_id.hex(),
                                                "attrs": attrs, "status": s.status.code, "took": s.end_time_unix_nano - s.start_time_unix_nano})
                self.send_response(200)
                self.send_header("Content-Length", "0")
                self.end_headers()
        self.srv = http.server.ThreadingHTTPServer((h.loop_ip(), 0), H)
        self.srv.daemon_threads = True
        threading.Thread(target=self.srv.serve_forever, kwargs={"poll_interval": 0.01}, daemon=True).start()
        self.url = f"http://{h.loop_ip()}:{self.srv.server_address[1]}/v1/traces"


def program(case, steps, attempts_before, serial0, untraced, last):
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    col = Collector()
    os.environ["ECOENV_EXTRA_OTLP_TRACES_ENDPOINT"] = col.url
    import vapp
    vapp.install()
    import eko
    from pydantic import BaseModel
    from ekosis.requests.endpoint import endpoint
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.exceptions.application_level import ApplicationProcessingException
    if untraced:
        pass
    elif case["wire"] == "setup":
        from ekosis_otlp_traces.setup import initiate_otlp_tracing
        initiate_otlp_tracing()
    else:
        from ekosis.middleware.manager import MiddlewareManager
        from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
        from ekosis_otlp_traces import OtlpTracingMiddleware, OtlpBufferedTracingMiddleware
        tracer = OtlpTracingMiddleware(endpoint=col.url)
        MiddlewareManager().add(tracer)
        BufferedMiddlewareManager().add(OtlpBufferedTracingMiddleware(tracer))
    journal, attempts = [], dict(attempts_before)

    class Q(BaseModel):
        d: float
        o: str

    class AlphaDTO(BaseModel):
        uid: str
        plan: list

    class BetaDTO(BaseModel):
        uid: str
        plan: list

    def make(route):
        @endpoint(route, Q)
        async def work(dto, span_key):
            await asyncio.sleep(dto.d)
            if dto.o == "app":
                raise ApplicationProcessingException("no")
            if dto.o == "raise":
                raise KeyError("oops")
            if dto.o == "blank":
                raise RuntimeError()
            return Q(d=dto.d, o="done")
    for r in ROUTES:
        make(r)

    def make_buf(route, model):
        @buffered_endpoint(route, model, page_size=3, max_retries=3)
        async def work(dto, span_key):
            n = attempts.get(dto.uid, 0)
            d, o = dto.plan[n] if n < len(dto.plan) else (0, "ok")
            await asyncio.sleep(d)
            attempts[dto.uid] = n + 1
            journal.append(["attempt", dto.uid, o == "ok"])
            if o == "raise":
                raise KeyError("oops")
            if o == "blank":
                raise ApplicationProcessingException("")
            return o == "ok"
    make_buf(BUF[0], AlphaDTO)
    make_buf(BUF[1], BetaDTO)

    async def driver(app):
        await asyncio.sleep(0.05)
        path = os.path.join(os.environ["C20_DIR"], "s")
        tasks = []
        serial = [serial0]

        async def one(route, data, key, entry):
            c = await eko.Conn(path).open()
            r = await c.rpc(route, data, key)
            c.close()
            journal.append([*entry, r["status"]])

        def push(b, k, plan):
            serial[0] += 1
            key = eko.sk_dict(100 + k, 1000 + serial[0])
            return b, f"u{b}-{serial[0]}", key, plan

        def go(b, uid, key, plan):
            tasks.append(asyncio.create_task(one(BUF[b], {"uid": uid, "plan": plan}, key, ["push", BUF[b], key, uid])))
        for s in steps:
            if s[0] == "call":
                route = ROUTES[s[1]] if s[4] != "unknown" else "no.such.route"
                key = eko.sk_dict(100 + s[2], 500 + s[2])
                tasks.append(asyncio.create_task(one(route, {"d": s[3], "o": s[4]} if s[4] != "bad" else {"zz": 1}, key, ["call", route, key, None])))
            elif s[0] == "push":
                go(*push(s[1], s[2], s[3]))
            elif s[0] == "both":
                b, uid, key, plan = push(0, s[1], s[2])
                go(0, uid, key, plan)
                go(1, uid.replace("u0", "u1"), key, s[3])
            elif s[0] == "wait":
                await asyncio.sleep(s[1])
            elif s[0] == "reprocess":
                c = await eko.Conn(path).open()
                k = eko.sk_dict(9, 7000 + len(journal))
                r = await c.rpc("eco.buffered_handler.errors.reprocess.all", {"queue_route_key": BUF[s[1]]}, k)
                c.close()
                journal.append(["call", "eco.buffered_handler.errors.reprocess.all", k, None, r["status"]])
        for t in tasks:
            await t
        await asyncio.sleep(600 if last else 0.45)       # in the last run everything is processed
        return serial[0]

    serial = vapp.run(driver)
    from opentelemetry import trace
    check(untraced or trace.get_tracer_provider().force_flush(20000), "span flush")
    return {"journal": journal, "spans": col.spans, "attempts": attempts, "serial": serial}


def run(case):
    d = h.fresh_dir()
    env = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d, "C20_DIR": d, "ECOENV_UDS_TRACED_APP_2": f"{d}/s"}
    classes = set()
    pushes = {}           # uid -> (route, key, status, run, receive span id)
    try:
        attempts, serial = {}, 0
        for n, steps in enumerate(case["runs"]):
            untraced = case["late"] and n == 0      # the queues may come from a time before tracing was there

            def child():
                import logging
                logging.disable(logging.CRITICAL)
                return program(case, steps, attempts, serial, untraced, n + 1 == len(case["runs"]))
            res = forked.run(child, ["tracedApp.py", "-i", "2", "-lfo"], env, timeout=50)
            spans, journal = res["spans"], res["journal"]
            before = dict(attempts)
            attempts, serial = res["attempts"], res["serial"]
            ids = [s["id"] for s in spans]
            eq(len(set(ids)), len(ids), "span ids are unique")
            want = collections.Counter()
            for j in journal:
                if j[0] in ("call", "push"):
                    route, key, uid, status = j[1:]
                    if status == 404 or route == "no.such.route":
                        check(status not in (0,), "an unknown route was answered with success")
                        classes.add("unknown")
                        continue
                    want[(route, key["trace_id"].replace("-", ""), key["span_id"], 1 if status == 0 else 2)] += 1
                    if status != 0:
                        classes.add("failed")
                    if j[0] == "push" and status == 0:
                        pushes[uid] = (route, key, n)
            got = collections.Counter()
            recv = {}
            for s in spans:
                eq(s["service"], "traced_app-2", "service name")
                check(s["took"] >= 0, f"span ends before it starts: {s}")
                if "request.route_key" in s["attrs"]:
                    a = s["attrs"]
                    eq(a["request.route_key"], s["name"], "route key attribute")
                    eq(a.get("request.trace_id", "").replace("-", ""), s["trace"], f"trace id of span {s['name']}")
                    eq(a.get("request.span_id"), s["parent"], f"parent of receive span {s['name']}")
                    if not s["name"].startswith("eco.") or any(j[1] == s["name"] for j in journal if j[0] == "call"):
                        got[(s["name"], s["trace"], s["parent"], s["status"])] += 1
                    recv[(s["name"], s["trace"], s["parent"])] = s["id"]
            if untraced:
                eq(spans, [], "spans of an application without tracing")
                got = want
                classes.add("untraced-before")
            check(got == want, lambda: f"receive spans (route, trace, parent, status: 1 = OK, 2 = error): missing {dict(want - got)}, not expected {dict(got - want)}")
            # processing attempts
            done = collections.defaultdict(list)
            for j in journal:
                if j[0] == "attempt":
                    done[j[1]].append(j[2])
            proc = collections.defaultdict(list)
            for s in spans:
                if s["name"].endswith(".process"):
                    proc[(s["name"], s["trace"], s["attrs"].get("request.span_id"))].append(s)
            used = set()
            for uid, oks in ({} if untraced else done).items():
                check(uid in pushes, f"attempt of a request that was never acknowledged: {uid}")
                route, key, born = pushes[uid]
                k = ("AlphaDTO.process" if route == BUF[0] else "BetaDTO.process", key["trace_id"].replace("-", ""), key["span_id"])
                used.add(k)
                mine = proc.get(k, [])
                check(len(oks) <= len(mine), lambda: f"{uid}: {len(oks)} attempts finished, {len(mine)} process spans in its trace; attempts {oks}")
                check(len(mine) <= len(oks) + 1, lambda: f"{uid}: {len(oks)} attempts finished, {len(mine)} process spans")
                eq([s["attrs"].get("process.success") for s in mine][:len(oks)], oks, f"{uid}: success of the attempts")
                retries = [s["attrs"].get("request.retries") for s in mine]
                check(all(isinstance(r, int) and 0 <= r <= 3 for r in retries), lambda: f"{uid}: retries {retries}")
                if born == n and not any(s[0] == "reprocess" for s in steps):
                    eq(retries[:len(oks)], list(range(len(oks))), f"{uid}: retries of the attempts")
                parent = recv.get((route, k[1], k[2]))
                for s in mine:
                    eq(str(s["attrs"].get("request.trace_id", "")).replace("-", ""), s["trace"], f"{uid}: trace id attribute of its process span")
                    if born == n:
                        eq(s["parent"], parent, f"{uid}: parent of its process span")
                    else:
                        classes.add("next-run")
                        check(s["parent"] in (k[2], pushes_recv.get(uid)), f"{uid}: parent of its process span after a restart: {s['parent']}")
                if len(oks) > 1:
                    classes.add("attempts")
            for k in proc:
                check(k in used or len(proc[k]) == 1, lambda: f"process spans without attempts: {k}")
            pushes_recv = {**(pushes_recv if n else {}), **{u: recv.get((r, key["trace_id"].replace("-", ""), key["span_id"])) for u, (r, key, b) in pushes.items() if b == n}}
            if any(s[0] == "both" for s in steps):
                classes.add("same-key")
            if len([1 for s in steps if s[0] == "call"]) > 1:
                classes.add("overlap")
            if any(False in v for v in done.values()):
                classes.add("failed-attempt")
        eq([u for u in pushes if not attempts.get(u)], [], "requests that were acknowledged and never processed")
        return bool(classes & {"failed", "attempts", "same-key", "overlap"}), sorted(classes)
    finally:
        h.rmdir(d)


def subs():
    return [Sub("traces", strategy, run, quick=50, thorough=800, shards=7, setup=preload)]
