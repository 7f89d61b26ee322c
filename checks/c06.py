"""C06: the queue-management endpoints do what they say, to the queue they name, and nothing else."""
import asyncio
from typing import Any
import json

import harness as h
import vloop
import eko
from harness import Sub, eq, check

RULE = ("operation sequences over the management endpoints of two buffered endpoints and two buffered senders (real "
        "server, raw client): pause/unpause, data, first-ten, inspect, pop, reprocess one/all, clear, for known and "
        "unknown queues and span keys, mixed with traffic that succeeds or fails; oracle = reference model of every "
        "queue after every operation; non-trivial = an operation acted on a non-empty error queue or on a paused queue")
ASSUMPTIONS = ["each request is processed to a settled state before the next operation",
               "retry limit one: a failing request goes straight to the error queue (retry counting: C03, C05)"]

KINDS = ["endpoint", "sender"]


def strategy():
    from hypothesis import strategies as st
    q = st.sampled_from([0, 1, 2, 3, 9, 9, 9, 9, 9])        # 0,1 endpoints; 2,3 senders; 9: the queue most of the history is about
    pick = st.integers(0, 40)
    op = st.one_of(
        st.tuples(st.just("traffic"), q, st.integers(1, 6), st.booleans()),
        st.tuples(st.just("traffic"), q, st.integers(1, 14), st.just(False)),
        st.tuples(st.sampled_from(["data", "first10", "clear", "reprocess_all"]), q),
        st.tuples(st.sampled_from(["inspect", "pop", "reprocess_one"]), q, pick),
        st.tuples(st.sampled_from(["inspect", "pop", "reprocess_one"]), q, pick),
        st.tuples(st.sampled_from(["inspect_x", "pop_x", "reprocess_one_x"]), q, pick),
        st.tuples(st.sampled_from(["pause_p", "unpause_p", "pause_r", "unpause_r", "pause_all", "unpause_all"]), q),
        st.tuples(st.sampled_from(["pause_p", "unpause_p", "pause_r", "unpause_r", "pause_all", "unpause_all"]), q),
        st.tuples(st.just("mode"), q, st.booleans()),
        st.tuples(st.just("unknown"), st.integers(0, 3), st.integers(0, 9)),
    )
    return st.fixed_dictionaries({
        "page_size": st.integers(1, 5),
        "empty": st.lists(st.booleans(), min_size=4, max_size=4),
        "focus": st.integers(0, 3),
        "paused": st.lists(st.sampled_from([0, 0, 1, 2, 3]), min_size=4, max_size=4),
        "prefail": st.lists(st.sampled_from([0, 2, 5, 12]), min_size=4, max_size=4),
        "ops": st.one_of(st.lists(op, min_size=1, max_size=8), st.lists(op, min_size=6, max_size=18))})


class M:
    def __init__(self):
        self.pending, self.error, self.done = [], [], []
        self.pp = self.pr = False
        self.ok = False

    def run(self):
        if not self.pp:
            (self.done if self.ok else self.error).extend(self.pending)
            self.pending = []


async def body(case, classes):
    from pydantic import BaseModel
    import ekosis.standard_endpoints.buffered_handler_manager  # noqa
    import ekosis.standard_endpoints.buffered_sender_manager  # noqa
    from ekosis.clients import ClientBase
    from ekosis.data_transfer_objects import EmptyDto
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.sending.buffered_sender import buffered_sender
    from ekosis.state_keepers.buffered_sender_keeper import BufferedSenderKeeper

    class Dto(BaseModel):
        n: int
        text: str = "d"
        opt: str | None = "dflt"
        more: Any = 3

    models = [M() for _ in range(4)]
    routes = [eko.uniq("c06.e"), eko.uniq("c06.e"), eko.uniq("c06.s"), eko.uniq("c06.s")]
    types = [EmptyDto if e else Dto for e in case["empty"]]
    ran = [[] for _ in range(4)]
    d = h.fresh_dir()
    owner = {}

    def payload(qi, n):
        return {} if case["empty"][qi] else {"n": n, "text": f"t{n}", **eko.rich(n)}

    objs = [None] * 4
    push = [None] * 4
    for i in range(2):
        def mk(i):
            @buffered_endpoint(routes[i], types[i], page_size=case["page_size"], max_retries=1)
            async def fn(span_key, dto):
                ran[i].append(str(span_key))
                if dto.model_dump() != payload(i, owner[str(span_key)]):
                    ran[i].append(f"wrong data {dto!r}")
                return models[i].ok
        mk(i)
        objs[i] = eko.buffered_handler(routes[i])
    for i in range(2, 4):
        class Stub(ClientBase):
            def __init__(self, i):
                super().__init__()
                self.i = i

            async def _send_message(self, request):
                raise NotImplementedError

            async def _send_message_retry_loop(self, request):
                req = json.loads(request)
                key = f"{req['span_key']['trace_id']}:{req['span_key']['span_id']}"
                ran[self.i].append(key)
                if req["data"] != payload(self.i, owner[key]):
                    ran[self.i].append(f"wrong data {req}")
                ok = models[self.i].ok
                return json.dumps({"span_key": req["span_key"], "status": 0 if ok else 600, "data": {}}) + "\n"

        def mks(i):
            @buffered_sender(Stub(i), routes[i], types[i], page_size=case["page_size"], max_retries=1)
            async def snd(n, span_key):
                return types[i](**payload(i, n))
            push[i] = snd
        mks(i)
        objs[i] = next(s for s in BufferedSenderKeeper().get_buffered_senders() if s.get_route_key() == routes[i])

    counter = 0
    async with eko.uds_server() as path:
        for o in objs:
            await o.setup(d, "app", "0")
        conn = await eko.Conn(path).open()
        mgmt = [10 ** 6]

        async def call(qi, name, key=None, route=None):
            mgmt[0] += 1
            data = {"queue_route_key": routes[qi] if route is None else route}
            if key is not None:
                t, s = key.split(":")
                data["span_key"] = {"trace_id": t, "span_id": s}
            base = "eco.buffered_handler." if qi < 2 else "eco.buffered_sender."
            r = await conn.rpc(base + name, data, eko.sk_dict(mgmt[0]))
            eq(r["status"], 0, f"{base}{name} status ({r})")
            check(isinstance(r["data"].get("message"), str) and r["data"]["message"], f"{name}: no message in {r}")
            return r["data"]

        def info(qi, exact):
            m = models[qi]
            out = {"route_key": routes[qi]}
            if qi < 2:
                out.update(receiving_paused=m.pr, processing_paused=m.pp)
            else:
                out.update(send_process_paused=m.pp)
            if exact:
                out["database_sizes"] = {"pending": len(m.pending), "error": len(m.error)}
            return out

        def check_info(got, qi, exact, what):
            check(isinstance(got, dict), lambda: f"{what}: no queue data, got {got!r}")
            g = dict(got)
            if not exact:
                g.pop("database_sizes", None)
            eq(g, info(qi, exact), what)

        async def verify(where):
            """Every queue, after every operation."""
            await asyncio.sleep(1000)
            for qi in range(4):
                m = models[qi]
                m.run()
                r = await call(qi, "data")
                check_info(r["queue_data"], qi, True, f"{where}: state of queue {qi}")
                f = await call(qi, "errors.get_first_10")
                eq(f["queue_data"], m.error[:10], f"{where}: first ten error span keys of queue {qi}")
                bad = [x for x in ran[qi] if x.startswith("wrong")]
                check(not bad, lambda: f"{where}: {bad}")

        nproc = [0, 0, 0, 0]
        pre = [("traffic", i, c, False) for i, c in enumerate(case["prefail"]) if c]
        for i, p in enumerate(case["paused"]):
            pre += [(x, i) for b, x in ((1, "pause_p"), (2, "pause_r")) if p & b]
        for op in pre + list(case["ops"]):
            k, qi = op[0], op[1]
            if qi == 9:
                qi = case["focus"]
                op = (k, qi, *op[2:])
            m = models[qi]
            what = f"{op}"
            if k == "traffic":
                m.ok = op[3]
                for _ in range(op[2]):
                    n, counter = counter, counter + 1
                    key = eko.sk_str(n)
                    owner[key] = n
                    if qi < 2:
                        r = await conn.rpc(routes[qi], payload(qi, n), eko.sk_dict(n))
                        if m.pr:
                            eq(r["status"], 500, f"request while receiving is paused: {r}")
                            continue
                        eq(r["status"], 0, f"request: {r}")
                    else:
                        await push[qi](n, span_key=eko.sk(n))
                    m.pending.append(key)
                    await asyncio.sleep(100)
                    m.run()
            elif k == "mode":
                m.ok = op[2]
            elif k == "unknown":
                x, qi = op[1], op[1] // 2 * 2
                names = ["data", "errors.get_first_10", "errors.clear", "errors.reprocess.all",
                         "errors.inspect_request", "errors.pop_request", "errors.reprocess.one"]
                names += ["receiving.pause", "receiving.unpause", "processing.pause", "processing.unpause", "all.pause", "all.unpause"] \
                    if qi < 2 else ["send_process.pause", "send_process.unpause"]
                known = routes[x]           # names that are nearly, but not quite, the name of a queue
                route = ["c06.none", known + " ", " " + known, known.upper(), known + ".pending", known + "-endpoint", "", "c06",
                         routes[(x + 2) % 4], "*"][op[2]]
                for name in names:
                    r = await call(qi, name, eko.sk_str(0) if "errors." in name and ("one" in name or "request" in name)
                                   else None, route=route)
                    check(r.get("queue_data") is None and r.get("request_data") is None,
                          lambda: f"{name} on an unknown queue {route!r} returned {r}")
                classes.add("unknown-queue")
            elif k == "data":
                check_info((await call(qi, "data"))["queue_data"], qi, True, what)
            elif k == "first10":
                eq((await call(qi, "errors.get_first_10"))["queue_data"], m.error[:10], what)
            elif k == "clear":
                if m.error:
                    classes.add("cleared")
                r = await call(qi, "errors.clear")
                m.error = []
                check_info(r["queue_data"], qi, True, what)
            elif k == "reprocess_all":
                if m.error:
                    classes.add("reprocessed")
                r = await call(qi, "errors.reprocess.all")
                m.pending += m.error
                m.error = []
                check_info(r["queue_data"], qi, m.pp, what)
            elif k.endswith("_x"):
                # a span key that is not in the error queue: unknown, done or pending
                cand = [eko.sk_str(999_999)] + m.done + m.pending
                key = cand[op[2] % len(cand)]
                name = {"inspect_x": "errors.inspect_request", "pop_x": "errors.pop_request",
                        "reprocess_one_x": "errors.reprocess.one"}[k]
                r = await call(qi, name, key)
                check(r.get("queue_data") is None and r.get("request_data") is None,
                      lambda: f"{what}: {name} for a key not in the error queue returned {r}")
            elif k in ("inspect", "pop", "reprocess_one"):
                if not m.error:
                    continue
                classes.add(k)
                key = m.error[op[2] % len(m.error)]
                name = {"inspect": "errors.inspect_request", "pop": "errors.pop_request",
                        "reprocess_one": "errors.reprocess.one"}[k]
                r = await call(qi, name, key)
                if k != "inspect":
                    m.error.remove(key)
                if k == "reprocess_one":
                    m.pending.append(key)
                eq(r.get("request_data"), payload(qi, owner[key]), f"{what}: request data of {key} in {r}")
                check_info(r["queue_data"], qi, k != "reprocess_one" or m.pp, what)
            else:
                if qi >= 2:
                    if k in ("pause_r", "unpause_r", "pause_all", "unpause_all"):
                        continue
                    name = {"pause_p": "send_process.pause", "unpause_p": "send_process.unpause"}[k]
                else:
                    a, b = k.split("_")
                    name = {"p": "processing", "r": "receiving", "all": "all"}[b] + "." + a
                val = k.startswith("pause")
                if k.endswith(("_p", "_all")):
                    m.pp = val
                if k.endswith(("_r", "_all")):
                    m.pr = val
                if val and m.pending:
                    classes.add("paused-with-backlog")
                r = await call(qi, name)
                check_info(r["queue_data"], qi, m.pp, what)
            if m.pp and (m.pending or m.error):
                classes.add("acted-while-paused")
            await verify(f"after {op}")
        # every request ran only when the model says it could
        for qi in range(4):
            for key in set(models[qi].done):
                check(key in ran[qi], f"request {key} vanished from queue {qi}")
        conn.close()
        for o in objs:
            o.shut_down()
    h.rmdir(d)


def run(case):
    classes = set()
    vloop.run(lambda: body(case, classes))
    return bool(classes - {"unknown-queue"}), sorted(classes)


def subs():
    return [Sub("management-model", strategy, run, quick=110, thorough=1500, shards=7, setup=h.boot)]
