"""C26: storage that cannot be written for a while (a full disk) loses, repeats and blocks nothing."""
import asyncio
import contextlib
import json
import os
import resource
import signal

import harness as h
import eko
import forked
import vloop
from harness import Sub, eq, check

LEVEL = "fault_enumeration"
RULE = ("operation histories on one queue, on a buffered endpoint, on a buffered sender and on a whole application, with generated stretches "
        "during which the operating system refuses to let files grow beyond a generated size (RLIMIT_FSIZE, the write fails in the "
        "middle of SQLite's own work); oracle = an ordered model of the queue, conservation and attempt accounting per request, the journal "
        "of the application; non-trivial = something needed the storage while it was out of order")
ASSUMPTIONS = ["storage that cannot be written can still be read", "the application is not killed, and does not end, while the storage is out of order: then what is in memory is lost",
               "memory suffices for what arrives while nothing can be written"]
LIMITS = [0, 0, 0, 700, 3000, "size", "size+4096"]


class Disk:
    """Full or not; a limit is a number of bytes or relative to the largest file of the directory."""

    def __init__(self, d):
        self.d, self.full = d, False

    def fill(self, limit):
        big = max((os.path.getsize(os.path.join(self.d, f)) for f in os.listdir(self.d) if ".sqlite" in f), default=0)
        soft = {"size": big, "size+4096": big + 4096}.get(limit, limit)
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, resource.RLIM_INFINITY))
        self.full = True

    def free(self):
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        self.full = False


# ------------------------------------------------------------------ one queue
def queue_strategy():
    from hypothesis import strategies as st
    op = st.one_of(st.tuples(st.just("push"), st.integers(1, 7)), st.tuples(st.just("push"), st.integers(1, 7)), st.tuples(st.just("pop"), st.integers(1, 6)),
                   st.tuples(st.just("pop_key"), st.integers(0, 60)), st.tuples(st.just("again"), st.integers(0, 60)), st.tuples(st.just("clear")),
                   st.tuples(st.just("full"), st.sampled_from(LIMITS)), st.tuples(st.just("full"), st.sampled_from(LIMITS)), st.tuples(st.just("free")), st.tuples(st.just("reopen")))
    return st.fixed_dictionaries({"page_size": st.integers(1, 4), "before": st.integers(0, 14), "ops": st.lists(op, min_size=2, max_size=25)})


def queue_run(case):
    from pydantic import BaseModel
    from ekosis.queues import PaginatedQueue

    class Item(BaseModel):
        n: int
        text: str = "x" * 200

    d = h.fresh_dir()
    disk = Disk(d)
    path = os.path.join(d, "q.sqlite")
    classes = set()
    model = []
    n_next = 0

    async def go():
        nonlocal n_next
        q = PaginatedQueue(path, Item, case["page_size"])

        async def agree(what):
            eq(q.size(), len(model), f"{what}: size")
            eq(await q.get_first_x_span_keys(1000), [eko.sk_str(n) for n in model], f"{what}: keys in order")
            for n in (model[:1] + model[len(model) // 2:len(model) // 2 + 1] + model[-1:]):
                got = await q.inspect_span_key(eko.sk(n))
                check(got is not None and got.n == n, lambda: f"{what}: item {n} looked up: {got}")

        async def attempt(what, coro):
            """(True, result) or (False, None) when the storage did not let it happen."""
            try:
                return True, await coro
            except Exception as e:
                check(disk.full, lambda: f"{what} failed with {type(e).__name__}: {e}, although the storage could be written")
                classes.add("failed-while-full")
                return False, None
        for n in range(case["before"]):
            await q.push(Item(n=n), eko.sk(n))
            model.append(n)
        n_next = case["before"]
        for k, op in enumerate(case["ops"]):
            what = f"operation {k} {op}"
            if op[0] == "push":
                for _ in range(op[1]):
                    n, n_next = n_next, n_next + 1
                    ok, _ = await attempt(what, q.push(Item(n=n), eko.sk(n)))
                    if ok:
                        model.append(n)
                        if disk.full:
                            classes.add("pushed-while-full")
            elif op[0] == "again" and model:
                n = model[op[1] % len(model)]
                await attempt(what, q.push(Item(n=n), eko.sk(n)))
            elif op[0] == "pop":
                for _ in range(op[1]):
                    ok, got = await attempt(what, q.pop())
                    if ok:
                        eq(got.n if got is not None else None, model.pop(0) if model else None, f"{what}: popped")
            elif op[0] == "pop_key" and model:
                n = model[op[1] % len(model)]
                ok, got = await attempt(what, q.pop_span_key(eko.sk(n)))
                if ok:
                    eq(got.n if got is not None else None, n, f"{what}: popped by key")
                    model.remove(n)
            elif op[0] == "clear":
                ok, _ = await attempt(what, q.clear())
                if ok:
                    model.clear()
            elif op[0] == "full":
                disk.fill(op[1])
            elif op[0] == "free":
                disk.free()
            elif op[0] == "reopen":
                disk.free()
                q.shut_down()
                q = PaginatedQueue(path, Item, case["page_size"])
            await agree(what + (" while full" if disk.full else ""))
        disk.free()
        await agree("storage can be written again")
        q.shut_down()
        q = PaginatedQueue(path, Item, case["page_size"])
        await agree("reopened")
        for n in model:
            got = await q.pop()
            eq(got.n if got is not None else None, n, "drained at the end")
        eq(await q.pop(), None, "drained at the end")
        q.shut_down()
    try:
        vloop.run(go)
    finally:
        disk.free()
        h.rmdir(d)
    return bool(classes), sorted(classes)


# ------------------------------------------------------------------ a buffered endpoint or sender
def hist_strategy():
    from hypothesis import strategies as st
    outcome = st.sampled_from(["T", "T", "F", "F", "F", "park"])
    script = st.lists(st.tuples(outcome, st.sampled_from([0, -1, 0.5, 2.0])), max_size=5)
    full = st.tuples(st.just("full"), st.sampled_from(LIMITS))
    send = st.tuples(st.just("send"), st.integers(1, 9))
    op = st.one_of(send, send, full, full, st.tuples(st.just("wait"), st.sampled_from([0, 0.5, 3.0, 20.0])), st.tuples(st.just("wait"), st.sampled_from([0, 0.5, 3.0, 20.0])),
                   st.tuples(st.just("free")), st.tuples(st.just("quiet")), st.tuples(st.just("pause")), st.tuples(st.just("unpause")),
                   st.tuples(st.just("reprocess_all")), st.tuples(st.just("reprocess_one"), st.integers(0, 30)), st.tuples(st.just("pop_one"), st.integers(0, 30)), st.tuples(st.just("clear")))
    n = st.integers(4, 14)
    lim = st.sampled_from(LIMITS)
    wait = st.sampled_from([0, 0.5, 3.0, 20.0])
    cmd = st.one_of(st.tuples(st.sampled_from(["reprocess_one", "pop_one"]), st.integers(0, 30)), st.tuples(st.sampled_from(["reprocess_all", "reprocess_all", "clear"])))
    # A backlog that has to be read from disk while it is full; failed requests on disk that commands want while it is full.
    backlog = st.builds(lambda k, f, w, end: [("pause",), ("send", k), ("full", f), ("unpause",), ("wait", w), *end], n, lim, wait, st.sampled_from([[("quiet",)], [("free",), ("wait", 3.0)], []]))
    failed = st.builds(lambda k, f, cmds, end: [("park", k), ("quiet",), ("full", f), *cmds, *end], n, lim, st.lists(cmd, min_size=1, max_size=4), st.sampled_from([[("quiet",)], [("free",)], []]))
    few = st.lists(op, max_size=5)
    ops = st.tuples(few, st.one_of(backlog, failed), few, st.one_of(st.just([]), backlog, failed, few)).map(lambda p: [o for x in p for o in x])
    run_ = st.fixed_dictionaries({"ops": ops, "end": st.sampled_from(["cancel", "direct"]), "tail": st.sampled_from([0, -1, 0.3, 2.5])})
    return st.fixed_dictionaries({"kind": st.sampled_from(["endpoint", "sender"]), "page_size": st.integers(1, 3), "max_retries": st.integers(0, 4),
                                  "scripts": st.lists(script, min_size=1, max_size=4), "runs": st.lists(run_, min_size=1, max_size=2)})


def hist_run(case):
    from pydantic import BaseModel
    from ekosis.clients import ClientBase
    from ekosis.data_transfer_objects import RequestDTO
    from ekosis.requests.buffered_handler import BufferedHandler
    from ekosis.sending.buffered_sender_class import BufferedSenderClass
    from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
    BufferedMiddlewareManager().get_list().clear()

    class Msg(BaseModel):
        n: int
        text: str

    class Res(BaseModel):
        r: int

    sender = case["kind"] == "sender"
    limit = max(1, case["max_retries"])
    scripts = case["scripts"]
    d = h.fresh_dir()
    disk = Disk(d)
    classes, problems = {case["kind"]}, []
    total, epoch, inflight = {}, {}, set()
    accepted, refused, gone, parked, first_order = [], set(), set(), set(), []
    counter = [0]
    state = {"paused": False, "cut": False}

    async def one(n):
        hist = total.setdefault(n, [])
        if n in refused:
            problems.append(f"request {n} was refused and is processed nevertheless")
        if n in gone:
            problems.append(f"request {n} was removed or cleared and is processed nevertheless")
        if "T" in hist:
            problems.append(f"request {n} is processed again after it succeeded")
        if state["paused"]:
            problems.append(f"request {n} is processed during a pause")
        if not hist and n not in first_order:
            first_order.append(n)
        script = scripts[n % len(scripts)]
        o, dur = script[len(hist)] if len(hist) < len(script) else ("T", 0)
        if n in parked and not hist:
            o, dur = "park", 0
        inflight.add(n)
        try:
            await eko.pause(dur)
        except asyncio.CancelledError:
            state["cut"] = True
            raise
        finally:
            inflight.discard(n)
        hist.append(o)
        epoch.setdefault(n, []).append(o)
        if len(epoch[n]) > limit:
            problems.append(f"request {n}: attempts {epoch[n]}, limit {limit}")
        return o

    class Stub(ClientBase):
        async def _send_message(self, request):
            raise NotImplementedError

        async def _send_message_retry_loop(self, request):
            req = json.loads(request)
            n = req["data"]["n"]
            if req != {"route_key": "c26.q", "span_key": eko.sk_dict(n), "data": {"n": n, "text": f"t-{n}"}}:
                problems.append(f"message {n} went out as {req}")
            o = await one(n)
            return json.dumps({"span_key": req["span_key"], "status": {"T": 0, "F": 500, "park": 400}[o], "data": {"r": n} if o == "T" else "no"}) + "\n"

    async def process(span_key, dto):
        if str(span_key) != eko.sk_str(dto.n) or dto.text != f"t-{dto.n}":
            problems.append(f"request {dto.n} altered: {span_key} {dto!r}")
        o = await one(dto.n)
        if o == "park":
            raise ValueError("park")
        return o == "T"

    def mk():
        if sender:
            return BufferedSenderClass[Msg, Res](Stub(), "c26.q", Msg, Res, 0, case["page_size"], case["max_retries"])
        return BufferedHandler[Msg]("c26.q", process, Msg, case["page_size"], case["max_retries"], {"span_key", "dto"})

    async def attempt(what, coro):
        try:
            return True, await coro
        except Exception as e:
            check(disk.full, lambda: f"{what} failed with {type(e).__name__}: {e}, although the storage could be written")
            classes.add("failed-while-full")
            return False, None

    async def errors(x):
        idx = {eko.sk_str(n): n for n in accepted}
        errs = await x.get_first_x_error_span_keys(10 ** 6)
        check(all(e in idx for e in errs), "unknown keys in the error queue")
        es = [idx[e] for e in errs]
        eq(len(es), len(set(es)), "duplicates in the error queue")
        eq(await x.error_queue_size(), len(es), "error queue size")
        return es

    async def account(x, where, quiet):
        check(not problems, lambda: f"{where}: {problems[:3]}")
        es = await errors(x)
        unfinished = []
        for n in accepted:
            ep = epoch.get(n, [])
            if n in gone or "T" in total.get(n, []):
                check(n not in es, f"{where}: request {n} is done with but is in the error queue")
            elif ep and (ep[-1] == "park" or len(ep) >= limit):
                check(n in es, f"{where}: request {n} failed for good ({ep}, limit {limit}) but is not in the error queue: lost")
            else:
                check(n not in es, f"{where}: request {n} is in the error queue after only {ep} (limit {limit})")
                unfinished.append(n)
        eq(await x.pending_queue_size(), len(unfinished), f"{where}: pending size vs unfinished {unfinished}")
        if quiet and not state["paused"]:
            check(not unfinished, f"{where}: requests {unfinished} were accepted, and are still not processed long after the storage could be written again")
        return es

    async def quiet(x, where):
        disk.free()
        await asyncio.sleep(1000)
        return await account(x, where, True)

    box = {}

    async def one_run(spec, ri):
        x = box["x"] = mk()
        state["paused"] = False
        await x.setup(d, "app", "0")
        if ri:
            await account(x, f"start of run {ri}", False)
        for k, op in enumerate(spec["ops"]):
            what = f"run {ri}, operation {k} {op}"
            if op[0] in ("send", "park"):
                for _ in range(op[1]):
                    n = counter[0]
                    counter[0] += 1
                    if op[0] == "park":
                        parked.add(n)
                    accepted.append(n)      # it may be processed before its sender goes on
                    if sender:
                        ok, _ = await attempt(what, x.push_message(Msg(n=n, text=f"t-{n}"), eko.sk(n)))
                    else:
                        ok, _ = await attempt(what, x.attempt_request(RequestDTO(route_key="c26.q", span_key=eko.sk(n), data={"n": n, "text": f"t-{n}"}), span_key=eko.sk(n)))
                    if not ok:
                        accepted.remove(n)
                        refused.add(n)
                        check(n not in total, f"{what}: request {n} was processed and then refused")
                    elif disk.full:
                        classes.add("accepted-while-full")
            elif op[0] == "wait":
                await asyncio.sleep(op[1])
            elif op[0] == "full":
                disk.fill(op[1])
            elif op[0] == "free":
                disk.free()
            elif op[0] == "quiet":
                await quiet(x, what)
            elif op[0] == "pause":
                x.pause_send_process() if sender else x.pause_processing()
                await asyncio.sleep(10)
                state["paused"] = True
            elif op[0] == "unpause":
                state["paused"] = False
                x.unpause_send_process() if sender else x.unpause_processing()
            else:
                # Commands are judged when the queue stands still, or while nothing can be written.
                if not disk.full:
                    await quiet(x, "before " + what)
                elif inflight:
                    await asyncio.sleep(5)
                es = await errors(x)
                if op[0] in ("reprocess_one", "pop_one"):
                    if not es:
                        continue
                    n = es[op[1] % len(es)]
                    keep = list(epoch.get(n, []))
                    if op[0] == "reprocess_one":
                        epoch[n] = []
                        ok, got = await attempt(what, x.reprocess_error_queue_span_key(eko.sk(n)))
                    else:
                        ok, got = await attempt(what, x.pop_request_from_error_queue(eko.sk(n)))
                    if ok:
                        check(got is not None and got.n == n, f"{what}: returned {got!r}")
                        if op[0] == "pop_one":
                            gone.add(n)
                    else:
                        epoch[n] = keep
                        check(n in await errors(x), f"{what} failed, and the request is not in the error queue any more")
                elif op[0] == "clear":
                    ok, _ = await attempt(what, x.error_queue_clear())
                    if ok:
                        gone.update(es)
                    else:
                        check(set(es) <= set(await errors(x)), f"{what} failed, and requests vanished nevertheless")
                elif op[0] == "reprocess_all":
                    keep = {n: epoch.get(n, []) for n in es}
                    for n in es:
                        epoch[n] = []
                    ok, _ = await attempt(what, x.reprocess_error_queue())
                    if not ok:      # as far as it got
                        for n in await errors(x):
                            if n in keep:
                                epoch[n] = keep[n]
                classes.add(op[0] + ("-full" if disk.full else ""))
        disk.free()
        await eko.pause(spec["tail"])
        if spec["end"] == "direct":
            x.shut_down()
            await x.wait_for_shutdown()
            box["x"] = None

    async def final():
        state["paused"] = False
        x = mk()
        await x.setup(d, "app", "0")
        await account(x, "start of the final run", False)
        await quiet(x, "final run")
        x.shut_down()
        await x.wait_for_shutdown()

    try:
        for ri, spec in enumerate(case["runs"]):
            vloop.run(lambda: one_run(spec, ri))
            if box["x"] is not None:
                box["x"].shut_down()
        vloop.run(final)
        if not state["cut"]:
            eq(first_order, sorted(first_order), "order of the first attempts")
    finally:
        disk.free()
        h.rmdir(d)
    return bool(classes & {"failed-while-full", "accepted-while-full"}), sorted(classes)


# ------------------------------------------------------------------ a whole application
def app_strategy():
    from hypothesis import strategies as st
    t = st.integers(0, 60).map(lambda k: k / 2)
    req = st.one_of(st.tuples(st.just("push"), t, st.sampled_from([0, 0, 1, 4]), st.integers(1, 6)), st.tuples(st.just("push"), t, st.sampled_from([0, 0, 1, 4]), st.integers(1, 6)),
                    st.tuples(st.just("work"), t, st.sampled_from([0, 1]), st.just(1)), st.tuples(st.just("stat"), t, st.just(0), st.just(1)), st.tuples(st.just("data"), t, st.just(0), st.just(1)))
    out = st.tuples(t, st.sampled_from([0.5, 3, 12, 40]), st.sampled_from(LIMITS))
    r = st.fixed_dictionaries({"reqs": st.lists(req, min_size=1, max_size=10), "outages": st.lists(out, max_size=3), "end_t": st.integers(1, 80).map(lambda k: k / 2)})
    return st.fixed_dictionaries({"page": st.integers(1, 3), "runs": st.lists(r, min_size=1, max_size=2)})


def app_program(case, run, base):
    import sys
    import io
    import vapp
    vapp.install(grace=0.0015)
    from pydantic import BaseModel
    from ekosis.application_base import ApplicationBase
    from ekosis.requests.endpoint import endpoint
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    disk = Disk(base["dir"])
    j = {"acked": [], "refused": [], "unknown": [], "done": [], "answers": [], "fail": [], "ended_full": None, "errors": []}

    class Q(BaseModel):
        uid: str
        d: float = 0

    class R(BaseModel):
        uid: str

    @endpoint("st.work", Q)
    async def work(dto, **kwargs):
        await asyncio.sleep(dto.d)
        return R(uid=dto.uid)

    @buffered_endpoint("st.later", Q, page_size=case["page"], max_retries=2)
    async def later(dto, **kwargs):
        if dto.d:
            await asyncio.sleep(dto.d)
        j["done"].append(dto.uid)
        return True

    serial = [0]

    async def call(route, data):
        serial[0] += 1
        span = eko.sk_dict(serial[0], base["salt"])
        r, w = await asyncio.open_unix_connection(base["uds"])
        try:
            w.write((json.dumps({"route_key": route, "span_key": span, "data": data}) + "\n").encode())
            got = await r.readline()
        finally:
            w.close()
        if not got:
            raise ConnectionError("closed")
        res = json.loads(got)
        if res["span_key"] != span:
            j["fail"].append(f"answer {res}")
        return res

    class App(ApplicationBase):
        async def setup_tasks(self, tasks):
            async def one(n, rq):
                await asyncio.sleep(1 + rq[1])
                t0 = vapp.now()
                for q in range(rq[3]):
                    uid = f"{base['run']}-{n}-{q}"
                    j["unknown"].append(uid)
                    route, data = {"push": ("st.later", {"uid": uid, "d": rq[2]}), "work": ("st.work", {"uid": uid, "d": rq[2]}), "stat": ("eco.statistics.get", {"type": "current"}),
                                   "data": ("eco.buffered_handler.data", {"queue_route_key": "st.later"})}[rq[0]]
                    res = await call(route, data)
                    j["unknown"].remove(uid)
                    if rq[0] == "push":
                        j["acked" if res["status"] == 0 else "refused"].append(uid)
                    elif res["status"] != 0:
                        j["fail"].append(f"{rq} got {res}")
                j["answers"].append([n, vapp.now() - t0])

            async def outage(o):
                await asyncio.sleep(1 + o[0])
                disk.fill(o[2])
                await asyncio.sleep(o[1])
                disk.free()

            async def traffic():
                res = await asyncio.gather(*[one(n, rq) for n, rq in enumerate(run["reqs"])], return_exceptions=True)
                j["errors"] = [f"{type(x).__name__}: {x}" for x in res if x is not None]

            async def ender():
                await asyncio.sleep(3 + run["end_t"])
                j["ended_full"] = disk.full
                os.kill(os.getpid(), signal.SIGTERM)
                await asyncio.sleep(10 ** 7)
            tasks.append(asyncio.create_task(ender()))
            self._keep = [asyncio.create_task(traffic()), *[asyncio.create_task(outage(o)) for o in run["outages"]]]

    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        with App() as app:
            app.start()
        j["after"] = True
        j["stderr"] = sys.stderr.getvalue()[-2000:]
    finally:
        disk.free()
        sys.stderr = err
    return j


def app_run(case):
    d = h.fresh_dir()
    classes = set()
    try:
        base = {"dir": d, "uds": f"{d}/sock"}
        env = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d, "ECOENV_UDS_STORE_APP_0": base["uds"]}
        acked, refused, maybe, done, lost_ok = [], [], [], [], False
        for n, r in enumerate(case["runs"] + [{"reqs": [], "outages": [], "end_t": 200}]):
            base["run"], base["salt"] = n, 100 * n
            j = forked.run(lambda: app_program(case, r, base), ["storeApp.py", "-i", "0", "-lfo"], env, timeout=60)
            check(isinstance(j, dict) and j.get("after"), lambda: f"run {n}: the code after the application did not run: {j}")
            eq(j["fail"], [], f"run {n}: requests that need no storage")
            check(j["ended_full"] is not None, lambda: f"run {n}: the application ended by itself: {j['stderr']}")
            got = {a[0]: a[1] for a in j["answers"]}
            for m, rq in enumerate(r["reqs"]):
                if 1 + rq[1] + 8 < 3 + r["end_t"]:
                    check(m in got, lambda: f"run {n}: request {m} {rq} was not answered; outages {r['outages']}, {j['errors']}")
                if m in got:
                    check(got[m] <= (rq[2] if rq[0] == "work" else 0) + 6, lambda: f"run {n}: request {m} {rq} took {got[m]}s; outages {r['outages']}")
            if j["ended_full"]:
                lost_ok = True
                classes.add("ended-while-full")
            elif r["outages"]:
                classes.add("outage")
            acked += j["acked"]
            refused += j["refused"]
            maybe += j["unknown"]
            done += j["done"]
        if refused:
            classes.add("refused")
        if not lost_ok:
            eq([u for u in acked if u not in done], [], "acknowledged requests that were never processed, in any run")
        eq(sorted(u for u in set(done) if u in refused), [], "requests that were refused and processed nevertheless")
        twice = [u for u in set(done) if done.count(u) > 1]
        eq(sorted(twice), [], "requests that were processed more than once")
        return bool(classes), sorted(classes)
    finally:
        h.rmdir(d)


# ------------------------------------------------------------------ the log
def log_strategy():
    from hypothesis import strategies as st
    seg = st.tuples(st.integers(1, 14), st.sampled_from([None, None, 0, 900, 2500, "size+300"]))
    return st.fixed_dictionaries({"buffer": st.sampled_from([0, 0, 1, 3, 8]), "max": st.sampled_from([100000, 1500, 4000]), "text": st.sampled_from([0, 40, 900]),
                                  "segs": st.lists(seg, min_size=2, max_size=7)})


def log_program(case, d):
    import logging
    import io
    import sys
    disk = Disk(d)
    sys.stderr = io.StringIO()
    from ekosis.logs.logger import ekosis_logger
    log = logging.getLogger()
    n = 0
    try:
        for k, limit in case["segs"]:
            if limit is None:
                disk.free()
            else:
                big = max((os.path.getsize(os.path.join(d, f)) for f in os.listdir(d) if ".log" in f), default=0)
                resource.setrlimit(resource.RLIMIT_FSIZE, (big + 300 if limit == "size+300" else limit, resource.RLIM_INFINITY))
            for _ in range(k):
                log.warning("rec-%d-%s", n, "x" * case["text"])
                n += 1
        disk.free()
        ekosis_logger.flush()
        logging.shutdown()
    finally:
        disk.free()
    return n


def log_run(case):
    d = h.fresh_dir()
    try:
        with open(os.path.join(d, "c.json"), "w") as f:
            json.dump({"instances": {"0": {"lock_directory": d, "logging": {"file_logging": {"do_logging": True, "directory": d, "buffer_size": case["buffer"],
                       "max_size_in_bytes": case["max"], "max_files": 200}}}}}, f)
        env = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d}
        total = forked.run(lambda: log_program(case, d), ["diskApp.py", "-i", "0", "-lfo", "-c", os.path.join(d, "c.json")], env, timeout=40)
        files = sorted((f for f in os.listdir(d) if ".log" in f), key=lambda f: -int(f.rsplit(".", 1)[1]) if f[-1].isdigit() else 0)
        got = []
        for f in files:
            with open(os.path.join(d, f), "rb") as fh:
                raw = fh.read()
            check(raw == b"" or raw.endswith(b"\n"), lambda: f"{f} ends in the middle of a line")
            for l in raw.splitlines():
                try:
                    body = json.loads(l)["body"]
                except (ValueError, KeyError):
                    raise h.Violation(f"{f} holds a line that is not a log record: {l[:200]!r}")
                if body.startswith("rec-"):
                    eq(body.split("-")[2], "x" * case["text"], f"text of the record {body[:20]}")
                    got.append(int(body.split("-")[1]))
        eq(got, sorted(set(got)), "records in the log: each at most once, in order")
        must, n = [], 0
        free = [(limit is None) for _, limit in case["segs"]]
        for i, (k, limit) in enumerate(case["segs"]):
            if limit is None:
                # What is still buffered when the disk becomes full is lost with it.
                rest, last = 0, True
                for (k2, _), f2 in list(zip(case["segs"], free))[i + 1:]:
                    if not f2:
                        last = False
                        break
                    rest += k2
                must += [n + q for q in range(k) if last or k - 1 - q + rest >= case["buffer"]]
            n += k
        eq([m for m in must if m not in got], [], "records that were logged and flushed while the disk had room, and are missing")
        return not all(free), ["log-full" if not all(free) else "log", *(["rotated"] if len(files) > 1 else [])]
    finally:
        h.rmdir(d)


def subs():
    return [Sub("queue", queue_strategy, queue_run, quick=250, thorough=3000, shards=3, setup=h.boot),
            Sub("histories", hist_strategy, hist_run, quick=150, thorough=3000, shards=5, setup=h.boot),
            Sub("application", app_strategy, app_run, quick=25, thorough=600, shards=4, setup=forked.preload),
            Sub("log", log_strategy, log_run, quick=100, thorough=1500, shards=2, setup=forked.preload)]
