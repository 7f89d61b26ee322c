"""C23: an application serves every configured transport and runs its tasks from start to end, and ends in order."""
import asyncio
import gc
import os
import signal
import socket
import weakref

import harness as h
import forked
from harness import Sub, eq, check

RULE = ("whole applications on virtual time in forked processes, several runs on the same directories and addresses: generated sets of transports, background "
        "tasks (endless, finishing, raising, slow to clean up, given as task or coroutine), slow set-up, overlapping requests of scripted duration on every "
        "transport, run_soon calls, buffered requests, leftovers of earlier runs, occupied addresses, end by signal or by a raising task; oracle = the "
        "journal: who was answered when, which task started, finished or was cancelled; non-trivial = two transports or an abnormal end or a leftover")
ASSUMPTIONS = ["a background task that is cancelled does not refuse to end", "requests on one stream connection are answered one after the other",
               "timing is judged with a tolerance of some seconds of virtual time"]
KINDS = ["tcp", "udp", "uds"]
CROWD_D = 8


EXTRAS = [{}, {"extra": None, "zero": 0}, {}, {"args": [1, {"a": None}], "function": "f", "name": ""}]    # keyword arguments of functions that are run soon


def strategy():
    from hypothesis import strategies as st
    t = st.integers(0, 40).map(lambda k: k / 4)
    task = st.fixed_dictionaries({"kind": st.sampled_from(["forever", "forever", "finish", "cleanup", "ignore"]), "t": t, "form": st.sampled_from(["task", "coro"])})
    req = st.one_of(st.tuples(st.just("probe"), t, st.integers(0, 2), st.sampled_from([0, 0, 1, 5, 60, 500])),
                    st.tuples(st.just("soon"), t, st.integers(0, 2), st.lists(st.sampled_from(["ok", "raise", "slow", "weak"]), min_size=1, max_size=4)),
                    st.tuples(st.just("weak"), t, st.integers(0, 2), st.sampled_from([1, 3])),
                    st.tuples(st.just("push"), t, st.integers(0, 2), st.sampled_from([0, 0, 1, 30])),
                    st.tuples(st.just("crowd"), t, st.integers(0, 2), st.sampled_from([5, 12, 30, 70])))
    r = st.fixed_dictionaries({"kinds": st.sets(st.integers(0, 2), min_size=1).map(sorted), "tasks": st.lists(task, max_size=3), "setup": st.sampled_from([0, 0, 0, 0.5, 3]),
                               "reqs": st.lists(req, max_size=8), "early": st.booleans(), "before": st.sampled_from([None, None, None, "stale-socket", "occupied-tcp", "regular-file", "bad-queue"]),
                               "end": st.sampled_from(["SIGTERM", "SIGTERM", "SIGINT", "SIGHUP", "raise", "raise", "setup-raise", "early-SIGTERM", "early-raise", "inside-SIGTERM", "inside-SIGINT", "inside-SIGHUP", "before-SIGTERM", "before-SIGINT", "before-SIGHUP"]), "end_t": st.integers(2, 60).map(lambda k: k / 2)})
    return st.fixed_dictionaries({"runs": st.lists(r.map(bounded), min_size=1, max_size=3)})


def bounded(r):
    """All crowds of a run together stay below the listen backlog (100): connections beyond it are the kernel's to refuse."""
    left, reqs = 85, []
    for rq in r["reqs"]:
        if rq[0] == "crowd":
            n = min(rq[3], left)
            left -= n
            rq = (*rq[:3], n) if n else ("probe", *rq[1:3], 0)
        reqs.append(rq)
    return {**r, "reqs": reqs}


class Boom(Exception):
    pass


def program(run, base, done_before):
    import vapp
    vapp.install(grace=0.0015)
    import eko
    import logging
    logging.disable(logging.WARNING)
    complaints = []

    class Complaints(logging.Handler):
        def emit(self, record):
            complaints.append(record.getMessage() + (repr(record.exc_info[1]) if record.exc_info else ""))
    logging.getLogger("asyncio").addHandler(Complaints())
    logging.getLogger("asyncio").propagate = False
    from pydantic import BaseModel
    from ekosis.application_base import ApplicationBase
    from ekosis.requests.endpoint import endpoint
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.util.fire_and_forget_tasks import run_soon
    j = {"started": [], "finished": [], "cancelled": [], "cleaned": [], "early": [], "answers": [], "soon": [], "acked": [], "done": [], "fail": [], "end": None, "order": [], "errors": []}
    kinds = [KINDS[k] for k in run["kinds"]]
    n_tasks = len(run["tasks"])

    class Q(BaseModel):
        uid: str
        d: float = 0
        what: list = []
        weak: float = 0

    class R(BaseModel):
        uid: str

    registry = weakref.WeakValueDictionary()

    def wake(key):
        gc.collect()        # whoever works for somebody must be kept by somebody
        ev = registry.get(key)
        if ev:
            ev.set()

    async def until_woken(key, delay):
        ev = registry[key] = asyncio.Event()
        asyncio.get_running_loop().call_later(delay, wake, key)
        await ev.wait()

    @run_soon
    async def later(uid, n, what="ok", **kw):
        if what == "weak":
            await until_woken(f"{uid}/{n}", 1)
        j["soon"].append([uid, n, what, sorted(kw.items())])
        j["order"].append(["run", uid, n])
        if what == "slow":
            await asyncio.sleep(300)
        if what == "raise":
            raise Boom("later")

    @endpoint("app.die", Q)
    async def die(dto, **kwargs):
        j["end"] = vapp.now()
        os.kill(os.getpid(), getattr(signal, run["end"].split("-")[-1]))
        sum(range(1000))
        return R(uid=dto.uid)

    @endpoint("app.work", Q)
    async def work(dto, **kwargs):
        if len(j["started"]) < n_tasks and run["end"] != "setup-raise" and not run["end"].startswith("early-"):
            j["early"].append(dto.uid)
        if dto.weak:
            await until_woken(dto.uid, dto.weak)
        if dto.d:
            await asyncio.sleep(dto.d)
        for n, w in enumerate(dto.what):
            if n % 2:
                later(dto.uid, n, what=w, **EXTRAS[n % len(EXTRAS)])
            else:
                later(dto.uid, n, w)
        if dto.what:
            j["order"].append(["called", dto.uid, len(dto.what)])
        return R(uid=dto.uid)

    if run["before"] == "bad-queue" and run["end_t"] % 1:
        @buffered_endpoint("no/such/directory", Q, page_size=2, max_retries=3)
        async def never(dto, **kwargs):
            return True

    @buffered_endpoint("app.later", Q, page_size=2, max_retries=3)
    async def process(dto, **kwargs):
        if dto.d:
            await asyncio.sleep(dto.d)
        j["done"].append(dto.uid)
        return True

    from ekosis.clients import TransientUDSClient
    from ekosis.sending.buffered_sender import buffered_sender

    @buffered_sender(TransientUDSClient("/nonexistent/verif.sock", 1), "out/going" if run["before"] == "bad-queue" and run["end_t"] % 1 == 0 else "out.going", Q, page_size=2, max_retries=5)
    async def outgoing(uid):
        return Q(uid=uid)

    serial = [0]

    async def call(kind, route, data):
        """Sends one request on a connection of its own; returns the answer and how long it took."""
        serial[0] += 1
        span = eko.sk_dict(serial[0], base["salt"])
        import json
        raw = (json.dumps({"route_key": route, "span_key": span, "data": data}) + "\n").encode()
        t0 = vapp.now()
        if kind == "udp":
            p = await eko.Dgram.open(tuple(base["udp"]))
            p.tr.sendto(raw)
            got = await p.q.get()
            p.tr.close()
            if isinstance(got, Exception):
                raise got
        else:
            if kind == "uds":
                r, w = await asyncio.open_unix_connection(base["uds"])
            else:
                r, w = await asyncio.open_connection(*base["tcp"])
            try:
                w.write(raw)
                got = await r.readline()
            finally:
                w.close()
            if not got:
                raise ConnectionError("closed")
        res = json.loads(got)
        if res["span_key"] != span:
            j["fail"].append(f"answer {res} to the request {raw!r}")
        return res, vapp.now() - t0

    class App(ApplicationBase):
        async def setup_tasks(self, tasks):
            me = self

            async def bg(i, spec):
                j["started"].append(i)
                if spec["kind"] == "finish":
                    await asyncio.sleep(spec["t"])
                    j["finished"].append(i)
                    return
                try:
                    while True:
                        await asyncio.sleep(0.5 + spec["t"])
                except asyncio.CancelledError:
                    j["cancelled"].append(i)
                    if spec["kind"] == "cleanup":
                        await asyncio.sleep(spec["t"])
                        j["cleaned"].append(i)
                    if spec["kind"] != "ignore":
                        raise
            extra = []

            async def prober():
                for n in range(12):
                    for k in kinds:
                        try:
                            await asyncio.wait_for(call(k, "app.work", {"uid": f"early{n}{k}"}), 5)
                        except (OSError, asyncio.TimeoutError):
                            pass
                    await asyncio.sleep(0.25)

            async def one(n, rq, t0):
                await asyncio.sleep(max(0, t0 + rq[1] - vapp.now()))
                k = kinds[rq[2] % len(kinds)]
                uid = f"{base['run']}-{n}"
                if rq[0] == "push":
                    res, took = await call(k, "app.later", {"uid": uid, "d": rq[3]})
                    if res["status"] == 0:
                        j["acked"].append(uid)
                elif rq[0] == "crowd":      # many connections at once, each with a slow request
                    many = await asyncio.gather(*[call(k, "app.work", {"uid": f"{uid}/{q}", "d": CROWD_D}) for q in range(rq[3])])
                    for q, (res, _) in enumerate(many):
                        if res["status"] != 0 or res["data"] != {"uid": f"{uid}/{q}"}:
                            j["fail"].append(f"answer {res} to request {q} of the crowd {n}")
                    res["data"], took = {"uid": uid}, max(x[1] for x in many)
                else:
                    res, took = await call(k, "app.work", {"uid": uid, "d": rq[3] if rq[0] == "probe" else 0, "weak": rq[3] if rq[0] == "weak" else 0, "what": rq[3] if rq[0] == "soon" else []})
                j["answers"].append([n, k, res["status"], (res["data"] or {}).get("uid") if isinstance(res["data"], dict) else None, took])

            async def ender():
                if run["end"].startswith("early-"):
                    for _ in range(int(run["end_t"] * 2) % 7):       # while the application is still starting
                        await asyncio.sleep(0)
                else:
                    await asyncio.sleep(3 + run["end_t"])
                j["end"] = vapp.now()
                if run["end"].endswith("raise"):
                    raise Boom("a task failed")
                if run["end"].startswith("inside-"):
                    await call(kinds[int(run["end_t"] * 2) % len(kinds)], "app.die", {"uid": "die"})
                else:
                    os.kill(os.getpid(), getattr(signal, run["end"].split("-")[-1]))
                await asyncio.sleep(10 ** 7)
                j["fail"].append("still running long after the signal")
                os._exit(7)

            async def traffic():
                t0 = vapp.now()
                res = await asyncio.gather(*[one(n, rq, t0) for n, rq in enumerate(run["reqs"])], return_exceptions=True)
                j["errors"] = [f"{type(x).__name__}: {x}" for x in res if x is not None]
            if run["early"]:
                extra.append(asyncio.create_task(prober()))
            if run["setup"]:
                await asyncio.sleep(run["setup"])
            if run["end"] == "setup-raise":
                j["end"] = vapp.now()
                raise Boom("set-up failed")
            for i, spec in enumerate(run["tasks"]):
                c = bg(i, spec)
                tasks.append(asyncio.create_task(c) if spec["form"] == "task" else c)
            tasks.append(asyncio.create_task(ender()))

            async def main_traffic():
                await asyncio.sleep(1)       # everything is up by now
                await traffic()
            extra.append(asyncio.create_task(main_traffic()))
            me._keep = extra

    import io
    import sys
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        with App() as app:
            if run["end"].startswith("before-"):
                os.kill(os.getpid(), getattr(signal, run["end"].split("-")[-1]))
                sum(range(1000))
            app.start()
        j["after"] = True
        j["stderr"] = sys.stderr.getvalue()[-3000:]
    finally:
        sys.stderr = err
    j["total"] = vapp.now()
    del app
    gc.collect()
    j["complaints"] = complaints
    return j


def free_port(kind):
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM if kind == "tcp" else socket.SOCK_DGRAM)
    s.bind((h.loop_ip(), 0))
    p = s.getsockname()[1]
    s.close()
    return p


def run(case):
    d = h.fresh_dir()
    classes = set()
    acked, done = [], []
    try:
        base = {"tcp": [h.loop_ip(), free_port("tcp")], "udp": [h.loop_ip(), free_port("udp")], "uds": f"{d}/sock"}
        last = {"kinds": [2], "tasks": [], "setup": 0, "reqs": [], "early": False, "before": None, "end": "SIGTERM", "end_t": 200}
        for n, r in enumerate(case["runs"] + [last]):
            base["run"], base["salt"] = n, 100 * n
            env = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d}
            kinds = [KINDS[k] for k in r["kinds"]]
            for k in kinds:
                env[f"ECOENV_{k.upper()}_LIFE_APP_3"] = base["uds"] if k == "uds" else "%s:%d" % tuple(base[k])
                if k == "tcp" and r["end"].startswith("early-") and int(r["end_t"] * 2) % 2:
                    env["ECOENV_TCP_LIFE_APP_3"] = "localhost:%d" % base["tcp"][1]     # a name to look up makes starting take longer
            blocker, foreign = None, None
            if r["before"] == "stale-socket" and "uds" in kinds:
                s = socket.socket(socket.AF_UNIX)
                if os.path.exists(base["uds"]):
                    os.unlink(base["uds"])
                s.bind(base["uds"])
                s.close()
                classes.add("stale-socket")
            if r["before"] == "occupied-tcp" and "tcp" in kinds:
                blocker = socket.socket()
                blocker.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                blocker.bind(tuple(base["tcp"]))
                blocker.listen(5)
                classes.add("occupied")
            if r["before"] == "regular-file" and "uds" in kinds:
                if os.path.exists(base["uds"]):
                    os.unlink(base["uds"])
                with open(base["uds"], "w") as f:
                    f.write("precious")
                foreign = base["uds"]
                classes.add("regular-file")
            if r["before"] == "bad-queue":
                foreign, what_blocks = None, "queue"
                classes.add("bad-queue")
            else:
                what_blocks = None

            def child():
                return program(r, base, done)
            try:
                j = forked.run(child, ["lifeApp.py", "-i", "3", "-lfo"], env, timeout=60)
            except RuntimeError as e:
                check("died with status" not in str(e), lambda: f"run {n}: {e}")
                raise
            finally:
                if blocker:
                    blocker.close()
            if foreign:
                check(os.path.exists(foreign) and os.path.isfile(foreign) and open(foreign).read() == "precious", f"run {n}: the file at the socket's place was removed or changed")
                os.unlink(foreign)
            what = f"run {n}"
            check(isinstance(j, dict) and j.get("after"), lambda: f"{what}: the code after the application did not run: {j}")
            eq(j["fail"], [], what)
            acked += j["acked"]
            done += j["done"]
            eq(j["early"], [], f"{what}: requests that were answered before the background tasks were running")
            for a, b in [(o, k) for k, o in enumerate(j["order"]) if o[0] == "called"]:
                mine = [o for o in j["order"][:b] if o[0] == "run" and o[1] == a[1]]
                eq(mine, [], f"{what}: functions to be run soon that ran before their caller went on")
            starts = j["started"]
            eq([x for x in j["complaints"] if "Boom('later')" not in x], [], f"{what}: what the event loop complains about (other than the failures of what was run soon)")
            if r["end"].startswith("before-"):
                check(j["total"] < 1000 + r["setup"] + 500, f"{what}: told to end before it started, it ended only at {j['total']}")
                classes.add(r["end"])
                continue
            if blocker or foreign or what_blocks:
                check(j["end"] is None or r["end"] == "setup-raise" or r["end"].startswith("early-"), lambda: f"{what}: the application ran although it could not listen on {kinds} or use its queues")
                check(j["total"] < 1000 + r["setup"] + 500, f"{what}: ended only at {j['total']}")
                check("Error" in j["stderr"] or "failed" in j["stderr"] or r["end"] == "early-SIGTERM", lambda: f"{what}: nothing says why the application ended")
                continue
            if r["end"] == "setup-raise":
                check("set-up failed" in j["stderr"], lambda: f"{what}: nothing says why the application ended: {j['stderr']!r}")
                classes.add("setup-raise")
                continue
            if r["end"].startswith("early-"):
                check(j["total"] < 1000 + r["setup"] + 500, f"{what}: ended only at {j['total']}")
                classes.add(r["end"])
                continue
            check(j["end"] is not None, lambda: f"{what}: the application ended by itself: {j['stderr']}")
            eq(sorted(starts), list(range(len(r["tasks"]))), f"{what}: background tasks started (each once)")
            end = j["end"] - 1000.0
            for i, s in enumerate(r["tasks"]):
                fin = s["kind"] == "finish"
                t0 = r["setup"]
                if fin and t0 + s["t"] < end - 1:
                    check(i in j["finished"], f"{what}: task {i} did not finish")
                if not fin:
                    eq(j["cancelled"].count(i), 1, f"{what}: task {i} ({s['kind']}) was cancelled at the end")
                    if s["kind"] == "cleanup":
                        check(i in j["cleaned"], f"{what}: task {i} was not given the time to clean up")
            if r["end"] == "raise":
                check("a task failed" in j["stderr"], lambda: f"{what}: nothing says why the application ended: {j['stderr']!r}")
                classes.add("task-raise")
            ans = {}
            for a in j["answers"]:
                check(a[0] not in ans, f"{what}: request {a[0]} was answered twice")
                ans[a[0]] = a
            for m, rq in enumerate(r["reqs"]):
                d_ = rq[3] if rq[0] in ("probe", "weak") else CROWD_D if rq[0] == "crowd" else 0
                start = r["setup"] + 1 + rq[1]
                k = kinds[rq[2] % len(kinds)]
                if start + d_ < end - 4:
                    check(m in ans, lambda: f"{what}: request {m} {rq} over {k} was not answered; it was sent {end - start}s before the end, others: {r['reqs']}, failures {j['errors']}")
                if m in ans:
                    _, kk, status, uid, took = ans[m]
                    check(status == 0, lambda: f"{what}: request {m} {rq} over {k}: status {status}")
                    if rq[0] != "push":
                        eq(uid, f"{n}-{m}", f"{what}: answer to request {m}")
                    check(took >= d_ - 0.001, f"{what}: request {m} answered early")
                    check(took <= d_ + 3.5, lambda: f"{what}: request {m} {rq} over {k} took {took}s, held up by another one of {r['reqs']}")
                    if rq[0] == "soon":
                        mine = sorted(x for x in j["soon"] if x[0] == f"{n}-{m}")
                        if start < end - 4:
                            eq(mine, [[f"{n}-{m}", q, w, [list(x) for x in sorted(EXTRAS[q % len(EXTRAS)].items())] if q % 2 else []] for q, w in enumerate(rq[3])], f"{what}: functions run soon by request {m}")
                        classes.add("run-soon")
                    if rq[0] == "weak" or rq[0] == "soon" and "weak" in rq[3]:
                        classes.add("collected")
                    if rq[0] == "crowd":
                        classes.add(f"crowd-{rq[3]}")
            if len(kinds) > 1:
                classes.add("multi")
            if any(rq[0] == "probe" and rq[3] >= 60 for rq in r["reqs"]) and len(r["reqs"]) > 1:
                classes.add("slow-among-others")
            classes.add(r["end"])
        missing = [u for u in acked if u not in done]
        eq(missing, [], "acknowledged requests that were never processed, in any run")
        return bool(classes - {"SIGTERM"}), sorted(classes)
    finally:
        h.rmdir(d)


def subs():
    return [Sub("lifecycle", strategy, run, quick=40, thorough=900, shards=7, setup=forked.preload)]
