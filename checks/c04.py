"""C04: orderly termination loses nothing; the next run resumes where the last one stopped."""
import asyncio
from typing import Any

import harness as h
import vloop
import eko
from harness import Sub, eq, check

LEVEL = "fault_enumeration"
RULE = ("request histories against a buffered endpoint cut off at generated instants, either by cancelling every "
        "task the way a terminating application does and then shutting the endpoint down, or by an in-loop "
        "shutdown; several runs share one buffer directory; oracle = conservation and attempt accounting across "
        "runs; plus real application processes terminated by SIGTERM/SIGINT/SIGHUP at generated moments; "
        "non-trivial = a run was cut off with unfinished requests")
ASSUMPTIONS = ["processing functions do not swallow cancellation", "an attempt that was running when the process was "
               "told to stop may be repeated"]


def strategy():
    from hypothesis import strategies as st
    outcome = st.sampled_from(["T", "T", "F", "F"])
    dur = st.sampled_from([0, -1, 0.5, 1.0, 3.0])
    script = st.lists(st.tuples(outcome, dur), min_size=0, max_size=5)
    op = st.one_of(
        st.tuples(st.just("send"), st.integers(1, 6)),
        st.tuples(st.just("send"), st.integers(1, 6)),
        st.tuples(st.just("wait"), st.sampled_from([0.1, 0.5, 1.0, 2.0, 7.0])),
        st.tuples(st.just("pause_p")),
        st.tuples(st.just("unpause_p")),
        st.tuples(st.just("reprocess_all")),
    )
    run_ = st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=6),
                                  "end": st.sampled_from(["cancel", "cancel", "direct"]),
                                  "tail": st.sampled_from([0, -1, -3, 0.25, 0.75, 2.5])})
    return st.fixed_dictionaries({
        "page_size": st.integers(1, 4), "max_retries": st.integers(0, 4),
        "meta": st.booleans(),
        "scripts": st.lists(script, min_size=1, max_size=4),
        "runs": st.lists(run_, min_size=1, max_size=4)})


def run(case):
    from pydantic import BaseModel
    from ekosis.requests.buffered_handler import BufferedHandler
    from ekosis.data_transfer_objects import RequestDTO
    from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
    from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase

    class Dto(BaseModel):
        n: int
        text: str
        opt: str | None = "dflt"
        more: Any = 3

    mr = case["max_retries"]
    limit = max(1, mr)
    scripts = case["scripts"]
    d = h.fresh_dir()
    classes, problems = set(), []
    completed, epoch, interrupted = {}, {}, {}
    acked, first_order = [], []
    counter = [0]
    mgr = BufferedMiddlewareManager()
    mgr.get_list().clear()

    class MW(BufferedMiddlewareBase):
        async def before_push(self, span_key, dto):
            return {"tag": dto.n * 3}

        async def before_process(self, span_key, dto, metadata, retries):
            if metadata != {"tag": dto.n * 3}:
                problems.append(f"metadata of {dto.n} became {metadata}")
            if retries != len(epoch.get(dto.n, [])):
                problems.append(f"retries of {dto.n} is {retries}, {len(epoch.get(dto.n, []))} attempts had failed")

    if case["meta"]:
        mgr.add(MW())

    async def process(span_key, dto):
        n = dto.n
        if str(span_key) != eko.sk_str(n) or dto.text != f"text-{n}" or not eko.is_rich(dto, n):
            problems.append(f"request {n} altered: {span_key} {dto!r}")
        hist = completed.setdefault(n, [])
        if "T" in hist:
            problems.append(f"request {n} processed again after success")
        k = len(hist)
        script = scripts[n % len(scripts)]
        outcome, dur = script[k] if k < len(script) else ("T", 0)
        if n not in first_order:
            first_order.append(n)
        interrupted[n] = True
        await eko.pause(dur)
        interrupted.pop(n)
        hist.append(outcome)
        epoch.setdefault(n, []).append(outcome)
        if len(epoch[n]) > limit:
            problems.append(f"request {n}: {epoch[n]} attempts, limit {limit}")
        return outcome == "T"

    def mk():
        return BufferedHandler[Dto]("c04.q", process, Dto, case["page_size"], mr, {"span_key", "dto"})

    async def send(hd, n):
        r = await hd.attempt_request(
            RequestDTO(route_key="c04.q", span_key=eko.sk(n), data={"n": n, "text": f"text-{n}", **eko.rich(n)}),
            span_key=eko.sk(n))
        eq(r.span_key, eko.sk(n), "ack")
        acked.append(n)

    async def account(hd, where, paused):
        check(not problems, lambda: f"{where}: {problems[:3]}")
        errs = await hd.get_first_x_error_span_keys(10 ** 6)
        idx = {eko.sk_str(n): n for n in acked}
        check(all(e in idx for e in errs), f"{where}: unknown keys in error queue")
        es = [idx[e] for e in errs]
        eq(len(es), len(set(es)), f"{where}: duplicates in error queue")
        eq(await hd.error_queue_size(), len(es), f"{where}: error queue size")
        unfinished = 0
        for n in acked:
            c, ep = completed.get(n, []), epoch.get(n, [])
            if "T" in c:
                check(n not in es, f"{where}: {n} succeeded but is in the error queue")
            elif len(ep) >= limit:
                check(n in es, f"{where}: request {n} used up its {limit} attempts but is not in the error queue: lost")
            else:
                check(n not in es, f"{where}: request {n} is in the error queue after only {ep} (limit {limit})")
                unfinished += 1
        eq(await hd.pending_queue_size(), unfinished, f"{where}: pending size vs unfinished acknowledged requests")
        return es

    box = {}

    async def one_run(spec, ri):
        hd = box["h"] = mk()
        await hd.setup(d, "app", "0")
        # nothing was lost between the runs (checked before anything is processed)
        if ri:
            await account(hd, f"start of run {ri}", True)
        box["paused"] = False
        for op in spec["ops"]:
            k = op[0]
            if k == "send":
                for _ in range(op[1]):
                    n = counter[0]
                    counter[0] += 1
                    await send(hd, n)
            elif k == "wait":
                await asyncio.sleep(op[1])
            elif k == "pause_p":
                hd.pause_processing()
                box["paused"] = True
            elif k == "unpause_p":
                hd.unpause_processing()
                box["paused"] = False
            elif k == "reprocess_all":
                for e in await hd.get_first_x_error_span_keys(10 ** 6):
                    n = next(n for n in acked if eko.sk_str(n) == e)
                    epoch[n] = []
                await hd.reprocess_error_queue()
        await eko.pause(spec["tail"])
        if interrupted:
            classes.add("cut-off-in-attempt")
        if await hd.pending_queue_size():
            classes.add("cut-off-with-backlog")
        if spec["end"] == "direct":
            hd.shut_down()
            await hd.wait_for_shutdown()
            box["h"] = None

    async def final():
        hd = mk()
        await hd.setup(d, "app", "0")
        await account(hd, "start of final run", True)
        await eko.settle()
        await account(hd, "final run settled", False)
        eq(await hd.pending_queue_size(), 0, "pending after the final run settled")
        for n in acked:
            check(completed.get(n), f"acknowledged request {n} was never processed")
        hd.shut_down()
        await hd.wait_for_shutdown()

    try:
        for ri, spec in enumerate(case["runs"]):
            vloop.run(lambda: one_run(spec, ri))
            # what ApplicationBase does after the loop was torn down
            if box["h"] is not None:
                box["h"].shut_down()
            interrupted.clear()
        vloop.run(final)
        plain = [n for n in first_order]
        if not (classes & {"cut-off-in-attempt"}):
            check(plain == sorted(plain), lambda: f"first attempts out of arrival order: {plain}")
    finally:
        mgr.get_list().clear()
        h.rmdir(d)
    if len(case["runs"]) > 1:
        classes.add("several-runs")
    return bool(classes & {"cut-off-in-attempt", "cut-off-with-backlog"}), sorted(classes)


# ------------------------------------------------------------------ real processes
def proc_strategy():
    from hypothesis import strategies as st
    req = st.fixed_dictionaries({"fwd": st.booleans(), "dur": st.sampled_from([0, 0, 0.002, 0.02]),
                                 "spin": st.sampled_from([0, 0, 0.003, 0.01])})
    run_ = st.fixed_dictionaries({
        "sync": st.lists(req, min_size=0, max_size=8),          # acknowledged one by one
        "flood": st.lists(req, min_size=0, max_size=25),        # pipelined, acknowledgements read after the signal
        "delay": st.sampled_from([0, 0.001, 0.004, 0.01, 0.03]),
        "signal": st.sampled_from(["SIGTERM", "SIGINT", "SIGHUP"]),
        "idle_conn": st.booleans()})
    return st.fixed_dictionaries({
        "page_size": st.integers(1, 4), "persistent": st.booleans(),
        "peer": st.lists(st.sampled_from(["ok", "ok", "busy"]), min_size=1, max_size=5),
        "runs": st.lists(run_, min_size=1, max_size=2).filter(
            lambda rs: any(len(r["sync"]) + len(r["flood"]) for r in rs))})


def proc_run(case):
    import os
    import time
    import proc
    d = h.fresh_dir("p")
    sock, jpath, peerpath = (os.path.join(d, x) for x in ("s", "journal", "peer"))
    env = {"ECOENV_UDS_PIPELINE_APP_0": sock, "ECOENV_BUFFER_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_LOG_DIR": d,
           "PIPE_JOURNAL": jpath, "PIPE_PAGE": str(case["page_size"]), "PIPE_PEER": peerpath,
           "PIPE_PERSISTENT": "1" if case["persistent"] else "0"}
    pat = case["peer"]

    def answer(req, k):
        a = pat[k % len(pat)] if k < 60 else "ok"
        return {"span_key": req["span_key"], "status": 500 if a == "busy" else 0, "data": {} if a == "ok" else "busy"}

    peer = proc.Peer(peerpath, answer)
    acked, sent, fwd, classes = [], [], set(), set()
    counter = 0
    app = None

    def journal(kind):
        if not os.path.exists(jpath):
            return []
        with open(jpath) as f:
            return [int(x.split()[1]) for x in f.read().splitlines() if x.startswith(kind)]

    def payload(r):
        nonlocal counter
        n, counter = counter, counter + 1
        sent.append(n)
        if r["fwd"]:
            fwd.add(n)
        return n, {"n": n, **r}

    try:
        for ri, spec in enumerate(case["runs"]):
            app = proc.App("pipeline_app.py", d, env, sock).wait_up()
            conn = proc.Raw(sock)
            idle = proc.Raw(sock) if spec["idle_conn"] else None
            for r in spec["sync"]:
                n, p = payload(r)
                res = conn.rpc("pipe.q", p, eko.sk_dict(n))
                eq(res["status"], 0, f"acknowledgement {res}")
                acked.append(n)
            for r in spec["flood"]:
                n, p = payload(r)
                conn.send("pipe.q", p, eko.sk_dict(n))
            time.sleep(spec["delay"])
            app.signal(spec["signal"])
            got = 0
            while got < len(spec["flood"]):
                res = conn.recv()
                if res is None:
                    break
                got += 1
                if res["status"] == 0:
                    acked.append(int(next(n for n in sent if eko.sk_dict(n) == res["span_key"])))
            rc = app.wait_exit(f"{spec['signal']} in run {ri}")
            check(rc == 0, f"run {ri}: exit status {rc} after {spec['signal']}: {app.stderr()}")
            conn.close()
            if idle:
                idle.close()
            app.kill()
            if len(set(journal("done"))) < len(acked):
                classes.add("unfinished-at-signal")
            if len(journal("start")) > len(journal("done")):
                classes.add("signal-in-attempt")
            if got < len(spec["flood"]):
                classes.add("signal-before-ack")
        app = proc.App("pipeline_app.py", d, env, sock).wait_up()
        conn = proc.Raw(sock)
        end = time.monotonic() + 30
        while True:
            q = conn.rpc("eco.buffered_handler.data", {"queue_route_key": "pipe.q"}, eko.sk_dict(10 ** 6))
            s = conn.rpc("eco.buffered_sender.data", {"queue_route_key": "peer.q"}, eko.sk_dict(10 ** 6))
            eq((q["status"], s["status"]), (0, 0), "queue data")
            qs, ss = q["data"]["queue_data"]["database_sizes"], s["data"]["queue_data"]["database_sizes"]
            done = journal("done")
            if qs["pending"] == 0 and ss["pending"] == 0 and (set(acked) <= set(done)) and \
                    {n for n in done if n in fwd} <= {r["data"]["n"] for r in peer.seen}:
                break
            if time.monotonic() > end:
                break
            time.sleep(0.02)
        check(set(acked) <= set(done), lambda: f"acknowledged requests never processed after restart: "
                                               f"{sorted(set(acked) - set(done))} (queues {qs})")
        check(set(done) <= set(sent), "something never sent was processed")
        dup = sorted({n for n in done if done.count(n) > 1})
        check(not dup, lambda: f"requests processed to completion more than once: {dup}")
        eq(qs, {"pending": 0, "error": 0}, "endpoint queue sizes at the end")
        eq(ss, {"pending": 0, "error": 0}, "sender queue sizes at the end")
        seen = [r["data"]["n"] for r in peer.seen]
        missing = sorted({n for n in done if n in fwd} - set(seen))
        check(not missing, lambda: f"messages handed to the buffered sender never reached the peer: {missing}")
        check(set(seen) <= fwd, "the peer received a message nobody sent")
        conn.close()
        app.signal("SIGTERM")
        eq(app.wait_exit("final SIGTERM"), 0, "exit status")
    finally:
        if app:
            app.kill()
        peer.close()
        h.rmdir(d)
    return bool(classes), sorted(classes)


def subs():
    return [Sub("endpoint-cut-off", strategy, run, quick=250, thorough=4000, shards=4, setup=h.boot),
            Sub("process-signals", proc_strategy, proc_run, quick=7, thorough=80, shards=4, case_limit_s=200,
                shrink_s=60, setup=h.boot)]
