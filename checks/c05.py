"""C05: a buffered sender delivers every message it accepted, or parks it in its error queue."""
import asyncio
from typing import Any
import json

import harness as h
import vloop
import eko
from harness import Sub, eq, check

RULE = ("histories of messages handed to a buffered sender whose peer answers per a generated script (success, busy, "
        "any error status, garbage, time-outs, broken connection), with generated delays, pauses, reprocessing and "
        "terminations/restarts on one buffer directory, on a virtual-time loop; oracle = per-message conservation, "
        "attempt accounting and retry classification; non-trivial = a message needed a retry, reached the error "
        "queue, was held by a pause or survived a restart")
ASSUMPTIONS = ["the peer is a stub client below the retry loop: real transports are covered by C08 and C09",
               "an attempt that was running when the process was told to stop may be repeated"]

RETRY = ("busy", "maxr")


def strategy():
    from hypothesis import strategies as st
    outcome = st.one_of(st.sampled_from(["ok", "ok", "busy", "busy", "maxr", "maxr"]),
                        st.sampled_from(["nonr", "garbage", "baddto", "empty", 100, 200, 300, 400, 600, 999, 123, "os", "surrogate", "ossurr"]))
    dur = st.sampled_from([0, 0, -1, 0.5, 2.0])
    hard = st.lists(st.tuples(st.sampled_from(RETRY), st.sampled_from([0, 0.5, 2.0, 7.0])), min_size=3, max_size=7)
    script = st.one_of(st.lists(st.tuples(outcome, dur), max_size=5), st.lists(st.tuples(outcome, dur), max_size=5), hard)
    op = st.one_of(
        st.tuples(st.just("send"), st.integers(1, 5)),
        st.tuples(st.just("send"), st.integers(1, 5)),
        st.tuples(st.just("burst"), st.integers(2, 5)),
        st.tuples(st.just("wait"), st.sampled_from([0.1, 0.5, 1.0, 4.0])),
        st.tuples(st.just("settle")),
        st.tuples(st.just("pause")), st.tuples(st.just("unpause")),
        st.tuples(st.just("reprocess_all")),
        st.tuples(st.just("reprocess_one"), st.integers(0, 30)))
    run_ = st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=9),
                                  "end": st.sampled_from(["cancel", "cancel", "direct"]),
                                  "tail": st.sampled_from([0, -1, -3, 0.25, 0.75, 1.6, 2.5, 5.3, 50000.0])})
    return st.fixed_dictionaries({
        "page_size": st.integers(1, 4), "max_retries": st.integers(0, 4),
        "wait_period": st.sampled_from([0, 0, 0.3, 1.0]),
        "scripts": st.lists(script, min_size=1, max_size=5),
        "runs": st.lists(run_, min_size=1, max_size=3)})


def run(case):
    from pydantic import BaseModel
    from ekosis.clients import ClientBase
    from ekosis.sending.buffered_sender_class import BufferedSenderClass
    from ekosis.exceptions import CommunicationsMaxRetriesReached, CommunicationsNonRetryable

    class Msg(BaseModel):
        n: int
        text: str
        opt: str | None = "dflt"
        more: Any = 3

    class Res(BaseModel):
        r: int

    limit = max(1, case["max_retries"])
    scripts = case["scripts"]
    d = h.fresh_dir()
    classes, problems = set(), []
    total, epoch, inflight = {}, {}, set()
    accepted, first_order, group = [], [], {}
    counter, gid = [0], [0]
    state = {"paused": False, "cut": False}

    class Stub(ClientBase):
        async def _send_message(self, request):
            raise NotImplementedError

        async def _send_message_retry_loop(self, request):
            req = json.loads(request)
            n = req["data"]["n"]
            if not request.endswith("\n") or request.count("\n") != 1:
                problems.append(f"request not a single line: {request!r}")
            want = {"route_key": "c05.q", "span_key": eko.sk_dict(n), "data": {"n": n, "text": f"t\u00e9xt-{n}", **eko.rich(n)}}
            if json.dumps(req, sort_keys=True) != json.dumps(want, sort_keys=True):
                problems.append(f"message {n} went out as {req}")
            if state["paused"]:
                problems.append(f"message {n} sent while sending was paused")
            now = asyncio.get_running_loop().time()
            if state.get("end") is not None and now - state["end"] < case["wait_period"] - 1e-6:
                problems.append(f"message {n} sent {now - state['end']:.3f}s after the previous one, the wait period is {case['wait_period']}")
            if inflight:
                problems.append(f"message {n} sent while {inflight} was outstanding")
            hist = total.setdefault(n, [])
            if "ok" in hist:
                problems.append(f"message {n} sent again after it was delivered")
            if not hist and n not in first_order:
                first_order.append(n)
            script = scripts[n % len(scripts)]
            o, dur = script[len(hist)] if len(hist) < len(script) else ("ok", 0)
            inflight.add(n)
            try:
                await eko.pause(dur)
            except asyncio.CancelledError:
                state["cut"] = True
                raise
            finally:
                inflight.discard(n)
                state["end"] = asyncio.get_running_loop().time()
            hist.append(o)
            epoch.setdefault(n, []).append(o)
            if len(epoch[n]) > limit:
                problems.append(f"message {n}: attempts {epoch[n]}, limit {limit}")
            if o == "maxr":
                raise CommunicationsMaxRetriesReached()
            if o == "nonr":
                raise CommunicationsNonRetryable("x")
            if o == "os":
                raise OSError("broken")
            if o == "ossurr":
                raise OSError("no such file: \udcff\udcfe")
            if o == "garbage":
                return "{nope\n"
            if o == "empty":
                return "\n"
            status = {"ok": 0, "busy": 500, "baddto": 0, "surrogate": 600}.get(o, o)
            data = {"ok": {"r": n}, "baddto": {"z": 1}, "surrogate": "bad \ud800 text"}.get(o, f"problem-{n}")
            return json.dumps({"span_key": req["span_key"], "status": status, "data": data}) + "\n"

    def mk():
        state["end"] = None
        return BufferedSenderClass[Msg, Res](Stub(), "c05.q", Msg, Res, case["wait_period"], case["page_size"],
                                             case["max_retries"])

    async def account(snd, where, quiescent):
        check(not problems, lambda: f"{where}: {problems[:3]}")
        errs = await snd.get_first_x_error_span_keys(10 ** 6)
        idx = {eko.sk_str(n): n for n in accepted}
        check(all(e in idx for e in errs), f"{where}: unknown keys in error queue")
        es = [idx[e] for e in errs]
        eq(len(es), len(set(es)), f"{where}: duplicates in the error queue")
        eq(await snd.error_queue_size(), len(es), f"{where}: error queue size")
        unfinished = []
        for n in accepted:
            ep = epoch.get(n, [])
            if "ok" in total.get(n, []):
                check(n not in es, f"{where}: message {n} was delivered but is in the error queue")
            elif ep and (ep[-1] not in RETRY or len(ep) >= limit):
                check(n in es, f"{where}: message {n} failed for good ({ep}, limit {limit}) but is not in the error "
                               f"queue: lost")
            else:
                check(n not in es, f"{where}: message {n} is in the error queue after only {ep} (limit {limit})")
                unfinished.append(n)
        eq(await snd.pending_queue_size(), len(unfinished), f"{where}: pending size vs unfinished {unfinished}")
        if quiescent and not state["paused"]:
            check(not unfinished, f"{where}: messages {unfinished} were accepted but never sent")
        return es

    box = {}

    async def send(snd, n, g):
        await snd.push_message(Msg(n=n, text=f"t\u00e9xt-{n}", **eko.rich(n)), eko.sk(n))
        accepted.append(n)
        group[n] = g

    async def one_run(spec, ri):
        snd = box["s"] = mk()
        state["paused"] = False
        await snd.setup(d, "app", "0")
        if ri:
            await account(snd, f"start of run {ri}", False)
        for op in spec["ops"]:
            k = op[0]
            if k == "send":
                for _ in range(op[1]):
                    n = counter[0]
                    counter[0] += 1
                    gid[0] += 1
                    await send(snd, n, gid[0])
            elif k == "burst":
                ns = list(range(counter[0], counter[0] + op[1]))
                counter[0] += op[1]
                gid[0] += 1
                await asyncio.gather(*[send(snd, n, gid[0]) for n in ns])
            elif k == "wait":
                await asyncio.sleep(op[1])
            elif k == "settle":
                await eko.settle()
                await account(snd, "settle", True)
            elif k == "pause":
                snd.pause_send_process()
                await asyncio.sleep(100)          # the message being sent may finish
                state["paused"] = True
                check(snd.is_send_process_paused(), "paused sender does not say so")
            elif k == "unpause":
                state["paused"] = False
                snd.unpause_send_process()
                check(not snd.is_send_process_paused(), "unpaused sender says it is paused")
            elif k in ("reprocess_all", "reprocess_one"):
                await eko.settle()
                es = await account(snd, "before reprocess", True)
                if k == "reprocess_one":
                    if not es:
                        continue
                    es = [es[op[1] % len(es)]]
                for n in es:
                    epoch[n] = []
                if es:
                    classes.add("reprocessed")
                if k == "reprocess_all":
                    await snd.reprocess_error_queue()
                else:
                    got = await snd.reprocess_error_queue_span_key(eko.sk(es[0]))
                    check(got is not None and got.n == es[0], f"reprocess one returned {got!r}")
        await eko.pause(spec["tail"])
        if await snd.pending_queue_size():
            classes.add("ended-with-backlog")
        if inflight:
            classes.add("ended-while-sending")
        if spec["end"] == "direct":
            snd.shut_down()
            await snd.wait_for_shutdown()
            box["s"] = None

    async def final():
        state["paused"] = False
        snd = mk()
        await snd.setup(d, "app", "0")
        await account(snd, "start of the final run", False)
        await eko.settle()
        await account(snd, "final run settled", True)
        snd.shut_down()
        await snd.wait_for_shutdown()

    try:
        for ri, spec in enumerate(case["runs"]):
            vloop.run(lambda: one_run(spec, ri))
            if box["s"] is not None:
                box["s"].shut_down()
        vloop.run(final)
        if not (classes & {"ended-while-sending", "ended-with-backlog"}):
            gs = [group[n] for n in first_order]
            check(gs == sorted(gs), lambda: f"first attempts out of the order the messages were accepted: {first_order}")
    finally:
        h.rmdir(d)
    if any(len(t) > 1 for t in total.values()):
        classes.add("retried")
    if any(t and t[-1] != "ok" for t in total.values()):
        classes.add("errored")
    return bool(classes), sorted(classes)


def subs():
    return [Sub("sender-histories", strategy, run, quick=220, thorough=4000, shards=6, setup=h.boot)]
