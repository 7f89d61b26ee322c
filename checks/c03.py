"""C03: every acknowledged request of a buffered endpoint ends in exactly one place."""
import asyncio
from typing import Any

import harness as h
import vloop
import eko
from harness import Sub, eq, check, Violation

RULE = ("histories of sequential and concurrent requests over real connections to a buffered endpoint, with "
        "generated per-attempt outcomes (success / failure / exception), per-attempt suspensions, pauses and "
        "reprocess operations on a virtual-time loop; oracle = per-request conservation and attempt accounting at "
        "every quiescent point; non-trivial = some request needed more than one attempt, reached the error queue, "
        "arrived concurrently with another, or was held back by a pause")
ASSUMPTIONS = ["processing functions terminate", "distinct span keys per request"]


def st_():
    from hypothesis import strategies as st
    return st


def strategy():
    st = st_()
    outcome = st.sampled_from(["T", "T", "F", "F", "X"])
    dur = st.sampled_from([0, 0, 0, -1, -2, 0.5, 3.0])
    script = st.lists(st.tuples(outcome, dur), min_size=0, max_size=6)
    op = st.one_of(
        st.tuples(st.just("send"), st.integers(1, 5)),
        st.tuples(st.just("burst"), st.integers(2, 6), st.lists(st.integers(0, 3), min_size=6, max_size=6)),
        st.tuples(st.just("burst"), st.integers(2, 6), st.just([0, 0, 0, 0, 0, 0])),
        st.tuples(st.just("wait"), st.sampled_from([0.1, 1.0, 2.0, 5.0])),
        st.tuples(st.just("settle")),
        st.tuples(st.just("pause_p")), st.tuples(st.just("unpause_p")),
        st.tuples(st.just("pause_r")), st.tuples(st.just("unpause_r")),
        st.tuples(st.just("reprocess_all")),
        st.tuples(st.just("reprocess_one"), st.integers(0, 50)),
    )
    return st.fixed_dictionaries({
        "page_size": st.integers(1, 4), "max_retries": st.integers(0, 4),
        "scripts": st.lists(script, min_size=1, max_size=5),
        "mw": st.integers(0, 2),
        "mw_yield": st.sampled_from([0, 0, -1, -2]),
        "ops": st.one_of(st.lists(op, min_size=1, max_size=10), st.lists(op, min_size=5, max_size=16)),
    })


async def _body(case, classes):
    from pydantic import BaseModel
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
    from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase

    class Dto(BaseModel):
        n: int
        text: str
        opt: str | None = "dflt"
        more: Any = 3

    mr = case["max_retries"]
    limit = max(1, mr)
    scripts = case["scripts"]
    route = eko.uniq("c03.r")
    attempts = {}      # n -> list of outcomes in the current epoch
    total = {}         # n -> all outcomes
    first_order = []   # order of first attempts
    acked = []         # ack order, numbers
    seq_group = {}     # n -> serial position (burst members share a group)
    active = [0]
    befores, pushes, afters = {}, {}, {}
    starts = [0]

    class MW(BufferedMiddlewareBase):
        def __init__(self, idx):
            self.idx = idx

        async def before_push(self, span_key, dto):
            await eko.pause(case["mw_yield"])
            pushes.setdefault(dto.n, []).append(self.idx)
            eq(str(span_key), eko.sk_str(dto.n), "before_push span key")
            return {f"k{self.idx}": [dto.n, self.idx], "shared": self.idx}

        async def before_process(self, span_key, dto, metadata, retries):
            want = {"shared": case["mw"] - 1}
            want.update({f"k{i}": [dto.n, i] for i in range(case["mw"])})
            problems.extend([] if metadata == want else [f"metadata for {dto.n}: {metadata} != {want}"])
            problems.extend([] if str(span_key) == eko.sk_str(dto.n) else [f"before_process span key {span_key}"])
            fails = len(attempts.get(dto.n, []))
            problems.extend([] if retries == fails else
                            [f"before_process of {dto.n} got retries={retries} after {fails} failed attempts"])
            befores.setdefault(dto.n, []).append(self.idx)

        async def after_process(self, span_key, dto, metadata, success):
            last = total[dto.n][-1] if total.get(dto.n) else None
            if last in ("T", "F"):
                problems.extend([] if bool(success) == (last == "T") else
                                [f"after_process of {dto.n} got success={success} after outcome {last}"])
            afters.setdefault(dto.n, []).append(self.idx)

    problems = []
    mgr = BufferedMiddlewareManager()
    mgr.get_list().clear()
    for i in range(case["mw"]):
        mgr.add(MW(i))

    @buffered_endpoint(route, Dto, page_size=case["page_size"], max_retries=mr)
    async def process(span_key, dto):
        n = dto.n
        starts[0] += 1
        if paused_since is not None and starts_at_pause is not None:
            problems.append(f"attempt of {n} started while processing was paused")
        if active[0]:
            problems.append(f"attempt of {n} overlaps another attempt on the same endpoint")
        if str(span_key) != eko.sk_str(n):
            problems.append(f"request {n} processed with span key {span_key}")
        if dto.text != f"text-{n}" or not eko.is_rich(dto, n):
            problems.append(f"request {n} processed with altered data {dto!r}")
        if "T" in total.get(n, []):
            problems.append(f"request {n} processed again after it succeeded")
        hist = total.setdefault(n, [])
        script = scripts[n % len(scripts)]
        k = len(hist)
        outcome, dur = script[k] if k < len(script) else ("T", 0)
        if not hist:
            first_order.append(n)
        active[0] += 1
        try:
            await eko.pause(dur)
        finally:
            active[0] -= 1
        hist.append(outcome)
        ep = attempts.setdefault(n, [])
        ep.append(outcome)
        if len(ep) > limit:
            problems.append(f"request {n} attempted {len(ep)} times, limit {limit}")
        if outcome == "X":
            raise RuntimeError(f"boom {n}" + ("", " \ud800", "\udcff \x00")[n % 3])
        return outcome == "T"

    handler = eko.buffered_handler(route)
    d = h.fresh_dir()
    paused_since = None
    starts_at_pause = None
    receiving = True
    counter = 0
    gid = 0

    async def settled(where):
        """Quiescent point: account for every acknowledged request."""
        await eko.settle()
        check(not problems, lambda: f"{where}: " + "; ".join(problems[:3]))
        pend, err = await handler.pending_queue_size(), await handler.error_queue_size()
        errs = await handler.get_first_x_error_span_keys(10 ** 6)
        idx = {eko.sk_str(n): n for n in acked}
        unknown = [e for e in errs if e not in idx]
        check(not unknown, lambda: f"{where}: unknown requests in the error queue {unknown}")
        errset = [idx[e] for e in errs]
        eq(len(set(errset)), len(errset), f"{where}: duplicates in the error queue")
        eq(err, len(errset), f"{where}: error queue size vs listed keys")
        must_pend = 0
        for n in acked:
            ep, tot = attempts.get(n, []), total.get(n, [])
            done = "T" in tot
            if done:
                check(n not in errset, lambda: f"{where}: request {n} succeeded but sits in the error queue")
                eq(tot.count("T"), 1, f"{where}: successes of request {n}")
            elif len(ep) >= limit:
                check(n in errset, lambda: f"{where}: request {n} failed {len(ep)} times (limit {limit}) "
                                           f"but is not in the error queue")
            elif ep and ep[-1] == "X" and n in errset:
                pass                      # a raising function may be parked in the error queue at once
            else:
                check(n not in errset, lambda: f"{where}: request {n} is in the error queue after only "
                                               f"{ep} (limit {limit})")
                must_pend += 1
                check(paused_since is not None,
                      lambda: f"{where}: request {n} was acknowledged, is not paused, but was never finished "
                              f"(attempts {tot})")
        eq(pend, must_pend, f"{where}: pending queue size (acknowledged, unfinished requests)")
        return errset

    async with eko.uds_server() as path:
        await handler.setup(d, "app", "0")
        main = eko.Conn(path)
        conns = [eko.Conn(path) for _ in range(6)]

        async def send(conn, n, g):
            nonlocal counter
            r = await conn.rpc(route, {"n": n, "text": f"text-{n}", **eko.rich(n)}, eko.sk_dict(n))
            if receiving:
                eq(r["status"], 0, f"status of request {n}: {r}")
                eq(r["data"], {"span_key": eko.sk_dict(n)}, "acknowledgement body")
                acked.append(n)
                seq_group[n] = g
            else:
                eq(r["status"], 500, f"receiving is paused, expected a server-busy response, got {r}")
            eq(r["span_key"], eko.sk_dict(n), "response span key")

        try:
            for op in case["ops"]:
                k = op[0]
                if k == "send":
                    for _ in range(op[1]):
                        gid += 1
                        n, counter = counter, counter + 1
                        await send(main, n, gid)
                elif k == "burst":
                    gid += 1
                    ns = list(range(counter, counter + op[1]))
                    counter += op[1]
                    for c in conns:
                        if c.r is None:
                            await c.open()

                    async def one(i, n):
                        await eko.pause(-op[2][i])
                        await send(conns[i], n, gid)
                    await asyncio.gather(*[one(i, n) for i, n in enumerate(ns)])
                    classes.add("concurrent")
                elif k == "wait":
                    await asyncio.sleep(op[1])
                elif k == "settle":
                    await settled("settle")
                elif k == "pause_p":
                    if paused_since is None:
                        handler.pause_processing()
                        await asyncio.sleep(50)     # let a running attempt finish
                        paused_since, starts_at_pause = True, starts[0]
                elif k == "unpause_p":
                    paused_since = starts_at_pause = None
                    handler.unpause_processing()
                elif k == "pause_r":
                    handler.pause_receiving()
                    receiving = False
                elif k == "unpause_r":
                    handler.unpause_receiving()
                    receiving = True
                elif k in ("reprocess_all", "reprocess_one"):
                    errset = await settled("before reprocess")
                    if k == "reprocess_all":
                        moved = list(errset)
                        for n in moved:
                            attempts[n] = []
                        await handler.reprocess_error_queue()
                    else:
                        if not errset:
                            continue
                        moved = [errset[op[1] % len(errset)]]
                        for n in moved:
                            attempts[n] = []
                        got = await handler.reprocess_error_queue_span_key(eko.sk(moved[0]))
                        check(got is not None and got.n == moved[0], f"reprocess one returned {got!r}")
                    if moved:
                        classes.add("reprocessed")
            if paused_since is not None and len(acked) > len(total):
                classes.add("held-by-pause")
            await settled("end of history")
            paused_since = starts_at_pause = None
            handler.unpause_processing()
            await settled("end, processing resumed")
            eq(await handler.pending_queue_size(), 0, "pending after processing resumed")
            for n in acked:
                if case["mw"]:
                    eq(pushes.get(n), list(range(case["mw"])), f"before_push calls of {n} (once per middleware, in order)")
                    eq(befores.get(n, []), list(range(case["mw"])) * len(total[n]), f"before_process calls of {n}")
                    check(len(afters.get(n, [])) <= len(befores.get(n, [])), "more after_process than before_process calls")
                    if "X" not in total[n]:
                        eq(afters.get(n, []), befores.get(n, []), f"after_process calls of {n}")
            # FIFO among requests that were acknowledged one after the other
            groups = [seq_group[n] for n in first_order if n in seq_group]
            check(groups == sorted(groups), lambda: f"first attempts out of arrival order: {first_order}, groups {groups}")
            if any(len(t) > 1 for t in total.values()):
                classes.add("retried")
            if any(t and t[-1] != "T" for t in total.values()):
                classes.add("errored")
            if any("X" in t for t in total.values()):
                classes.add("exception")
            if case["mw"]:
                classes.add("middleware")
            if not receiving:
                classes.add("receiving-paused")
            handler.shut_down()
        finally:
            main.close()
            for c in conns:
                c.close()
            mgr.get_list().clear()
    h.rmdir(d)


def run(case):
    classes = set()
    vloop.run(lambda: _body(case, classes))
    return bool(classes & {"retried", "errored", "concurrent", "held-by-pause", "reprocessed"}), sorted(classes)


def subs():
    return [Sub("endpoint-histories", strategy, run, quick=120, thorough=2500, shards=6, setup=h.boot)]
