"""C01: a persisted queue is a FIFO of distinct span keys, across pages, disk and clean restarts."""
import asyncio
import os
import uuid

import harness as h
from harness import Sub, eq, check

RULE = ("operation sequences (push bursts, duplicate pushes, pops, keyed inspect/pop, first-x, clear, "
        "clean restart) with small page sizes against an ordered-dict reference model; non-trivial = the "
        "sequence made the backlog exceed two pages (rows reached the database) or restarted with a "
        "non-empty queue")
ASSUMPTIONS = ["single process owns the queue files", "page_size >= 1"]


def _st():
    from hypothesis import strategies as st
    return st


# JSON values that survive a JSON round trip exactly
def payloads():
    st = _st()
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-2**53, 2**53),
                     st.text(alphabet=st.characters(exclude_categories=("Cs",)), max_size=8),
                     st.floats(allow_nan=False, allow_infinity=False, width=32))
    return st.one_of(leaf, st.lists(leaf, max_size=3),
                     st.dictionaries(st.text("abcxyz_é\"\\\n", max_size=4), leaf, max_size=3))


def ops(with_restart=True):
    st = _st()
    n = st.integers(1, 14)
    ref = st.integers(0, 200)
    alts = [
        st.tuples(st.just("push"), n, payloads()),
        st.tuples(st.just("push"), n, st.just("p")),
        st.tuples(st.just("dup"), ref, st.just("dup-payload")),
        st.tuples(st.just("pop"), st.integers(1, 16)),
        st.tuples(st.just("pop"), st.integers(1, 4)),
        st.tuples(st.just("inspect"), ref),
        st.tuples(st.just("pop_key"), ref),
        st.tuples(st.just("first"), st.integers(0, 25)),
        st.tuples(st.just("repush"), ref, st.just("again")),
    ]
    if with_restart:
        alts += [st.tuples(st.just("restart"), st.sampled_from([0, 0, 1, 2, 4, 9]))] * 2
        # reopen with the page size at which exactly `left` items are in neither page; then restart once more
        alts += [st.tuples(st.just("resize"), st.integers(0, 2), st.booleans())]
    # bring the queue to (or just next to) a multiple of the page size
    alts += [st.tuples(st.just("fill"), st.integers(1, 4), st.integers(-1, 1))]
    alts += [st.tuples(st.just("clear"))]
    op = st.one_of(*alts)
    return st.one_of(st.lists(op, min_size=1, max_size=25), st.lists(op, min_size=10, max_size=30))


def strategy():
    st = _st()
    return st.fixed_dictionaries({"page_size": st.integers(1, 6), "ops": ops()})


def strategy_large():
    """The default page size, with thousands of items: the same model, bigger strides."""
    st = _st()
    ref = st.integers(0, 3000)
    op = st.one_of(
        st.tuples(st.just("push"), st.sampled_from([1, 99, 100, 101, 250, 400]), st.just("p")),
        st.tuples(st.just("fill"), st.integers(1, 5), st.integers(-1, 1)),
        st.tuples(st.just("pop"), st.sampled_from([1, 2, 99, 100, 101, 230])),
        st.tuples(st.just("dup"), ref, st.just("d")), st.tuples(st.just("inspect"), ref), st.tuples(st.just("pop_key"), ref),
        st.tuples(st.just("repush"), ref, st.just("again")),
        st.tuples(st.just("first"), st.sampled_from([1, 10, 99, 101, 250, 600])),
        st.tuples(st.just("restart"), st.sampled_from([0, 0, 0, 50, 150])), st.tuples(st.just("clear")),
    )
    return st.fixed_dictionaries({"page_size": st.sampled_from([100, 100, 64]), "ops": st.lists(op, min_size=4, max_size=10)})


def span_key(i):
    """Deterministic, order-scrambled span keys: insertion order never matches key order. Neighbours share either
    their trace id (two requests of one trace) or their span id, never both."""
    from ekosis.data_transfer_objects import SpanKey
    t, s = (i // 2, i) if i % 4 < 2 else (i, i // 2)
    t = t * 0x9E3779B97F4A7C15 & (2**64 - 1)
    s = s * 0x9E3779B97F4A7C15 & (2**64 - 1)
    return SpanKey.from_bytes(uuid.UUID(int=(t << 64) | (t ^ 0x5555)).bytes + s.to_bytes(8, "big"))


def run_queue(case):
    from ekosis.queues.paginated_queue import PaginatedQueue
    from pydantic import BaseModel
    from typing import Any

    class Item(BaseModel):
        n: int
        data: Any

    d = h.fresh_dir()
    path = os.path.join(d, "q.sqlite")
    ps = case["page_size"]
    cur = [ps]
    model = {}          # span key index -> payload   (ordered)
    counter = [0]
    seen = {"db": False, "restart": False}
    classes = set()

    def mk():
        return PaginatedQueue[Item](path, Item, cur[0])

    async def go():
        q = mk()

        async def agree(where):
            eq(q.size(), len(model), f"size after {where}")
            eq(bool(q.is_empty()), not model, f"is_empty after {where}")

        for op in case["ops"]:
            kind = op[0]
            if kind == "push":
                for _ in range(op[1]):
                    i = counter[0]
                    counter[0] += 1
                    r = await q.push(Item(n=i, data=op[2]), span_key(i))
                    eq(r, span_key(i), "push returns the span key")
                    model[i] = op[2]
            elif kind == "dup":            # push a key that is already queued: ignored
                if not model:
                    continue
                i = list(model)[op[1] % len(model)]
                r = await q.push(Item(n=i, data=op[2]), span_key(i))
                eq(r, span_key(i), "duplicate push returns the span key")
                classes.add("dup")
            elif kind == "repush":         # push a key that was queued before, but no longer is
                gone = [i for i in range(counter[0]) if i not in model]
                if not gone:
                    continue
                i = gone[op[1] % len(gone)]
                await q.push(Item(n=i, data=op[2]), span_key(i))
                model[i] = op[2]
                classes.add("repush")
            elif kind == "pop":
                for _ in range(op[1]):
                    got = await q.pop()
                    if not model:
                        check(got is None, lambda: f"pop on an empty queue returned {got!r}")
                    else:
                        i = next(iter(model))
                        want = model.pop(i)
                        check(got is not None, lambda: f"pop returned nothing, expected item {i}")
                        eq((got.n, got.data), (i, want), "pop order/payload")
            elif kind == "inspect":
                i = pick(op[1], model, counter[0])
                got = await q.inspect_span_key(span_key(i))
                eq(None if got is None else (got.n, got.data),
                   (i, model[i]) if i in model else None, f"inspect of item {i}")
            elif kind == "pop_key":
                i = pick(op[1], model, counter[0])
                got = await q.pop_span_key(span_key(i))
                eq(None if got is None else (got.n, got.data),
                   (i, model[i]) if i in model else None, f"keyed pop of item {i}")
                model.pop(i, None)
                classes.add("pop_key")
            elif kind == "first":
                got = await q.get_first_x_span_keys(op[1])
                eq(list(got), [str(span_key(i)) for i in list(model)[:op[1]]],
                   f"first {op[1]} span keys")
            elif kind == "clear":
                await q.clear()
                model.clear()
                classes.add("clear")
            elif kind == "fill":
                while len(model) < op[1] * cur[0] + op[2]:
                    i = counter[0]
                    counter[0] += 1
                    await q.push(Item(n=i, data="f"), span_key(i))
                    model[i] = "f"
            elif kind == "resize":
                if len(model) < 3:
                    continue
                seen["restart"] = True
                classes.add("restart-resized")
                q.shut_down()
                cur[0] = max(1, (len(model) - op[1]) // 2)
                q = mk()
                if op[2]:
                    await agree("resize")
                    q.shut_down()
                    q = mk()
            elif kind == "restart":
                if model:
                    seen["restart"] = True
                    classes.add("restart-nonempty")
                    if len(model) > 2 * ps:
                        classes.add("restart-multi-page")
                q.shut_down()
                if len(op) > 1 and op[1]:
                    cur[0] = op[1]          # the configured page size may change between runs
                    classes.add("restart-new-page-size")
                q = mk()
            if len(model) > 2 * ps:
                seen["db"] = True
                classes.add("spilled-to-db")
            await agree(kind)
        # drain: everything comes out once, in order
        rest = list(model.items())
        out = []
        while True:
            got = await q.pop()
            if got is None:
                break
            out.append((got.n, got.data))
            check(len(out) <= len(rest), lambda: f"drain produced extra item {out[-1]!r}")
        eq(out, rest, "drain at the end")
        eq(q.size(), 0, "size after drain")
        q.shut_down()
        q2 = mk()
        eq(q2.size(), 0, "size after drain and restart")
        check(await q2.pop() is None, "an item came back after drain and restart")
        q2.shut_down()

    try:
        asyncio.run(go())
    finally:
        h.rmdir(d)
    return (seen["db"] or seen["restart"]), sorted(classes)


# ------------------------------------------------------------------ pending/error pair
def pick(ref, present, total):
    """Mostly a key that is there, sometimes any key (also one never used)."""
    if present and ref % 4:
        return list(present)[ref % len(present)]
    return ref % (total + 1)


def strategy_pair():
    st = _st()
    n = st.integers(1, 8)
    ref = st.integers(0, 200)
    data = st.one_of(st.just({}), st.dictionaries(st.sampled_from("abc"), payloads(), max_size=2))
    meta = st.one_of(st.just({}), st.dictionaries(st.sampled_from(["t", "u"]), st.integers(0, 9), max_size=2))
    op = st.one_of(
        st.tuples(st.just("push"), n, data, meta, st.integers(0, 3)),
        st.tuples(st.just("push"), n, data, meta, st.integers(0, 3)),
        st.tuples(st.just("fail"), st.integers(1, 12), st.text("ab:", max_size=4)),
        st.tuples(st.just("fail"), st.integers(1, 12), st.text("ab:", max_size=4)),
        st.tuples(st.just("pop"), st.integers(1, 3)),
        st.tuples(st.just("move_all")),
        st.tuples(st.just("move_one"), ref),
        st.tuples(st.just("clear_errors")),
        st.tuples(st.just("pop_error"), ref),
        st.tuples(st.just("pop_pending"), ref),
        st.tuples(st.just("inspect_error"), ref),
        st.tuples(st.just("inspect_pending"), ref),
        st.tuples(st.just("first"), st.integers(1, 15)),
        st.tuples(st.just("restart"), st.sampled_from([0, 0, 1, 3, 7])),
    )
    return st.fixed_dictionaries({"page_size": st.integers(1, 4), "prefill": st.sampled_from([0, 0, 5, 11, 18]),
                                  "ops": st.one_of(st.lists(op, min_size=1, max_size=20), st.lists(op, min_size=9, max_size=24))})


def run_pair(case):
    from ekosis.queues.pending_queue import PendingQueue
    d = h.fresh_dir()
    ps = case["page_size"]
    pend, err = {}, {}
    counter = [0]
    classes = set()

    async def go():
        q = PendingQueue(d, "base", ps)
        for i in range(case.get("prefill", 0)):
            await q.push_error(span_key(i), {"pre": i}, "prefilled", {"m": i})
            err[i] = ({"pre": i}, {"m": i})
            counter[0] += 1
        for op in case["ops"]:
            k = op[0]
            if k == "push":
                for _ in range(op[1]):
                    i = counter[0]
                    counter[0] += 1
                    if op[4] == 0 and op[3] is None:
                        await q.push_pending(span_key(i), op[2])        # a new item
                    else:
                        await q.push_pending(span_key(i), op[2], op[4], op[3])
                    pend[i] = (op[2], op[4], op[3])
            elif k == "pop":
                for _ in range(op[1]):
                    got = await q.pop()
                    if not pend:
                        eq(got, None, "pop of empty pending queue")
                        continue
                    i = next(iter(pend))
                    eq((got.span_key, got.data, got.retries, got.metadata),
                       (span_key(i), *pend.pop(i)), "pending pop")
            elif k == "fail":              # what processing does: pop, then move to the error queue
                for _ in range(op[1]):
                    got = await q.pop()
                    if not pend:
                        eq(got, None, "pop of empty pending queue")
                        continue
                    i = next(iter(pend))
                    dat, ret, meta = pend.pop(i)
                    eq((got.span_key, got.data, got.retries, got.metadata), (span_key(i), dat, ret, meta), "pending pop")
                    await q.push_error(span_key(i), dat, op[2], meta)
                    err[i] = (dat, meta)
            elif k == "move_all":
                if len(err) > 2 * ps:
                    classes.add("move-all-multi-page")
                await q.move_all_error_to_pending()
                for i, (dat, meta) in err.items():
                    pend[i] = (dat, 0, meta)
                err.clear()
            elif k == "move_one":
                i = pick(op[1], err, counter[0])
                got = await q.move_one_error_to_pending(span_key(i))
                if i in err:
                    dat, meta = err.pop(i)
                    eq(got, dat, "move_one result")
                    pend[i] = (dat, 0, meta)
                    classes.add("move-one")
                else:
                    eq(got, None, "move_one of a key not in the error queue")
            elif k == "clear_errors":
                await q.clear_error_queue()
                err.clear()
            elif k in ("pop_error", "inspect_error"):
                i = pick(op[1], err, counter[0])
                f = q.pop_error_q_span_key if k == "pop_error" else q.inspect_error_q_span_key
                eq(await f(span_key(i)), err[i][0] if i in err else None, k)
                if k == "pop_error":
                    err.pop(i, None)
            elif k in ("pop_pending", "inspect_pending"):
                i = pick(op[1], pend, counter[0])
                f = q.pop_pending_q_span_key if k == "pop_pending" else q.inspect_pending_q_span_key
                eq(await f(span_key(i)), pend[i][0] if i in pend else None, k)
                if k == "pop_pending":
                    pend.pop(i, None)
            elif k == "first":
                eq(list(await q.get_first_x_error_span_keys(op[1])),
                   [str(span_key(i)) for i in list(err)[:op[1]]], "first error span keys")
            elif k == "restart":
                if pend or err:
                    classes.add("restart-nonempty")
                q.shut_down()
                q = PendingQueue(d, "base", op[1] if len(op) > 1 and op[1] else ps)
            eq((await q.get_sizes()), {"pending": len(pend), "error": len(err)}, f"sizes after {k}")
            eq(bool(await q.has_pending()), bool(pend), "has_pending")
            if len(pend) > 2 * ps or len(err) > 2 * ps:
                classes.add("spilled-to-db")
        out = []
        await q.move_all_error_to_pending()
        for i, (dat, meta) in err.items():
            pend[i] = (dat, 0, meta)
        while (got := await q.pop()) is not None:
            out.append((got.span_key, got.data, got.retries, got.metadata))
            check(len(out) <= len(pend), "extra items on drain")
        eq(out, [(span_key(i), *v) for i, v in pend.items()], "drain of pending after reprocess-all")
        q.shut_down()

    try:
        asyncio.run(go())
    finally:
        h.rmdir(d)
    return bool(classes), sorted(classes)


def subs():
    return [
        Sub("queue-model", strategy, run_queue, quick=280, thorough=5000, shards=5, setup=h.boot,
            corpus=[{"page_size": 2, "ops": [["push", 9, "p"], ["first", 10], ["restart"], ["first", 10]]}]),
        Sub("queue-model-default-page-size", strategy_large, run_queue, quick=8, thorough=150, shards=4, setup=h.boot),
        Sub("pending-error-pair", strategy_pair, run_pair, quick=150, thorough=2500, shards=3, setup=h.boot),
    ]
