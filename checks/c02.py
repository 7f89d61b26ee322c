"""C02: an abrupt kill loses at most two pages per queue, and never reorders, duplicates or resurrects."""
import asyncio
import os
import shutil

import harness as h
from harness import Sub, eq, check
from checks.c01 import span_key, _st

LEVEL = "fault_enumeration"
RULE = ("generated push/pop/keyed-pop/clear/restart histories; the on-disk files are snapshotted at EVERY SQL "
        "statement and every commit the queue issues and after every operation, each snapshot is reopened as a "
        "crash recovery and drained; non-trivial = the history issued at least one write transaction to the "
        "database while items were queued")
ASSUMPTIONS = ["process crash (the OS keeps what was written); SQLite's own journal recovery is trusted"]


def strategy():
    st = _st()
    n = st.integers(1, 12)
    op = st.one_of(
        st.tuples(st.just("push"), n), st.tuples(st.just("push"), n),
        st.tuples(st.just("pop"), st.integers(1, 12)), st.tuples(st.just("pop"), st.integers(1, 3)),
        st.tuples(st.just("pop_key"), st.integers(0, 60)),
        st.tuples(st.just("clear")),
        st.tuples(st.just("restart")),
        st.tuples(st.just("crash")), st.tuples(st.just("crash"), st.integers(0, 30)),
    )
    return st.fixed_dictionaries({"page_size": st.integers(1, 5),
                                  "ops": st.one_of(st.lists(op, min_size=1, max_size=12),
                                                   st.lists(op, min_size=6, max_size=16))})


def run_crash(case):
    from ekosis.queues.paginated_queue import PaginatedQueue
    from pydantic import BaseModel
    from sqlalchemy import event
    from sqlalchemy.engine import Engine

    class Item(BaseModel):
        n: int

    d = h.fresh_dir()
    live = os.path.join(d, "live")
    os.makedirs(live)
    gen = [0]
    ps = case["page_size"]
    path = [os.path.join(live, "q.sqlite")]
    points = []          # snapshot directories taken during the current operation
    arm = [False]
    classes = set()
    writes = [0]

    def snap():
        gen[0] += 1
        s = os.path.join(d, f"s{gen[0]}")
        os.makedirs(s)
        base = os.path.dirname(path[0])
        for f in os.listdir(base):
            shutil.copyfile(os.path.join(base, f), os.path.join(s, f))
        return s

    def on_sql(conn, cursor, statement, parameters, context, executemany):
        if arm[0] and not statement.lstrip().upper().startswith(("SELECT", "PRAGMA")):
            writes[0] += 1
            points.append(snap())

    def on_commit(conn):
        if arm[0]:
            points.append(snap())

    event.listen(Engine, "before_cursor_execute", on_sql)
    event.listen(Engine, "after_cursor_execute", on_sql)
    event.listen(Engine, "commit", on_commit)

    async def drain(q):
        out = []
        while (got := await q.pop()) is not None:
            out.append(got.n)
            check(len(out) < 10000, "drain does not end")
        return out

    def verify(recovered, before, after, what):
        """recovered must be explainable as the queue just before or just after the operation,
        minus at most the two in-memory pages."""
        union = before + [x for x in after if x not in before]
        check(len(set(recovered)) == len(recovered), lambda: f"{what}: duplicates in {recovered}")
        alien = [x for x in recovered if x not in union]
        check(not alien, lambda: f"{what}: {alien} came back although no longer queued (queue: {union})")
        order = [union.index(x) for x in recovered]
        check(order == sorted(order), lambda: f"{what}: order changed: {recovered} vs {union}")
        core = [x for x in before if x in after] if len(after) <= len(before) else before
        lost = [x for x in core if x not in recovered]
        check(len(lost) <= 2 * ps, lambda: f"{what}: lost {len(lost)} items {lost} > 2*page_size={2 * ps}")

    async def go():
        model = []
        counter = 0
        q = PaginatedQueue[Item](path[0], Item, ps)
        for op in case["ops"]:
            k = op[0]
            reps = op[1] if k in ("push", "pop") else 1
            for _ in range(reps):
                before = list(model)
                points.clear()
                arm[0] = True
                if k == "push":
                    await q.push(Item(n=counter), span_key(counter))
                    model.append(counter)
                    counter += 1
                elif k == "pop":
                    got = await q.pop()
                    want = model.pop(0) if model else None
                    eq(None if got is None else got.n, want, "pop")
                elif k == "pop_key":
                    i = op[1] % (counter + 1)
                    got = await q.pop_span_key(span_key(i))
                    eq(got is not None, i in model, "keyed pop")
                    if i in model:
                        model.remove(i)
                elif k == "clear":
                    await q.clear()
                    model.clear()
                elif k == "restart":
                    q.shut_down()
                    q = PaginatedQueue[Item](path[0], Item, ps)
                arm[0] = False
                if k != "crash":
                    pts = list(points)
                    if not pts and k in ("push", "pop") and _ < reps - 1:
                        continue     # nothing reached disk and the last repetition snapshots anyway
                    pts.append(snap())
                    for no, s in enumerate(pts):
                        r = PaginatedQueue[Item](os.path.join(s, "q.sqlite"), Item, ps)
                        rec = await drain(r)
                        r.shut_down()
                        verify(rec, before, model, f"crash during/after {op}")
                        if no < len(pts) - 1 and no % 3:
                            shutil.rmtree(s)
                            continue
                        r2 = PaginatedQueue[Item](os.path.join(s, "q.sqlite"), Item, ps)
                        eq(await drain(r2), [], "items resurrected after crash recovery was drained")
                        r2.shut_down()
                        shutil.rmtree(s)
                    if len(pts) > 1:
                        classes.add(f"crash-inside-{k}")
            if k == "crash":             # carry on from a crash: reopen a copy, abandon the old object
                s = snap()
                q = None
                path[0] = os.path.join(s, "q.sqlite")
                q = PaginatedQueue[Item](path[0], Item, ps)
                keys = await q.get_first_x_span_keys(10 ** 6)
                idx = {str(span_key(i)): i for i in range(counter)}
                check(all(x in idx for x in keys), f"unknown keys after crash: {keys}")
                rec = [idx[x] for x in keys]
                verify(rec, model, model, "crash and reopen")
                model = rec
                classes.add("continued-after-crash")
        q.shut_down()

    try:
        asyncio.run(go())
    finally:
        for name, fn in (("before_cursor_execute", on_sql), ("after_cursor_execute", on_sql), ("commit", on_commit)):
            event.remove(Engine, name, fn)
        h.rmdir(d)
    return writes[0] > 0, sorted(classes)


def subs():
    return [Sub("crash-at-every-sql-statement", strategy, run_crash, quick=55, thorough=2500, shards=6, setup=h.boot)]
