"""C21: the reported error states are exactly the errors raised and not yet cleared."""
import asyncio

import harness as h
import eko
import vloop
from harness import Sub, eq, check

RULE = ("histories of raising and clearing (all, some, none, too many, a negative number, unknown ids, any letter case) through the list object and over "
        "the wire, interleaved by concurrent workers; oracle = a counter per upper-cased id, the whole list compared after every step; non-trivial = "
        "something is cleared while set and something else stays set")
ASSUMPTIONS = ["ids that differ only in letter case are the same error", "the description is the one given when the error was first raised",
               "a request to clear a negative number may be refused, but never raises a count"]
IDS = ["disk", "DISK", "Disk", "net", "net.down", "a b", "stra\u00dfe", "STRASSE", "\u0131d", "", "0", "x" * 40]


def strategy():
    from hypothesis import strategies as st
    i = st.one_of(st.integers(0, 4), st.integers(0, len(IDS) - 1))
    n = st.one_of(st.integers(0, 4), st.integers(-3, 12), st.sampled_from([10 ** 9, 100, 299, 300, 1199]))
    op = st.one_of(st.tuples(st.just("inc"), i, st.integers(0, 2)), st.tuples(st.just("inc"), i, st.integers(0, 2)),
                   st.tuples(st.just("burst"), i, st.one_of(st.integers(2, 9), st.integers(2, 9), st.sampled_from([40, 300, 1200]))),
                   st.tuples(st.just("some"), i, n), st.tuples(st.just("all"), i), st.tuples(st.just("wire"), i, n), st.tuples(st.just("wire"), i, n),
                   st.tuples(st.just("wire-bad"), i), st.tuples(st.just("get")))
    return st.lists(op, min_size=5, max_size=25)


def run(case):
    return vloop.run(lambda: _run(case))


async def _run(ops):
    from ekosis.state_keepers.error_state_list import ErrorStateList
    import ekosis.standard_endpoints.errors  # noqa
    L = ErrorStateList()
    tag = eko.uniq("t") + "_"
    for s in list(L.get_error_states()):
        L.clear_all(s.get_id())
    model, desc = {}, {}
    classes, nontrivial, n_span = set(), False, [0]

    def ident(i):
        return tag + IDS[i]

    def want():
        return sorted((k, desc[k], c) for k, c in model.items() if c > 0)

    def flat(errors):
        return sorted((e["error_id"], e["description"], e["count"]) for e in errors)

    async with eko.uds_server() as path:
        c = eko.Conn(path)

        async def rpc(route, data):
            n_span[0] += 1
            return await c.rpc(route, data, eko.sk_dict(n_span[0]))

        for n, op in enumerate(ops):
            what = f"step {n} {op}"
            key = ident(op[1]).upper() if len(op) > 1 else None
            before = dict(model)
            if op[0] in ("inc", "burst"):
                for k in range(op[2] if op[0] == "burst" else 1):
                    d = f"description {op[2]} {k}"
                    L.increment(ident(op[1]), d)
                    desc.setdefault(key, d)
                    model[key] = model.get(key, 0) + 1
            elif op[0] == "some":
                try:
                    L.clear_some(ident(op[1]), op[2])
                except ValueError:
                    check(op[2] < 0, f"{what}: refused")
                if key in model:
                    model[key] = max(0, model[key] - max(0, op[2]))
                classes.add("unknown" if key not in model else "negative" if op[2] < 0 else "some")
            elif op[0] == "all":
                L.clear_all(ident(op[1]))
                if key in model:
                    model[key] = 0
            elif op[0] == "wire":
                r = await rpc("eco.error_states.clear", {"error_id": ident(op[1]), "count": op[2]})
                if key in model:
                    model[key] = 0 if op[2] == 0 else max(0, model[key] - max(0, op[2]))
                check(r["status"] == 0 or op[2] < 0, lambda: f"{what}: {r}")
                if r["status"] == 0:
                    eq(flat(r["data"]["errors"]), want(), f"{what}: response")
                classes.add("wire-all" if op[2] == 0 else "wire-negative" if op[2] < 0 else "wire-some")
            elif op[0] == "wire-bad":
                r = await rpc("eco.error_states.clear", {"error_id": ident(op[1])})
                check(r["status"] != 0, lambda: f"{what}: a request without a count was accepted: {r}")
            if op[0] in ("some", "all", "wire") and before.get(key, 0) > model.get(key, 0) and want():
                nontrivial = True
            r = await rpc("eco.error_states.get", {})
            eq(r["status"], 0, f"{what}: status of eco.error_states.get")
            eq(flat(r["data"]["errors"]), want(), f"after {what}: eco.error_states.get")
            eq(sorted((s.get_id(), s.get_description(), s.get_error_count()) for s in L.get_error_states()), want(), f"after {what}: listed states")
            import json
            eq(flat(json.loads(L.to_json())), want(), f"after {what}: to_json")
            for i in range(len(IDS)):
                eq(L.has_error_id(ident(i)), ident(i).upper() in model, f"after {what}: has_error_id({ident(i)!r})")
        c.close()
    return nontrivial, sorted(classes)


def subs():
    return [Sub("error-states", strategy, run, quick=400, thorough=8000, shards=6, setup=h.boot)]
