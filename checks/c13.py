"""C13: reported statistics are the truth: call counts, percentiles, queue sizes, custom values, per period and history."""
import asyncio
import json
import math
import os

import harness as h
import forked
from harness import Sub, eq, check

RULE = ("a whole application on virtual time in a forked process: generated route names, overlapping calls with scripted "
        "durations and outcomes, buffered requests with pauses, custom statistics, gather period and history length by "
        "environment or file, statistics queried at generated instants; oracle = the journal of calls, sliced by period; "
        "period-edges: calls and increments that land "
        "0 to 9 turns of the loop after the very instant a period ends, each must be in exactly one period; "
        "non-trivial = calls in two or more periods, and a query that saw a non-zero count; or two or more edge events")
ASSUMPTIONS = ["route keys and custom keys do not extend one another through the reserved words call_count, p95, p99",
               "a request counts in the period in which it is answered", "failed requests are not counted as calls"]
ROUTES = ["a", "a.b", "x.y.z", "one.two.three.four", "\u00e9.\u00fc", "plain_name", "x.y", "with space", ""]
CUSTOM = ["solo", "custom.a", "custom.b.c", "deep.er.still.more"]


def strategy():
    from hypothesis import strategies as st
    tenth = lambda lo, hi: st.integers(lo, hi).map(lambda k: k / 10)
    dur = st.one_of(tenth(0, 9), tenth(0, 60), st.just(0))
    call = st.tuples(st.just("call"), st.integers(0, 3), dur, st.sampled_from(["ok", "ok", "ok", "ok", "app", "raise", "bad"]))
    burst = st.tuples(st.just("burst"), st.integers(0, 3), st.lists(tenth(0, 40), min_size=2, max_size=45))
    flood = st.tuples(st.just("flood"), st.integers(0, 3), st.sampled_from([60, 110, 150, 260]), st.sampled_from([0, 1, 2, 6, 15]))
    step = st.one_of(call, call, burst, flood, st.tuples(st.just("wait"), tenth(1, 40)), st.tuples(st.just("wait"), tenth(10, 120)),
                     st.tuples(st.just("stat"), st.sampled_from(["current", "gathered", "full"])),
                     st.tuples(st.just("stat"), st.sampled_from(["current", "gathered", "full"])),
                     st.tuples(st.just("set"), st.integers(0, 3), st.integers(-5, 20)),
                     st.tuples(st.sampled_from(["inc", "dec"]), st.integers(0, 3), st.sampled_from([None, 1, 2.5, 7])),
                     st.tuples(st.just("buf"), st.sampled_from(["ok", "fail"]), st.integers(1, 4)),
                     st.tuples(st.just("send"), st.integers(1, 4)), st.tuples(st.just("pause"), st.booleans()))
    return st.fixed_dictionaries({
        "routes": st.lists(st.sampled_from(ROUTES), min_size=2, max_size=4, unique=True), "gp": st.sampled_from([1, 2, 3, 5, 5, 9]),
        "hl": st.sampled_from([0, 1, 2, 3, 12]), "via": st.sampled_from(["env", "file"]),
        "steps": st.lists(step, min_size=8, max_size=24)})


def edge_strategy():
    from hypothesis import strategies as st
    edge = st.tuples(st.just("edge"), st.integers(0, 3), st.integers(1, 4), st.integers(0, 9))
    edge_inc = st.tuples(st.just("edgeinc"), st.integers(0, 3), st.integers(1, 4), st.integers(0, 9))
    step = st.one_of(edge, edge, edge, edge_inc, st.tuples(st.just("wait"), st.sampled_from([0.2, 0.5, 1.0])))
    return st.fixed_dictionaries({
        "routes": st.lists(st.sampled_from(ROUTES), min_size=2, max_size=4, unique=True), "gp": st.sampled_from([1, 2, 3]),
        "hl": st.just(200), "via": st.just("env"), "steps": st.lists(step, min_size=3, max_size=24)})


def program(case):
    import vapp
    vapp.install()
    import eko
    from pydantic import BaseModel
    from ekosis.requests.endpoint import endpoint
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.exceptions.application_level import ApplicationProcessingException
    from ekosis.state_keepers.statistics_keeper import StatisticsKeeper

    journal = []

    class Q(BaseModel):
        d: float
        o: str
        turns: int = 0

    def make(route):
        @endpoint(route, Q)
        async def work(dto, span_key):
            if dto.o == "edge":             # answer some turns of the loop after the instant dto.d
                await asyncio.sleep(max(0, dto.d - vapp.now()))
                for _ in range(dto.turns):
                    await asyncio.sleep(0)
                return Q(d=0, o="done")
            await asyncio.sleep(dto.d)
            if dto.o == "app":
                raise ApplicationProcessingException("no")
            if dto.o == "raise":
                raise KeyError("oops")
            return Q(d=dto.d, o="done")
    for r in case["routes"]:
        make(r)

    @buffered_endpoint("buf.fer", Q, page_size=3, max_retries=1)
    async def buf(dto, span_key):
        journal.append(["processed", vapp.now(), dto.o])
        return dto.o == "ok"

    from ekosis.clients import TransientUDSClient
    from ekosis.sending.buffered_sender import buffered_sender

    @buffered_sender(TransientUDSClient("/nonexistent/verif.sock", 1), "out.going", Q, page_size=2, max_retries=5)
    async def outgoing(o):
        return Q(d=0, o=o)

    async def driver(app):
        t0 = vapp.now()
        await asyncio.sleep(0.07)
        path = os.path.join(os.environ["C13_DIR"], "s")
        keeper = StatisticsKeeper()
        tasks, n = [], 0
        ctl = await eko.Conn(path).open()
        r = await ctl.rpc("eco.buffered_sender.send_process.pause", {"queue_route_key": "out.going"}, eko.sk_dict(5, 5))
        eq(r["status"], 0, "pausing the buffered sender")

        async def one(route, d, o, i, turns=0):
            start = vapp.now()
            c = await eko.Conn(path).open()
            r = await c.rpc(route, {"d": d, "o": o, "turns": turns} if o != "bad" else {"zz": 1}, eko.sk_dict(i))
            eq(r["status"], {"ok": 0, "edge": 0, "app": 600, "raise": 999, "bad": 300}[o], "call status")
            c.close()
            journal.append(["call", vapp.now(), route, vapp.now() - start, r["status"] == 0])

        for s in case["steps"]:
            n += 1
            if s[0] == "call":
                tasks.append(asyncio.create_task(one(case["routes"][s[1] % len(case["routes"])], s[2], s[3], n)))
            elif s[0] == "burst":
                for d in s[2]:
                    n += 1
                    tasks.append(asyncio.create_task(one(case["routes"][s[1] % len(case["routes"])], d, "ok", n)))
            elif s[0] == "flood":
                route = case["routes"][s[1] % len(case["routes"])]
                for i in range(s[2]):
                    n += 1
                    start, d = vapp.now(), 0.02 if i < s[3] else 0
                    r = await ctl.rpc(route, {"d": d, "o": "ok"}, eko.sk_dict(n))
                    eq(r["status"], 0, "call status")
                    journal.append(["call", vapp.now(), route, vapp.now() - start, True])
            elif s[0] in ("edge", "edgeinc"):
                m = math.floor((vapp.now() - t0) / case["gp"]) + s[2]
                at = t0 + m * case["gp"]
                if s[0] == "edge":
                    tasks.append(asyncio.create_task(one(case["routes"][s[1] % len(case["routes"])], at, "edge", n, s[3])))
                else:
                    async def inc_at(key, at, turns):
                        await asyncio.sleep(max(0, at - vapp.now()))
                        for _ in range(turns):
                            await asyncio.sleep(0)
                        keeper.increment(key)
                        journal.append(["custom", vapp.now(), key, "add", 1])
                    tasks.append(asyncio.create_task(inc_at(CUSTOM[s[1]], at, s[3])))
            elif s[0] == "wait":
                await asyncio.sleep(s[1])
            elif s[0] == "stat":
                r = await ctl.rpc("eco.statistics.get", {"type": s[1]}, eko.sk_dict(n, 9))
                eq(r["status"], 0, "statistics status")
                journal.append(["stat", vapp.now(), s[1], r["data"]["statistics"]])
            elif s[0] == "set":
                keeper.set_statistic_value(CUSTOM[s[1]], s[2])
                journal.append(["custom", vapp.now(), CUSTOM[s[1]], "set", s[2]])
            elif s[0] in ("inc", "dec"):
                f = keeper.increment if s[0] == "inc" else keeper.decrement
                f(CUSTOM[s[1]]) if s[2] is None else f(CUSTOM[s[1]], s[2])
                journal.append(["custom", vapp.now(), CUSTOM[s[1]], "add", (1 if s[2] is None else s[2]) * (1 if s[0] == "inc" else -1)])
            elif s[0] == "buf":
                for _ in range(s[2]):
                    n += 1
                    r = await ctl.rpc("buf.fer", {"d": 0, "o": s[1]}, eko.sk_dict(n))
                    eq(r["status"], 0, "buffered status")
                    journal.append(["pushed", vapp.now(), s[1]])
            elif s[0] == "send":
                for _ in range(s[1]):
                    await outgoing("x")
                    journal.append(["sent", vapp.now()])
            elif s[0] == "pause":
                r = await ctl.rpc("eco.buffered_handler.processing." + ("pause" if s[1] else "unpause"), {"queue_route_key": "buf.fer"}, eko.sk_dict(n))
                eq(r["status"], 0, "pause status")
        await asyncio.sleep(0.2)
        for _ in range(2):
            for k in ("full", "current", "gathered"):
                r = await ctl.rpc("eco.statistics.get", {"type": k}, eko.sk_dict(0, 9))
                journal.append(["stat", vapp.now(), k, r["data"]["statistics"]])
            for t in tasks:
                await t
            await asyncio.sleep(case["gp"])
        ctl.close()
        return {"t0": t0, "journal": journal, "base": vapp.BASE}

    return vapp.run(driver)


def dig(d, key):
    for k in key.split("."):
        if not isinstance(d, dict) or k not in d:
            return None
        d = d[k]
    return d


def near(a, b, tol=1e-6):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= tol


def judge(case, res):
    t0, journal, base, gp = res["t0"], res["journal"], res["base"], case["gp"]
    classes = set()
    period = lambda t: int(math.floor((t - t0) / gp + 1e-9))
    seen_nonzero = False

    def entry(e, lo, hi, at, own, what):
        """e: statistics covering journal events with lo < t <= hi, taken at `at`; own: the asking call itself is not settled."""
        nonlocal seen_nonzero
        eq(e.get("application"), {"name": "stat_app", "instance": "3"}, f"{what}: application")
        check(near(e.get("timestamp"), base + at, 0.5), lambda: f"{what}: timestamp {e.get('timestamp')} expected {base + at}")
        check(near(e.get("uptime"), at - t0, 1.01), lambda: f"{what}: uptime {e.get('uptime')} expected {at - t0}")
        inside = [j for j in journal if lo < j[1] <= hi]
        for r in [*case["routes"], "buf.fer", "eco.statistics.get"]:
            if r == "buf.fer":
                durs = [0.0] * len([j for j in inside if j[0] == "pushed"])
            elif r == "eco.statistics.get":
                durs = [0.0] * len([j for j in inside if j[0] == "stat"])
            else:
                durs = [j[3] for j in inside if j[0] == "call" and j[2] == r and j[4]]
            x = dig(e, f"endpoint_data.{r}")
            check(isinstance(x, dict), lambda: f"{what}: endpoint [{r}] is not reported")
            n = len(durs)
            ok = (n, n - 1) if own and r == "eco.statistics.get" else (n,)
            check(x.get("call_count") in ok, lambda: f"{what}: call_count of [{r}] {x.get('call_count')}, calls answered {n}")
            if r not in ("eco.statistics.get",):
                seen_nonzero |= n > 0
                d = sorted(durs)
                for name, q in (("p95", 0.95), ("p99", 0.99)):
                    v = x.get(name)
                    if n == 0:
                        eq(v, -1, f"{what}: {name} of [{r}] without calls")
                        continue
                    lo_i = int(math.floor(q * (n - 1) + 1e-9))
                    hi_i = min(n - 1, int(math.ceil(q * (n + 1) - 1e-9)) - 1)
                    check(isinstance(v, (int, float)) and d[lo_i] - 1e-6 <= v <= d[hi_i] + 1e-6,
                          lambda: f"{what}: {name} of [{r}] is {v}, durations {d}")
                if n >= 20:
                    classes.add("many-calls")
                check(x["p95"] <= x["p99"] + 1e-9, lambda: f"{what}: p95 > p99 for [{r}]")
        upto = [j for j in journal if j[1] <= hi]
        pushed = len([j for j in upto if j[0] == "pushed"])
        done = [j for j in upto if j[0] == "processed"]
        errs = len([j for j in done if j[2] == "fail"])
        eq(dig(e, "buffered_endpoint_sizes.buf.fer"), {"pending": pushed - len(done), "error": errs}, f"{what}: queue sizes")
        eq(dig(e, "buffered_sender_sizes.out.going"), {"pending": len([j for j in upto if j[0] == "sent"]), "error": 0},
           f"{what}: buffered sender queue sizes")
        if pushed - len(done) or errs:
            classes.add("queue-sizes")
        vals = {}
        for j in journal:
            if j[0] == "custom" and j[1] <= hi:
                if j[1] <= lo:
                    vals[j[2]] = 0
                elif j[3] == "set":
                    vals[j[2]] = j[4]
                else:
                    vals[j[2]] = vals.get(j[2], 0) + j[4]
        for k in CUSTOM:
            got = dig(e, k)
            if k in vals:
                check(near(got, vals[k]), lambda: f"{what}: custom statistic {k} is {got}, expected {vals[k]}")
                classes.add("custom")
            else:
                check(got is None, lambda: f"{what}: custom statistic {k} never set, reported {got}")

    for idx, j in enumerate(journal):
        if j[0] != "stat":
            continue
        t, kind, st = j[1], j[2], j[3]
        done = period(t)      # number of completed periods
        if kind == "current":
            check(isinstance(st, dict), f"current statistics are {type(st)}")
            # events at this same instant that were journalled after the query do not count: times are made unique by order
            same = [x for x in journal[idx + 1:] if x[1] == t]
            saved = [x[1] for x in same]
            for x in same:
                x[1] = t + 1e-7
            entry(st, t0 + done * gp, t, t, True, f"current at {t - t0:.2f}s")
            for x, s in zip(same, saved):
                x[1] = s
        elif kind == "gathered":
            if done == 0 or case["hl"] == 0:
                eq(st, {}, "gathered statistics before the first period ended")
            else:
                entry(st, t0 + (done - 1) * gp, t0 + done * gp, t0 + done * gp, False, f"gathered at {t - t0:.2f}s")
                classes.add("gathered")
        else:
            check(isinstance(st, list), "full statistics are not a list")
            eq(len(st), min(done, case["hl"]), f"number of periods in the history at {t - t0:.2f}s (gather period {gp})")
            for k, e in enumerate(st):
                end = done - k
                entry(e, t0 + (end - 1) * gp, t0 + end * gp, t0 + end * gp, False, f"history[{k}] at {t - t0:.2f}s")
            if len(st) > 1:
                classes.add("history")
            if done > case["hl"]:
                classes.add("trimmed")
    periods = {period(j[1]) for j in journal if j[0] == "call" and j[4]}
    return len(periods) >= 2 and seen_nonzero, sorted(classes)


def judge_edges(case, res):
    """Every call and every increment is in the statistics of exactly one period."""
    journal = res["journal"]
    full, current = [[j[3] for j in journal if j[0] == "stat" and j[2] == k][-1] for k in ("full", "current")]
    entries = [*full, current]
    check(len(full) >= 1, "no period was gathered")
    for r in case["routes"]:
        want = len([j for j in journal if j[0] == "call" and j[2] == r])
        got = [dig(e, f"endpoint_data.{r}.call_count") for e in entries]
        eq(sum(got), want, f"calls of [{r}] over all periods {got}")
        for e in entries:
            x = dig(e, f"endpoint_data.{r}")
            check((x["call_count"] == 0) == (x["p95"] == -1) == (x["p99"] == -1), lambda: f"[{r}]: {x}")
    for k in CUSTOM:
        want = sum(j[4] for j in journal if j[0] == "custom" and j[2] == k)
        got = [dig(e, k) or 0 for e in entries]
        eq(sum(got), want, f"increments of {k} over all periods {got}")
    n = len([s for s in case["steps"] if s[0] != "wait"])
    return n >= 2, [f"turns-{s[3]}" for s in case["steps"] if s[0] == "edge"][:6]


def run_edges(case):
    return run(case, judge_edges)


def run(case, judge=judge):
    d = h.fresh_dir()
    env = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d, "C13_DIR": d, "ECOENV_UDS_STAT_APP_3": f"{d}/s"}
    argv = ["stat_app.py", "-i", "3", "-lfo"]
    if case["via"] == "env":
        env.update({"ECOENV_STAT_GP": str(case["gp"]), "ECOENV_STAT_HL": str(case["hl"])})
    else:
        with open(os.path.join(d, "conf.json"), "w") as f:
            json.dump({"instances": {"3": {"uds": {"directory": d, "socket_file_name": "s"}, "lock_directory": d, "buffer_directory": d,
                                           "logging": {"file_logging": {"directory": d}},
                                           "stats_keeper": {"gather_period": case["gp"], "history_length": case["hl"]}}}}, f)
        argv += ["-c", os.path.join(d, "conf.json")]
    try:
        def child():
            import logging
            logging.disable(logging.CRITICAL)
            return program(case)
        res = forked.run(child, argv, env, timeout=50)
        return judge(case, res)
    finally:
        h.rmdir(d)


def subs():
    return [Sub("stat-app", strategy, run, quick=80, thorough=1500, shards=7, setup=forked.preload),
            Sub("period-edges", edge_strategy, run_edges, quick=60, thorough=900, shards=2, setup=forked.preload)]
