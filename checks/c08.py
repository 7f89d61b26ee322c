"""C08: a caller only ever gets the response to its own request."""
import asyncio

import harness as h
import vloop
import eko
import peers
from harness import Sub, eq, check, Violation

RULE = ("overlapping calls through one client object (persistent/transient TCP and UDS, UDP) at generated instants, "
        "some given up by their caller, against a scripted raw peer that answers promptly, late, after the time-out, "
        "with an error, not at all, or breaks the connection; oracle = every result names the request it answers, "
        "every call ends, and calls the peer answers in time succeed; non-trivial = overlapping calls, or a time-out/"
        "disconnect/abandoned call followed by another call")
ASSUMPTIONS = ["the peer answers the requests of one connection in order, each at most once",
               "calls made from one event loop"]
TIMEOUT = 2.0


def strategy():
    from hypothesis import strategies as st
    delay = st.sampled_from([0, 0, 0.4, 1.3, 2.6, 4.5])
    bad = st.sampled_from(["ok", "ok", "ok", "busy", "never", "close", "partial", "rst", "okrst", "okclose"])
    step_any = st.tuples(bad, delay)
    step_good = st.tuples(st.sampled_from(["ok", "ok", "okrst", "okclose"]), st.sampled_from([0, 0, 0.4, 1.3]))
    call = st.fixed_dictionaries({"at": st.sampled_from([0, 0, 0.1, 0.5, 1.0, 2.1, 2.3, 3.0, 5.0, 7.7]),
                                  "give_up": st.sampled_from([None, None, None, None, 0.2, 1.1])})
    return st.fixed_dictionaries({
        "client": st.sampled_from(["puds", "puds", "puds", "tuds", "ptcp", "ttcp", "udp"]),
        "max_retries": st.integers(1, 3), "heartbeat": st.sampled_from([0.7, 3.0, 1000.0]),
        "ping_delay": st.sampled_from([0, 0, 0.6]),
        "steps": st.one_of(st.lists(step_any, max_size=8), st.lists(step_good, max_size=8)),
        "calls": st.lists(call, min_size=1, max_size=7)})


async def body(case, classes):
    from pydantic import BaseModel
    from ekosis.exceptions import (ServerBusyException, CommunicationsMaxRetriesReached, CommunicationsNonRetryable)

    class Q(BaseModel):
        n: int

    class R(BaseModel):
        n: int
        text: str

    script = peers.Script([tuple(s) for s in case["steps"]], case["ping_delay"])
    kind = case["client"]
    classes.add(kind)
    # a persisted client can notice only by another attempt that its connection is gone
    good = ("ok", "okrst", "okclose") if case["client"][0] != "p" else ("ok",)
    healthy = all(a in good and d < TIMEOUT for a, d in case["steps"]) and \
        all(c["give_up"] is None for c in case["calls"])
    outcome = {}

    async with peers.peer(peers.transport(kind), script) as addr:
        client = peers.make_client(kind, addr, TIMEOUT, case["max_retries"], 0.1, case["heartbeat"])

        async def call(n):
            try:
                r = await client.send_message("x.y", Q(n=n), R, eko.sk(n))
            except ServerBusyException as e:
                check(f"problem-{n}-" in str(e), lambda: f"request {n} received the error response {e}")
                return "busy"
            except (CommunicationsMaxRetriesReached, CommunicationsNonRetryable) as e:
                return f"failed {e}"
            except asyncio.CancelledError:
                raise
            except Exception as e:
                raise Violation(f"request {n}: unexpected {type(e).__name__}: {e}") from e
            check(isinstance(r, R), f"request {n} returned {r!r}")
            eq((r.n, r.text), (n, f"answer-{n}-"), f"response delivered to request {n}")
            return "ok"

        async def one(n, spec):
            await asyncio.sleep(spec["at"])
            if spec["give_up"] is None:
                outcome[n] = await call(n)
            else:
                try:
                    outcome[n] = await asyncio.wait_for(call(n), spec["give_up"])
                except (TimeoutError, asyncio.TimeoutError):
                    outcome[n] = "abandoned"

        try:
            await asyncio.wait_for(asyncio.gather(*[one(i, c) for i, c in enumerate(case["calls"])]), 300)
        except (TimeoutError, asyncio.TimeoutError):
            raise Violation(f"calls never returned: {sorted(set(range(len(case['calls']))) - set(outcome))}")
        for n, o in outcome.items():
            if healthy:
                eq(o, "ok", f"request {n}, answered by the peer within the time-out, ended as")
            if o == "ok":
                check(any(a[0] == n and a[1].startswith("ok") for a in script.arrivals), f"request {n} succeeded without being served")
        # afterwards the peer is healthy: the client recovers
        script.steps = []
        await asyncio.sleep(7)
        res = []
        for k in range(2):
            n = 100 + k
            try:
                res.append(await asyncio.wait_for(call(n), 60))
            except (TimeoutError, asyncio.TimeoutError):
                raise Violation(f"client hangs against a healthy peer after {case['steps']}")
        check(res[1] == "ok" and (res[0] == "ok" or case["max_retries"] == 1),
              lambda: f"client does not recover with a healthy peer: {res}")
        oks = [n for n, o in outcome.items() if o == "ok"]
        for n in oks:
            cnt = sum(1 for a in script.arrivals if a[0] == n)
            check(cnt <= case["max_retries"], f"request {n} reached the peer {cnt} times, limit {case['max_retries']}")
        ats = sorted(c["at"] for c in case["calls"])
        if len(ats) != len(set(ats)):
            classes.add("overlap")
        if any(o != "ok" for o in outcome.values()):
            classes.add("failed-call")
        if "abandoned" in outcome.values():
            classes.add("abandoned")
        if any(a != "ok" or d > TIMEOUT for a, d in case["steps"]):
            classes.add("peer-trouble")


def run(case):
    classes = set()
    grace = 0 if peers.transport(case["client"]) == "uds" else 0.01
    vloop.run(lambda: body(case, classes), grace=grace, patch_time=True)
    return bool(classes & {"overlap", "abandoned", "peer-trouble"}), sorted(classes)


def subs():
    return [Sub("correlation", strategy, run, quick=450, thorough=8000, shards=7, setup=h.boot)]
