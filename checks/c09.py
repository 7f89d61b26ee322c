"""C09: every way a call can fail surfaces as its documented exception, within the configured attempts."""
import asyncio

import harness as h
import vloop
import eko
import peers
from harness import Sub, eq, check, Violation

RULE = ("sequences of calls through each client kind against a scripted raw peer (success, every status code, time-outs, "
        "closed/aborted/truncated connections) that is also taken down and brought back between calls; oracle = "
        "reference model of the retry loop giving the permitted outcome class, the number of attempts the peer may "
        "see, and the spacing of attempts; non-trivial = at least one attempt that is not an immediate success")
ASSUMPTIONS = ["max_retries >= 1", "an aborted connection may be seen as reset or as end of stream"]
TIMEOUT = 2.0
STATUSES = {100: "ProtocolParsingException", 200: "ClientDeniedException", 300: "PydanticValidationException",
            400: "RouteKeyUnknownException", 500: "ServerBusyException", 600: "ProcessingException",
            999: "UnhandledException"}


def strategy():
    from hypothesis import strategies as st
    step = st.one_of(
        st.tuples(st.just("ok"), st.sampled_from([0, 0.5, 1.7, 2.4, 5.0])),
        st.tuples(st.sampled_from(["okstr", "okextra", "badmissing", "badtype", "badlist", "badnull", "garbage", "badutf8"]), st.just(0)),
        st.tuples(st.sampled_from(["never", "close", "partial", "rst"]), st.sampled_from([0, 0.5])),
        st.tuples(st.sampled_from([100, 200, 300, 400, 500, 600, 999, 1, 99, 501, 601, 700, 998, 1000, -3, 2 ** 40]), st.sampled_from([0, 0.5])))
    call = st.fixed_dictionaries({"steps": st.lists(step, max_size=4), "up": st.sampled_from([True, True, True, False]),
                                  "span": st.booleans()})
    return st.fixed_dictionaries({
        "client": st.sampled_from(["puds", "puds", "tuds", "tuds", "ptcp", "ttcp", "udp"]),
        "max_retries": st.integers(1, 4), "retry_delay": st.sampled_from([0.1, 0.7]),
        "calls": st.lists(call, min_size=1, max_size=4)})


def expect(kind, steps, budget):
    """-> (set of outcome names, attempts the peer sees)"""
    if budget == 0:
        return [({"CommunicationsMaxRetriesReached"}, 0)]
    out = []

    def go(i, left):
        act, delay = steps[i] if i < len(steps) else ("ok", 0)
        seen = i + 1
        if isinstance(act, int):
            out.append(({STATUSES.get(act, "UnknownStatusCodeException")}, seen))
            return
        if act in ("okstr", "okextra") or act == "ok" and delay < TIMEOUT:
            out.append(({"ok"}, seen))
            return
        if act == "garbage" or str(act).startswith("bad"):            # a success whose data does not fit the declared type: never returned as if it did
            out.append(({"REFUSED", "CommunicationsNonRetryable"} if act == "badutf8" else {"REFUSED"}, seen))
            if act != "badutf8" or kind != "udp":
                return
        retry = act in ("ok", "never") or kind[0] == "p" or kind == "udp"
        nonretry = act in ("close", "partial", "rst") and kind[0] == "t"
        if nonretry:
            out.append(({"CommunicationsNonRetryable"}, seen))
        if retry or (act == "rst"):
            if left == 1:
                out.append(({"CommunicationsMaxRetriesReached"}, seen))
            else:
                go(i + 1, left - 1)
    go(0, budget)
    return out


async def body(case, classes):
    from pydantic import BaseModel
    import ekosis.exceptions as ex

    class Q(BaseModel):
        n: int

    class R(BaseModel):
        n: int
        text: str

    kind = case["client"]
    tr = peers.transport(kind)
    classes.add(kind)
    mr = case["max_retries"]
    loop = asyncio.get_running_loop()
    times = []

    class S(peers.Script):
        def next(self, req):
            times.append(loop.time())
            return super().next(req)

    # fixed address so the peer can go away and come back
    script = S([])
    d = None
    if tr == "uds":
        import os
        d = h.fresh_dir("c9")
        addr = os.path.join(d, "s")
    else:
        import socket
        sk = socket.socket(socket.AF_INET, socket.SOCK_DGRAM if tr == "udp" else socket.SOCK_STREAM)
        sk.bind((h.loop_ip(), 0))
        addr = sk.getsockname()[:2]
        sk.close()
    srv, tasks = None, set()

    async def cb(r, w):
        tasks.add(asyncio.current_task())
        await peers._stream(script, r, w)

    async def up():
        nonlocal srv
        if tr == "uds":
            srv = await asyncio.start_unix_server(cb, addr)
        elif tr == "tcp":
            srv = await asyncio.start_server(cb, *addr)
        else:
            srv, _ = await loop.create_datagram_endpoint(lambda: peers._D(script), local_addr=addr)

    async def down():
        nonlocal srv
        srv.close()
        srv = None
        for t in tasks:
            t.cancel()
        tasks.clear()
        for _ in range(5):
            await asyncio.sleep(0)
        if tr == "uds":
            import os
            if os.path.exists(addr):
                os.unlink(addr)

    client = peers.make_client(kind, addr, TIMEOUT, mr, case["retry_delay"], 1e10)
    stale = False
    spans = set()
    try:
        for ci, c in enumerate(case["calls"]):
            if c["up"] and srv is None:
                await up()
            if not c["up"] and srv is not None:
                await down()
                stale = True
            script.steps = [tuple(s) for s in c["steps"]]
            script.arrivals, script.raw = [], []
            times.clear()
            t0 = loop.time()
            try:
                r = await asyncio.wait_for(client.send_message("a.b", Q(n=ci), R, eko.sk(ci) if c["span"] else None), 300)
                got, err = "ok", None
                check(type(r) is R, lambda: f"{c}: the result is a {type(r)}, not the declared response type")
                eq((r.n, r.text), (ci, f"answer-{ci}-"), "payload")
            except (TimeoutError, asyncio.TimeoutError) as e:
                raise Violation(f"call {c} did not end within 300s (raised {e!r})")
            except Exception as e:
                got, err = type(e).__name__, e
                if isinstance(e, (ValueError, TypeError)) and not isinstance(e, ex.ResponseException):
                    got = "REFUSED"
            what = f"call {ci} {c} via {kind} (max_retries {mr})"
            n = len(script.arrivals)
            if c["up"]:
                options = expect(kind, script.steps, mr)
                if stale and kind[0] == "p":
                    options += expect(kind, script.steps, mr - 1)
                check(any(got in names and n == seen for names, seen in options),
                      lambda: f"{what}: ended as {got} ({err}) after {n} attempts at the peer; "
                              f"permitted: {[(sorted(a), b) for a, b in options]}")
                if got in STATUSES.values() or got == "UnknownStatusCodeException":
                    check(f"problem-{ci}-" in str(err), lambda: f"{what}: the peer's message is missing in {err}")
                    check(isinstance(err, ex.ResponseException), f"{what}: {got} is not a response exception")
                for a, b in zip(times, times[1:]):
                    check(b - a >= case["retry_delay"] - 1e-6, f"{what}: attempts only {b - a}s apart")
                    check(b - a <= case["retry_delay"] + TIMEOUT + 0.05, f"{what}: attempts {b - a}s apart")
                # the delay separates two attempts: none is due before the first or after the last one
                check(loop.time() - t0 <= mr * TIMEOUT + (mr - 1) * case["retry_delay"] + 0.05,
                      f"{what}: took {loop.time() - t0}s")
                if times:
                    lastd = script.steps[n - 1] if n <= len(script.steps) else ("ok", 0)
                    check(loop.time() - times[-1] <= (min(TIMEOUT, lastd[1]) if got == "ok" or kind != "udp" and lastd[0] != "never" else TIMEOUT) + 0.05,
                          f"{what}: ended {loop.time() - times[-1]}s after its last attempt began ({lastd})")
                for req in script.raw:
                    eq(req["route_key"], "a.b", what)
                    eq(req["data"], {"n": ci}, what)
                    if c["span"]:
                        eq(req["span_key"], eko.sk_dict(ci), f"{what}: span key on the wire")
                keys = {(q["span_key"]["trace_id"], q["span_key"]["span_id"]) for q in script.raw}
                check(len(keys) <= 1, f"{what}: retries of one request used different span keys {keys}")
                if not c["span"]:
                    check(not (keys & spans), f"{what}: generated span key reused")
                    spans |= keys
                stale = False
                if got != "ok" or n > 1:
                    classes.add("trouble")
            else:
                classes.add("peer-down")
                want = {"CommunicationsMaxRetriesReached", "CommunicationsNonRetryable"} if (kind[0] == "p" and mr == 1) or \
                    kind == "udp" else {"CommunicationsNonRetryable"}
                check(got in want, lambda: f"{what}: peer not reachable, ended as {got} ({err})")
                stale = True
    finally:
        if srv is not None:
            await down()
        if d:
            h.rmdir(d)


def run(case):
    classes = set()
    grace = 0 if peers.transport(case["client"]) == "uds" else 0.01
    vloop.run(lambda: body(case, classes), grace=grace, patch_time=True)
    return bool(classes & {"trouble", "peer-down"}), sorted(classes)


def subs():
    return [Sub("failure-mapping", strategy, run, quick=350, thorough=6000, shards=6, setup=h.boot)]
