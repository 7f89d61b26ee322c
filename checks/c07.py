"""C07: one request line in, exactly one well-formed response out; no input takes the server down."""
import asyncio
import json

import harness as h
import vloop
import eko
from harness import Sub, eq, check, Violation

RULE = ("scripts of messages (valid requests to endpoints that succeed, fail, raise or return unserialisable data; "
        "mutated requests; arbitrary bytes; odd encodings; deep nesting; oversize lines; abrupt disconnects), sent in "
        "generated chunkings and pipelinings over several connections to real TCP/UDS servers and as datagrams to a "
        "real UDP server; oracle = independent classifier of each line giving the permitted status, the echoed span "
        "key and the payload; non-trivial = at least one message that is not a plain valid request, or pipelined or "
        "chunked input")
ASSUMPTIONS = ["lines longer than the stream limit (64 KiB) may be answered with an error or a closed connection",
               "datagrams without a final newline are ignored", "UDP responses fit one datagram"]


def strategies():
    from hypothesis import strategies as st
    text = st.text(st.characters(blacklist_categories=("Cs",)), max_size=8)
    scal = st.one_of(st.none(), st.booleans(), st.integers(-2 ** 70, 2 ** 70),
                     st.floats(allow_nan=False, allow_infinity=False), text)
    js = st.recursive(scal, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(text, c, max_size=3)),
                      max_leaves=6)
    junk = st.one_of(js, st.sampled_from(["<SURR>", "<SURRKEY>", "<NAN>", "<INF>", "<DEEP300>", "<DEEP5000>", "<BIGINT>"]))
    msg = st.one_of(
        st.tuples(st.just("echo"), js),
        st.tuples(st.just("typed"), st.integers(-5, 5), text),
        st.tuples(st.just("slow"), js, st.sampled_from([-2, 0.5, 3.0])),
        st.tuples(st.just("appfail"), text),
        st.tuples(st.just("crash"), st.sampled_from(["RuntimeError", "KeyError", "ValueError", "UnicodeDecodeError",
                                                     "JSON", "Timeout", "ConnectionReset", "Surrogate", "OSError", "Custom", "StopAsync",
                                                     "Recursion", "Memory", "Group", "Blank"])),
        st.tuples(st.just("big"), st.sampled_from([900, 4000, 8200, 17000, 33000, 55000])),
        st.tuples(st.just("grow"), st.sampled_from([2000, 9000, 20000, 60000, 70000, 300000])),
        st.tuples(st.just("badresp"), st.sampled_from(["surrogate", "object", "deep"])),
        st.tuples(st.just("unknown"), text),
        st.tuples(st.just("weird"), junk),                 # echo with values JSON cannot carry cleanly
        st.tuples(st.just("baddata"), junk),               # typed endpoint with arbitrary data
        st.tuples(st.just("mutate"), st.sampled_from(["route_key", "span_key", "data"]),
                  st.one_of(st.just("<DROP>"), junk)),
        st.tuples(st.just("mutate_span"), st.sampled_from(["trace_id", "span_id"]), st.one_of(st.just("<DROP>"), junk)),
        st.tuples(st.just("extra"), text, js),
        st.tuples(st.just("json"), junk),                  # any JSON value as the whole line
        st.tuples(st.just("bytes"), st.binary(max_size=12).map(lambda b: b.replace(b"\n", b"").hex())),
        st.tuples(st.just("trunc"), st.integers(1, 80)),   # valid request cut short
        st.tuples(st.just("badutf"), st.integers(0, 60)),  # invalid byte inside an otherwise valid request
        st.tuples(st.just("dirt"), st.integers(0, 8)),     # nearly JSON
        st.tuples(st.just("ping"), st.binary(max_size=3).map(lambda b: b.replace(b"\n", b"").hex())),
        st.tuples(st.just("spaces"), st.sampled_from([" ", "\t", "\r", "  \r", "\v", "\u00a0"])),
    )
    return st, msg


def stream_strategy():
    st, msg = strategies()
    item = st.one_of(msg, msg, msg, msg, st.tuples(st.just("oversize"), st.sampled_from([65537, 70000, 200000])))
    script = st.fixed_dictionaries({
        "msgs": st.lists(item, min_size=1, max_size=7), "pipeline": st.booleans(),
        "chunks": st.lists(st.integers(1, 60), max_size=4),
        "end": st.sampled_from(["check", "check", "check", "abort", "partial", "eof"])})
    return st.fixed_dictionaries({"kind": st.sampled_from(["uds", "uds", "uds", "tcp"]),
                                  "crowd": st.sampled_from([0] * 24 + [70, 150]),
                                  "conns": st.lists(script, min_size=1, max_size=3)})


def dgram_strategy():
    st, msg = strategies()
    return st.fixed_dictionaries({"msgs": st.lists(msg, min_size=1, max_size=8), "burst": st.booleans()})


_setup = {}
SPECIAL = {"<SURR>": '"a\\ud800b"', "<SURRKEY>": '{"\\udfff": 1}', "<NAN>": "NaN", "<INF>": "-Infinity",
           "<DEEP300>": "[" * 300 + "]" * 300, "<DEEP5000>": "[" * 5000 + "]" * 5000, "<BIGINT>": "9" * 5000}


def dumps(v):
    return SPECIAL[v] if isinstance(v, str) and v in SPECIAL else json.dumps(v)


def setup():
    h.boot()
    from typing import Any
    from pydantic import BaseModel, ConfigDict
    from ekosis.requests.endpoint import endpoint
    from ekosis.exceptions.application_level import ApplicationProcessingException

    class Echo(BaseModel):
        v: Any = None

    class Typed(BaseModel):
        n: int
        s: str

    class Slow(BaseModel):
        v: Any = None
        d: float

    class Name(BaseModel):
        name: str

    class Holder(BaseModel):
        model_config = ConfigDict(arbitrary_types_allowed=True)
        v: Any = None

    class Custom(Exception):
        pass

    class Size(BaseModel):
        size: int

    @endpoint("p.grow", Size)
    async def p_grow(dto):
        return Echo(v="y" * dto.size)

    @endpoint("p.echo", Echo)
    async def p_echo(dto):
        return dto

    @endpoint("p.typed", Typed)
    async def p_typed(dto):
        return Typed(n=dto.n + 1, s=dto.s * 2)

    @endpoint("p.slow", Slow)
    async def p_slow(dto):
        await eko.pause(dto.d)
        return Echo(v=dto.v)

    @endpoint("p.appfail", Name)
    async def p_appfail(dto):
        raise ApplicationProcessingException(dto.name)

    @endpoint("p.crash", Name)
    async def p_crash(dto):
        if dto.name == "JSON":
            json.loads("{")
        if dto.name == "UnicodeDecodeError":
            b"\xff".decode()
        if dto.name == "Surrogate":
            raise RuntimeError("bad \ud800 text")
        if dto.name == "Recursion":
            return await p_crash(dto)
        if dto.name == "Group":
            raise ExceptionGroup("several", [ValueError("a"), KeyError("b")])
        if dto.name == "Blank":
            raise Custom()
        raise {"Custom": Custom, "StopAsync": StopAsyncIteration, "Memory": MemoryError, "RuntimeError": RuntimeError, "KeyError": KeyError, "ValueError": ValueError, "Timeout": TimeoutError,
               "ConnectionReset": ConnectionResetError, "OSError": OSError}[dto.name]("boom")

    @endpoint("p.badresp", Name)
    async def p_badresp(dto):
        if dto.name == "surrogate":
            return Holder(v="x\ud800")
        if dto.name == "object":
            return Holder(v=object())
        deep = []
        for _ in range(600):
            deep = [deep]
        return Holder(v=deep)


ERR = {100, 200, 300, 400, 500, 600, 999}


def render(m, n):
    """(line bytes without newline, permitted statuses, span key expected (False = don't care), data or None)."""
    k = m[0]
    span = eko.sk_dict(n)
    sp = json.dumps(span)

    def req(route, data_text):
        return f'{{"route_key": {json.dumps(route)}, "span_key": {sp}, "data": {data_text}}}'.encode()

    if k == "echo":
        return req("p.echo", json.dumps({"v": m[1]})), {0}, span, {"v": m[1]}
    if k == "typed":
        return req("p.typed", json.dumps({"n": m[1], "s": m[2]})), {0}, span, {"n": m[1] + 1, "s": m[2] * 2}
    if k == "slow":
        return req("p.slow", json.dumps({"v": m[1], "d": m[2]})), {0}, span, {"v": m[1]}
    if k == "appfail":
        return req("p.appfail", json.dumps({"name": m[1]})), {600}, span, ("contains", m[1])
    if k == "crash":
        # an exception that escapes an endpoint is "unhandled"; parse-like ones raised by the endpoint itself are still errors
        return req("p.crash", json.dumps({"name": m[1]})), ({999} if m[1] != "JSON" else {100, 999}), span, None
    if k == "badresp":
        return req("p.badresp", json.dumps({"name": m[1]})), {600, 999}, span, None
    if k == "unknown":
        return req("p.none." + m[1], "{}"), {400}, span, None
    if k == "weird":
        line = req("p.echo", '{"v": %s}' % dumps(m[1]))
        return line, {0} | ERR, (span if m[1] not in ("<DEEP5000>", "<BIGINT>") else False), None
    if k == "baddata":
        line = req("p.typed", dumps(m[1]))
        v = m[1]
        ok = isinstance(v, dict) and "n" in v and "s" in v
        want = {0, 300} if ok else {300, 999, 100}
        return line, want, (span if v not in ("<DEEP5000>", "<BIGINT>") else False), None
    if k == "mutate":
        parts = {"route_key": json.dumps("p.echo"), "span_key": sp, "data": '{"v": 1}'}
        if m[2] == "<DROP>":
            del parts[m[1]]
        else:
            parts[m[1]] = dumps(m[2])
        line = ("{" + ", ".join(f"{json.dumps(a)}: {b}" for a, b in parts.items()) + "}").encode()
        if m[1] == "data":
            if m[2] == "<DROP>":
                return line, {300}, False, None
            return line, ({0} if isinstance(m[2], dict) and "v" not in m[2] else {0, 100, 300, 999}), False, None
        if m[1] == "route_key":
            if m[2] == "<DROP>" or not isinstance(m[2], str):
                return line, {300}, False, None
            return line, ({400} if m[2] not in SPECIAL else {100, 300, 400, 999}), False, None
        return line, {100, 300, 999} if m[2] in ("<DEEP5000>", "<BIGINT>") else {300, 999}, False, None
    if k == "mutate_span":
        s2 = {a: json.dumps(b) for a, b in span.items()}
        if m[2] == "<DROP>":
            del s2[m[1]]
            want = {300}
        else:
            s2[m[1]] = dumps(m[2])
            want = {0, 100, 300, 999}
        st_ = "{" + ", ".join(f"{json.dumps(a)}: {b}" for a, b in s2.items()) + "}"
        return (f'{{"route_key": "p.echo", "span_key": {st_}, "data": {{}}}}').encode(), want, False, None
    if k == "extra":
        obj = {"route_key": "p.echo", "span_key": span, "data": {"v": 7}}
        if m[1] not in obj:
            obj[m[1]] = m[2]
        return json.dumps(obj).encode(), {0}, span, {"v": 7}
    if k == "json":
        v = m[1]
        valid = isinstance(v, dict) and {"route_key", "span_key", "data"} <= set(v)
        return dumps(v).encode(), ({0} | ERR if valid else {100, 300, 999}), False, None
    if k == "bytes":
        return bytes.fromhex(m[1]), None, False, None
    if k == "trunc":
        full = req("p.echo", '{"v": 1}')
        return full[:max(0, len(full) - m[1])], {100}, False, None
    if k == "badutf":
        full = req("p.echo", '{"v": "some text in here"}')
        i = full.index(b"some text") + m[1] % 12
        return full[:i] + b"\xff" + full[i + 1:], {100}, False, None
    if k == "dirt":
        full = req("p.echo", '{"v": "some text in here"}')
        i = full.index(b"some text")
        return [full[:i] + b"\x01" + full[i:], full[:i] + b"\t" + full[i:], full[:i] + b"\x00" + full[i:], full + b" x", full + full,
                full[:-1] + b",}", full.replace(b'"', b"'"), full + b"//", b"[" + full][m[1]], {100}, False, None
    if k == "ping":
        return b"\x05" + bytes.fromhex(m[1]), "ACK", False, None
    if k == "spaces":
        full = req("p.echo", '{"v": 1}')
        return m[1].encode() + full + m[1].encode(), {0}, span, {"v": 1}
    if k == "big":
        return req("p.echo", json.dumps({"v": "x" * m[1]})), {0}, span, {"v": "x" * m[1]}
    if k == "grow":
        return req("p.grow", json.dumps({"size": m[1]})), {0}, span, {"v": "y" * m[1]}
    if k == "oversize":
        return req("p.echo", json.dumps({"v": "x" * m[1]})), "BIG", False, None
    raise AssertionError(k)


def classify_bytes(line):
    """Statuses permitted for an arbitrary byte line."""
    if line[:1] == b"\x05":
        return "ACK"
    try:
        t = line.decode()
    except UnicodeDecodeError:
        return {100}
    try:
        v = json.loads(t.strip())
    except json.JSONDecodeError:
        return {100}
    except Exception:
        return {100, 999}
    return {100, 300, 999} if not isinstance(v, dict) else {300}


def judge(m, n, got, udp=False):
    line, want, span, data = render(m, n)
    if want is None:
        want = classify_bytes(line)
    what = f"message {m!r} -> {line[:200]!r}"
    if want == "ACK" and not udp:
        eq(got, b"\x06\n", f"{what}: answer to an enquiry")
        return
    if udp and line[:1] in (b"\x05", b"\x06") and got == b"\x06\n":
        return                                  # an acknowledged enquiry
    try:
        r = json.loads(got)
    except Exception:
        raise Violation(f"{what}: response is not JSON: {got[:300]!r}")
    check(isinstance(r, dict) and {"span_key", "status", "data"} <= set(r), f"{what}: malformed response {r}")
    if want == "ACK":
        want = {0} | ERR
    check(r["status"] in want, lambda: f"{what}: status {r['status']} not in {sorted(want)} ({r})")
    if span is not False and r["status"] != 100:
        eq(r["span_key"], span, f"{what}: echoed span key")
    if r["status"] == 0 and data is not None:
        check(r["data"] == data, lambda: f"{what}: payload: got {str(r['data'])[:300]}, expected {str(data)[:300]}")
    if isinstance(data, tuple):
        check(data[1] in str(r["data"]), lambda: f"{what}: the failure message {data[1]!r} is not in {r['data']!r}")


async def stream_body(case, classes):
    kind = case["kind"]
    classes.add(kind)
    async with eko.serving(kind) as addr:
        async def write(c, blob, chunks):
            pos = 0
            for sz in chunks:
                if pos >= len(blob):
                    break
                c.w.write(blob[pos:pos + sz])
                pos += sz
                for _ in range(3):
                    await asyncio.sleep(0)
            c.w.write(blob[pos:])

        async def rline(c, what):
            try:
                return await asyncio.wait_for(c.r.readline(), 5000)
            except (TimeoutError, asyncio.TimeoutError):
                raise Violation(f"{what}: no response and the connection stays open")
            except (ConnectionResetError, BrokenPipeError):
                return b""

        async def script(ci, sc):
            c = await eko.conn_for(kind, addr).open()
            base = 1000 * (ci + 1)
            msgs = sc["msgs"]
            if sc["pipeline"] and not any(m[0] == "oversize" for m in msgs):
                blob = b"".join(render(m, base + i)[0] + b"\n" for i, m in enumerate(msgs))
                await write(c, blob, sc["chunks"])
                if len(msgs) > 1:
                    classes.add("pipelined")
                for i, m in enumerate(msgs):
                    got = await rline(c, f"{m!r}")
                    check(got.endswith(b"\n"), lambda: f"connection closed without answering {m!r}: {got[:200]!r}")
                    judge(m, base + i, got)
            else:
                for i, m in enumerate(msgs):
                    line = render(m, base + i)[0]
                    if m[0] == "oversize":
                        classes.add("oversize")
                        await write(c, line + b"\n", [])
                        got = await rline(c, "oversize")
                        if got:
                            r = json.loads(got)
                            check(r["status"] != 0 or r["data"] == {"v": "x" * m[1]}, "oversize request misanswered")
                        else:
                            c.close()
                            c = await eko.conn_for(kind, addr).open()
                        continue
                    await write(c, line + b"\n", sc["chunks"])
                    got = await rline(c, f"{m!r}")
                    check(got.endswith(b"\n"), lambda: f"connection closed without answering {m!r}: {got[:200]!r}")
                    judge(m, base + i, got)
            if any(m[0] not in ("echo", "typed") for m in msgs):
                classes.add("odd-input")
            if sc["chunks"]:
                classes.add("chunked")
            if sc["end"] == "check":
                good = ["echo", {"still": "alive"}]
                await write(c, render(good, base + 500)[0] + b"\n", [])
                got = await rline(c, "follow-up")
                check(got.endswith(b"\n"), "connection unusable after the script")
                judge(good, base + 500, got)
                # exactly one response per line: nothing further may arrive
                try:
                    extra = await asyncio.wait_for(c.r.read(1), 100)
                    check(False, f"unsolicited data after the last response: {extra!r}")
                except (TimeoutError, asyncio.TimeoutError):
                    pass
            elif sc["end"] == "partial":
                c.w.write(render(["echo", 1], base + 501)[0])      # no newline, then gone
                c.w.close()
                classes.add("partial-line")
            elif sc["end"] == "abort":
                c.w.write(render(["slow", 1, 3.0], base + 502)[0] + b"\n")
                await asyncio.sleep(0)
                c.w.transport.abort()
                classes.add("abort")
            else:
                c.w.write(render(["echo", 1], base + 503)[0])
                if c.w.can_write_eof():
                    c.w.write_eof()
                tail = await rline(c, "eof")
                check(tail == b"", lambda: f"an incomplete line was answered: {tail!r}")
            c.close()

        crowd = []
        for i in range(case["crowd"]):          # connections that stay open, as those of persisted clients do
            c = await eko.conn_for(kind, addr).open()
            crowd.append(c)
            if i % 10 == 0:
                c.w.write(render(["echo", i], 9000 + i)[0] + b"\n")
                judge(["echo", i], 9000 + i, await rline(c, f"connection {i} of many"))
            classes.add("crowd")
        await asyncio.gather(*[script(i, sc) for i, sc in enumerate(case["conns"])])
        for i, c in enumerate(crowd[-3:]):
            c.w.write(render(["echo", i], 9500 + i)[0] + b"\n")
            judge(["echo", i], 9500 + i, await rline(c, f"one of {len(crowd)} open connections"))
        await asyncio.sleep(50)
        # a fresh connection still works
        c = await eko.conn_for(kind, addr).open()
        c.w.write(render(["typed", 4, "ab"], 5)[0] + b"\n")
        got = await rline(c, "fresh connection")
        judge(["typed", 4, "ab"], 5, got)
        c.close()


def run_stream(case):
    classes = set()
    vloop.run(lambda: stream_body(case, classes), grace=0.02 if case["kind"] == "tcp" else 0)
    return bool(classes & {"odd-input", "chunked", "pipelined"}), sorted(classes)


async def dgram_body(case, classes):
    async with eko.serving("udp") as addr:
        cl = await eko.Dgram.open(addr)
        msgs = [m for m in case["msgs"] if m[0] != "grow" or m[1] <= 60000]
        if case["burst"]:
            msgs = [m for m in msgs if m[0] not in ("big", "grow") or m[1] <= 9000]     # the receive buffer of a socket is finite
        try:
            async def recv(what):
                try:
                    got = await asyncio.wait_for(cl.q.get(), 60)
                except (TimeoutError, asyncio.TimeoutError):
                    raise Violation(f"{what}: no response datagram")
                if isinstance(got, Exception):
                    raise Violation(f"{what}: server gone: {got!r}")
                return got
            if case["burst"]:
                classes.add("burst")
                for i, m in enumerate(msgs):
                    cl.tr.sendto(render(m, i)[0] + b"\n")
                got = [await recv("burst") for _ in msgs]
                # responses are matched by span key where there is one
                for i, m in enumerate(msgs):
                    line, want, span, data = render(m, i)
                    if span is not False and want != "ACK" and want is not None and m[0] not in ("weird", "baddata", "badresp"):
                        mine = [g for g in got if g != b"\x06\n" and json.loads(g).get("span_key") == span]
                        check(len(mine) == 1, lambda: f"{len(mine)} responses carry the span key of {m!r}")
                        judge(m, i, mine[0], udp=True)
            else:
                for i, m in enumerate(msgs):
                    cl.tr.sendto(render(m, i)[0] + b"\n")
                    judge(m, i, await recv(f"{m!r}"), udp=True)
            if any(m[0] not in ("echo", "typed") for m in msgs):
                classes.add("odd-input")
            good = ["echo", {"still": "alive"}]
            cl.tr.sendto(render(good, 500)[0] + b"\n")
            judge(good, 500, await recv("follow-up"), udp=True)
            await asyncio.sleep(3)
            check(cl.q.empty(), "more response datagrams than requests")
        finally:
            cl.tr.close()


def run_dgram(case):
    classes = set()
    vloop.run(lambda: dgram_body(case, classes), grace=0.02)
    return bool(classes), sorted(classes)


def subs():
    return [Sub("stream-lines", stream_strategy, run_stream, quick=600, thorough=8000, shards=5, setup=setup),
            Sub("datagrams", dgram_strategy, run_dgram, quick=200, thorough=2500, shards=3, setup=setup)]
