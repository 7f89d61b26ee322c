"""C11: a request's span key survives every representation and every hop unchanged."""
import asyncio
import json
import re
import uuid

import harness as h
import vloop
import eko
from harness import Sub, eq, check

RULE = ("codec: arbitrary 128/64-bit keys through bytes, text, JSON, a queue on disk and the wire, and mutated key texts "
        "against an independent grammar; hops: concurrent call chains through plain and buffered senders/endpoints, with the "
        "key passed on or not at each hop; oracle = the key the chain was started with, freshness otherwise; non-trivial = "
        "codec: leading zeros, extremes or a mutated text; hops: two or more overlapping chains with a hop each")
ASSUMPTIONS = ["random ids do not collide"]


# ---------------------------------------------------------------------- codec
def codec_strategy():
    from hypothesis import strategies as st
    i64 = st.one_of(st.sampled_from([0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 63 - 1, 0xA]), st.integers(0, 2 ** 64 - 1),
                    st.integers(0, 2 ** 20), st.integers(0, 63).map(lambda k: 1 << k))
    i128 = st.one_of(st.sampled_from([0, 1, 2 ** 127, 2 ** 128 - 1, 0xA << 120]), st.integers(0, 2 ** 128 - 1))
    mut = st.one_of(st.none(), st.tuples(st.integers(0, 15), st.sampled_from(list("-+_ xgGzX.0aF\t\u0661\u00b2"))),
                    st.tuples(st.just("form"), st.sampled_from(["double", "urn", "lead", "tail", "none", "swap", "braces", "three"])),
                    st.tuples(st.just("size"), st.sampled_from([0, 8, 16, 23, 25, 32, 48])),
                    st.tuples(st.just("len"), st.sampled_from(["", "0", "00000000000000", "0x", "+"])))
    return st.fixed_dictionaries({"t": i128, "s": i64, "t2": i128, "s2": i64, "mut": mut, "upper": st.booleans()})


def run_codec(case):
    from ekosis.data_transfer_objects import SpanKey, RequestDTO, ResponseDTO
    classes = set()
    t, s = case["t"], case["s"]
    raw = t.to_bytes(16, "big") + s.to_bytes(8, "big")
    text = f"{uuid.UUID(int=t)}:{s:016x}"
    k = SpanKey.from_bytes(raw)
    eq(k.bytes, raw, "bytes of a key made from bytes")
    eq(str(k), text, "text of a key made from bytes")
    k2 = SpanKey.from_hex(text.upper() if case["upper"] else text)
    eq(k2.bytes, raw, "bytes of a key made from text")
    eq(json.loads(k.model_dump_json()), {"trace_id": str(uuid.UUID(int=t)), "span_id": f"{s:016x}"}, "wire form")
    k3 = SpanKey(**json.loads(k.model_dump_json()))
    check(k == k2 == k3 and len({k, k2, k3}) == 1, "the same key in three representations compares as different")
    check(k == text, "a key does not equal its own text")
    req = RequestDTO(route_key="r", span_key=k, data={"x": 1})
    back = RequestDTO(**json.loads(req.model_dump_json()))
    eq(back.span_key.bytes, raw, "key through a request on the wire")
    rsp = ResponseDTO(span_key=k, status=0, data=None)
    eq(ResponseDTO(**json.loads(rsp.model_dump_json())).span_key.bytes, raw, "key through a response on the wire")
    o = SpanKey.from_bytes(case["t2"].to_bytes(16, "big") + case["s2"].to_bytes(8, "big"))
    eq(o == k, (case["t2"], case["s2"]) == (t, s), "equality of two keys")
    if o != k:
        check(str(o) != str(k) and o.bytes != k.bytes, "different keys with the same representation")
    from ekosis.data_transfer_objects.span_id import SpanId
    ids = [k.span_id, SpanId(int_=s), SpanId(bytes_=raw[16:]), SpanId(hex_=f"{s:016x}"), *[SpanKey(trace_id=uuid.UUID(int=t), span_id=x).span_id for x in (s, raw[16:], f"{s:016x}", SpanId(int_=s))]]
    for i in ids:
        eq((i.value, i.bytes, i.hex, str(i)), (s, raw[16:], f"{s:016x}", f"{s:016x}"), "number, bytes and text of a span id")
        check(i == ids[0] and not i != ids[0], "the same span id in two representations compares as different")
    check(len(set(ids)) == 1, "the same span id in several representations makes several keys of a dictionary")
    eq(o.span_id == k.span_id, case["s2"] == s, "equality of two span ids")
    eq(k.span_id == f"{s:016x}" or k.span_id == s or k.span_id == None, False, "a span id equals something that is not one")  # noqa
    for wrong in ({}, {"int_": s, "hex_": f"{s:016x}"}, {"int_": -1 - s}, {"int_": s + 2 ** 64}, {"bytes_": raw[17:]}, {"bytes_": raw[15:]}):
        try:
            got = SpanId(**wrong)
        except (TypeError, ValueError):
            continue
        check(False, lambda: f"SpanId(**{wrong}) was accepted as {got}")
    g1, g2 = SpanKey.generate(), SpanKey.generate()
    check(g1 != g2 and len(g1.bytes) == 24 and g1.trace_id != g2.trace_id and g1.span_id != g2.span_id, "generated keys repeat")
    eq(SpanKey.from_hex(str(g1)), g1, "generated key through text")
    if t < 2 ** 120 or s < 2 ** 56:
        classes.add("leading-zeros")
    if case["mut"] is not None and case["mut"][0] == "size":
        n = case["mut"][1]
        classes.add("wrong-size")
        try:
            got = SpanKey.from_bytes((raw * 2)[:n])
        except ValueError:
            return True, sorted(classes)
        check(False, lambda: f"{n} bytes were accepted as the key {got}")
    if case["mut"] is not None and case["mut"][0] == "form":
        a, b = text.split(":")
        form = {"double": f"{a}::{b}", "urn": f"urn:uuid:{text}", "lead": ":" + text, "tail": text + ":", "none": a + b,
                "swap": f"{b}:{a}", "braces": f"{text}\n", "three": f"{text}:{b}"}[case["mut"][1]]
        classes.add("wrong-form")
        try:
            got = SpanKey.from_hex(form)
        except ValueError:
            return True, sorted(classes)
        check(False, lambda: f"the text {form!r} was accepted as the key {got}")
    elif case["mut"] is not None and case["mut"][0] != "size":
        hexs = f"{s:016x}"
        if case["mut"][0] == "len":
            bad = (case["mut"][1] + hexs)[:17] if case["mut"][1] else hexs[:15]
            if len(case["mut"][1]) > 1:
                bad = case["mut"][1] + hexs[:2]
        else:
            p, c = case["mut"]
            bad = hexs[:p] + c + hexs[p + 1:]
        good = re.fullmatch(r"[0-9a-fA-F]{16}", bad) is not None
        classes.add("mutated-valid" if good else "mutated-invalid")
        for how, f in (("text", lambda: SpanKey.from_hex(f"{uuid.UUID(int=t)}:{bad}")),
                       ("wire", lambda: RequestDTO(route_key="r", span_key={"trace_id": str(uuid.UUID(int=t)), "span_id": bad}, data={}).span_key)):
            try:
                got = f()
            except ValueError:
                check(not good, lambda: f"valid span id {bad!r} rejected ({how})")
                continue
            check(good, lambda: f"malformed span id {bad!r} accepted as {got} ({how})")
            eq(got.bytes, t.to_bytes(16, "big") + int(bad, 16).to_bytes(8, "big"), f"parsed {bad!r} ({how})")
    return bool(classes) or s in (0, 2 ** 64 - 1), sorted(classes)


# ----------------------------------------------------------------------- hops
def hop_strategy():
    from hypothesis import strategies as st
    hop = st.fixed_dictionaries({"via": st.sampled_from(["sender", "sender", "buffered"]), "to": st.sampled_from(["plain", "plain", "buffered"]),
                                 "pass": st.sampled_from([True, True, True, False]), "pause": st.sampled_from([0, -1, -2, 0.5, 1.5])})
    chain = st.fixed_dictionaries({"at": st.sampled_from([0, 0, 0.4, 1.0]), "hops": st.lists(hop, min_size=0, max_size=4),
                                   "first": st.sampled_from(["plain", "buffered"]),
                                   "key": st.sampled_from(["plain"] * 6 + ["zero-span", "zero-trace", "max", "v1"])})
    return st.fixed_dictionaries({"chains": st.lists(chain, min_size=1, max_size=5)})


def run_hops(case):
    classes = set()
    vloop.run(lambda: hops_body(case, classes))
    n = [c for c in case["chains"] if c["hops"]]
    return len(n) >= 2, sorted(classes)


async def hops_body(case, classes):
    from pydantic import BaseModel
    from ekosis.requests.endpoint import endpoint
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.sending.sender import sender
    from ekosis.sending.buffered_sender import buffered_sender
    from ekosis.state_keepers.buffered_sender_keeper import BufferedSenderKeeper
    from ekosis.data_transfer_objects import EmptyDto, BufferedEndpointResponseDTO
    import ekosis.clients as cl

    class Hop(BaseModel):
        k: int
        i: int

    class Seen(BaseModel):
        span: str

    tag = eko.uniq("c11-")

    def key_of(k):
        d = eko.sk_dict(k)
        how = case["chains"][k]["key"]
        if how in ("zero-trace", "max"):
            d["span_id"] = f"{0xabc00000 + k:016x}"         # these share their trace id: the span id has to tell them apart
        if how == "zero-span" and not any(c["key"] == how for c in case["chains"][:k]):
            d["span_id"] = "0" * 16
        elif how == "zero-trace":
            d["trace_id"] = str(uuid.UUID(int=0))
        elif how == "max":
            d["trace_id"] = str(uuid.UUID(int=2 ** 128 - 1))
        elif how == "v1":
            d["trace_id"] = str(uuid.UUID(int=(0x1234 << 112) | (1 << 76) | k))
        return d

    def key_text(k):
        return "{trace_id}:{span_id}".format(**key_of(k))
    seen, errors = {}, []
    d = h.fresh_dir()
    routes = {"plain": f"plain.{tag}", "buffered": f"buf.{tag}"}
    async with eko.uds_server() as path:
        client = cl.TransientUDSClient(path, timeout=2000)
        fns = {}

        @sender(client, routes["plain"], Seen)
        async def send_plain(k, i, **kwargs):
            return Hop(k=k, i=i)

        @sender(client, routes["buffered"], BufferedEndpointResponseDTO)
        async def send_buf(k, i, **kwargs):
            return Hop(k=k, i=i)

        @buffered_sender(client, routes["plain"], Hop, Seen, page_size=2, max_retries=3)
        async def bsend_plain(k, i, **kwargs):
            return Hop(k=k, i=i)

        @buffered_sender(client, routes["buffered"], Hop, BufferedEndpointResponseDTO, page_size=2, max_retries=3)
        async def bsend_buf(k, i, **kwargs):
            return Hop(k=k, i=i)

        fns.update({("sender", "plain"): send_plain, ("sender", "buffered"): send_buf,
                    ("buffered", "plain"): bsend_plain, ("buffered", "buffered"): bsend_buf})

        async def arrived(k, i, span_key):
            if (k, i) in seen:
                errors.append(f"hop {i} of chain {k} ran twice")
            seen[(k, i)] = str(span_key)
            hops = case["chains"][k]["hops"]
            if i < len(hops):
                hop = hops[i]
                await eko.pause(hop["pause"])
                f = fns[(hop["via"], hop["to"])]
                kw = {"span_key": span_key} if hop["pass"] else {}
                r = await f(k, i + 1, **kw)
                if hop["via"] == "sender" and hop["to"] == "plain":
                    if r.span != seen[(k, i + 1)]:
                        errors.append(f"response of hop {i + 1} of chain {k} is for {r.span}, it ran as {seen[(k, i + 1)]}")
                elif hop["via"] == "sender" and hop["pass"] and r.span_key != span_key:
                    errors.append(f"acknowledgement of hop {i + 1} of chain {k} names {r.span_key}")

        @endpoint(routes["plain"], Hop)
        async def plain(dto, span_key):
            await arrived(dto.k, dto.i, span_key)
            return Seen(span=str(span_key))

        @buffered_endpoint(routes["buffered"], Hop, page_size=2, max_retries=2)
        async def buf(dto, span_key):
            # a chain may come back to this very queue: going on must not wait for it
            if any(hp["via"] == "sender" for hp in case["chains"][dto.k]["hops"][dto.i:dto.i + 1]):
                asyncio.get_running_loop().create_task(arrived(dto.k, dto.i, span_key))
                return True
            await arrived(dto.k, dto.i, span_key)
            return True

        hd = eko.buffered_handler(routes["buffered"])
        await hd.setup(d, "app", "0")
        mine = [s for s in BufferedSenderKeeper().get_buffered_senders() if s.get_route_key() in routes.values()]
        for s in mine:
            await s.setup(d, f"app{mine.index(s)}", "0")

        async def start(k, c):
            await eko.pause(c["at"])
            conn = await eko.Conn(path).open()
            r = await conn.rpc(routes[c["first"]], {"k": k, "i": 0}, key_of(k))
            eq((r["status"], r["span_key"]), (0, key_of(k)), f"response to the first call of chain {k}")
        await asyncio.gather(*[start(k, c) for k, c in enumerate(case["chains"])])
        await asyncio.sleep(5000)
        for s in mine:
            s.shut_down()
        hd.shut_down()
    h.rmdir(d)
    check(not errors, lambda: f"{errors[:3]}")
    fresh = set()
    for k, c in enumerate(case["chains"]):
        cur = key_text(k)
        for i in range(len(c["hops"]) + 1):
            check((k, i) in seen, lambda: f"hop {i} of chain {k} never arrived; chain {c}")
            if i and not c["hops"][i - 1]["pass"]:
                got = seen[(k, i)]
                check(got not in fresh and got not in {key_text(x) for x in range(len(case["chains"]))},
                      lambda: f"hop {i} of chain {k} reused the key {got}")
                fresh.add(got)
                cur = got
                classes.add("fresh-key")
            else:
                eq(seen[(k, i)], cur, f"key seen by hop {i} of chain {k} ({c})")
                if i:
                    classes.add(f"passed-{c['hops'][i - 1]['via']}-{c['hops'][i - 1]['to']}")


def subs():
    return [Sub("codec", codec_strategy, run_codec, quick=1500, thorough=40000, shards=2, setup=h.boot),
            Sub("hops", hop_strategy, run_hops, quick=180, thorough=3000, shards=5, setup=h.boot)]
