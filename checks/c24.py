"""C24: connections, sockets, tasks and requests do not pile up, whatever happens to the calls."""
import asyncio
import collections
import gc
import json
import os
import socket
import struct
import weakref

import harness as h
import vloop
import eko
import peers
from harness import Sub, eq, check, Violation

RULE = ("histories of calls through clients of every kind (overlapping, given up, timed out, refused, cut off, answered with nonsense, closed and used again) "
        "against a peer that counts its open connections, and histories of connections to a real server (slow, failing and buffered requests, "
        "half messages, resets, clients that leave early); oracle = at every quiet moment the peer's own count of open connections, and the "
        "sockets, tasks and request objects that are left in the process; non-trivial = a failed, abandoned or cut-off call, or a close")
ASSUMPTIONS = ["a quiet moment is one with no call under way", "what the garbage collector can reclaim is not left over"]


# ---------------------------------------------------------------- clients
def strategy_clients():
    from hypothesis import strategies as st
    act = st.sampled_from(["ok", "ok", "ok", "busy", "never", "late", "close", "partial", "rst", "okclose", "okrst", "garbage", "badutf", "long"])
    call = st.tuples(st.sampled_from(["call", "call", "call", "big"]), st.sampled_from([None, None, None, None, 0.0, 0.3, 1.1]))
    step = st.one_of(st.lists(call, min_size=1, max_size=4).map(lambda c: ("calls", c)), st.lists(call, min_size=1, max_size=1).map(lambda c: ("calls", c)),
                     st.tuples(st.just("wait"), st.sampled_from([0.2, 3.0, 25.0])), st.tuples(st.just("refuse"), st.booleans()), st.tuples(st.just("outage"), st.sampled_from([0.1, 2.0, 9.0])), st.tuples(st.just("stuck"), st.booleans()), st.tuples(st.just("close"), st.sampled_from([0, 0.5, 30.0])))
    return st.fixed_dictionaries({"client": st.sampled_from(peers.CLIENTS), "max_retries": st.integers(1, 3), "heartbeat": st.sampled_from([0.7, 3.0, 1000.0]),
                                  "acts": st.lists(act, max_size=12), "steps": st.lists(step, min_size=1, max_size=8)})


class Peer(asyncio.Protocol):
    def __init__(self, hub):
        self.hub, self.buf = hub, b""

    def connection_made(self, tr):
        self.tr = tr
        self.hub.open.add(self)
        self.hub.total += 1
        if self.hub.refusing:
            self.reset()
        elif self.hub.stuck:
            self.tr.pause_reading()

    def connection_lost(self, exc):
        self.hub.open.discard(self)

    def reset(self):
        s = self.tr.get_extra_info("socket")
        if s is not None and s.family == socket.AF_INET:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.tr.abort()

    def data_received(self, data):
        self.buf += data
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            if line[:1] == b"\x05":
                self.tr.write(b"\x06\n")
            else:
                self.hub.answer(json.loads(line), self.tr.write, self.tr.close, self.reset)


class UdpPeer(asyncio.DatagramProtocol):
    def __init__(self, hub):
        self.hub = hub

    def connection_made(self, tr):
        self.tr = tr

    def datagram_received(self, data, addr):
        if self.hub.refusing or self.hub.stuck:
            return
        nop = lambda: None
        self.hub.answer(json.loads(data), lambda raw: self.tr.sendto(raw, addr), nop, nop)


class Hub:
    def __init__(self, acts):
        self.acts, self.n, self.open, self.total, self.refusing, self.stuck, self.seen = acts, 0, set(), 0, False, False, []

    def answer(self, req, write, close, reset):
        act = self.acts[self.n] if self.n < len(self.acts) else "ok"
        self.n += 1
        self.seen.append((req["data"]["n"], act))
        good = (json.dumps({"span_key": req["span_key"], "status": 500 if act == "busy" else 0, "data": "busy" if act == "busy" else {"n": req["data"]["n"]}}) + "\n").encode()
        if act in ("ok", "busy", "okclose", "okrst"):
            write(good)
        if act == "partial":
            write(good[:-7])
        if act == "garbage":
            write(b"{nonsense\n")
        if act == "badutf":
            write(b"\xff\xfe{}\n")
        if act == "long":
            write(b"x" * 70_000 + b"\n" if len(good) else b"")
        if act == "late":
            asyncio.get_running_loop().call_later(2.5, write, good)
        if act in ("close", "partial", "okclose"):
            close()
        if act in ("rst", "okrst"):
            reset()


def sockets():
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink(f"/proc/self/fd/{f}").startswith("socket:")
        except OSError:
            pass
    return n


async def clients(case, classes):
    from pydantic import BaseModel
    from ekosis.exceptions import ServerBusyException, CommunicationsMaxRetriesReached, CommunicationsNonRetryable

    class Q(BaseModel):
        n: int
        pad: str = ""

    hub = Hub(case["acts"])
    kind = case["client"]
    tr = peers.transport(kind)
    classes.add(kind)
    loop = asyncio.get_running_loop()
    d = h.fresh_dir("peer")
    srv = dg = None
    if tr == "udp":
        dg, _ = await loop.create_datagram_endpoint(lambda: UdpPeer(hub), local_addr=(h.loop_ip(), 0))
        addr = dg.get_extra_info("sockname")[:2]
    elif tr == "tcp":
        srv = await loop.create_server(lambda: Peer(hub), h.loop_ip(), 0)
        addr = srv.sockets[0].getsockname()[:2]
    else:
        addr = os.path.join(d, "s")
        srv = await loop.create_unix_server(lambda: Peer(hub), addr)
    kept = []           # callers may keep the errors they got
    try:
        base = sockets()
        tasks0 = len(asyncio.all_tasks())
        gc.collect()
        held = objects()
        client = peers.make_client(kind, addr, 2.0, case["max_retries"], 0.1, case["heartbeat"])
        refs, n = [], [0]
        used = [False]

        async def call(give_up, size="call"):
            n[0] += 1
            me = n[0]
            q = Q(n=me, pad="p" * (3_000_000 if kind != "udp" else 30_000) if size == "big" else "")
            refs.append(weakref.ref(q))
            c = client.send_message("x.y", q, Q, eko.sk(me))
            del q
            used[0] = True
            try:
                r = await (c if give_up is None else asyncio.wait_for(c, give_up))
                eq(r.n, me, "answer")
                return "ok"
            except (ServerBusyException, CommunicationsMaxRetriesReached, CommunicationsNonRetryable) as e:
                kept.append(e)
                classes.add("failed")
                return "failed"
            except (TimeoutError, asyncio.TimeoutError) as e:
                check(give_up is not None, "a time-out error escaped from a call nobody gave up")
                kept.append(e)
                classes.add("given-up")
                return "given up"
            except ValueError as e:
                kept.append(e)
                return "nonsense"

        async def quiet(what, limit):
            peer_limit = 10 ** 6 if hub.stuck else limit        # a stuck peer does not even see that a connection was closed

            def mine():
                return sockets() - base - len(hub.open)
            for _ in range(200):
                await asyncio.sleep(0.001)
                if len(hub.open) <= peer_limit and mine() <= limit and len(asyncio.all_tasks()) - tasks0 <= 1:
                    break
            else:
                what = f"{what}; peer's acts so far {hub.seen}"
                check(len(hub.open) <= peer_limit, lambda: f"{what}: the peer has {len(hub.open)} open connections of this client, at most {limit} is expected")
                check(mine() <= limit, lambda: f"{what}: {mine()} sockets are open in the client, at most {limit} is expected")
                check(len(asyncio.all_tasks()) - tasks0 <= 1, lambda: f"{what}: tasks left over: {asyncio.all_tasks()}")

        limit = 0 if kind[0] == "t" else 1
        persisted = kind[0] == "p"
        settled = started = False       # a connection in order is there; the client was used since it was created or closed
        for k, s in enumerate(case["steps"]):
            if s[0] == "outage":        # the peer breaks all connections, for a while also new ones, and is then back
                hub.refusing, settled = True, False
                for p in list(hub.open):
                    p.reset()
                await asyncio.sleep(s[1])
                hub.refusing = False
                classes.add("outage")
                s = ("wait", 25.0)
            if s[0] in ("refuse", "stuck", "close"):
                settled = False
            if s[0] == "close":
                started = False
            if s[0] == "calls":
                before, seen = hub.total, len(hub.seen)
                res = await asyncio.gather(*[call(c[1], c[0]) for c in s[1]])
                await quiet(f"after {res} in step {k} with a {kind} client", limit)
                fine = persisted and res == ["ok"] * len(res) and all(a == "ok" for _, a in hub.seen[seen:]) and not hub.stuck and not hub.refusing
                if fine and settled:
                    eq(hub.total - before, 0, f"step {k}: new connections of a {kind} client that has one in order, for {len(res)} calls that were answered")
                    classes.add("connection-kept")
                elif fine and len(hub.seen) - seen == len(res):
                    check(hub.total - before <= (1 if hub.seen[:seen] == [] else 2), lambda: f"step {k}: {hub.total - before} connections of a {kind} client for {len(res)} calls that were all answered")
                settled, started = fine, started or any(c[1] != 0.0 for c in s[1])     # a call that is given up at once never starts
            elif s[0] == "wait":
                before = hub.total
                await asyncio.sleep(s[1])
                await quiet(f"step {k}, idle {kind} client", limit)
                if settled:
                    eq(hub.total - before, 0, f"step {k}: new connections of an idle {kind} client whose connection is in order")
                if persisted and started and not hub.stuck and not hub.refusing and s[1] > 4.5 * case["heartbeat"] + 3:
                    eq(len(hub.open), 1, f"step {k}: connections of a {kind} client with a heartbeat every {case['heartbeat']}s, after {s[1]}s in which the peer was in order")
                    classes.add("connection-regained" if not settled else "connection-kept")
                    settled = True
            elif s[0] == "refuse":
                hub.refusing = s[1]
                if s[1]:
                    for p in list(hub.open):
                        p.reset()
            elif s[0] == "stuck":
                if s[1] != hub.stuck:
                    hub.stuck = s[1]
                    for p in list(hub.open):
                        (p.tr.pause_reading if s[1] else p.tr.resume_reading)()
                    classes.add("stuck")
                    await asyncio.sleep(0.1)
            elif s[0] == "close" and kind[0] == "p":
                classes.add("close")
                await client.close_connection()
                await quiet(f"step {k}, {kind} client just closed", 0)
                await asyncio.sleep(s[1])
                await quiet(f"step {k}, {kind} client closed {s[1]}s ago", 0)
                if not hub.refusing and not hub.stuck and hub.n >= len(hub.acts):
                    eq(await call(None), "ok", f"step {k}: a call on a {kind} client that was closed, peer in order, {case['max_retries']} attempts")
                    classes.add("reused")
        kept.clear()
        await asyncio.sleep(0.1)
        gc.collect()
        alive = sum(1 for r in refs if r() is not None)
        more = {t: n - held.get(t, 0) for t, n in objects().items() if t in ("Task", "StreamReader", "StreamWriter", "StreamReaderProtocol") and n - held.get(t, 0) > 3}
        check(not more, lambda: f"objects still held after all calls of a {kind} client ended: {more}")
        check(alive <= 2, lambda: f"{alive} of {len(refs)} requests are still held after all calls ended")
    finally:
        for x in (srv, dg):
            if x is not None:
                x.close()
        for p in list(hub.open):
            p.tr.abort()
        h.rmdir(d)


def run_clients(case):
    classes = set()
    grace = 0.002 if peers.transport(case["client"]) == "uds" else 0.004
    vloop.run(lambda: clients(case, classes), grace=grace, patch_time=True)
    return bool(classes & {"failed", "given-up", "close"}), sorted(classes)


# ---------------------------------------------------------------- servers
def strategy_server():
    from hypothesis import strategies as st
    req = st.sampled_from(["ok", "ok", "slow", "slow", "raise", "app", "soon", "soon-raise", "soon-raise", "buf", "bad", "unknown", "junk", "enq", "badutf", "big", "huge"])
    leave = st.sampled_from(["fin", "fin", "rst", "half", "early", "early-rst"])
    client = st.tuples(st.lists(req, max_size=5), leave, st.sampled_from([0, 0.1, 1.0, 4.0]))
    return st.fixed_dictionaries({"kind": st.sampled_from(["uds", "tcp", "udp"]), "rounds": st.lists(st.lists(client, min_size=1, max_size=5), min_size=1, max_size=3)})


def objects():
    """Tasks, streams and connections that are still held by somebody, done or not."""
    return collections.Counter(type(o).__name__ for o in gc.get_objects() if isinstance(o, (asyncio.Task, asyncio.StreamReader, asyncio.StreamWriter, asyncio.BaseTransport, asyncio.BaseProtocol)))


async def server(case, classes):
    from pydantic import BaseModel
    from ekosis.requests.endpoint import endpoint
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.exceptions.application_level import ApplicationProcessingException
    from ekosis.util.fire_and_forget_tasks import run_soon
    kind = case["kind"]
    classes.add(kind)
    refs = []
    r1, r2 = eko.uniq("leak."), eko.uniq("leakbuf.")

    class Q(BaseModel):
        what: str
        pad: str = ""

    class R(BaseModel):
        ok: bool = True

    @run_soon
    async def soon(dto):
        await asyncio.sleep(1)
        if dto.what == "soon-raise":
            raise KeyError(dto.what)

    @endpoint(r1, Q)
    async def work(dto, **kwargs):
        refs.append(weakref.ref(dto))
        if dto.what == "slow":
            await asyncio.sleep(3)
        if dto.what == "raise":
            raise KeyError("oops")
        if dto.what == "app":
            raise ApplicationProcessingException("no")
        if dto.what.startswith("soon"):
            soon(dto)
        r = R()
        refs.append(weakref.ref(r))
        return r

    @buffered_endpoint(r2, Q, page_size=3, max_retries=2)
    async def process(dto, **kwargs):
        refs.append(weakref.ref(dto))
        await asyncio.sleep(0.5)
        return len(refs) % 2 == 0
    d = h.fresh_dir()
    hdl = eko.buffered_handler(r2)
    await hdl.setup(d, "leak", "0")
    serial = [0]
    loop = asyncio.get_running_loop()
    loop.set_exception_handler(lambda l, ctx: None)     # the harness' own handler keeps what it is given

    def message(what):
        serial[0] += 1
        if what == "junk":
            return b"{nonsense\n"
        if what == "enq":
            return b"\x06\n" if kind == "udp" else b"\x05\n"
        if what == "badutf":
            return b"\xff\xfe\n"
        if what == "huge":
            return b'{"x":"' + b"y" * (60_000 if kind == "udp" else 200_000) + b'"}\n'
        data = {"what": what, "pad": "p" * (40_000 if what == "big" else 0)} if what != "bad" else {"zz": 1}
        return (json.dumps({"route_key": {"buf": r2, "unknown": "no.such.route"}.get(what, r1), "span_key": eko.sk_dict(serial[0], 77), "data": data}) + "\n").encode()

    try:
        async with eko.serving(kind) as addr:
            for _ in range(5):
                await asyncio.sleep(0.2)
            base, tasks0 = sockets(), len(asyncio.all_tasks())
            gc.collect()
            kept = objects()
            for k, rnd in enumerate(case["rounds"]):
                async def one(reqs, leave, t):
                    await asyncio.sleep(t)
                    if kind == "udp":
                        p = await eko.Dgram.open(tuple(addr))
                        for q in reqs:
                            p.tr.sendto(message(q))
                            if not leave.startswith("early"):
                                try:
                                    await asyncio.wait_for(p.q.get(), 30)
                                except (TimeoutError, asyncio.TimeoutError):
                                    pass
                        p.tr.close()
                        return
                    if kind == "uds":
                        r, w = await asyncio.open_unix_connection(addr, limit=2 ** 22)
                    else:
                        r, w = await asyncio.open_connection(*addr, limit=2 ** 22)
                    try:
                        for q in reqs:
                            w.write(message(q))
                            if not leave.startswith("early"):
                                if not (await asyncio.wait_for(r.readline(), 100)).endswith(b"\n"):
                                    return          # refused: the line was too long
                        if leave == "half":
                            w.write(b'{"route_key": "x')
                        if leave.endswith("rst") and kind == "tcp":
                            w.get_extra_info("socket").setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        if leave.endswith("rst"):
                            await asyncio.sleep(0.01)
                            w.transport.abort()
                    except (TimeoutError, asyncio.TimeoutError):
                        raise Violation(f"no answer to {reqs} over {kind}")
                    except OSError:
                        pass
                    finally:
                        w.close()
                await asyncio.gather(*[one(*c) for c in rnd])
                for _ in range(60):
                    await asyncio.sleep(1)
                    if sockets() <= base and len(asyncio.all_tasks()) <= tasks0:
                        break
                check(sockets() <= base, lambda: f"round {k} over {kind}: all clients have left, {sockets() - base} of the server's sockets are still open; {rnd}")
                check(len(asyncio.all_tasks()) <= tasks0, lambda: f"round {k} over {kind}: all clients have left, tasks left over: {asyncio.all_tasks()}; {rnd}")
                for reqs, leave, _ in rnd:
                    classes.update({leave} if leave != "fin" else set())
                    classes.update(set(reqs) & {"raise", "slow", "huge", "soon", "soon-raise"})
            await asyncio.sleep(1)
            gc.collect()
            alive = sum(1 for r in refs if r() is not None)
            more = {t: n - kept.get(t, 0) for t, n in objects().items() if n - kept.get(t, 0) > 3}
            check(not more, lambda: f"objects still held when everything is done over {kind}: {more}; {case['rounds']}")
            check(alive <= 2, lambda: f"{alive} of {len(refs)} request and response objects are still held when everything is done over {kind}; {case['rounds']}")
    finally:
        hdl.shut_down()
        h.rmdir(d)


def run_server(case):
    classes = set()
    vloop.run(lambda: server(case, classes), grace=0.004, patch_time=True)
    return bool(classes - {"uds", "tcp", "udp"}), sorted(classes)


def subs():
    return [Sub("clients", strategy_clients, run_clients, quick=130, thorough=4000, shards=7, setup=h.boot),
            Sub("server", strategy_server, run_server, quick=60, thorough=2000, shards=7, setup=h.boot)]
