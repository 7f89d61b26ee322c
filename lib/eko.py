"""Helpers to drive the real stack in-process: a real UDS server on a virtual-time loop and a raw
line-protocol client that shares no code with the client under test."""
import asyncio
import contextlib
import json
import os
import uuid

import harness as h
from harness import Violation

_uniq = [0]
_open = []


def uniq(prefix="r"):
    _uniq[0] += 1
    return f"{prefix}{_uniq[0]}"


def sk_dict(i, salt=0):
    """Distinct, deterministic span key number i in wire form. Some share the trace id or the span id with the one
    before, as the requests of one trace do, and some begin with zeros."""
    ti, si = i - (i % 6 == 1), i - (i % 6 == 3)
    t = ((ti + 1) * 0x9E3779B97F4A7C15F39CC0605CEDC835 + salt) % (1 << 128)
    s = ((si + 1) * 0xD1342543DE82EF95 + 7 * salt) % (1 << 64)
    if i % 6 == 4:
        t >>= 28
    elif i % 6 == 5:
        s >>= 20
    return {"trace_id": str(uuid.UUID(int=t)), "span_id": f"{s:016x}"}


def sk(i, salt=0):
    from ekosis.data_transfer_objects import SpanKey
    d = sk_dict(i, salt)
    return SpanKey.from_bytes(uuid.UUID(d["trace_id"]).bytes + bytes.fromhex(d["span_id"]))


def sk_str(i, salt=0):
    d = sk_dict(i, salt)
    return f"{d['trace_id']}:{d['span_id']}"


_OPT = [None, "dflt", "", "x\u0000\n\"\\\u2028\u00e9\U0001f600", " lead ", "null", "None", "0", "\r\n{}", "[1]"]
_MORE = [None, 0, False, 0.1, 2 ** 70, [], {}, {"": None, "a": [1, None, {"b": "\u00e9", "span_key": 1}]}, -0.0, 1e308, "", [[[]]], {"data": {"data": None}},
         -(2 ** 63), "2020-01-01T00:00:00", True, 5e-324, {"n": 1, "text": "t"}, [None], "x" * 3000]


def rich(n):
    """Request fields whose values are easily damaged by what stores or carries them: nulls where the default is none, falsy
    values, values that look like others, names that are also names of the envelope."""
    return {"opt": _OPT[n % len(_OPT)], "more": _MORE[n % len(_MORE)]}


def is_rich(dto, n):
    return json.dumps({"opt": dto.opt, "more": dto.more}, sort_keys=True) == json.dumps(rich(n), sort_keys=True)


class Conn:
    """One raw connection; one outstanding request at a time."""

    def __init__(self, path):
        self.path = path
        self.r = self.w = None

    async def open(self):
        self.r, self.w = await asyncio.open_unix_connection(self.path, limit=2 ** 22)
        _open.append(self)
        return self

    async def line(self, raw: bytes, timeout=10_000.0):
        if self.r is None:
            await self.open()
        self.w.write(raw)
        try:
            got = await asyncio.wait_for(self.r.readline(), timeout)
        except (TimeoutError, asyncio.TimeoutError):
            raise Violation(f"no response to {raw[:300]!r}")
        return got

    async def rpc(self, route, data, span):
        got = await self.line((json.dumps({"route_key": route, "span_key": span, "data": data}) + "\n").encode())
        if not got.endswith(b"\n"):
            raise Violation(f"connection closed without a response to {route} {data!r}: {got!r}")
        return json.loads(got)

    def close(self):
        if self.w is not None:
            self.w.close()
            self.r = self.w = None


@contextlib.asynccontextmanager
async def uds_server():
    from ekosis.servers import UDSServer
    from ekosis.configuration.config_models import ConfigUDS
    d = h.fresh_dir("u")
    name = "s"
    srv = UDSServer(ConfigUDS(directory=d, socket_file_name=name))
    path = os.path.join(d, name)

    async def main():
        async with srv:
            await srv.serve()

    t = asyncio.get_running_loop().create_task(main())
    for _ in range(1000):
        if os.path.exists(path):
            break
        await asyncio.sleep(0)
    await asyncio.sleep(0)
    try:
        yield path
    finally:
        for c in _open:
            c.close()
        _open.clear()
        await asyncio.sleep(0)
        t.cancel()
        with contextlib.suppress(BaseException):
            await t
        h.rmdir(d)


def buffered_handler(route):
    from ekosis.requests.request_router import RequestRouter
    return next(x for x in RequestRouter().get_buffered_handlers() if x.get_route_key() == route)


async def pause(spec):
    """spec: 0 = no suspension, negative = that many bare yields, positive = virtual seconds."""
    if spec < 0:
        for _ in range(int(-spec)):
            await asyncio.sleep(0)
    elif spec > 0:
        await asyncio.sleep(spec)


async def settle(seconds=100_000.0):
    await asyncio.sleep(seconds)


@contextlib.asynccontextmanager
async def serving(kind):
    """A real server of the given kind ('uds', 'tcp', 'udp'); yields its address."""
    if kind == "uds":
        async with uds_server() as path:
            yield path
        return
    import socket
    from ekosis.servers import TCPServer, UDPServer
    from ekosis.configuration.config_models import ConfigTCP, ConfigUDP
    loop = asyncio.get_running_loop()
    last = None
    for _ in range(50):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM if kind == "tcp" else socket.SOCK_DGRAM)
        s.bind((h.loop_ip(), 0))
        port = s.getsockname()[1]
        s.close()
        srv = TCPServer(ConfigTCP(host=h.loop_ip(), port=port)) if kind == "tcp" else \
            UDPServer(ConfigUDP(host=h.loop_ip(), port=port))

        async def main():
            async with srv:
                await srv.serve()

        t = loop.create_task(main())
        for _ in range(20):
            await asyncio.sleep(0)
        if kind == "tcp":
            up = False
            for _ in range(50):
                if t.done():
                    break
                try:
                    r, w = await asyncio.open_connection(h.loop_ip(), port)
                    w.close()
                    up = True
                    break
                except OSError:
                    await asyncio.sleep(0)
        else:
            up = not t.done()
        if up:
            break
        last = t.exception() if t.done() and not t.cancelled() else None
        t.cancel()
    else:
        import errno
        busy = isinstance(last, OSError) and last.errno == errno.EADDRINUSE
        raise (RuntimeError if busy else h.Consequence)(f"could not start a {kind} server: {last!r}") from last
    try:
        yield (h.loop_ip(), port)
    finally:
        for c in _open:
            c.close()
        _open.clear()
        await asyncio.sleep(0)
        t.cancel()
        with contextlib.suppress(BaseException):
            await t


class TcpConn(Conn):
    async def open(self):
        self.r, self.w = await asyncio.open_connection(*self.path, limit=2 ** 22)
        _open.append(self)
        return self


def conn_for(kind, addr):
    return Conn(addr) if kind == "uds" else TcpConn(addr)


class Dgram(asyncio.DatagramProtocol):
    def __init__(self):
        self.q = asyncio.Queue()
        self.tr = None

    def connection_made(self, transport):
        self.tr = transport

    def datagram_received(self, data, addr):
        self.q.put_nowait(data)

    def error_received(self, exc):
        self.q.put_nowait(exc)

    @classmethod
    async def open(cls, addr):
        _, p = await asyncio.get_running_loop().create_datagram_endpoint(cls, remote_addr=addr)
        return p
