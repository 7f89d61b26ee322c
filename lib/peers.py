"""Scripted peers for client checks: raw servers that share no code with the servers under test."""
import asyncio
import contextlib
import json
import os
import socket
import struct

import harness as h


class Script:
    """Decides, per arriving request, what the peer does.  action: ok busy status garbage close partial rst never"""

    def __init__(self, steps, ping_delay=0):
        self.steps, self.ping_delay = steps, ping_delay
        self.arrivals = []            # (n, action) in arrival order
        self.conns = 0
        self.raw = []

    def next(self, req):
        i = len(self.arrivals)
        act, delay = self.steps[i] if i < len(self.steps) else ("ok", 0)
        self.arrivals.append((req["data"]["n"], act))
        self.raw.append(req)
        return act, delay

    @staticmethod
    def reply(req, act):
        n = req["data"]["n"]
        if act == "garbage":
            return b"{nope\n"
        if act == "badutf8":
            return json.dumps({"span_key": req["span_key"], "status": 0, "data": {"n": n, "text": f"answer-{n}-"}}).encode().replace(b"answer", b"answ\xffer") + b"\n"
        good = {"n": n, "text": f"answer-{n}-"}
        odd = {"okstr": {**good, "n": str(n)}, "okextra": {**good, "more": [1]}, "badmissing": {"n": n}, "badtype": {**good, "n": "zero"},
               "badlist": [good], "badnull": None}
        status = 0 if act == "ok" or act in odd else 500 if act == "busy" else act
        data = (odd[act] if act in odd else good) if status == 0 else f"problem-{n}-"
        return (json.dumps({"span_key": req["span_key"], "status": status, "data": data}) + "\n").encode()


async def _stream(script, r, w):
    script.conns += 1
    try:
        while True:
            line = await r.readline()
            if not line.endswith(b"\n"):
                break
            if line[:1] == b"\x05":
                await asyncio.sleep(script.ping_delay)
                w.write(b"\x06\n")
                continue
            req = json.loads(line)
            act, delay = script.next(req)
            if act == "never":
                await asyncio.sleep(100_000)
                break
            if delay:
                await asyncio.sleep(delay)
            if act == "close":
                break
            if act == "rst":
                w.transport.abort()
                return
            rep = script.reply(req, "ok" if act in ("partial", "okrst", "okclose") else act)
            if act == "partial":
                w.write(rep[: len(rep) // 2])
                break
            w.write(rep)
            if act == "okclose":
                break
            if act == "okrst":         # answered in full, then the connection breaks
                s = w.get_extra_info("socket")
                if s.family == socket.AF_INET:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                w.transport.abort()
                return
    except (ConnectionError, asyncio.CancelledError):
        pass
    finally:
        w.close()


class _D(asyncio.DatagramProtocol):
    def __init__(self, script):
        self.script, self.tasks = script, set()

    def connection_made(self, tr):
        self.tr = tr

    def datagram_received(self, data, addr):
        req = json.loads(data)
        act, delay = self.script.next(req)
        if act in ("never", "close", "partial", "rst"):
            return

        async def later():
            if delay:
                await asyncio.sleep(delay)
            if not self.tr.is_closing():
                self.tr.sendto(self.script.reply(req, "ok" if act in ("okrst", "okclose") else act), addr)
        t = asyncio.get_running_loop().create_task(later())
        self.tasks.add(t)
        t.add_done_callback(self.tasks.discard)


@contextlib.asynccontextmanager
async def peer(kind, script):
    """kind: uds/tcp/udp; yields an address usable by make_client."""
    loop = asyncio.get_running_loop()
    if kind == "udp":
        tr, p = await loop.create_datagram_endpoint(lambda: _D(script), local_addr=(h.loop_ip(), 0))
        try:
            yield tr.get_extra_info("sockname")[:2]
        finally:
            tr.close()
        return
    tasks = set()

    async def cb(r, w):
        tasks.add(asyncio.current_task())
        await _stream(script, r, w)

    if kind == "uds":
        d = h.fresh_dir("peer")
        addr = os.path.join(d, "s")
        srv = await asyncio.start_unix_server(cb, addr, limit=2 ** 22)
    else:
        d = None
        srv = await asyncio.start_server(cb, h.loop_ip(), 0, limit=2 ** 22)
        addr = srv.sockets[0].getsockname()[:2]
    try:
        yield addr
    finally:
        srv.close()
        for t in tasks:
            t.cancel()
        await asyncio.sleep(0)
        if d:
            h.rmdir(d)


CLIENTS = ["ptcp", "puds", "ttcp", "tuds", "udp"]


def transport(client):
    return "udp" if client == "udp" else client[1:]


def make_client(client, addr, timeout, max_retries, retry_delay=0.1, heartbeat=60.0):
    from ekosis.clients import (TransientTCPClient, UDPClient, TransientUDSClient, PersistedTCPClient,
                                PersistedUDSClient)
    if client == "udp":
        return UDPClient(addr[0], addr[1], timeout=timeout, max_retries=max_retries, retry_delay=retry_delay)
    kw = dict(timeout=timeout, max_retries=max_retries, retry_delay=retry_delay)
    if client[0] == "p":
        kw["heartbeat_period"] = heartbeat
    cls = {"ptcp": PersistedTCPClient, "puds": PersistedUDSClient, "ttcp": TransientTCPClient,
           "tuds": TransientUDSClient}[client]
    return cls(*addr, **kw) if transport(client) == "tcp" else cls(addr, **kw)
