"""Virtual-time asyncio loop: timers never sleep for real.

When nothing is ready, the loop jumps its clock to the next timer.  With
`grace` > 0 it first gives real file descriptors that many (real) seconds to
become ready, for cases that talk over loopback sockets.
"""
import asyncio
import contextlib
import selectors
import time as _time

from harness import Violation


class _VSelector:
    def __init__(self, loop, grace):
        self._real = selectors.DefaultSelector()
        self._loop = loop
        self.grace = grace

    def __getattr__(self, name):
        return getattr(self._real, name)

    def select(self, timeout=None):
        lp = self._loop
        lp._turns += 1
        if lp._turns > lp.max_turns:
            lp._turns = -10**9
            raise Violation(f"event loop still busy after {lp.max_turns} turns "
                            f"(virtual time {lp._vt:.1f}s): livelock")
        ev = self._real.select(0)
        if ev or (timeout is not None and timeout <= 0):
            return ev
        if self.grace:
            ev = self._real.select(self.grace)
            if ev:
                return ev
        if timeout is None:
            # nothing scheduled at all; wait for real I/O (self-pipe, threads)
            lp._idle += 1
            if lp._idle > 200:
                raise Violation("event loop is stuck: nothing scheduled and no I/O pending (deadlock)")
            return self._real.select(0.01)
        lp._idle = 0
        lp._vt += timeout
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, grace=0.0, max_turns=200000):
        self._vt = 1000.0
        self._turns = 0
        self._idle = 0
        self.max_turns = max_turns
        super().__init__(_VSelector(self, grace))

    def time(self):
        return self._vt


@contextlib.contextmanager
def _patched_time(loop):
    real = _time.time
    base = 1_700_000_000.0
    _time.time = lambda: base + loop._vt
    try:
        yield
    finally:
        _time.time = real


def run(coro_fn, grace=0.0, max_turns=200000, patch_time=False):
    """Run `await coro_fn()` on a fresh virtual-time loop, cancelling leftovers.
    Returns its result."""
    loop = VLoop(grace, max_turns)
    errors = []
    loop.set_exception_handler(lambda l, ctx: errors.append(ctx))
    cm = _patched_time(loop) if patch_time else contextlib.nullcontext()
    try:
        asyncio.set_event_loop(loop)
        with cm:
            try:
                return loop.run_until_complete(coro_fn())
            finally:
                loop._turns = 0
                pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
                for t in pend:
                    t.cancel()
                if pend:
                    loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
                loop.run_until_complete(loop.shutdown_asyncgens())
    finally:
        asyncio.set_event_loop(None)
        loop.close()
