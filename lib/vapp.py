"""A whole Ecosystem application on virtual time, inside a forked child.

`install()` (before ekosis is imported) makes every clock virtual and makes asyncio.run() use the virtual-time loop;
`run(driver, ...)` builds an ApplicationBase, starts it for real, runs `driver(app)` as one of its tasks and terminates the
application with SIGTERM when the driver is done."""
import asyncio
import os
import signal
import time
import timeit

import harness as h
import vloop

BASE = 1_700_000_000.0
_state = {"loop": None, "t": 1000.0}
_real_monotonic = time.monotonic


def now():
    lp = _state["loop"]
    return lp._vt if lp is not None else _state["t"]


class _Policy(asyncio.DefaultEventLoopPolicy):
    grace = 0.0
    max_turns = 400000

    def new_event_loop(self):
        if _state["loop"] is not None:
            _state["t"] = _state["loop"]._vt
        lp = vloop.VLoop(self.grace, self.max_turns)
        lp._vt = _state["t"]
        _state["loop"] = lp
        return lp


def install(grace=0.0):
    time.time = lambda: BASE + now()
    time.perf_counter = now
    time.monotonic = now
    time.time_ns = lambda: int((BASE + now()) * 1e9)
    time.perf_counter_ns = time.monotonic_ns = lambda: int(now() * 1e9)
    timeit.default_timer = now
    p = _Policy()
    p.grace = grace
    asyncio.set_event_loop_policy(p)


def run(driver, app_class=None):
    """Returns what driver returned; its exception is re-raised after the application has shut down."""
    from ekosis.application_base import ApplicationBase
    out = {}

    class App(app_class or ApplicationBase):
        async def setup_tasks(self, tasks):
            await super().setup_tasks(tasks)

            async def drive():
                try:
                    out["ok"] = await driver(self)
                except asyncio.CancelledError:
                    raise
                except BaseException as e:
                    out["exc"] = e
                finally:
                    os.kill(os.getpid(), signal.SIGTERM)
                await asyncio.sleep(10 ** 9)
            tasks.append(asyncio.create_task(drive()))

    with App() as app:
        app.start()
    if "exc" in out:
        raise out["exc"]
    h.check("ok" in out, "the application ended before the driver was done")
    return out["ok"]
