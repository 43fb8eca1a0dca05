"""A virtual-time asyncio event loop.

Time is an integer number of microseconds (``vus``) that only advances when
nothing is ready to run; it may be symbolic, in which case the order in which
timers fire is decided by solver forks on the timers' due times.
"""

from __future__ import annotations

import asyncio
import collections
import heapq
import math
from fractions import Fraction
from typing import Any

from . import sym
from .sym import SymFloat, SymInt, lin_scale


class Deadlock(Exception):
    """Nothing is runnable and no timer is pending."""


class Stuck(Exception):
    """The virtual-time or step budget ran out before the harness finished."""


_UC: dict[float, int] = {}


def _us_ceil(when: Any) -> Any:
    if type(when) is SymFloat:
        if 1_000_000 % when.d == 0:
            m = 1_000_000 // when.d
            return SymInt(lin_scale(when.e, m), when.n * m)
        return math.ceil(when * 1_000_000)
    if type(when) is SymInt:
        return when * 1_000_000
    got = _UC.get(when)
    if got is None:
        if len(_UC) > 5000:
            _UC.clear()
        got = _UC[when] = math.ceil(round(Fraction(repr(float(when))) * 1_000_000, 3))
    return got


class VLoop(asyncio.BaseEventLoop):
    def __init__(self, max_steps: int = 200_000, max_vus: int | None = None) -> None:
        super().__init__()
        self.vus: Any = 0
        self.steps = 0
        self._last_vus: Any = None
        self._same = 0
        self.max_steps = max_steps
        self.max_vus = max_vus
        self.all_tasks: list[asyncio.Task[Any]] = []
        self.finished = False
        self.errors: list[dict[str, Any]] = []
        self.set_exception_handler(lambda loop, c: self.errors.append(c))
        self.set_task_factory(self._factory)
        self._ready = collections.deque()

    def _factory(self, loop: Any, coro: Any, **kw: Any) -> Any:
        t = asyncio.Task(coro, loop=loop, **kw)
        t._log_destroy_pending = False  # type: ignore[attr-defined]
        self.all_tasks.append(t)
        return t

    def time(self) -> Any:
        return self.vus / 1_000_000

    def call_at(self, when: Any, callback: Any, *args: Any, context: Any = None) -> Any:
        if type(when) is float:  # no rounding noise in the order of timers
            us = _us_ceil(when)
            now = self.vus
            if type(now) is int and us <= now and when > now / 1_000_000:
                us = now + 1  # a timer that is not due yet makes time pass
            when = us / 1_000_000
        return super().call_at(when, callback, *args, context=context)

    def _write_to_self(self) -> None:
        pass

    def _process_events(self, event_list: Any) -> None:
        pass

    def _asyncgen_finalizer_hook(self, agen: Any) -> None:
        if not self.finished and not self.is_closed():
            super()._asyncgen_finalizer_hook(agen)  # type: ignore[misc]

    def _run_once(self) -> None:
        self.steps += 1
        if self.steps > self.max_steps:
            raise Stuck(f"more than {self.max_steps} loop steps")
        if self.vus is not self._last_vus:
            self._last_vus, self._same = self.vus, 0
        self._same += 1
        if self._same > 1000:
            # code that spins on "not due yet" because of float rounding: time passes
            self.vus = self.vus + 1
        sched = self._scheduled  # type: ignore[attr-defined]
        while sched and sched[0]._cancelled:
            h = heapq.heappop(sched)
            h._scheduled = False
        if not self._ready:
            if not sched:
                raise Deadlock("no runnable callback and no timer")
            target = _us_ceil(sched[0]._when)
            if bool(target > self.vus):
                self.vus = target
                if self.max_vus is not None and bool(self.vus > self.max_vus):
                    raise Stuck("virtual-time budget exhausted")
        now = self.vus
        while sched:
            h = sched[0]
            if h._cancelled:
                heapq.heappop(sched)
                h._scheduled = False
                continue
            if bool(_us_ceil(h._when) > now):
                break
            heapq.heappop(sched)
            h._scheduled = False
            self._ready.append(h)
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if h._cancelled:
                continue
            h._run()
            run = sym.CUR
            if run is not None and run.aborted is not None:
                raise run.aborted
        h = None  # type: ignore[assignment]

    def finish(self) -> None:
        """Drop everything without running more code under test."""
        self.finished = True
        self._ready.clear()
        self._scheduled.clear()  # type: ignore[attr-defined]
        if not self.is_running() and not self.is_closed():
            self.close()


def run_virtual(coro_fn: Any, *args: Any, max_steps: int = 200_000, max_vus: int | None = None) -> Any:
    """Run an async harness on a fresh virtual loop (CLOCK follows it)."""
    from .clock import CLOCK

    loop = VLoop(max_steps, max_vus)
    CLOCK.loop = loop
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(coro_fn(*args))
    finally:
        # freeze the wall clock where the loop stopped
        CLOCK.us = CLOCK.now_us()
        CLOCK.loop = None
        asyncio.set_event_loop(None)
        loop.finish()
