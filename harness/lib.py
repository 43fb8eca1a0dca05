"""Shared harness pieces: recording task bodies, background workers, fault hooks."""

from __future__ import annotations

import asyncio
import contextlib
from typing import Any, Callable

from vp import clock, sym
from vp.ctx import Ctx, Harness  # noqa: F401

S = 1_000_000
MS = 1_000


class Rec:
    """Observed executions, in order of observation."""

    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.events: list[tuple[str, Any, Any]] = []  # (kind, tag, now_us)
        self.running: dict[Any, int] = {}
        self.max_running: dict[Any, int] = {}

    def add(self, kind: str, tag: Any) -> None:
        self.events.append((kind, tag, self.ctx.now_us()))

    def start(self, tag: Any, group: Any = None) -> None:
        self.add("start", tag)
        self.running[group] = self.running.get(group, 0) + 1
        self.max_running[group] = max(self.max_running.get(group, 0), self.running[group])

    def end(self, tag: Any, kind: str = "end", group: Any = None) -> None:
        self.add(kind, tag)
        self.running[group] = self.running.get(group, 0) - 1

    def of(self, kind: str, tag: Any = None) -> list[Any]:
        return [t for k, g, t in self.events if k == kind and (tag is None or g == tag)]

    def tags(self, kind: str) -> list[Any]:
        return [g for k, g, _ in self.events if k == kind]

    def n(self, kind: str, tag: Any = None) -> int:
        return len(self.of(kind, tag))


def td(us: Any) -> Any:
    return clock.mk_timedelta(us)


@contextlib.asynccontextmanager
async def running(worker: Any) -> Any:
    """run_forever in the background; cancelled on exit."""
    t = asyncio.get_running_loop().create_task(worker.run_forever())
    try:
        yield t
    finally:
        t.cancel()
        with contextlib.suppress(asyncio.CancelledError, Exception):
            await t


def crash_at(ctx: Ctx, client: str, n: int, after: bool = False) -> dict[str, Any]:
    """Kill the client's process at its n-th Redis operation from now on: the
    operation is not performed (or, with after=True, performed but the reply
    never arrives), and nothing of that process runs again."""
    ctl = ctx.ctl(client)
    st = {"count": 0, "fired": False}

    async def before(op: str, args: Any) -> None:
        st["count"] += 1
        if not after and st["count"] == n:
            ctl.dead = True
            st["fired"] = True

    async def aft(op: str, args: Any) -> None:
        if after and st["count"] == n and not st["fired"]:
            ctl.dead = True
            st["fired"] = True

    ctl.before = before
    ctl.after = aft
    return st


def freeze(ctx: Ctx, client: str) -> None:
    ctx.ctl(client).dead = True


def delay_at(ctx: Ctx, client: str, n: int, us: Any, match: Callable[[str], bool] | None = None, after: bool = False, sent: bool = False) -> dict[str, Any]:
    """Delay the client's n-th (matching) operation (or, with after=True, its reply) by a
    duration; with sent=True it is already under way and happens even if its caller is gone."""
    ctl = ctx.ctl(client)
    st = {"count": 0, "fired": False}

    async def before(op: str, args: Any) -> Any:
        if match is not None and not match(op):
            return None
        st["count"] += 1
        if st["count"] == n and not after:
            st["fired"] = True
            if sent:
                return us / 1_000_000
            await asyncio.sleep(us / 1_000_000)

    async def aft(op: str, args: Any) -> None:
        if after and st["count"] == n and not st["fired"] and (match is None or match(op)):
            st["fired"] = True
            await asyncio.sleep(us / 1_000_000)

    ctl.before = before
    ctl.after = aft
    return st


def fault_at(ctx: Ctx, client: str, n: int, after: bool, match: Callable[[str], bool] | None = None) -> dict[str, Any]:
    """Make the client's n-th operation raise ConnectionError, before or after taking effect."""
    from vp.redis_model import connection_error

    ctl = ctx.ctl(client)
    st = {"count": 0, "fired": False, "op": ""}

    async def before(op: str, args: Any) -> None:
        if match is not None and not match(op):
            return
        st["count"] += 1
        if st["count"] == n and not after:
            st["fired"] = True
            st["op"] = op
            raise connection_error()

    async def aft(op: str, args: Any) -> None:
        if after and st["count"] == n and not st["fired"] and (match is None or match(op)):
            st["fired"] = True
            st["op"] = op
            raise connection_error()

    ctl.before = before
    ctl.after = aft
    return st


async def tied(ctx: Ctx, rec: Rec, t: Any, but: tuple[str, ...] = ()) -> bool:
    """Let the instant t pass; did anything observable happen exactly then
    (other than what we provoked ourselves)?"""
    await ctx.sleep_us(1)
    return any(bool(x == t) or bool(x == t + 1) for k, _, x in rec.events if k not in but)


async def aged(docket: Any, key: str, generation: int) -> None:
    """Give the key a past: it has been scheduled this often before, and that ended."""
    if generation:
        async with docket.redis() as r:
            await r.hset(docket.runs_key(key), mapping={"generation": str(generation), "state": "completed"})
