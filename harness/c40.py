"""C40 What is over leaves nothing in Redis for good."""
import asyncio
from datetime import timedelta
from typing import Annotated, Any

from docket import ConcurrencyLimit, Perpetual, Progress, Retry, Timeout
from docket.dependencies import Cooldown, Debounce, RateLimit
from docket.execution import ExecutionProgress
from vp.redis_model import Stream

from .c10 import serve, stop
from .lib import MS, S, Ctx, Harness, crash_at, delay_at, td

FUNCTIONS = [
    "Docket.add/replace/cancel/clear", "_schedule (Lua)", "_cancel_task (Lua)", "_clear_tasks (Lua)", "_stream_due_tasks (Lua)", "_claim (Lua)", "_terminal (Lua)", "Worker._worker_loop", "Worker._execute",
    "ConcurrencyLimit + its Lua", "RateLimit", "Cooldown", "Debounce", "Retry", "Perpetual", "ExecutionProgress", "ResultStorage.put",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness", "a key with an expiry of a day or less goes by itself (Redis' own guarantee)"]
DAY = 24 * 3600 * 1000

PLAIN = ["plain", "retried", "failing", "perpetual", "timed out"]
LIMITS = ["slot", "rate", "rate drop", "cooldown", "debounce"]
ACTS = ["nothing", "cancel", "replace", "clear", "strike"]


def left(ctx: Ctx, name: str = "d") -> list[str]:
    """What stays in Redis for good of a docket whose work is over."""
    store = ctx.store
    out = []
    lasting = [f"{name}:{x}" for x in ("stream", "queue", "workers", "strikes")]
    for k in list(store.data):
        if store.lookup(k) is None:
            continue
        text = k.decode()
        v = store.data[k]
        if text == f"{name}:stream":
            if v.entries:
                out.append(f"{len(v.entries)} messages on the stream")
            if any(g.pel for g in v.groups.values()):
                out.append("unacknowledged messages")
        elif text == f"{name}:queue":
            out.append(f"{len(v)} tasks in the queue")
        elif text in lasting or text.startswith((f"{name}:worker-tasks:", f"{name}:task-workers:")):
            pass
        elif (at := store.expiry.get(k)) is None:
            out.append(f"{text} never expires" + (f" ({len(v.entries)} entries)" if isinstance(v, Stream) else ""))
        elif bool(at > store.now_ms() + DAY):
            out.append(f"{text} does not expire within a day")
    return sorted(out)


def tasks(ctx: Ctx, ran: list, dur: Any) -> dict[str, Any]:
    async def work(i: int) -> int:
        ran.append(i)
        await ctx.sleep_us(dur)
        return i

    async def plain(i: int, who: str, progress: ExecutionProgress = Progress()) -> int:
        await progress.set_total(3)
        await progress.increment(1)
        return await work(i)

    async def retried(i: int, who: str, retry: Retry = Retry(attempts=2, delay=timedelta(milliseconds=300))) -> int:
        if await work(i) and retry.attempt == 1:
            raise ValueError("once")
        return i

    async def failing(i: int, who: str) -> None:
        await work(i)
        raise ValueError("sorry")

    async def perpetual(i: int, who: str, perpetual: Perpetual = Perpetual(every=timedelta(milliseconds=200))) -> None:
        await work(i)
        if ran.count(i) >= 2:
            perpetual.cancel()

    async def timed_out(i: int, who: str, timeout: Timeout = Timeout(timedelta(milliseconds=200))) -> None:
        await work(i)
        await ctx.sleep_us(S)

    async def slot(i: int, who: str, limit: ConcurrencyLimit = ConcurrencyLimit("who", 1)) -> None:
        await work(i)

    async def rate(i: int, who: Annotated[str, RateLimit(1, per=timedelta(seconds=1))]) -> None:
        await work(i)

    async def rate_drop(i: int, who: Annotated[str, RateLimit(1, per=timedelta(seconds=1), drop=True)]) -> None:
        await work(i)

    async def cooldown(i: int, who: Annotated[str, Cooldown(timedelta(seconds=1))]) -> None:
        await work(i)

    async def debounce(i: int, who: Annotated[str, Debounce(timedelta(milliseconds=300))]) -> None:
        await work(i)

    return {f.__name__.replace("_", " "): f for f in (plain, retried, failing, perpetual, timed_out, slot, rate, rate_drop, cooldown, debounce)}


async def act(ctx: Ctx, c: Any, what: str, f: Any) -> None:
    if what == "cancel":
        await c.cancel("k1")
    elif what == "replace":
        await c.replace(f, ctx.now() + td(200 * MS), key="k1")(5, "a")
    elif what == "clear":
        await c.clear()
    elif what == "strike":
        await c.strike(f)


def lives(ctx: Ctx) -> None:
    """Two tasks (perhaps one with a slow operation of its worker), and something done to them at any moment."""

    async def main(ctx: Ctx) -> None:
        ran: list = []
        dur = ctx.pick("dur", ctx.p["dur"])
        fs = tasks(ctx, ran, dur)
        kind = ctx.pick("kind", ctx.p["kinds"])
        f = fs[kind]
        what = ctx.pick("act", ctx.p["acts"])
        ttl = ctx.pick("ttl", ctx.p["ttl"])
        async with ctx.docket(execution_ttl=td(ttl)) as d, ctx.docket("client", execution_ttl=td(ttl)) as c:
            for x in (d, c):
                for g in fs.values():
                    x.register(g)
            t = serve(d, "w", ctx, redelivery_timeout=td(ctx.p["timeout"]))
            await ctx.sleep_us(10 * MS)
            st = None
            if ctx.p["ops"]:
                st = delay_at(ctx, "main", 1 + ctx.choice("op", ctx.p["ops"]), ctx.pick("lag", ctx.p["lag"]), match=lambda op: op.upper() != "XREADGROUP", sent=ctx.pick("sent", [False, True]))
            at = ctx.int("at", 0, ctx.p["hi"])
            await c.add(f, key="k0")(0, "a")
            await c.add(f, key="k1", when=ctx.at(ctx.now_us() + ctx.pick("due", ctx.p["due"])))(1, "a")
            await ctx.sleep_us(at)
            await act(ctx, c, what, f)
            await ctx.sleep_us(ctx.p["settle"])
            if st is not None and st["fired"]:
                ctx.reach("slow")
            await stop(t)
            await ctx.sleep_us(100 * MS)
            rest = left(ctx)
            ctx.check(not rest, "nothing of what is over stays in Redis", f"{kind} {what} ttl {ttl}: ran {ran}: {rest}")
            ctx.reach(kind)
            ctx.reach(what)
            ctx.observe(kind, what, ran)

    ctx.go(main)


def dies(ctx: Ctx) -> None:
    """The worker dies at any of its operations, another one takes over."""

    async def main(ctx: Ctx) -> None:
        ran: list = []
        fs = tasks(ctx, ran, ctx.p["dur"])
        kind = ctx.pick("kind", PLAIN + LIMITS)
        f = fs[kind]
        ttl = ctx.pick("ttl", [0, 900 * S])
        async with ctx.docket(execution_ttl=td(ttl)) as d, ctx.docket("second", execution_ttl=td(ttl)) as d2, ctx.docket("client", execution_ttl=td(ttl)) as c:
            for x in (d, d2, c):
                for g in fs.values():
                    x.register(g)
            t = serve(d, "w", ctx, redelivery_timeout=td(ctx.p["timeout"]))
            await ctx.sleep_us(10 * MS)
            await c.add(f, key="k0")(0, "a")
            await c.add(f, key="k1", when=ctx.at(ctx.now_us() + ctx.pick("due", ctx.p["due"])))(1, "a")
            st = crash_at(ctx, "main", 1 + ctx.choice("op", ctx.p["ops"]), after=ctx.bool("after"))
            await ctx.sleep_us(ctx.p["hi"])
            t2 = serve(d2, "w2", ctx, redelivery_timeout=td(ctx.p["timeout"]))
            what = ctx.pick("act", ctx.p["acts"])
            if what != "nothing":
                await ctx.sleep_us(ctx.int("at", 0, ctx.p["hi"]))
                await act(ctx, c, what, f)
            await ctx.sleep_us(ctx.p["settle"])
            t.cancel()
            await stop(t2)
            await ctx.sleep_us(100 * MS)
            if st["fired"]:
                ctx.reach("died")
            rest = left(ctx)
            ctx.check(not rest, "nothing of what is over stays in Redis", f"{kind} {what} ttl {ttl}: ran {ran}: {rest}")
            ctx.reach(kind)
            ctx.observe(kind, what, ran)

    ctx.go(main)


HARNESSES = [
    Harness("lives", lives, "two tasks of 10 kinds, cancelled, replaced, cleared or struck at any moment of 1.5 s; outcomes kept for 15 minutes or not at all", PLAIN + LIMITS + ACTS,
            quick={"kinds": PLAIN + LIMITS, "acts": ACTS, "ttl": [0, 900 * S], "dur": [300 * MS], "due": [0, 200 * MS], "ops": 0, "lag": [0], "hi": 1500 * MS, "timeout": 2 * S, "settle": 12 * S}, thorough={"hi": 3 * S, "dur": [0, 300 * MS, 2500 * MS], "due": [0, 200 * MS, S]}, budget_quick=120),
    Harness("raced", lives, "the same, with one of the worker's operations taking 0.4 s", PLAIN + LIMITS + ["slow"],
            quick={"kinds": PLAIN + LIMITS, "acts": ["cancel", "replace", "clear"], "ttl": [900 * S], "dur": [100 * MS], "due": [0], "ops": 10, "lag": [400 * MS], "hi": 600 * MS, "timeout": 2 * S, "settle": 12 * S},
            thorough={"acts": ACTS, "ttl": [0, 900 * S], "ops": 24, "lag": [100 * MS, 400 * MS, 2500 * MS], "hi": 2 * S, "due": [0, 200 * MS]}, budget_quick=150),
    Harness("dies", dies, "the worker dies before or after any of its operations and another one takes over", PLAIN + LIMITS + ["died"],
            quick={"dur": 100 * MS, "due": [0, 200 * MS], "ops": 24, "acts": ["nothing", "strike"], "hi": S, "timeout": 1500 * MS, "settle": 15 * S}, thorough={"ops": 45, "acts": ACTS, "hi": 3 * S}, budget_quick=150),
]
