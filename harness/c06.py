"""C06 Scheduled tasks start on time, never early, exactly once."""
import contextlib
from datetime import timedelta, timezone

from docket import Worker

from vp.clock import us_of
from vp.sym import and_

from .days import days
from .lib import MS, S, Ctx, Harness, Rec, delay_at, running, td

FUNCTIONS = [
    "Docket.add", "Execution.schedule", "_schedule (Lua)", "Worker._scheduler_loop", "_stream_due_tasks (Lua)",
    "Worker._worker_loop", "Execution.from_message", "Execution.claim", "_claim (Lua)", "_terminal (Lua)",
]
ASSUMPTIONS = [
    "virtual time: Redis operations take no time, timers fire exactly when due",
    "timestamps are exact decimals (no binary floating-point rounding)",
]


def due_times(ctx: Ctx) -> None:
    """n tasks with symbolic due times, one or two workers."""
    n, nw, hi = ctx.p["tasks"], ctx.p["workers"], ctx.p["hi"]
    res, poll = ctx.p["res"], ctx.p["poll"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: int) -> None:
            rec.start(tag)

        async with ctx.docket() as d:
            d.register(job)
            due = []
            gap = ctx.int("gap", 0, ctx.p.get("gap", 0))
            for i in range(n):
                t = ctx.int(f"due{i}", ctx.p["lo"], hi)
                due.append(t)
            for i in range(n):
                await d.add(job, when=ctx.at(due[i]), key=f"k{i}")(i)
                if i == 0 and ctx.p.get("gap", 0):
                    await ctx.sleep_us(gap)
            async with contextlib.AsyncExitStack() as st:
                for w in range(nw):
                    wd = d if w == 0 else await st.enter_async_context(ctx.docket(f"w{w}"))
                    if w:
                        wd.register(job)
                    wk = await st.enter_async_context(
                        Worker(wd, name=f"w{w}", minimum_check_interval=td(poll), scheduling_resolution=td(res), schedule_automatic_tasks=False)
                    )
                    t0 = ctx.now_us()
                    await st.enter_async_context(running(wk))
                await ctx.sleep_us(hi + 2 * (res + poll))
                for i in range(n):
                    ctx.check(rec.n("start", i) == 1, "task ran exactly once", f"task {i}: {rec.tags('start')}")
                    at = rec.of("start", i)[0]
                    ctx.check(at >= due[i], "never starts early", f"task {i}")
                    base = due[i] if due[i] > t0 else t0
                    ctx.check(at <= base + res + poll, "starts within one scheduling and one polling interval", f"task {i}")
                    if due[i] > t0:
                        ctx.reach("future")
                    else:
                        ctx.reach("past")
                    ctx.observe(i, at, due[i])

    ctx.go(main)


def live_add(ctx: Ctx) -> None:
    """A task added while the worker is already polling."""
    hi, res, poll = ctx.p["hi"], ctx.p["res"], ctx.p["poll"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job() -> None:
            rec.start("a")

        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            c.register(job)
            async with Worker(
                d, name="w", minimum_check_interval=td(poll), scheduling_resolution=td(res), schedule_automatic_tasks=False
            ) as wk, running(wk):
                await ctx.sleep_us(ctx.int("at", 0, hi))
                delay = ctx.int("delay", -S, hi)
                t = ctx.now_us()
                when = ctx.at(t + delay)
                if (zone := ctx.choice("zone", 2)):
                    when = when.astimezone(timezone(timedelta(hours=5, minutes=30)))
                e = await c.add(job, when=when, key="k")()
                ctx.check(us_of(e.when) == us_of(ctx.at(t + delay)), "the handle tells when it is due", f"zone {zone}")
                await ctx.sleep_us(hi + 2 * (res + poll))
                ctx.check(rec.n("start") == 1, "task ran exactly once", str(rec.tags("start")))
                at = rec.of("start")[0]
                ctx.check(at >= t + delay, "never starts early")
                if delay <= 0:
                    ctx.check(at <= t + poll, "an already-due task starts immediately")
                    ctx.reach("immediate")
                else:
                    ctx.check(at <= t + delay + res + poll, "starts within one scheduling and one polling interval")
                    ctx.reach("future")
                ctx.observe(at)

    ctx.go(main)


def crowd(ctx: Ctx) -> None:
    """Many tasks come due, at once or shortly after one another."""
    res, poll = ctx.p["res"], ctx.p["poll"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        n = ctx.pick("tasks", ctx.p["tasks"])
        spread = ctx.pick("spread", ctx.p["spread"])
        workers = 1 + ctx.choice("workers", 2)

        async def job(tag: int) -> None:
            rec.start(tag)

        async with ctx.docket() as d, ctx.docket("b") as d2:
            first = ctx.int("first", 0, ctx.p["hi"])
            for x in (d, d2):
                x.register(job)
            due = [first + i * spread for i in range(n)]
            for i in range(n):
                await d.add(job, when=ctx.at(due[i]), key=f"k{i}")(i)
            async with contextlib.AsyncExitStack() as st:
                for x in (d, d2)[:workers]:
                    wk = await st.enter_async_context(Worker(x, name=f"w{x is d}", concurrency=n, minimum_check_interval=td(poll), scheduling_resolution=td(res), schedule_automatic_tasks=False))
                    await st.enter_async_context(running(wk))
                await ctx.sleep_us(ctx.p["hi"] + n * spread + 2 * (res + poll))
                ran = rec.tags("start")
                ctx.check(sorted(ran) == list(range(n)), "every task ran exactly once", f"{n} tasks, {workers} workers: missing {sorted(set(range(n)) - set(ran))[:9]}, {len(ran)} runs")
                at = {i: rec.of("start", i)[0] for i in range(n)}
                ctx.check(and_(*[at[i] >= due[i] for i in range(n)]), "never starts early", f"{n} tasks")
                ctx.check(and_(*[at[i] <= due[i] + res + poll for i in range(n)]), "starts within one scheduling and one polling interval", f"{n} tasks")
                ctx.reach(f"{n} tasks")
                ctx.reach(f"{workers} workers")
                ctx.observe(len(ran), at[0], at[n - 1])

    ctx.go(main)


def slow(ctx: Ctx) -> None:
    """Any one of the worker's operations takes a while, on its way there or back."""
    res, poll, lag = ctx.p["res"], ctx.p["poll"], ctx.p["lag"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: int) -> None:
            rec.start(tag)

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job)
            first = ctx.int("first", 0, ctx.p["hi"])
            gap = ctx.pick("gap", ctx.p["gaps"])
            due = [first, first + gap]
            for i in range(2):
                await c.add(job, when=ctx.at(due[i]), key=f"k{i}")(i)
            n = 1 + ctx.choice("op", ctx.p["ops"])
            part = ctx.choice("slow_part", 3)
            st = delay_at(ctx, "main", n, lag, lambda op: op not in ("GET_MESSAGE", "PIPELINE"), after=part == 1, sent=part == 2)
            kw = dict(minimum_check_interval=td(poll), scheduling_resolution=td(res), schedule_automatic_tasks=False)
            async with Worker(d, name="w", **kw) as wk, Worker(d2, name="w2", **kw) as wk2, running(wk):
                two = ctx.choice("two_workers", 2)
                async with running(wk2) if two else contextlib.nullcontext():
                    await ctx.sleep_us(ctx.p["hi"] + ctx.p["gaps"][-1] + lag + 2 * (res + poll))
                    for i in range(2):
                        ctx.check(rec.n("start", i) == 1, "task ran exactly once", f"#{n} part {part} {two}: {rec.events}")
                        at = rec.of("start", i)[0]
                        ctx.check(at >= due[i], "never starts early", f"#{n} part {part} {two}: {rec.events}")
                        ctx.check(at <= due[i] + lag + res + poll, "starts within one scheduling and one polling interval of the delay", f"#{n} part {part} {two}: {due} {rec.events}")
                    if st["fired"]:
                        ctx.reach("slow operation")
                    ctx.reach("two workers" if two else "one worker")
                    ctx.observe(rec.of("start", 0)[0], rec.of("start", 1)[0])

    ctx.go(main)


HARNESSES = [
    Harness("due_times", due_times, "2 tasks, due in [-1s, 3s] at microsecond resolution, 1 worker, scheduling 500ms, polling 700ms",
            ["future", "past"],
            quick={"tasks": 2, "workers": 1, "lo": -S, "hi": 3 * S, "res": 500 * MS, "poll": 700 * MS},
            thorough={"tasks": 3, "hi": 4 * S}),
    Harness("two_workers", due_times, "2 tasks, due in [0, 1.5s], 2 workers polling the same docket", ["future"],
            quick={"tasks": 2, "workers": 2, "lo": 0, "hi": 1500 * MS, "res": 500 * MS, "poll": 700 * MS},
            thorough={"tasks": 3, "hi": 3 * S}),
    Harness("live_add", live_add, "1 task added at any instant of [0,2s] while polling, delay in [-1s, 2s], told in UTC or another time zone", ["future", "immediate"],
            quick={"hi": 2 * S, "res": 500 * MS, "poll": 700 * MS}, thorough={"hi": 4 * S, "res": 250 * MS, "poll": 250 * MS}),
    Harness("crowd", crowd, "5, 12 or 60 tasks due from any instant of 0.6s on, all at once or 1ms or 90ms apart, 1 or 2 workers", ["5 tasks", "12 tasks", "60 tasks", "1 workers", "2 workers"],
            quick={"tasks": [5, 12, 60], "spread": [0, MS, 90 * MS], "hi": 600 * MS, "res": 500 * MS, "poll": 700 * MS},
            thorough={"tasks": [5, 12, 60, 150], "spread": [0, 1, MS, 30 * MS, 90 * MS], "hi": 2 * S}, max_vus=60 * S, max_steps=400000),
    Harness("slow", slow, "2 tasks due at any instant of 0.8s and 0.1 or 0.6s later, any one of a worker's first 16 operations slow by 0.4s in 3 ways, 1 or 2 workers", ["slow operation", "one worker", "two workers"],
            quick={"ops": 16, "lag": 400 * MS, "hi": 800 * MS, "gaps": [100 * MS, 600 * MS], "res": 300 * MS, "poll": 400 * MS},
            thorough={"ops": 40, "hi": 2 * S}),
    days("delay", "a task due at any moment of 60 hours", ["later"]),
]
