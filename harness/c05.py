"""C05 A cancelled pending task never runs."""
import asyncio
import contextlib

from docket import Worker

from .lib import MS, S, Ctx, Harness, Rec, delay_at, running, td, tied

FUNCTIONS = [
    "Docket.add", "Docket.cancel", "Docket._cancel", "_cancel_task (Lua)", "_schedule (Lua)", "_stream_due_tasks (Lua)", "_claim (Lua)",
    "_terminal (Lua)", "Worker._worker_loop", "Worker._execute", "Worker._cancellation_listener", "Worker._handle_cancellation",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness"]
KEYS = ["k", "a:b", "kk", "", "k*", "{k}", "é☃", "runs"]


def cancel_pending(ctx: Ctx) -> None:
    """One task (immediate or future), cancelled at any instant; then re-added."""
    hi, res, poll = ctx.p["hi"], ctx.p["res"], ctx.p["poll"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: str) -> None:
            rec.start(tag)
            await ctx.sleep_us(ctx.p["dur"])
            rec.end(tag)

        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            c.register(job)
            key = ctx.pick("key", KEYS[: ctx.p["keys"]])
            other = key + "x"
            delay = ctx.int("delay", 0, hi)
            wstart = ctx.int("wstart", 0, ctx.p["wmax"])
            tc = ctx.int("cancel_at", 0, hi)
            readd = ctx.bool("readd")
            await c.add(job, when=ctx.at(ctx.now_us() + delay), key=key)("victim")
            await c.add(job, when=ctx.at(hi), key=other)("bystander")
            async with Worker(
                d, name="w", concurrency=ctx.p["conc"], minimum_check_interval=td(poll), scheduling_resolution=td(res), schedule_automatic_tasks=False
            ) as wk, contextlib.AsyncExitStack() as st:
                # cancellation may also hit before any worker is there
                started = False
                if wstart <= tc:
                    await ctx.sleep_us(wstart)
                    await st.enter_async_context(running(wk))
                    started = True
                    await ctx.sleep_us(tc - wstart)
                else:
                    await ctx.sleep_us(tc)
                before = rec.n("start", "victim")
                await c.cancel(key)
                after = rec.n("start", "victim")
                if not started:
                    await st.enter_async_context(running(wk))
                if readd:
                    await ctx.sleep_us(ctx.p["pause"])
                    n_prev = rec.n("start", "victim")
                    e = await c.add(job, key=key)("again")
                await ctx.sleep_us(hi + 3 * (res + poll) + 2 * ctx.p["dur"])
                if after == 0:
                    ctx.reach("pending")
                    ctx.check(rec.n("start", "victim") == 0, "a task cancelled before it started never starts", str(rec.events))
                    if readd:
                        ctx.check(rec.n("end", "again") == 1, "the cancelled key can be scheduled again", str(rec.events))
                        ctx.reach("readded")
                elif before:
                    ctx.reach("running")
                    end = rec.of("end", "victim")
                    ctx.check(rec.n("start", "victim") == 1, "a cancelled running task does not start again", str(rec.events))
                ctx.check(rec.n("end", "bystander") == 1, "other keys are unaffected by a cancellation", str(rec.events))
                ctx.observe(rec.tags("start"), after)

    ctx.go(main)


def cancel_running(ctx: Ctx) -> None:
    """Cancelling a running task interrupts it and records it as cancelled."""
    dur, res, poll = ctx.p["dur"], 500 * MS, 700 * MS

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: str) -> None:
            rec.start(tag)
            try:
                await ctx.sleep_us(dur)
                rec.end(tag)
            except asyncio.CancelledError:
                rec.end(tag, "interrupted")
                raise

        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            c.register(job)
            key = ctx.pick("key", KEYS[: ctx.p["keys"]])
            tc = ctx.int("cancel_at", 100 * MS, 2 * dur)
            e = await c.add(job, key=key)("victim")
            await c.add(job, key=key + "x")("bystander")
            async with Worker(d, name="w", minimum_check_interval=td(poll), scheduling_resolution=td(res), schedule_automatic_tasks=False) as wk, running(wk):
                await ctx.sleep_us(tc)
                done = rec.n("end", "victim")
                t = ctx.now_us()
                await c.cancel(key)
                await ctx.sleep_us(S)
                await e.sync()
                st = e.state.value
                if done or tc == dur:
                    ctx.reach("finished")
                    if tc > dur:
                        ctx.check(st == "completed", "cancelling a finished task does not change its record", st)
                else:
                    ctx.reach("interrupted")
                    ctx.check(rec.n("interrupted", "victim") == 1 and rec.n("end", "victim") == 0, "a running task is interrupted", str(rec.events))
                    if rec.n("interrupted", "victim"):
                        ctx.check(rec.of("interrupted", "victim")[0] <= t + 200 * MS, "a running task is interrupted promptly")
                    ctx.check(st == "cancelled", "an interrupted task is recorded as cancelled", st)
                await ctx.sleep_us(dur)
                ctx.check(rec.n("end", "bystander") == 1, "other keys are unaffected by a cancellation", str(rec.events))
                r = await c.add(job, key=key)("again")
                await ctx.sleep_us(dur + 2 * (res + poll))
                ctx.check(rec.n("end", "again") == 1, "the cancelled key can be scheduled again", str(rec.events))
                ctx.observe(st, rec.tags("start"))

    ctx.go(main)


def cancel_race(ctx: Ctx) -> None:
    """Any one Redis operation of the worker (or of the canceller) is slow, so the
    cancellation lands between any two steps of promotion, delivery and claim."""
    res, poll = 400 * MS, 300 * MS

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: str) -> None:
            rec.start(tag)
            rec.end(tag)

        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            c.register(job)
            delay = ctx.pick("delay", [0, 200 * MS])
            e = await c.add(job, when=ctx.at(ctx.now_us() + delay), key="k")("victim")
            n = 1 + ctx.choice("op", ctx.p["ops"])
            lag = ctx.int("lag", 0, ctx.p["lag"])
            hit = delay_at(ctx, "main", n, lag, lambda op: op not in ("GET_MESSAGE", "PIPELINE"))
            async with Worker(d, name="w", minimum_check_interval=td(poll), scheduling_resolution=td(res), schedule_automatic_tasks=False) as wk, running(wk):
                tc = ctx.int("cancel_at", 0, ctx.p["hi"])
                await ctx.sleep_us(tc)
                before = rec.n("start")
                await c.cancel("k")
                after = rec.n("start")
                await ctx.sleep_us(2 * S)
                if after == 0:
                    ctx.reach("pending")
                    ctx.check(rec.n("start") == 0, "a task cancelled before it started never starts", f"slow operation #{n}: {rec.events}")
                    await e.sync()
                    ctx.check(e.state.value == "cancelled", "a cancelled pending task is recorded as cancelled", e.state.value)
                else:
                    ctx.reach("started")
                ctx.observe(rec.tags("start"))

    ctx.go(main)


def cancel_rerun(ctx: Ctx) -> None:
    """A key that runs again (retried, perpetual, or replaced while running) is
    cancelled at any instant: its current run is interrupted and none follows."""

    async def main(ctx: Ctx) -> None:
        from docket.dependencies import Perpetual, Retry

        rec = Rec(ctx)
        dur = ctx.p["dur"]
        kind = ctx.pick("kind", ["retry at once", "retry later", "perpetual", "replaced"])
        retry = Retry(attempts=2, delay=td(0 if kind == "retry at once" else 200 * MS))

        async def body(tag: str, dur: int) -> None:
            rec.start(tag)
            try:
                await ctx.sleep_us(dur)
                rec.end(tag)
            except asyncio.CancelledError:
                rec.end(tag, "interrupted")
                raise

        async def once(tag: str, dur: int) -> None:
            await body(tag, dur)

        async def retried(tag: str, dur: int, r: Retry = retry) -> None:
            await body(tag, dur)
            if rec.n("start") == 1:
                raise ValueError("boom")

        async def perp(tag: str, dur: int, p: Perpetual = Perpetual()) -> None:
            if rec.n("start") > 1:
                p.cancel()
            await body(tag, dur)

        job = perp if kind == "perpetual" else once if kind == "replaced" else retried
        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            c.register(job)
            n, late = 0, False
            if ctx.p["ops"]:
                n = 1 + ctx.choice("op", ctx.p["ops"])
                late = ctx.choice("slow_part", 3)
                delay_at(ctx, "main", n, 300 * MS, lambda op: op not in ("GET_MESSAGE", "PIPELINE", "XREADGROUP", "XAUTOCLAIM"), after=late == 1, sent=late == 2)
            async with Worker(d, name="w", minimum_check_interval=td(700 * MS), scheduling_resolution=td(500 * MS), schedule_automatic_tasks=False) as wk, running(wk):
                await c.add(job, key="k")("victim", 300 * MS)
                if kind == "replaced":
                    early = ctx.int("replaced_at", 50 * MS, 250 * MS)
                    await ctx.sleep_us(early)
                    await c.replace(job, when=ctx.at(ctx.now_us()), key="k")("newest", dur)
                at = ctx.int("cancel_at", 0, ctx.p["at"])
                await ctx.sleep_us(at)
                now = ctx.now_us()
                last = "newest" if kind == "replaced" else "victim"
                starts, over = rec.n("start", last), rec.n("end", last)
                await c.cancel("k")
                tie = await tied(ctx, rec, now, but=("interrupted",))
                await ctx.sleep_us(3 * S)
                if tie:
                    return
                ctx.check(rec.n("start", last) == starts, "a cancelled task does not start again", f"{kind} #{n} {late} {rec.events}")
                if n:
                    ctx.reach(kind)
                elif starts > over:
                    ctx.check(rec.n("interrupted", last) == 1 and bool(rec.of("interrupted", last)[0] <= now + 200 * MS), "a running task is interrupted promptly", f"{kind} {rec.events}")
                    e = await c.get_execution("k")
                    ctx.check(e is not None and e.state.value == "cancelled", "an interrupted task is recorded as cancelled", f"{kind} {e and e.state.value}")
                    ctx.reach(f"{kind} {'again' if kind == 'replaced' or starts == 2 else 'first'}")
                else:
                    ctx.reach(f"{kind} not running")
                ctx.observe(kind, rec.tags("start"))

    ctx.go(main)


HARNESSES = [
    Harness("cancel_pending", cancel_pending,
            "1 victim due in [0,1.2s], cancelled at any instant of [0,1.2s], worker joining at any instant of [0,0.6s], optional re-add",
            ["pending", "readded", "running"],
            quick={"hi": 1200 * MS, "res": 500 * MS, "poll": 700 * MS, "dur": 300 * MS, "keys": 1, "pause": 50 * MS, "conc": 10, "wmax": 0},
            thorough={"hi": 2 * S, "keys": len(KEYS), "wmax": 600 * MS}),
    Harness("late_worker", cancel_pending, "as cancel_pending, for every listed key text, cancelled before or after a worker joins at any instant of [0,0.5s]",
            ["pending", "readded"],
            quick={"hi": 500 * MS, "res": 500 * MS, "poll": 700 * MS, "dur": 300 * MS, "keys": len(KEYS), "pause": 50 * MS, "conc": 10, "wmax": 500 * MS},
            tiers=("quick",)),
    Harness("cancel_running", cancel_running, "1 running task of 500ms cancelled at any instant of [0.1s,1s]", ["finished", "interrupted"],
            quick={"dur": 500 * MS, "keys": 2}, thorough={"dur": S, "keys": len(KEYS)}),
    Harness("cancel_race", cancel_race, "any one of the worker's first 14 Redis operations delayed by any duration in [0,0.5s], cancel at any instant of [0,0.5s]",
            ["pending", "started"],
            quick={"ops": 14, "lag": 500 * MS, "hi": 500 * MS}, thorough={"ops": 30, "lag": S, "hi": S}),
    Harness("cancel_rerun", cancel_rerun, "a retried, perpetual or replaced-while-running key cancelled at any instant of [0,1.4s], runs of 0.3s and 0.3-0.6s",
            ["retry at once first", "retry at once again", "retry later first", "retry later again", "retry later not running", "perpetual first", "perpetual again", "replaced again"],
            quick={"dur": 600 * MS, "at": 1400 * MS, "ops": 0}, thorough={"dur": S, "at": 2500 * MS}),
    Harness("rerun_race", cancel_rerun, "as cancel_rerun, with any one of the worker's first 24 operations or replies delayed by 0.3s", ["retry at once", "retry later", "perpetual", "replaced"],
            quick={"dur": 200 * MS, "at": 1100 * MS, "ops": 24}, thorough={"at": 2 * S, "ops": 40}, budget_quick=80),
]
