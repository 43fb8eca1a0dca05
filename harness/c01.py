"""C01 At most one live schedule per task key."""
import asyncio

from docket import Worker
from docket.dependencies import Perpetual, RateLimit, Retry
from docket.execution import Disposition

from .lib import MS, S, Ctx, Harness, Rec, running, td, tied

FUNCTIONS = [
    "Docket.add", "Execution.schedule", "_schedule (Lua)", "_claim (Lua)", "_terminal (Lua)", "_cancel_task (Lua)", "_stream_due_tasks (Lua)",
    "Worker._worker_loop", "Worker._execute", "Execution._mark_as_terminal",
]
ASSUMPTIONS = ["virtual time: Redis operations and scheduling take no time"]
RES, POLL = 500 * MS, 700 * MS


def duplicate(ctx: Ctx) -> None:
    """Two (or more) adds under one key at any instants, with any delays."""
    hi, dur = ctx.p["hi"], ctx.p["dur"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        fail = ctx.bool("fails")

        async def job(tag: str) -> None:
            rec.start(tag)
            await ctx.sleep_us(dur)
            rec.end(tag)
            if fail:
                raise ValueError("boom")

        async def other(tag: str, x: int = 0) -> None:
            await job(tag)

        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            d.register(other)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                delay = ctx.int("delay1", 0, hi)
                due1 = ctx.now_us() + delay
                e1 = await d.add(job, when=ctx.at(due1), key="k")("first")
                ctx.check(e1.disposition is Disposition.SCHEDULED, "an add under a free key is accepted", e1.disposition.value)
                gap = ctx.int("gap", 0, ctx.p["gap"])
                await ctx.sleep_us(gap)
                delay2 = ctx.int("delay2", 0, ctx.p["hi2"])
                t_add = ctx.now_us()
                due2 = t_add + delay2
                e2 = await c.add(other, when=ctx.at(due2), key="k")("second")
                ended_after = rec.of("end", "first")
                await ctx.sleep_us(hi + ctx.p["hi2"] + 2 * (RES + POLL) + 2 * dur)
                ctx.check(rec.n("start", "first") == 1, "the earlier definition runs exactly once", str(rec.events))
                s1 = rec.of("start", "first")[0]
                ctx.check(s1 >= due1 and s1 <= due1 + RES + POLL, "the earlier definition runs at its own time", str(rec.events))
                ctx.check((e2.disposition is Disposition.SCHEDULED) == (rec.n("start", "second") > 0), "what the disposition says is what happens", f"{e2.disposition.value} {rec.events}")
                if not ended_after:
                    ctx.reach("rejected")
                    ctx.check(e2.disposition is Disposition.ALREADY_SCHEDULED, "an add under a live key is rejected", e2.disposition.value)
                    ctx.check(rec.n("start", "second") == 0, "a rejected definition never runs", str(rec.events))
                elif t_add > ended_after[0]:
                    ctx.reach("accepted")
                    ctx.check(e2.disposition is Disposition.SCHEDULED, "after the end the key is free", e2.disposition.value)
                    ctx.check(rec.n("start", "second") == 1, "the new definition runs exactly once", str(rec.events))
                    s2 = rec.of("start", "second")[0]
                    ctx.check(s2 >= due2 and s2 <= due2 + RES + POLL, "the new definition runs at its own time", str(rec.events))
                ctx.observe(e2.disposition.value, rec.tags("start"))

    ctx.go(main)


def readd(ctx: Ctx) -> None:
    """The key was used before (completed, failed, cancelled or cleared); a new task is
    added any time later, due any time after, around the retention of the old record."""
    ttl = ctx.p["ttl"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: str, fail: bool = False) -> None:
            rec.start(tag)
            rec.end(tag)
            if fail:
                raise ValueError("boom")

        async with ctx.docket(execution_ttl=td(ttl)) as d:
            d.register(job)
            how = ctx.pick("how", ["completed", "failed", "cancelled", "cancelled-queued", "cleared", "struck"])
            pre = ctx.int("pre", 0, ctx.p["pre"])
            delay = ctx.int("delay", 0, ctx.p["delay"])
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk:
                if how in ("completed", "failed"):
                    await d.add(job, key="k")("old", how == "failed")
                    await wk.run_until_finished()
                    ctx.check(rec.n("end", "old") == 1, "the old task ran")
                elif how == "cancelled":
                    await d.add(job, when=ctx.at(3600 * S), key="k")("old")
                    await d.cancel("k")
                elif how == "struck":
                    await d.add(job, key="k")("old")
                    await d.strike(job)
                    await ctx.sleep_us(10 * MS)
                    await wk.run_until_finished()
                    ctx.check(rec.n("start", "old") == 0, "the struck task did not run")
                    await d.restore(job)
                    await ctx.sleep_us(10 * MS)
                elif how == "cancelled-queued":
                    await d.add(job, key="k")("old")
                    await d.cancel("k")
                else:
                    await d.add(job, when=ctx.at(3600 * S), key="k")("old")
                    await d.clear()
                async with running(wk):
                    await ctx.sleep_us(pre)
                    due = ctx.now_us() + delay
                    e = await d.add(job, when=ctx.at(due), key="k")("new")
                    ctx.check(e.disposition is Disposition.SCHEDULED, "after the end the key is free", how)
                    # while it is pending a further add is refused
                    wait = ctx.int("wait", 0, ctx.p["delay"])
                    await ctx.sleep_us(wait)
                    if rec.n("end", "new") == 0:
                        ctx.reach("pending")
                        e3 = await d.add(job, when=ctx.at(due), key="k")("third")
                        ctx.check(e3.disposition is Disposition.ALREADY_SCHEDULED, "an add under a live key is rejected", how)
                    await ctx.sleep_us(ctx.p["delay"] + RES + POLL)
                    ctx.check(rec.n("start", "new") == 1, "the new definition runs exactly once", f"{how} {rec.events}")
                    s = rec.of("start", "new")[0]
                    ctx.check(s >= due and s <= due + RES + POLL, "the new definition runs at its own time", f"{how} {rec.events}")
                    ctx.check(rec.n("start", "third") == 0, "a rejected definition never runs", f"{how} {rec.events}")
                    ctx.reach(how)
                    ctx.observe(rec.tags("start"))

    ctx.go(main)


def racing_clients(ctx: Ctx) -> None:
    """Several clients add under one key at once; each Redis operation of each client
    takes a symbolic time, so the operations interleave in every order."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: str) -> None:
            rec.start(tag)
            await ctx.sleep_us(ctx.p["dur"])
            rec.end(tag)

        async with ctx.docket() as d, ctx.docket("c0") as c0, ctx.docket("c1") as c1:
            d.register(job)
            clients = [c0, c1]
            for i in range(2):
                lag = ctx.int(f"lag{i}", 0, ctx.p["lag"])

                async def before(op: str, args: object, lag: object = lag) -> None:
                    await asyncio.sleep(lag / 1_000_000)

                ctx.ctl(f"c{i}").before = before
            delays = [ctx.pick(f"when{i}", [0, S]) for i in range(2)]
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):

                async def submit(i: int):
                    return await clients[i].add(job, when=ctx.at(ctx.now_us() + delays[i]), key="k")(f"t{i}")

                t0 = asyncio.get_running_loop().create_task(submit(0))
                start2 = ctx.int("start", 0, ctx.p["lag"])
                await ctx.sleep_us(start2)
                e1 = await submit(1)
                ended = rec.n("end")
                e0 = await t0
                ended = max(ended, rec.n("end"))
                await ctx.sleep_us(S + 2 * (RES + POLL) + 2 * ctx.p["dur"])
                acc = [i for i, e in enumerate((e0, e1)) if e.disposition is Disposition.SCHEDULED]
                for i in range(2):
                    ctx.check(rec.n("start", f"t{i}") == (1 if i in acc else 0), "accepted runs once, rejected never", f"{acc} {rec.events}")
                ctx.check(rec.max_running.get(None, 0) <= 1, "never two runs of a key at once", str(rec.events))
                ctx.check(len(acc) >= 1, "one of the racing adds is accepted")
                if not ended:
                    ctx.reach("race")
                    ctx.check(len(acc) == 1, "only one of the racing adds is accepted", f"{acc} {rec.events}")
                ctx.observe(acc, rec.tags("start"))

    ctx.go(main)


def live_phases(ctx: Ctx) -> None:
    """The key stays live between the runs of one task: waiting for a retry, for the next
    run of a perpetual, or postponed by a limit.  An add at any instant of that is refused."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        how = ctx.pick("how", ["retry", "retry at once", "postponed", "perpetual", "perpetual fails"])
        wait = td(ctx.p["wait"])

        async def retried(tag: str, retry: Retry = Retry(attempts=2, delay=wait if how == "retry" else td(0))) -> None:
            rec.start(tag)
            await ctx.sleep_us(ctx.p["dur"])
            rec.end(tag)
            if rec.n("end", "first") == 1:
                raise ValueError("boom")

        async def perp(tag: str, perpetual: Perpetual = Perpetual(every=wait)) -> None:
            rec.start(tag)
            await ctx.sleep_us(ctx.p["dur"])
            rec.end(tag)
            if rec.n("end", "first") == 2:
                perpetual.cancel()
            if how == "perpetual fails":
                raise ValueError("boom")

        async def limited(tag: str, rate: RateLimit = RateLimit(1, per=wait)) -> None:
            rec.start(tag)
            await ctx.sleep_us(ctx.p["dur"])
            rec.end(tag)

        async def other(tag: str) -> None:
            rec.start(tag)
            rec.end(tag)

        first = {"postponed": limited, "perpetual": perp, "perpetual fails": perp}.get(how, retried)
        runs = 1 if how == "postponed" else 2
        async with ctx.docket() as d, ctx.docket("client") as c:
            for f in (retried, perp, limited, other):
                d.register(f)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                if how == "postponed":
                    await d.add(limited, key="before")("before")
                    await ctx.sleep_us(50 * MS)
                e1 = await d.add(first, key="k")("first")
                gap = ctx.int("gap", 1, ctx.p["gap"])
                await ctx.sleep_us(gap)
                soon = ctx.bool("soon")
                due2 = ctx.now_us() + (0 if soon else 300 * MS)
                over = rec.n("end", "first") >= runs
                e2 = await c.add(other, when=ctx.at(due2), key="k")("second")
                between = not over and rec.n("start", "first") == rec.n("end", "first")
                tie = await tied(ctx, rec, due2 if soon else due2 - 300 * MS)
                await ctx.sleep_us(ctx.p["gap"] + 3 * (RES + POLL))
                ctx.check((e2.disposition is Disposition.SCHEDULED) == (rec.n("start", "second") > 0), "what the disposition says is what happens", f"{how}: {e2.disposition.value} {rec.events}")
                ctx.check(rec.n("start", "first") == runs, "the earlier definition runs on undisturbed", f"{how}: {rec.events}")
                if not over:
                    ctx.reach("between runs" if between else "running")
                    if between:
                        ctx.reach(how)
                    ctx.check(tie or e2.disposition is Disposition.ALREADY_SCHEDULED, "an add under a live key is rejected", f"{how}: {e2.disposition.value} {rec.events}")
                elif not tie:
                    ctx.reach("accepted")
                    ctx.check(e2.disposition is Disposition.SCHEDULED, "after the end the key is free", f"{how}: {e2.disposition.value} {rec.events}")
                ctx.observe(e2.disposition.value, rec.tags("start"))

    ctx.go(main)


HARNESSES = [
    Harness("duplicate", duplicate, "2 adds of one key, gap in [0,1.5s], delays in [0,1.0s] and [0,0.3s], body 0.3s, succeeding or failing", ["rejected", "accepted"],
            quick={"hi": S, "hi2": 300 * MS, "gap": 1500 * MS, "dur": 300 * MS}, thorough={"hi": 2 * S, "hi2": S, "gap": 3 * S}),
    Harness("readd", readd, "key completed/failed/cancelled/cleared before, retention 2s, re-added after [0,2.5s], due in [0,2.5s]",
            ["completed", "failed", "cancelled", "cancelled-queued", "cleared", "pending"],
            quick={"ttl": 2 * S, "pre": 2500 * MS, "delay": 2500 * MS}, thorough={"pre": 4 * S, "delay": 4 * S}),
    Harness("racing_clients", racing_clients, "2 clients, every operation of each delayed by its own symbolic lag in [0,50ms], start offset symbolic", ["race"],
            quick={"lag": 50 * MS, "dur": 300 * MS}, thorough={"lag": 400 * MS}),
    Harness("live_phases", live_phases, "a task between its runs (waiting 0.6s for a retry or its next period or a rate limit, or retrying at once), body 0.1s; a second add at any instant of (0,3s]",
            ["between runs", "running", "accepted", "retry", "retry at once", "postponed", "perpetual", "perpetual fails"],
            quick={"wait": 600 * MS, "dur": 100 * MS, "gap": 3 * S}, thorough={"gap": 6 * S, "wait": 1500 * MS}, budget_quick=60),
]
