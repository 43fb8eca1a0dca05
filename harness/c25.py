"""C25 Clearing a docket removes pending work and only that."""
from docket import ConcurrencyLimit, Worker
from docket.execution import Disposition

from .many import many
from .lib import MS, S, Ctx, Harness, Rec, delay_at, running, td

FUNCTIONS = ["Docket.clear", "_clear_tasks (Lua)", "_schedule (Lua)", "_claim (Lua)", "_stream_due_tasks (Lua)", "Worker._worker_loop", "Worker._execute"]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness"]
RES, POLL = 500 * MS, 700 * MS


def clear_any_time(ctx: Ctx) -> None:
    """Running, queued and scheduled tasks present; cleared at any instant; keys reused."""
    hi = ctx.p["hi"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: str, dur: int = 0) -> None:
            rec.start(tag)
            await ctx.sleep_us(dur)
            rec.end(tag)

        async def banned(tag: str) -> None:
            rec.start(tag)

        async with ctx.docket() as d, ctx.docket("client") as c, ctx.docket("other", name="e") as e2:
            for x in (d, c, e2):
                x.register(job)
                x.register(banned)
            await c.strike(banned)
            await e2.add(job, when=ctx.at(ctx.now_us() + 300 * MS), key="t0")("elsewhere")
            conc = ctx.pick("conc", [1, 3])
            async with Worker(d, name="w", concurrency=conc, minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk), Worker(
                e2, name="we", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False
            ) as w2, running(w2):
                execs = [await c.add(job, key="t0")("t0", ctx.p["dur"]), await c.add(job, key="t1")("t1", ctx.p["dur"])]
                delay = ctx.int("delay", 0, hi)
                execs.append(await c.add(job, when=ctx.at(ctx.now_us() + delay), key="t2")("t2", 0))
                at = ctx.int("clear_at", 0, hi)
                await ctx.sleep_us(at)
                started = set(rec.tags("start"))
                n = await c.clear()
                now_started = set(rec.tags("start")) | started
                pending = [i for i in range(3) if f"t{i}" not in now_started]
                running_now = [i for i in range(3) if f"t{i}" in now_started and rec.n("end", f"t{i}") == 0]
                ctx.check(n == len(pending), "clear returns how many tasks it removed", f"{n} {pending} {rec.events}")
                snap = await c.snapshot()
                ctx.check(not snap.future and all(x.key in [f"t{i}" for i in running_now] for x in snap.running), "nothing pending is left after clear", str(rec.events))
                if pending:
                    ctx.reach("cleared")
                    if running_now:
                        ctx.reach("cleared with a task running")
                if 2 in pending:
                    ctx.reach("future cleared")
                again = {}
                if ctx.bool("reuse"):
                    for i in pending:
                        r = await c.add(job, when=ctx.at(ctx.now_us() + (300 * MS if i == 1 else 0)), key=f"t{i}")(f"again{i}", 0)
                        again[i] = r.disposition
                        ctx.check(r.disposition is Disposition.SCHEDULED, "a cleared key is free", str(r.disposition))
                await ctx.sleep_us(hi + 2 * ctx.p["dur"] + 2 * (RES + POLL))
                for i in range(3):
                    want = 0 if i in pending else 1
                    ctx.check(rec.n("start", f"t{i}") == want, "a cleared task never runs" if not want else "a running task is left alone", f"t{i} {rec.events}")
                    ctx.check(rec.n("end", f"t{i}") == want, "a running task is left alone", f"t{i} {rec.events}")
                    if i in again:
                        ctx.reach("reused")
                        ctx.check(rec.n("start", f"again{i}") == 1, "a cleared key can be scheduled again", f"{i} {rec.events}")
                    elif i in pending:
                        await execs[i].sync()
                        ctx.check(execs[i].state.value == "cancelled", "a cleared task is not reported as waiting", execs[i].state.value)
                ctx.check(rec.n("start", "elsewhere") == 1, "other dockets are untouched by clear", str(rec.events))
                r = await c.add(banned, key="b")("banned")
                ctx.check(r.disposition is Disposition.STRUCK, "strikes survive a clear", str(r.disposition))
                ctx.observe(sorted(now_started), rec.tags("start"))

    ctx.go(main)


def clear_race(ctx: Ctx) -> None:
    """clear() lands between any two steps of promotion, delivery and claim."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: str) -> None:
            rec.start(tag)
            rec.end(tag)

        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            await c.add(job, when=ctx.at(ctx.now_us() + ctx.pick("delay", [0, 200 * MS])), key="k")("old")
            n = 1 + ctx.choice("op", ctx.p["ops"])
            lag = ctx.int("lag", 0, ctx.p["lag"])
            delay_at(ctx, "main", n, lag, lambda op: op not in ("GET_MESSAGE", "PIPELINE"))
            async with Worker(d, name="w", minimum_check_interval=td(300 * MS), scheduling_resolution=td(400 * MS), schedule_automatic_tasks=False) as wk, running(wk):
                at = ctx.int("clear_at", 0, ctx.p["hi"])
                await ctx.sleep_us(at)
                cleared = await c.clear()
                started = rec.n("start", "old")
                readd = ctx.bool("readd")
                if readd and cleared:
                    r = await c.add(job, key="k")("new")
                    ctx.check(r.disposition is Disposition.SCHEDULED, "a cleared key is free", f"slow operation #{n}")
                await ctx.sleep_us(ctx.p["lag"] + 2 * S)
                if cleared:
                    ctx.reach("cleared")
                    ctx.check(rec.n("start", "old") == 0, "a cleared task never runs", f"slow operation #{n}: {rec.events}")
                    if readd:
                        ctx.reach("reused")
                        ctx.check(rec.n("start", "new") == 1, "a cleared key can be scheduled again", f"slow operation #{n}: {rec.events}")
                else:
                    ctx.reach("not cleared")
                    ctx.check(rec.n("end", "old") == 1, "a task clear did not count still runs", f"slow operation #{n}: {rec.events}")
                ctx.observe(cleared, started, rec.tags("start"))

    ctx.go(main)


def clear_waiting(ctx: Ctx) -> None:
    """Tasks waiting for a concurrency slot are pending work too."""
    hi = ctx.p["hi"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(i: int, who: str, limit: ConcurrencyLimit = ConcurrencyLimit("who", 1)) -> None:
            rec.start(i)
            await ctx.sleep_us(ctx.p["dur"] if i < 3 else 0)
            rec.end(i)

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(job)
            async with Worker(d, name="w", concurrency=4, minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False, redelivery_timeout=td(ctx.p["timeout"])) as wk, running(wk):
                await ctx.sleep_us(10 * MS)
                execs = [await c.add(job, key=f"k{i}")(i, "a") for i in range(2)]
                if ctx.bool("crowded"):
                    execs.append(await c.add(job, key="k2")(2, "a"))
                elif ctx.bool("another"):
                    execs.append(await c.add(job, when=ctx.at(ctx.now_us() + 2 * hi), key="k2")(2, "a"))
                at = ctx.int("clear_at", 10 * MS, hi)
                await ctx.sleep_us(at)
                started = set(rec.tags("start"))
                n = await c.clear()
                pending = [i for i in range(len(execs)) if i not in started]
                if 1 in pending:
                    ctx.reach("cleared while waiting for a slot")
                else:
                    ctx.reach("cleared after the slot was handed on")
                ctx.check(n == len(pending), "clear returns how many tasks it removed", f"{n} {pending} {rec.events}")
                for i in pending:
                    await execs[i].sync()
                    ctx.check(execs[i].state.value == "cancelled", "a cleared task is not reported as waiting", f"{i} {execs[i].state.value}")
                again = ctx.bool("reuse")
                if again:
                    for i in pending:
                        r = await c.add(job, key=f"k{i}")(10 + i, "a")
                        ctx.check(r.disposition is Disposition.SCHEDULED, "a cleared key is free", str(r.disposition))
                        ctx.reach("reused")
                await ctx.sleep_us(2 * hi + 2 * ctx.p["dur"] + 2 * (RES + POLL) + ctx.p["timeout"])
                for i in range(len(execs)):
                    want = 0 if i in pending else 1
                    ctx.check(rec.n("start", i) == want, "a cleared task never runs" if not want else "a running task is left alone", f"k{i} {rec.events}")
                    ctx.check(rec.n("end", i) == want, "a running task is left alone", f"k{i} {rec.events}")
                    if again and i in pending:
                        ctx.check(rec.n("end", 10 + i) == 1, "a cleared key can be scheduled again", f"{i} {rec.events}")
                ctx.observe(n, pending, rec.tags("start"))

    ctx.go(main)


HARNESSES = [
    Harness("clear_any_time", clear_any_time, "two immediate tasks of 0.4s (concurrency 1 or 3) and one due in [0,1.2s]; cleared at any instant of [0,1.2s]; keys reused or not; second docket and a strike present",
            ["cleared", "cleared with a task running", "future cleared", "reused"],
            quick={"hi": 1200 * MS, "dur": 400 * MS}, thorough={"hi": 3 * S}, budget_quick=90),
    Harness("clear_race", clear_race, "any one of the worker's first 14 Redis operations delayed by any duration in [0,0.5s], clear at any instant of [0,0.5s]", ["cleared", "not cleared", "reused"],
            quick={"ops": 14, "lag": 500 * MS, "hi": 500 * MS}, thorough={"ops": 30, "lag": S, "hi": S}, budget_quick=80),
    Harness("clear_waiting", clear_waiting, "one task of 0.9s running and one waiting for its concurrency slot, another waiting, scheduled for later or not there; cleared at any instant of [0.01s,1.2s]; redelivery timeout 0.8s",
            ["cleared while waiting for a slot", "cleared after the slot was handed on", "reused"],
            quick={"hi": 1200 * MS, "dur": 900 * MS, "timeout": 800 * MS}, thorough={"hi": 3 * S, "dur": 2 * S}, budget_quick=90),
    many("clear", "12 or 120 tasks, half of them due later, cleared at any moment of 1.2 s", [6, 60]),
]
