"""C20 Timeouts interrupt a task at its limit and only then."""
import asyncio

from docket import Worker
from docket.dependencies import Retry, Timeout
from docket.execution import ExecutionCancelled

from .days import days
from .lib import MS, S, Ctx, Harness, Rec, running, td

FUNCTIONS = ["Timeout.start", "Timeout.run", "Timeout.extend", "Timeout.remaining", "Timeout.expired", "cancel_task", "Worker._execute", "Retry.handle_failure", "_terminal (Lua)", "Execution.get_result"]
ASSUMPTIONS = ["virtual time: Redis operations and scheduling take no time; the interruption happens within 1 ms of the limit"]
RES, POLL = 500 * MS, 700 * MS


class Boom(Exception):
    pass


OUTCOMES = ["value", "none", "raises", "timeout error", "asyncio timeout"]


def limit(ctx: Ctx) -> None:
    """A body of any length ending any way, a limit of any length, extensions."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        base = ctx.int("limit", 1 * MS, ctx.p["limit"])
        dur = ctx.int("duration", 0, ctx.p["dur"])
        how = ctx.pick("how", OUTCOMES)
        ext = ctx.pick("extend", ["none", "by", "base"])
        by = ctx.int("by", 0, ctx.p["by"]) if ext == "by" else (base if ext == "base" else 0)

        async def job(timeout: Timeout = Timeout(td(base))) -> object:
            rec.start("j")
            if ext != "none":
                left = timeout.remaining()
                timeout.extend(td(by) if ext == "by" else None)
                more = timeout.remaining()
                rec.add("extended", (more - left) / td(1))
            try:
                await ctx.sleep_us(dur)
            except asyncio.CancelledError:
                rec.add("interrupted", "j")
                raise
            rec.end("j")
            if how == "raises":
                raise Boom("mine")
            if how == "timeout error":
                raise TimeoutError("mine")
            if how == "asyncio timeout":
                async with asyncio.timeout(0.001):
                    await asyncio.sleep(5)
            return None if how == "none" else 17

        async with ctx.docket() as d:
            d.register(job)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                e = await d.add(job, key="k")()
                await ctx.sleep_us(ctx.p["limit"] * 2 + ctx.p["by"] + ctx.p["dur"] + S)
                t0 = rec.of("start")[0]
                lim = base + by
                own = dur + (MS if how == "asyncio timeout" else 0)
                try:
                    r = ("value", await e.get_result(timeout=td(S)))
                except Boom as x:
                    r = ("raises", x.args)
                except TimeoutError as x:
                    r = ("timeout", x.args)
                except ExecutionCancelled:
                    r = ("cancelled", ())
                except Exception as x:  # noqa: BLE001
                    r = ("other", repr(x))
                if own < lim:
                    ctx.reach("finished first")
                    ctx.reach(how)
                    want = {"value": ("value", 17), "none": ("value", None), "raises": ("raises", ("mine",)), "timeout error": ("timeout", ("mine",)), "asyncio timeout": ("timeout", ())}[how]
                    ctx.check(r == want, "a body that finishes before its limit is unaffected", f"{how}: {r!r} {rec.events}")
                    ctx.check(rec.n("interrupted") == 0, "a task is not interrupted before its limit", str(rec.events))
                    ctx.check(e.state.value == ("completed" if how in ("value", "none") else "failed"), "a body that finishes before its limit is unaffected", f"{how}: {e.state.value}")
                elif own > lim:
                    ctx.reach("interrupted")
                    ctx.check(r[0] == "timeout" and e.state.value == "failed", "a task over its limit is recorded as failed with a timeout error", f"{how}: {r!r} {e.state.value} {rec.events}")
                    if not dur <= lim:
                        ctx.check(rec.n("interrupted") == 1 and rec.n("end") == 0, "a task still running at its limit is interrupted", str(rec.events))
                        t = rec.of("interrupted")[0]
                        ctx.check(t >= t0 + lim and t <= t0 + lim + MS, "the interruption is at the limit", f"{rec.events}")
                else:
                    ctx.reach("on the dot")
                    # (two cancellations of one body at the same instant are left out: asyncio merges them)
                    ctx.check(how == "asyncio timeout" or r[0] == "timeout" or (how == "value" and r == ("value", 17)) or (how == "none" and r == ("value", None)) or (how == "raises" and r[0] == "raises"),
                              "a body ending on the dot has its outcome or a timeout, nothing else", f"{how}: {r!r}")
                ctx.reach("extend " + ext)
                if ext != "none" and rec.tags("extended"):
                    x = rec.tags("extended")[0]
                    ctx.check(x >= by - 2 and x <= by + 2, "an extension moves the limit by exactly what was asked", f"{ext} {x}")
                if own != lim:  # (on the dot, floating point decides)
                    ctx.observe(r[0], e.state.value)

    ctx.go(main)


def late_extension(ctx: Ctx) -> None:
    """Extensions at any moment of the run move the limit."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        base = 400 * MS
        at = ctx.int("extend_at", 0, base - MS)
        by = ctx.int("by", 0, ctx.p["by"])
        twice = ctx.bool("twice")
        dur = ctx.int("duration", 0, ctx.p["dur"])

        async def job(timeout: Timeout = Timeout(td(base))) -> int:
            rec.start("j")
            try:
                await ctx.sleep_us(at)
                timeout.extend(td(by))
                if twice:
                    timeout.extend(td(100 * MS))
                await ctx.sleep_us(dur)
            except asyncio.CancelledError:
                rec.add("interrupted", "j")
                raise
            rec.end("j")
            return 1

        async with ctx.docket() as d:
            d.register(job)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                e = await d.add(job, key="k")()
                await ctx.sleep_us(base + ctx.p["by"] + ctx.p["dur"] + S)
                await e.sync()
                lim = base + by + (100 * MS if twice else 0)
                if at + dur < lim:
                    ctx.reach("finished")
                    ctx.check(rec.n("end") == 1 and e.state.value == "completed", "a body that finishes before its extended limit is unaffected", f"{rec.events} {e.state.value}")
                elif at + dur > lim:
                    ctx.reach("interrupted")
                    ctx.check(rec.n("interrupted") == 1 and e.state.value == "failed", "a task still running at its extended limit is interrupted", f"{rec.events} {e.state.value}")
                    t = rec.of("interrupted")[0] - rec.of("start")[0]
                    ctx.check(t >= lim and t <= lim + MS, "the interruption is at the extended limit", str(rec.events))
                ctx.observe(e.state.value)

    ctx.go(main)


def with_retry(ctx: Ctx) -> None:
    """A timed-out task is retried when so declared, with a fresh limit; cancellation is no timeout."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        base = ctx.int("limit", 50 * MS, 400 * MS)
        slow = ctx.choice("slow_attempts", 4)
        cancel = ctx.bool("cancel")

        async def job(timeout: Timeout = Timeout(td(base)), retry: Retry = Retry(attempts=3)) -> int:
            rec.start(retry.attempt)
            try:
                await ctx.sleep_us(600 * MS if retry.attempt <= slow else 20 * MS)
            except asyncio.CancelledError:
                rec.add("interrupted", retry.attempt)
                raise
            rec.end(retry.attempt)
            return 1

        async with ctx.docket() as d:
            d.register(job)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                e = await d.add(job, key="k")()
                if cancel:
                    at = ctx.int("cancel_at", 0, 300 * MS)
                    await ctx.sleep_us(at)
                    alive = (rec.n("end") + rec.n("interrupted")) < rec.n("start")
                    await d.cancel("k")
                    n = rec.n("start")
                await ctx.sleep_us(5 * S)
                await e.sync()
                starts, cuts = rec.of("start"), rec.of("interrupted")
                if not cancel:
                    total = min(slow + 1, 3)
                    ctx.check(rec.n("start") == total, "a timed-out attempt is retried as declared", f"{slow} {rec.events}")
                    for i, t in enumerate(cuts):
                        ctx.check(t >= starts[i] + base and t <= starts[i] + base + MS, "every attempt has its own full limit", str(rec.events))
                    ctx.check(len(cuts) == min(slow, 3) and e.state.value == ("failed" if slow >= 3 else "completed"), "the outcome is that of the last attempt", f"{e.state.value} {rec.events}")
                    ctx.reach("exhausted" if slow >= 3 else ("retried" if slow else "first try"))
                elif alive:
                    ctx.reach("cancelled")
                    if not e.state.value == "cancelled":
                        # the limit or the end came before the signal
                        ctx.check(any(t <= at + 200 * MS + starts[0] for t in cuts + rec.of("end")), "a cancelled run is recorded as cancelled", f"{e.state.value} {rec.events}")
                ctx.observe(e.state.value, rec.tags("start"))

    ctx.go(main)


def beside(ctx: Ctx) -> None:
    """Two runs of one task overlapping in any way, one extended: each has its own limit; and a
    body that is cancelled but finishes anyway was cancelled, not timed out."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        base = ctx.p["base"]
        by = ctx.pick("by", [0, 200 * MS])
        gap = ctx.int("gap", 0, ctx.p["gap"])
        dur = [ctx.int("duration", 0, 2 * base), ctx.pick("other", [100 * MS, 2 * base])]
        which = ctx.choice("extended", 2)
        stubborn = ctx.bool("stubborn")
        cancel = ctx.pick("cancel", [None, 150 * MS])

        async def job(i: int, timeout: Timeout = Timeout(td(base))) -> int:
            rec.start(i)
            if by and i == which:
                timeout.extend(td(by))
            try:
                await ctx.sleep_us(dur[i])
            except asyncio.CancelledError:
                rec.add("interrupted", i)
                if not stubborn:
                    raise
            rec.end(i)
            return 1

        async with ctx.docket() as d:
            d.register(job)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                es = [await d.add(job, key="k0")(0)]
                await ctx.sleep_us(gap)
                es.append(await d.add(job, key="k1")(1))
                if cancel is not None:
                    await ctx.sleep_us(cancel)
                    at = ctx.now_us()
                    await d.cancel("k1")
                await ctx.sleep_us(2 * base + ctx.p["gap"] + S)
                for i, e in enumerate(es):
                    await e.sync()
                    t0 = rec.of("start", i)[0] if rec.n("start", i) else None
                    if t0 is None:
                        ctx.check(i == 1 and e.state.value == "cancelled", "a cancelled run is recorded as cancelled", f"{e.state.value} {rec.events}")
                        continue
                    lim = base + (by if i == which else 0)
                    cuts = rec.of("interrupted", i)
                    if i == 1 and cancel is not None and bool(abs(at - t0 - dur[i]) > 2 * MS) and bool(abs(at - t0 - lim) > 2 * MS) and bool(at < t0 + dur[i]) and bool(at < t0 + lim):
                        ctx.check(e.state.value == "cancelled", "a cancelled run is recorded as cancelled", f"{e.state.value} {rec.events}")
                        ctx.reach("cancelled " + ("stubborn" if stubborn else "obedient"))
                    elif bool(dur[i] < lim):
                        ctx.check(not cuts and e.state.value == "completed", "a body that finishes before its limit is unaffected", f"{i} of {lim}: {e.state.value} {rec.events}")
                        ctx.reach("finished")
                    elif bool(dur[i] > lim):
                        ctx.check(len(cuts) == 1 and e.state.value == "failed", "a task over its limit is recorded as failed with a timeout error", f"{i} of {lim}: {e.state.value} {rec.events}")
                        ctx.check(cuts[0] >= t0 + lim and cuts[0] <= t0 + lim + MS, "the interruption is at the limit", f"{i} of {lim}: {rec.events}")
                        ctx.reach("interrupted")
                ctx.observe(rec.tags("end"))

    ctx.go(main)


HARNESSES = [
    Harness("limit", limit, "limit in [1ms,0.5s], body of [0,0.8s] returning/raising/raising its own timeout errors, extended by [0,0.3s], by the limit itself or not at all",
            ["finished first", "interrupted", "extend none", "extend by", "extend base"] + OUTCOMES, quick={"limit": 500 * MS, "dur": 800 * MS, "by": 300 * MS},
            thorough={"limit": 2 * S, "dur": 3 * S, "by": S}, budget_quick=60),
    Harness("late_extension", late_extension, "limit 0.4s extended once or twice at any instant of the run by [0,0.4s]; body of [0,0.9s] more", ["finished", "interrupted"],
            quick={"by": 400 * MS, "dur": 900 * MS}, thorough={"by": S, "dur": 2 * S}, budget_quick=40),
    Harness("with_retry", with_retry, "limit in [50ms,0.4s], 0-3 of 3 attempts too slow, cancelled at any instant of [0,0.3s] or not", ["exhausted", "retried", "first try", "cancelled"],
            quick={}, budget_quick=50),
    Harness("beside", beside, "two runs of one task with a limit of 0.4s, 0 to 0.6s apart, either one extended by 0.2s or none, one body of [0,0.8s], one cancelled or not, giving in or not", ["finished", "interrupted", "cancelled stubborn", "cancelled obedient"],
            quick={"base": 400 * MS, "gap": 600 * MS}, thorough={"gap": 2 * S}, budget_quick=60),
    days("timeout", "limits of 24, 25 or 49.5 hours, a body of any length up to 60 hours", ["late", "in time"]),
]
