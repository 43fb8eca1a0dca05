"""Waits of days: delays, windows and limits that are longer than what a clock face holds."""
import asyncio
from datetime import timedelta

from docket.dependencies import ConcurrencyLimit, Cooldown, Debounce, Perpetual, RateLimit, Retry, Timeout

from .lib import MS, S, Ctx, Harness, Rec, td, tied

H = 3600 * S
RES = 5 * H
LENGTHS = [25 * H, 24 * H, 49 * H + 30 * 60 * S]


def slow(d, name: str, ctx: Ctx):
    from .c10 import serve

    return serve(d, name, ctx, minimum_check_interval=td(RES), scheduling_resolution=td(RES), redelivery_timeout=td(20 * H))


def days(kind: str, bounds: str, reach: list, budget: int = 20) -> Harness:
    def fn(ctx: Ctx) -> None:
        async def main(ctx: Ctx) -> None:
            from .c10 import stop

            rec = Rec(ctx)
            long = ctx.pick("long", LENGTHS)
            span = td(long)
            n = {"runs": 0}

            async def body(i: int) -> None:
                rec.start(i)
                n["runs"] += 1
                rec.end(i)

            if kind == "cooldown":

                async def job(i: int, c: Cooldown = Cooldown(span)) -> None:
                    await body(i)
            elif kind == "rate":

                async def job(i: int, r: RateLimit = RateLimit(1, per=span)) -> None:
                    await body(i)
            elif kind == "debounce":

                async def job(i: int, d: Debounce = Debounce(span)) -> None:
                    await body(i)
            elif kind == "retry":

                async def job(i: int, r: Retry = Retry(attempts=2, delay=span)) -> None:
                    await body(i)
                    if n["runs"] == 1:
                        raise ValueError("again")
            elif kind == "perpetual":

                async def job(i: int, p: Perpetual = Perpetual(every=span)) -> None:
                    await body(i)
                    if n["runs"] == 2:
                        p.cancel()
            elif kind == "timeout":

                async def job(i: int, t: Timeout = Timeout(span)) -> None:
                    rec.start(i)
                    try:
                        await ctx.sleep_us(gap)
                        rec.end(i)
                    except asyncio.CancelledError:
                        rec.add("interrupted", i)
                        raise
            elif kind == "slot":

                async def job(i: int, c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)) -> None:
                    rec.start(i)
                    await ctx.sleep_us(long if i == 0 else 0)
                    rec.end(i)
            else:

                async def job(i: int) -> None:
                    await body(i)

            ctx.store.patience = 5 * 3600
            gap = ctx.int("gap", 1, ctx.p["hi"])
            slack = 2 * RES + S
            async with ctx.docket(heartbeat_interval=td(10 * H), execution_ttl=td(200 * H)) as d:
                d.register(job)
                t = slow(d, "w", ctx)
                await ctx.sleep_us(10 * MS)
                t0 = ctx.now_us()
                if kind == "delay":
                    await d.add(job, when=ctx.at(t0 + gap), key="k0")(0)
                else:
                    await d.add(job, key="k0")(0)
                if kind in ("cooldown", "rate", "debounce", "slot"):
                    await ctx.sleep_us(gap)
                    t1 = ctx.now_us()
                    await d.add(job, key="k1")(1)
                    await ctx.sleep_us(2 * long + 3 * RES + S)
                else:
                    t1 = t0
                    await ctx.sleep_us(ctx.p["hi"] + long + 3 * RES)
                why = f"{kind} of {long}, {gap}: began {t0}, {t1}: {rec.events}"
                first, second = rec.of("start", 0), rec.of("start", 1)

                def within(x, lo, hi) -> bool:
                    return bool(x >= lo - 2 * MS) and bool(x <= hi)

                def edge(x) -> bool:
                    return bool(x > -2 * MS) and bool(x < 2 * MS)

                if kind == "cooldown":
                    if not edge(gap - long):
                        ctx.check(len(first) == 1 and len(second) == int(bool(gap > long)), "a window of days is as long as it says", why)
                    ctx.reach("clear" if second else "blocked")
                elif kind == "rate":
                    ctx.check(len(first) == 1 and len(second) == 1, "a task over its limit runs later", why)
                    ok = within(second[0], t1, t1 + S) if bool(gap > long + 2 * MS) else within(second[0], t0 + long, t0 + long + slack)
                    ctx.check(ok or edge(gap - long), "a window of days is as long as it says", why)
                    ctx.reach("clear" if bool(gap > long) else "blocked")
                elif kind == "debounce":
                    if bool(gap < long - 2 * MS):
                        ctx.check(len(first) + len(second) == 1 and within((first + second)[0], t1 + long, t1 + long + slack), "submissions settle for days", why)
                        ctx.reach("settled once")
                    elif bool(gap > long + slack):
                        ctx.check(len(first) == 1 and len(second) == 1 and within(first[0], t0 + long, t0 + long + slack) and within(second[0], t1 + long, t1 + long + slack), "submissions settle for days", why)
                        ctx.reach("settled twice")
                elif kind == "slot":
                    ctx.check(len(first) == 1 and len(second) == 1 and bool(second[0] >= first[0] + long if bool(gap < long) else second[0] >= t1) and rec.n("end", 0) == 1, "a slot is held for days", why)
                    ctx.check(bool(second[0] <= (t0 + long if bool(gap < long) else t1) + slack), "a slot is passed on", why)
                    ctx.reach("waited" if bool(gap < long) else "free")
                elif kind in ("retry", "perpetual"):
                    ctx.check(len(first) == 2 and within(first[1], first[0] + long, first[0] + long + slack), "a run comes days later", why)
                    ctx.reach("again")
                elif kind == "timeout":
                    ends = rec.of("end", 0) + rec.of("interrupted", 0)
                    ctx.check(len(ends) == 1 and len(first) == 1, "a run ends once", why)
                    if not edge(gap - long):
                        late = bool(gap > long)
                        ctx.check(rec.n("interrupted", 0) == int(late) and within(ends[0], first[0] + (long if late else gap), first[0] + (long if late else gap) + 2 * MS), "a limit of days is as long as it says", why)
                        ctx.reach("late" if late else "in time")
                else:
                    ctx.check(len(first) == 1 and within(first[0], t0 + gap, t0 + gap + slack), "a task starts days later, on time", why)
                    ctx.reach("later")
                ctx.observe(len(first), len(second))
                await stop(t)

        ctx.go(main)

    fn.__name__ = "days"
    fn.__doc__ = "Delays, windows and limits of days."
    return Harness("days", fn, bounds, reach, quick={"hi": 60 * H}, thorough={"hi": 200 * H}, budget_quick=budget, max_vus=1500 * H, max_steps=400000)
