"""C12 Rate limits are never exceeded and delay or drop only when full."""
from typing import Annotated

from docket.dependencies import ConcurrencyLimit, Perpetual, RateLimit, Retry

from .c10 import serve, stop
from .days import days
from .many import many
from .lib import MS, S, Ctx, Harness, Rec, td, tied

FUNCTIONS = [
    "RateLimit.__aenter__", "RateLimit.__aexit__", "RateLimit.bind_to_parameter", "_ratelimit (Lua)", "resolved_dependencies", "Worker._execute",
    "Worker.process_completed_tasks", "Execution.schedule", "_schedule (Lua)", "_stream_due_tasks (Lua)", "Execution.get_argument",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time", "the limiter keeps time in whole milliseconds; windows are compared with that tolerance", "all workers' clocks agree"]
RES, POLL = 500 * MS, 400 * MS


def make(ctx: Ctx, rec: Rec, kind: str, limit: int, per, drop: bool):
    rl = RateLimit(limit, per=td(per), drop=drop, scope="s" if kind == "scope" else None)

    async def body(i) -> None:
        rec.add("start", i)
        await ctx.sleep_us(ctx.p["dur"])
        rec.add("end", i)

    if kind == "task":

        async def job(i: int, who: str = "v", rate: RateLimit = rl) -> None:
            await body(i)
    else:

        async def job(i: int, who: Annotated[str, rl] = "v") -> None:
            await body(i)

    return job


def arrivals(ctx: Ctx) -> None:
    """Tasks arriving at any instants on two workers."""
    per = ctx.p["per"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        limit = ctx.pick("limit", [1, 2])
        kind = ctx.pick("kind", ctx.p["kinds"])
        drop = ctx.bool("drop")
        drop = bool(drop)
        job = make(ctx, rec, kind, limit, per, drop)
        n = limit + ctx.p["more"]
        arr = {}
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            ts = [serve(d, "a", ctx), serve(d2, "b", ctx)]
            await ctx.sleep_us(10 * MS)
            others = kind != "task"
            for i in range(n):
                if i >= n - 2:
                    gap = ctx.int(f"gap{i}", 0, ctx.p["gap"])
                    await ctx.sleep_us(gap)
                arr[i] = ctx.now_us()
                if kind == "positional":
                    await c.add(job, key=f"k{i}")(i, "v")
                elif kind == "default":
                    await c.add(job, key=f"k{i}")(i)
                else:
                    await c.add(job, key=f"k{i}")(i, who="v")
                if others and i == n - 2:
                    arr["o"] = ctx.now_us()
                    await c.add(job, key="o")("o", *(["w"] if kind == "positional" else []), **({} if kind == "positional" else {"who": "w"}))
            await ctx.sleep_us((ctx.p["more"] + 1) * (per + RES) + S)
            starts = [(t, i) for k, i, t in rec.events if k == "start" and i != "o"]  # in order of time
            at = [t for t, _ in starts]
            for j in range(limit, len(at)):
                ctx.check(at[j] >= at[j - limit] + per - MS, "no more than the limit start in any window", f"{kind} {limit}: {rec.events}")
                ctx.reach("full")
            if others:
                ctx.check(rec.n("start", "o") == 1 and rec.of("start", "o")[0] <= arr["o"] + MS, "another argument value is not limited by this one", f"{kind}: {rec.events}")
            for i in range(n):
                ctx.check(rec.n("start", i) <= 1, "a task runs at most once", str(rec.events))
            if drop:
                for i in range(n):
                    # what had started within the window when this one arrived
                    recent = [t for t, j in starts if j != i and bool(t <= arr[i]) and bool(t > arr[i] - per - MS)]
                    edge = any(bool(t <= arr[i] - per + MS) for t in recent)
                    simultaneous = sum(1 for j in arr if j not in (i, "o") and bool(arr[j] == arr[i]))
                    if edge or simultaneous:
                        continue
                    fits = len(recent) < limit
                    ctx.check((rec.n("start", i) == 1) == fits, "a task is dropped exactly when the window is full", f"{kind} {limit} {i}: {arr} {rec.events}")
                    ctx.reach("fits" if fits else "dropped")
            else:
                ctx.check(len(starts) == n, "a postponed task runs once a place frees up", f"{kind} {limit}: {arr} {rec.events}")
                for j in range(len(at)):
                    # the first `limit` start at once, each later one as a place frees up
                    free = arr[j]
                    if j >= limit and free < at[j - limit] + per:
                        free = at[j - limit] + per
                        ctx.reach("postponed")
                    ctx.check(at[j] <= free + RES + POLL + 2 * MS, "a task that fits is not postponed", f"{kind} {limit}: {arr} {rec.events}")
            ctx.reach(kind)
            ctx.observe(len(starts))
            await stop(*ts)

    ctx.go(main)


def scopes(ctx: Ctx) -> None:
    """A limit's scope, not its docket, says what shares it."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        per = ctx.p["per"]
        annotated = bool(ctx.choice("annotated", 2))
        scope = ctx.pick("scope", [None, "s"])
        drop = bool(ctx.choice("drop", 2))
        rl = RateLimit(1, per=td(per), drop=drop, scope=scope)

        async def body(i) -> None:
            rec.add("start", i)

        if annotated:

            async def job(i: int, who: Annotated[str, rl] = "v") -> None:
                await body(i)
        else:

            async def job(i: int, who: str = "v", rate: RateLimit = rl) -> None:
                await body(i)

        async with ctx.docket() as d, ctx.docket("b", name="other") as d2:
            for x in (d, d2):
                x.register(job)
            ts = [serve(d, "a", ctx), serve(d2, "b", ctx)]
            await ctx.sleep_us(10 * MS)
            one = ctx.now_us()
            await d.add(job, key="k")(0)
            gap = ctx.int("gap", 1 * MS, ctx.p["gap"])
            await ctx.sleep_us(gap)
            two = ctx.now_us()
            await d2.add(job, key="k")(1)
            await ctx.sleep_us(per + 2 * (RES + POLL))
            why = f"annotated {annotated} scope {scope} drop {drop}: {one} {two} {rec.events}"
            ctx.check(rec.n("start", 0) == 1, "the first one starts", why)
            if scope is None or two >= one + per + MS:
                ctx.check(rec.n("start", 1) == 1 and rec.of("start", 1)[0] <= two + POLL, "another docket is not limited by this one", why)
                ctx.reach("free")
            elif two < one + per - MS:
                ctx.check(not rec.n("start", 1) if drop else rec.n("start", 1) == 1 and bool(rec.of("start", 1)[0] >= one + per - MS), "a scope is shared by the dockets naming it", why)
                ctx.reach("dropped" if drop else "postponed")
            ctx.observe(rec.tags("start"))
            await stop(*ts)

    ctx.go(main)


def reruns(ctx: Ctx) -> None:
    """Attempts of a retried task and runs of a perpetual one count, however close together."""
    per = ctx.p["per"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        limit = ctx.pick("limit", [1, 2])
        kind = ctx.pick("kind", ["retry", "perpetual"])
        dur = ctx.int("dur", 0, ctx.p["dur"])

        async def tried(rate: RateLimit = RateLimit(limit, per=td(per)), retry: Retry = Retry(attempts=4)) -> None:
            rec.add("start", "x")
            await ctx.sleep_us(dur)
            raise ValueError("boom")

        async def perp(rate: RateLimit = RateLimit(limit, per=td(per)), p: Perpetual = Perpetual()) -> None:
            rec.add("start", "x")
            await ctx.sleep_us(dur)
            if rec.n("start", "x") >= 4:
                p.cancel()

        job = tried if kind == "retry" else perp
        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            ts = [serve(d, "a", ctx)]
            await c.add(job, key="k")()
            await ctx.sleep_us(5 * (per + RES + ctx.p["dur"]) + S)
            at = rec.of("start", "x")
            ctx.check(len(at) == 4, "every attempt runs once a place frees up", f"{kind} {rec.events}")
            for j in range(limit, len(at)):
                ctx.check(at[j] >= at[j - limit] + per - MS, "no more than the limit start in any window", f"{kind} {limit}: {rec.events}")
            ctx.reach(kind)
            ctx.observe(kind, len(at))
            await stop(*ts)

    ctx.go(main)


def combined(ctx: Ctx) -> None:
    """What another control holds back does not use up the rate."""
    per = ctx.p["per"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        limit = ctx.p["n"] + 1
        first = ctx.pick("declared", ["default first", "annotated"])
        rl = RateLimit(limit, per=td(per), drop=True)
        if first == "annotated":

            async def job(i: int, who: Annotated[str, rl, ConcurrencyLimit(1)]) -> None:
                rec.start(i)
                await ctx.sleep_us(200 * MS)
                rec.end(i)
        else:

            async def job(i: int, who: Annotated[str, ConcurrencyLimit(1)], rate: RateLimit = rl) -> None:
                rec.start(i)
                await ctx.sleep_us(200 * MS)
                rec.end(i)

        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            ts = [serve(d, "a", ctx)]
            n = ctx.p["n"]
            await c.add(job, key="h")("h", who="v")
            gap = ctx.int("gap", 0, ctx.p["gap"])
            await ctx.sleep_us(gap)
            tie = await tied(ctx, rec, ctx.now_us())
            for i in range(n):
                await c.add(job, key=f"k{i}")(i, who="v")
            if tie:
                return
            await ctx.sleep_us((n + 2) * (200 * MS) + RES + POLL)
            ctx.check(rec.max_running[None] == 1, "the concurrency limit holds", str(rec.events))
            ctx.check(all(rec.n("start", i) == 1 for i in range(n)), "a task held back by another control does not count", f"{first}: {rec.events}")
            # and the rate is still kept
            await c.add(job, key="over")("over", who="v")
            await ctx.sleep_us(S)
            last = rec.of("start", "h")[0] + per
            if ctx.now_us() < last:
                ctx.check(rec.n("start", "over") == 0, "no more than the limit start in any window", str(rec.events))
                ctx.reach("still full")
            ctx.reach(first)
            ctx.observe(rec.tags("start"))
            await stop(*ts)

    ctx.go(main)


KINDS = ["task", "keyword", "positional", "scope", "default"]
HARNESSES = [
    Harness("arrivals", arrivals, "2 workers, limit 1 or 2 per 1.2s, 1 task more than the limit (thorough: 2 more), last two arriving at gaps in [0,1.6s], 5 ways of declaring, dropping or postponing, another value in between",
            ["full", "fits", "dropped", "postponed"] + KINDS,
            quick={"per": 1200 * MS, "gap": 1600 * MS, "more": 2, "dur": 50 * MS, "kinds": KINDS}, thorough={"more": 3, "gap": 3 * S}, budget_quick=90),
    Harness("scopes", scopes, "2 dockets, limit 1 per 0.7s, with or without a common scope, 2 ways of declaring, dropping or postponing, the second at any instant of 1.4s", ["free", "dropped", "postponed"],
            quick={"per": 700 * MS, "gap": 1400 * MS}, thorough={"gap": 3 * S}, budget_quick=20),
    Harness("reruns", reruns, "limit 1 or 2 per 1s, 4 runs of one key, retried at once or perpetual, body in [0,0.4s]", ["retry", "perpetual"],
            quick={"per": S, "dur": 400 * MS}, thorough={"dur": 2 * S}, budget_quick=40),
    Harness("combined", combined, "rate and concurrency limit on one task, holder and 3 more tasks arriving together at a gap in [0,0.5s]", ["default first", "annotated", "still full"],
            quick={"per": 20 * S, "n": 3, "gap": 500 * MS}, thorough={"n": 5, "gap": S}, budget_quick=40),
    days("rate", "windows of 24, 25 or 49.5 hours, the second task at any moment of 60 hours", ["clear", "blocked"]),
    many("rate", "6 or 30 tasks, 2 or 10 per second, two workers", [6, 30]),
]
