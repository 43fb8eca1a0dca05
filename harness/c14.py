"""C14 Cooldown runs the first task of each window and drops the rest."""
from typing import Annotated

from docket.dependencies import ConcurrencyLimit, Cooldown, RateLimit, Retry

from .c10 import WHO, serve, stop
from .days import days
from .lib import MS, S, Ctx, Harness, Rec, freeze, td, tied

FUNCTIONS = [
    "Cooldown.__aenter__", "Cooldown.__aexit__", "Cooldown.bind_to_parameter", "resolved_dependencies", "Worker._execute", "Worker.process_completed_tasks",
    "Execution.mark_as_cancelled", "_terminal (Lua)",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time", "the window is kept in whole milliseconds; instants are compared with that tolerance"]
RES, POLL = 300 * MS, 300 * MS


def arrivals(ctx: Ctx) -> None:
    window = ctx.p["window"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        kind = ctx.pick("kind", ctx.p["kinds"])
        cd = Cooldown(td(window), scope="s" if kind == "scope" else None)

        async def body(i) -> None:
            rec.add("start", i)
            await ctx.sleep_us(ctx.p["dur"])
            rec.add("end", i)

        if kind == "task":

            async def job(i: int, who: str = "v", cooldown: Cooldown = cd) -> None:
                await body(i)
        else:

            async def job(i: int, who: Annotated[str, cd] = "v") -> None:
                await body(i)

        async def submit(i, who="v"):
            add = c.add(job, key=f"k{i}")
            return await (add(i, who) if kind == "positional" else add(i, who=who))

        n = ctx.p["n"]
        arr = {}
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            ts = [serve(d, "a", ctx), serve(d2, "b", ctx)]
            await ctx.sleep_us(10 * MS)
            for i in range(n):
                if i:
                    gap = ctx.int(f"gap{i}", 0, ctx.p["gap"])
                    await ctx.sleep_us(gap)
                arr[i] = ctx.now_us()
                e = await submit(i)
                if i == 0 and kind != "task":
                    await submit("o", "w")
            await ctx.sleep_us(S)
            # reading the arrivals in order, exactly those outside any open window start
            opened = None
            edge = False
            for i in range(n):
                a = arr[i]
                if opened is not None and a >= opened + window - MS and a <= opened + window + MS:
                    edge = True  # on the dot: either is right
                    break
                if opened is None or a > opened + window:
                    ctx.check(rec.n("start", i) == 1 and rec.of("start", i)[0] <= a + MS, "a task arriving outside the window runs at once", f"{kind}: {arr} {rec.events}")
                    ctx.reach("first" if opened is None else "next window")
                    opened = a
                elif a == opened:
                    # two at the same instant: exactly one of them
                    first = [j for j in range(i) if bool(arr[j] == a)]
                    ctx.check(rec.n("start", i) + sum(rec.n("start", j) for j in first) == 1, "only one task of a window runs", f"{kind}: {arr} {rec.events}")
                    if rec.n("start", i) == 1:
                        edge = True
                        break
                else:
                    ctx.check(rec.n("start", i) == 0, "a task arriving inside the window never runs", f"{kind}: {arr} {rec.events}")
                    got = await c.get_execution(f"k{i}")
                    ctx.check(got is not None and got.state.value == "cancelled", "a dropped task is recorded as cancelled", f"{got and got.state.value}")
                    ctx.reach("dropped")
            if kind != "task":
                ctx.check(rec.n("start", "o") == 1, "another argument value has its own window", f"{kind}: {arr} {rec.events}")
            ctx.reach(kind)
            ctx.observe(edge or rec.tags("start"))
            await stop(*ts)

    ctx.go(main)


def two(ctx: Ctx) -> None:
    """Two windows on one task: dropped tasks open none of them."""
    w1, w2 = ctx.p["w1"], ctx.p["w2"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(i: int, customer: Annotated[int, Cooldown(td(w1))], region: Annotated[str, Cooldown(td(w2))]) -> None:
            rec.add("start", i)

        n = ctx.p["n"]
        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            ts = [serve(d, "a", ctx)]
            await ctx.sleep_us(10 * MS)
            open1, open2 = {}, {}
            for i in range(n):
                cu = ctx.choice(f"customer{i}", 2) if i else 0
                rg = ctx.choice(f"region{i}", 2) if i else 0
                if i:
                    gap = ctx.int(f"gap{i}", 1 * MS, ctx.p["gap"])
                    await ctx.sleep_us(gap)
                a = ctx.now_us()
                await c.add(job, key=f"k{i}")(i, customer=cu, region="us" if rg else "eu")
                await ctx.sleep_us(100 * MS)
                ends = [o[v] + w for o, v, w in ((open1, cu, w1), (open2, rg, w2)) if v in o]
                if any(bool(a >= e - MS) and bool(a <= e + MS) for e in ends):
                    break
                clear = all(bool(a > e) for e in ends)
                ctx.check((rec.n("start", i) == 1) == clear, "a task starts exactly when all its windows are clear", f"{i}: customers {open1} regions {open2} at {a}: {rec.events}")
                if clear:
                    open1[cu] = open2[rg] = a
                ctx.reach("clear" if clear else "blocked")
            ctx.observe(rec.tags("start"))
            await stop(*ts)

    ctx.go(main)


def reruns(ctx: Ctx) -> None:
    """A task that was accepted is not dropped by its own window: when it is retried,
    or delivered again after its worker died."""
    window = ctx.p["window"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        dead: set = set()
        what = ctx.pick("what", ["retried", "worker dies"])

        async def job(i: str, cooldown: Cooldown = Cooldown(td(window)), retry: Retry = Retry(attempts=3, delay=td(200 * MS))) -> None:
            if WHO.get("?") in dead:
                return
            rec.add("start", i)
            await ctx.sleep_us(ctx.p["dur"])
            if WHO.get("?") in dead:
                return
            if what == "retried" and rec.n("start", "x") < 3:
                raise ValueError("boom")
            rec.add("end", i)

        timeout = S
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            ta = serve(d, "a", ctx, redelivery_timeout=td(timeout))
            tb = None
            await c.add(job, key="k")("x")
            at = ctx.int("at", 1, ctx.p["dur"] - MS)
            await ctx.sleep_us(at)
            if what == "worker dies":
                freeze(ctx, "main")
                dead.add("a")
            tb = serve(d2, "b", ctx, redelivery_timeout=td(timeout))
            gap = ctx.int("gap", 0, ctx.p["gap"])
            await ctx.sleep_us(gap)
            await c.add(job, key="k2")("y")
            await ctx.sleep_us(3 * timeout + 3 * (ctx.p["dur"] + RES + POLL))
            ctx.check(rec.n("end", "x") == 1, "an accepted task is not dropped by its own window", f"{what}: {rec.events}")
            ctx.check(rec.n("start", "y") == 0, "a task arriving inside the window never runs", f"{what}: {rec.events}")
            # its key is free again afterwards, and then it is like any other
            await c.add(job, key="k")("z")
            await ctx.sleep_us(ctx.p["dur"] + S)
            ctx.check(rec.n("start", "z") == 0, "a task arriving inside the window never runs", f"{what}: {rec.events}")
            ctx.reach(what)
            ctx.observe(rec.tags("start"))
            await stop(tb)
            ta.cancel()

    ctx.go(main)


def held_back(ctx: Ctx) -> None:
    """A task another control postpones has not started: it still runs, and only then opens its window."""
    window = ctx.p["window"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        by = ctx.pick("by", ["concurrency", "rate"])
        order = ctx.pick("order", ["cooldown first", "cooldown last"])
        dur = ctx.int("dur", 100 * MS, ctx.p["dur"])
        control = ConcurrencyLimit(1) if by == "concurrency" else RateLimit(1, per=td(ctx.p["per"]))

        async def hold(who: Annotated[str, control]) -> None:
            rec.add("start", "h")
            await ctx.sleep_us(dur)
            rec.add("end", "h")

        if order == "cooldown first":

            async def job(i: str, who: Annotated[str, control], cooldown: Cooldown = Cooldown(td(window))) -> None:
                rec.add("start", i)
        else:

            async def job(i: str, who: Annotated[str, control, Cooldown(td(window))]) -> None:
                rec.add("start", i)

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
                x.register(hold)
            ts = [serve(d, "a", ctx), serve(d2, "b", ctx)]
            await c.add(hold, key="h")(who="v")
            await ctx.sleep_us(50 * MS)
            await c.add(job, key="x")("x", who="v")
            gap = ctx.int("gap", 0, ctx.p["gap"])
            await ctx.sleep_us(gap)
            t = ctx.now_us()
            tie = await tied(ctx, rec, t)
            began = rec.n("start", "x") > 0
            await c.add(job, key="y")("y", who="v")
            await ctx.sleep_us(max(ctx.p["dur"], ctx.p["per"]) * 3 + RES + 2 * POLL)
            n = rec.n("start", "x") + rec.n("start", "y")
            ctx.check(n >= 1, "a task another control held back runs in the end", f"{by} {order}: {rec.events}")
            ctx.check(n <= 1, "only one task of a window runs", f"{by} {order}: {rec.events}")
            if began and not tie:
                ctx.check(rec.n("start", "y") == 0, "a task arriving inside the window never runs", f"{by} {order}: {rec.events}")
                ctx.reach("after")
            elif not began:
                ctx.reach("before")
            ctx.reach(by)
            ctx.observe(n)
            await stop(*ts)

    ctx.go(main)


def scopes(ctx: Ctx) -> None:
    """A scope, not the docket, says what shares a window."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        window = ctx.p["window"]
        annotated = bool(ctx.choice("annotated", 2))
        scope = ctx.pick("scope", [None, "s"])
        dep = Cooldown(td(window), scope=scope)

        async def body(i) -> None:
            rec.add("start", i)

        if annotated:

            async def job(i: int, who: Annotated[str, dep] = "v") -> None:
                await body(i)
        else:

            async def job(i: int, who: str = "v", shared: Cooldown = dep) -> None:
                await body(i)

        async with ctx.docket() as d, ctx.docket("b", name="other") as d2:
            for x in (d, d2):
                x.register(job)
            ts = [serve(d, "a", ctx), serve(d2, "b", ctx)]
            await ctx.sleep_us(10 * MS)
            one = ctx.now_us()
            await d.add(job, key="k")(0)
            gap = ctx.int("gap", MS, ctx.p["gap"])
            await ctx.sleep_us(gap)
            two = ctx.now_us()
            await d2.add(job, key="k2")(1)
            await ctx.sleep_us(2 * window + 3 * (RES + POLL))
            why = f"annotated {annotated} scope {scope}: {one} {two} {rec.events}"
            ctx.check(rec.n("start", 0) == 1, "the first one starts", why)
            if scope is None or bool(two >= one + window + MS):
                ctx.check(rec.n("start", 1) == 1 and rec.of("start", 1)[0] <= two + POLL, "another docket's runs open no window here", why)
                ctx.reach("apart")
            elif two < one + window - MS:
                ctx.check(rec.n("start", 1) == 0, "a scope is shared by the dockets naming it", why)
                ctx.reach("shared")
            ctx.observe(rec.tags("start"))
            await stop(*ts)

    ctx.go(main)


KINDS = ["task", "keyword", "positional", "scope"]
HARNESSES = [
    Harness("arrivals", arrivals, "window 0.7s, 4 tasks (thorough: 5) with gaps in [0,1s], 4 ways of declaring, another value, 2 workers", ["first", "next window", "dropped"] + KINDS,
            quick={"window": 700 * MS, "n": 4, "gap": S, "dur": 900 * MS, "kinds": KINDS}, thorough={"n": 5, "gap": 2 * S}, budget_quick=80),
    Harness("two", two, "windows 0.6s and 1s on one task, 4 tasks (thorough: 5) of 2x2 values with gaps in [1ms,0.8s]", ["clear", "blocked"],
            quick={"w1": 600 * MS, "w2": S, "n": 4, "gap": 800 * MS}, thorough={"n": 5}, budget_quick=80),
    Harness("reruns", reruns, "window 60s, body of 0.3s retried twice or its worker dying at any instant, redelivery timeout 1s, another task at any instant of the next 1s", ["retried", "worker dies"],
            quick={"window": 60 * S, "dur": 300 * MS, "gap": S}, thorough={"gap": 3 * S}, budget_quick=50),
    Harness("held_back", held_back, "window 60s with a concurrency limit or a rate limit on the same task, declared before or after it, holder of [0.1,0.6s], another task within 1.2s", ["before", "after", "concurrency", "rate"],
            quick={"window": 60 * S, "dur": 600 * MS, "per": 800 * MS, "gap": 1200 * MS}, thorough={"gap": 3 * S}, budget_quick=50),
    Harness("scopes", scopes, "2 dockets, window 0.5s, with or without a common scope, 2 ways of declaring, the second arriving at any instant of 1.2s", ["apart", "shared"],
            quick={"window": 500 * MS, "gap": 1200 * MS}, thorough={"gap": 4 * S}, budget_quick=20),
    days("cooldown", "windows of 24, 25 or 49.5 hours, the second task at any moment of 60 hours", ["clear", "blocked"]),
]
