"""C13 Debounce runs exactly once after submissions go quiet."""
from typing import Annotated

from docket.dependencies import Debounce

from .c10 import WHO, serve, stop
from .days import days
from .lib import MS, S, Ctx, Harness, Rec, freeze, td, tied

FUNCTIONS = [
    "Debounce.__aenter__", "Debounce.bind_to_parameter", "_debounce (Lua)", "resolved_dependencies", "Worker._execute", "Worker.process_completed_tasks",
    "Execution.schedule", "_schedule (Lua)", "_stream_due_tasks (Lua)",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time", "the settle time is kept in whole milliseconds; instants are compared with that tolerance", "all workers' clocks agree"]
RES, POLL = 300 * MS, 300 * MS
SLACK = RES + 2 * POLL + 2 * MS


def make(ctx: Ctx, rec: Rec, kind: str, settle, dead=frozenset()):
    db = Debounce(td(settle), scope="s" if kind == "scope" else None)

    async def body(i) -> None:
        if WHO.get("?") in dead:
            return
        rec.add("start", i)
        await ctx.sleep_us(ctx.p["dur"])
        if WHO.get("?") not in dead:
            rec.add("end", i)

    if kind == "task":

        async def job(i: int, who: str = "v", debounce: Debounce = db) -> None:
            await body(i)
    else:

        async def job(i: int, who: Annotated[str, db] = "v") -> None:
            await body(i)

    return job


async def submit(c, job, kind: str, i, who: str = "v", **kw):
    add = c.add(job, key=f"k{i}", **kw)
    return await (add(i, who) if kind == "positional" else add(i, who=who))


def bursts(ctx: Ctx) -> None:
    """Submissions at any instants; another value interleaved."""
    settle = ctx.p["settle"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        kind = ctx.pick("kind", ctx.p["kinds"])
        job = make(ctx, rec, kind, settle)
        n = ctx.p["n"]
        arr = []
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            ts = [serve(d, "a", ctx), serve(d2, "b", ctx)]
            await ctx.sleep_us(10 * MS)
            for i in range(n):
                if i:
                    gap = ctx.int(f"gap{i}", 0, ctx.p["gap"])
                    await ctx.sleep_us(gap)
                arr.append(ctx.now_us())
                await submit(c, job, kind, i)
                if i == 0 and kind != "task":
                    await submit(c, job, kind, "o", "w")
            t_o = arr[0]
            await ctx.sleep_us(2 * (settle + SLACK) + S)
            starts = [t for k, g, t in rec.events if k == "start" and g != "o"]
            tags = [g for g in rec.tags("start") if g != "o"]
            for s in starts:
                for a in arr:
                    if a < s:
                        ctx.check(s >= a + settle - MS, "nothing runs before the submissions have been quiet for the settle time", f"{kind}: {arr} {rec.events}")
            ctx.check(len(set(tags)) == len(tags), "a submission runs at most once", f"{kind}: {arr} {rec.events}")
            # clear bursts: gaps well above the settle time separate, gaps below it join
            least = most = 1
            for a, b in zip(arr, arr[1:]):
                if b - a > settle + SLACK:
                    least += 1
                    most += 1
                    ctx.reach("separate bursts")
                elif b - a >= settle - MS:
                    most += 1
                else:
                    ctx.reach("one burst")
            ctx.check(least <= len(starts) and len(starts) <= most, "each burst of submissions runs exactly once", f"{kind}: {arr} {rec.events}")
            for j, a in enumerate(arr):
                # the end of the run of submissions this one belongs to
                e = a
                for b in arr[j + 1 :]:
                    if b - e > settle + SLACK:
                        break
                    e = b
                ctx.check(any(bool(s >= a + settle - MS) and bool(s <= e + settle + SLACK) for s in starts), "a burst runs promptly once it is quiet", f"{kind}: {arr} {rec.events}")
            if kind != "task":
                o = rec.of("start", "o")
                ctx.check(len(o) == 1 and o[0] >= t_o + settle - MS and o[0] <= t_o + settle + SLACK, "another argument value settles on its own", f"{kind}: {arr} {rec.events}")
            ctx.reach(kind)
            ctx.observe(len(starts))
            await stop(*ts)

    ctx.go(main)


def winner_gone(ctx: Ctx) -> None:
    """The submission that is waiting out the burst is cancelled, replaced or cancelled and
    submitted again, or its worker dies; later submissions still lead to exactly one run."""
    settle = ctx.p["settle"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        dead: set = set()
        job = make(ctx, rec, "task", settle, dead)
        what = ctx.pick("what", ["cancelled", "replaced", "submitted again", "worker dies"])
        timeout = 1500 * MS
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            ta = serve(d, "a", ctx, redelivery_timeout=td(timeout))
            ts = [ta]
            if what != "worker dies":
                ts.append(serve(d2, "b", ctx, redelivery_timeout=td(timeout)))
            await ctx.sleep_us(10 * MS)
            await submit(c, job, "task", 0)
            at = ctx.int("at", 1, ctx.p["at"])
            await ctx.sleep_us(at)
            t0 = ctx.now_us()
            began = rec.n("start", 0)
            first = await c.get_execution("k0")
            # cancelled while its first admission is still being carried out
            early = what == "submitted again" and first is not None and first.state.value != "scheduled"
            if what == "worker dies":
                freeze(ctx, "main")
                dead.add("a")
                ts = [serve(d2, "b", ctx, redelivery_timeout=td(timeout))]
            elif what == "replaced":
                await c.replace(job, when=ctx.at(t0), key="k0")("new", who="v")
            else:
                await c.cancel("k0")
            tie = await tied(ctx, rec, t0)
            gap = ctx.int("gap", 0, ctx.p["gap"])
            await ctx.sleep_us(gap)
            last = ctx.now_us()
            if what == "submitted again":
                await submit(c, job, "task", 0)
            else:
                await submit(c, job, "task", 1)
            more = ctx.bool("more")
            if more:
                await ctx.sleep_us(settle // 2)
                last = ctx.now_us()
                await submit(c, job, "task", 2)
            await ctx.sleep_us(2 * (settle + SLACK) + (2 * timeout if what == "worker dies" else 0) + S)
            if tie:
                return
            if early and not began:
                ok = [bool(t >= last + settle - MS) for t in rec.of("start")]
                ctx.check(ok == [True], "a submission whose key was cancelled while being admitted settles afresh", f"{t0} {last}: {rec.events}")
                ctx.reach("submitted again early")
                return
            late = [t for t in rec.of("start") if bool(t > t0)]
            ctx.check(any(bool(t >= last + settle - MS) and bool(t <= last + settle + SLACK + (timeout + settle + POLL + RES if what == "worker dies" else 0)) for t in late), "a burst runs once it is quiet, whatever became of its first submission", f"{what} {t0} {last}: {rec.events}")
            for s in late:
                for a in ([t0] if what == "replaced" else []) + [last]:
                    if a < s:
                        ctx.check(s >= a + settle - MS, "nothing runs before the submissions have been quiet for the settle time", f"{what} {t0} {last}: {rec.events}")
            if not began:
                ctx.reach(what)
                if what == "cancelled":
                    ctx.check(rec.n("start", 0) == 0, "a cancelled submission never runs", str(rec.events))
                if what == "cancelled" or what == "submitted again":
                    ctx.check(len(late) == 1, "each burst of submissions runs exactly once", f"{what} {t0} {last}: {rec.events}")
            if what == "submitted again" and more and len(late) == 1:
                ctx.reach("submitted again, and more")
            ctx.observe(what, rec.tags("start"))
            await stop(*ts)
            ta.cancel()

    ctx.go(main)


def scopes(ctx: Ctx) -> None:
    """A scope, not the docket, says what shares a settling period."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        window = ctx.p["settle"]
        annotated = bool(ctx.choice("annotated", 2))
        scope = ctx.pick("scope", [None, "s"])
        dep = Debounce(td(window), scope=scope)

        async def body(i) -> None:
            rec.add("start", i)

        if annotated:

            async def job(i: int, who: Annotated[str, dep] = "v") -> None:
                await body(i)
        else:

            async def job(i: int, who: str = "v", shared: Debounce = dep) -> None:
                await body(i)

        async with ctx.docket() as d, ctx.docket("b", name="other") as d2:
            for x in (d, d2):
                x.register(job)
            ts = [serve(d, "a", ctx), serve(d2, "b", ctx)]
            await ctx.sleep_us(10 * MS)
            one = ctx.now_us()
            await d.add(job, key="k")(0)
            gap = ctx.int("gap", MS, ctx.p["gap"])
            await ctx.sleep_us(gap)
            two = ctx.now_us()
            await d2.add(job, key="k2")(1)
            await ctx.sleep_us(2 * window + 3 * (RES + POLL))
            why = f"annotated {annotated} scope {scope}: {one} {two} {rec.events}"
            if scope is None or bool(two > one + window + SLACK):
                ctx.check(rec.n("start", 0) == 1 and rec.n("start", 1) == 1, "another docket's submissions settle by themselves", why)
                ctx.check(rec.of("start", 0)[0] <= one + window + SLACK, "another docket's submissions settle by themselves", why)
                ctx.reach("apart")
            elif two < one + window - MS:
                ctx.check(rec.n("start", 0) == 1 and rec.n("start", 1) == 0, "a scope is shared by the dockets naming it", why)
                ctx.check(rec.of("start", 0)[0] >= two + window - MS, "a scope is shared by the dockets naming it", why)
                ctx.reach("shared")
            ctx.observe(rec.tags("start"))
            await stop(*ts)

    ctx.go(main)


KINDS = ["task", "keyword", "positional", "scope"]
HARNESSES = [
    Harness("bursts", bursts, "settle 0.7s, 3 submissions (thorough: 4) with gaps in [0,2.2s], 4 ways of declaring, another value interleaved, 2 workers", ["separate bursts", "one burst"] + KINDS,
            quick={"settle": 700 * MS, "n": 3, "gap": 2200 * MS, "dur": 50 * MS, "kinds": KINDS}, thorough={"n": 4, "gap": 3 * S}, budget_quick=90),
    Harness("winner_gone", winner_gone, "settle 0.7s, first submission cancelled, replaced or submitted again at any instant of the next 1.2s, or its worker dies; another up to 1.2s later, and perhaps a third",
            ["cancelled", "replaced", "submitted again", "worker dies"],
            quick={"settle": 700 * MS, "at": 1200 * MS, "gap": 1200 * MS, "dur": 50 * MS}, thorough={"at": 2500 * MS, "gap": 5 * S}, budget_quick=90),
    Harness("scopes", scopes, "2 dockets, settle 0.5s, with or without a common scope, 2 ways of declaring, the second submitted at any instant of 2s", ["apart", "shared"],
            quick={"settle": 500 * MS, "gap": 2 * S}, thorough={"gap": 4 * S}, budget_quick=20),
    days("debounce", "settling 24, 25 or 49.5 hours, the second task at any moment of 60 hours", ["settled once", "settled twice"]),
]
