"""C10 Concurrency limits are never exceeded."""
import asyncio
import contextvars

from docket import Worker
from docket.dependencies import ConcurrencyLimit, Perpetual, Retry

from .days import days
from .many import many
from .lib import MS, S, Ctx, Harness, Rec, delay_at, freeze, td

FUNCTIONS = [
    "ConcurrencyLimit.__aenter__", "_acquire_or_park (Lua)", "_release_and_wake (Lua)", "_scavenge_and_wake (Lua)", "_cancel_cleanup (Lua)", "_safeguard_wake",
    "ConcurrencyLimit._renew_lease_loop", "ConcurrencyLimit._cancel_subscriber", "Worker._execute", "Worker._worker_loop", "Worker._renew_leases", "resolved_dependencies",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness", "live workers renew their leases on time", "all workers use the same redelivery timeout"]
RES, POLL = 500 * MS, 400 * MS
WHO: contextvars.ContextVar = contextvars.ContextVar("who")


class Held:
    """Who runs under which limit, at this instant, on workers that are alive."""

    def __init__(self, ctx: Ctx, rec: Rec) -> None:
        self.ctx, self.rec, self.now, self.most = ctx, rec, {}, {}
        self.dead: set = set()

    def enter(self, group, tag) -> None:
        if WHO.get("?") in self.dead:
            return
        self.rec.add("start", tag)
        s = self.now.setdefault(group, [])
        s.append((tag, WHO.get("?")))
        n = sum(1 for _, w in s if w not in self.dead)
        self.most[group] = max(self.most.get(group, 0), n)

    def leave(self, group, tag) -> None:
        if WHO.get("?") in self.dead:
            return
        self.rec.add("end", tag)
        self.now[group].remove((tag, WHO.get("?")))


def serve(d, name: str, ctx: Ctx, **kw):
    async def go() -> None:
        WHO.set(name)
        async with Worker(d, name=name, **{"minimum_check_interval": td(POLL), "scheduling_resolution": td(RES), "schedule_automatic_tasks": False, **kw}) as wk:
            await wk.run_forever()

    return asyncio.get_running_loop().create_task(go())


async def stop(*tasks) -> None:
    for t in tasks:
        t.cancel()
    await asyncio.gather(*tasks, return_exceptions=True)


def crowd(ctx: Ctx) -> None:
    """Tasks arriving at any instants, ending in every way, on two workers."""
    dur = ctx.p["dur"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        held = Held(ctx, rec)
        limit = ctx.pick("limit", [1, 2])
        kind = ctx.pick("kind", ["value", "task", "scope"])
        ends = ctx.pick("first_ends", ["returns", "fails", "is retried", "is cancelled", "perpetuates"])
        conc = {"value": ConcurrencyLimit("who", max_concurrent=limit), "task": ConcurrencyLimit(max_concurrent=limit), "scope": ConcurrencyLimit("who", limit, scope="s")}[kind]

        async def job(i: int, who: str, limiter: ConcurrencyLimit = conc, retry: Retry = Retry(attempts=2 if ends == "is retried" else 1), ) -> None:
            g = "all" if kind == "task" else who
            held.enter(g, i)
            try:
                await ctx.sleep_us(dur * (3 if i == 0 else 2) // 2)
            finally:
                held.leave(g, i)
            if i == 0 and ends in ("fails", "is retried") and rec.n("end", 0) == 1:
                raise ValueError("boom")

        async def perp(i: int, who: str, limiter: ConcurrencyLimit = conc, perpetual: Perpetual = Perpetual()) -> None:
            g = "all" if kind == "task" else who
            held.enter(g, i)
            await ctx.sleep_us(dur)
            held.leave(g, i)
            if rec.n("end", i) > 1 or ends != "perpetuates" or i != 0:
                perpetual.cancel()

        fn = perp if ends == "perpetuates" else job
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(fn)
            ta, tb = serve(d, "a", ctx), serve(d2, "b", ctx)
            n = ctx.p["n"]
            for i in range(n):
                await c.add(fn, key=f"k{i}")(i, "v" if i < n - 1 else ("w" if kind != "task" else "v"))
                if i == 0:
                    gap = ctx.int("gap", 0, ctx.p["gap"])
                    await ctx.sleep_us(gap)
            if ends == "is cancelled":
                at = ctx.int("cancel_at", 0, dur)
                await ctx.sleep_us(at)
                await c.cancel("k0")
            await ctx.sleep_us((n + 1) * (2 * dur + POLL) + S)
            g = "all" if kind == "task" else "v"
            ctx.check(held.most.get(g, 0) <= limit, "no more bodies than the limit run at once", f"{kind} {limit}: {held.most} {rec.events}")
            ctx.check(all(rec.n("start", i) == 1 for i in range(1, n)), "every task runs exactly once", f"{kind} {limit} {ends} {rec.events}")
            if kind != "task":
                # a task with another value does not wait for these
                s = rec.of("start", n - 1)[0]
                ctx.check(s <= gap + POLL, "another argument value does not count against this one", f"{rec.events}")
                ctx.reach("independent value")
            if held.most.get(g, 0) == limit:
                ctx.reach(f"full {limit}")
            ctx.reach(ends)
            ctx.reach(kind)
            ctx.observe(held.most, rec.tags("start"))
            await stop(ta, tb)

    ctx.go(main)


def long_holder(ctx: Ctx) -> None:
    """A holder that runs much longer than the redelivery timeout keeps its slot, though
    each renewal of its hold may take a while to arrive."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        held = Held(ctx, rec)
        limit = ctx.pick("limit", [1, 2])

        async def job(i: int, dur: int, limiter: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=limit)) -> None:
            held.enter("all", i)
            await ctx.sleep_us(dur)
            held.leave("all", i)

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            kw = dict(redelivery_timeout=td(timeout))
            ta, tb = serve(d, "a", ctx, **kw), serve(d2, "b", ctx, **kw)
            slow = ctx.pick("slow", [0, timeout // 5])

            async def lag(op, args):
                if op.upper() == "ZADD" and slow:
                    return slow / 1_000_000

            for x in ("main", "b"):
                ctx.ctl(x).before = lag
            for i in range(limit):
                await c.add(job, key=f"h{i}")(i, ctx.p["dur"])
            await ctx.sleep_us(10 * MS)
            for i in range(2):
                gap = ctx.int(f"gap{i}", 0, ctx.p["gap"])
                await ctx.sleep_us(gap)
                await c.add(job, key=f"k{i}")(10 + i, 100 * MS)
            await ctx.sleep_us(ctx.p["dur"] + 2 * POLL + S)
            ctx.check(held.most["all"] <= limit, "no more bodies than the limit run at once", f"{limit}: {held.most} {rec.events}")
            ctx.check(all(rec.n("start", i) == 1 for i in [*range(limit), 10, 11]), "every task runs exactly once", str(rec.events))
            first = min(rec.of("end", i)[0] for i in range(limit))
            ctx.check(all(rec.of("start", i)[0] >= first for i in (10, 11)), "no one takes a live holder's slot", str(rec.events))
            ctx.reach(f"limit {limit}")
            ctx.reach("slow renewals" if slow else "prompt renewals")
            ctx.observe(rec.tags("start"))
            await stop(ta, tb)

    ctx.go(main)


def holder_dies(ctx: Ctx) -> None:
    """The worker holding the slots dies; the limit holds among the live ones."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        held = Held(ctx, rec)

        async def job(i: int, dur: int, limiter: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)) -> None:
            held.enter("all", i)
            await ctx.sleep_us(dur)
            held.leave("all", i)

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("e") as d3, ctx.docket("client") as c:
            for x in (d, d2, d3):
                x.register(job)
            kw = dict(redelivery_timeout=td(timeout))
            ta = serve(d, "a", ctx, **kw)
            await c.add(job, key="h")(0, ctx.p["dur"])
            died = ctx.int("dies_at", 1, ctx.p["dur"] - 10 * MS)
            await ctx.sleep_us(died)
            freeze(ctx, "main")
            held.dead.add("a")
            ts = [serve(d2, "b", ctx, **kw), serve(d3, "e", ctx, **kw)]
            gap = ctx.int("gap", 0, ctx.p["gap"])
            await c.add(job, key="k0")(1, ctx.p["dur"])
            await ctx.sleep_us(gap)
            await c.add(job, key="k1")(2, ctx.p["dur"])
            await ctx.sleep_us(6 * timeout + 4 * ctx.p["dur"] + 4 * (POLL + RES))
            ctx.check(held.most["all"] <= 1, "no more bodies than the limit run at once", f"{held.most} {rec.events}")
            ctx.check(rec.n("end", 0) == 1 and rec.n("start", 1) == 1 and rec.n("start", 2) == 1, "every task runs although the holder died", str(rec.events))
            ctx.reach("recovered")
            ctx.observe(rec.tags("start"))
            await stop(*ts)
            ta.cancel()

    ctx.go(main)


HARNESSES = [
    Harness("crowd", crowd, "2 workers, 4 tasks, limit 1 or 2 per argument value, per task or in a scope, first ends in 5 ways, arrival gap in [0,0.6s], cancelled at any instant of its run",
            ["full 1", "full 2", "independent value", "returns", "fails", "is retried", "is cancelled", "perpetuates", "value", "task", "scope"],
            quick={"n": 4, "dur": 300 * MS, "gap": 600 * MS}, thorough={"n": 5, "gap": 1500 * MS}, budget_quick=100),
    Harness("long_holder", long_holder, "holders run 3.5s with redelivery timeout 1s, two more tasks arriving at gaps in [0,1.5s], renewals taking 0 or 0.2s", ["limit 1", "limit 2", "slow renewals", "prompt renewals"],
            quick={"timeout": S, "dur": 3500 * MS, "gap": 1500 * MS}, thorough={"dur": 6 * S, "gap": 3 * S}, budget_quick=60),
    Harness("holder_dies", holder_dies, "limit 1, holder's worker dies at any instant of its 0.4s run, two more tasks at a gap in [0,1.5s], redelivery timeout 1s", ["recovered"],
            quick={"timeout": S, "dur": 400 * MS, "gap": 1500 * MS}, thorough={"gap": 4 * S, "dur": S}, budget_quick=60),
    days("slot", "a slot held for 24, 25 or 49.5 hours, wanted at any moment of 60 hours", ["waited", "free"]),
    many("slots", "6 or 30 tasks for 2 or 10 slots, two workers", [6, 30]),
]
