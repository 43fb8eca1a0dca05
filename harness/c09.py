"""C09 A perpetual task always has exactly one next run."""
import asyncio

from docket import Worker
from docket.dependencies import Perpetual

from .days import days
from .many import many
from .lib import MS, S, Ctx, Harness, Rec, fault_at, running, td, tied

FUNCTIONS = ["Perpetual.__aenter__", "Perpetual.on_complete", "Perpetual.perpetuate", "Perpetual.after", "Perpetual.at", "Perpetual.cancel", "Docket.replace", "Docket.cancel", "Execution.schedule",
             "Execution.is_superseded", "_schedule (Lua)", "_claim (Lua)", "_terminal (Lua)", "_stream_due_tasks (Lua)", "Worker._execute", "Worker._schedule_all_automatic_perpetual_tasks",
             "Worker._reseed_automatic_perpetual_tasks_loop", "Worker._automatic_perpetual_is_live"]
ASSUMPTIONS = ["virtual time: Redis operations take no time", "a cancellation at the very instant a run ends is left out"]
RES, POLL = 400 * MS, 500 * MS


class Boom(Exception):
    pass


async def upcoming(d) -> int:
    s = await d.snapshot()
    return len([e for e in s.future if e.key == "k"]) + len([e for e in s.running if e.key == "k"])


def chain(ctx: Ctx) -> None:
    """A healthy chain: every run is followed by one at the declared interval, or as asked."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        every = ctx.int("every", 0, ctx.p["every"])
        dur = ctx.int("duration", 0, ctx.p["dur"])
        fails = ctx.bool("second_run_fails")
        how = ctx.pick("second_run_asks", ["nothing", "after", "at", "new arguments", "no arguments", "cancel"])
        ask = ctx.int("asked", 0, ctx.p["every"]) if how in ("after", "at") else 0

        async def perp(a: int = 0, *, b: str = "-", perpetual: Perpetual = Perpetual(every=td(every))) -> None:
            n = rec.n("start") + 1
            rec.start((a, b))
            await ctx.sleep_us(dur)
            if n == 2:
                if how == "after":
                    perpetual.after(td(ask))
                if how == "at":
                    perpetual.at(ctx.at(ctx.now_us() + ask))
                if how == "new arguments":
                    perpetual.perpetuate(2, b="y")
                if how == "no arguments":
                    perpetual.perpetuate()
                if how == "cancel":
                    perpetual.cancel()
            if n == 4:
                perpetual.cancel()
            rec.end((a, b))
            if n == 2 and fails:
                raise Boom()

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(perp)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk:
                e = await d.add(perp, key="k")(1, b="x")
                t = asyncio.get_running_loop().create_task(wk.run_until_finished())
                look = ctx.int("look", 1, ctx.p["look"])
                await ctx.sleep_us(look)
                n_up = await upcoming(c)
                over = rec.n("end") == (2 if how == "cancel" else 4)
                tie = await tied(ctx, rec, ctx.now_us())
                ctx.reach("looked after the end" if over else "looked during the chain")
                ctx.check(tie or n_up == (0 if over else 1), "there is exactly one running or upcoming run until it cancels itself", f"{n_up} {rec.events}")
                await t
                starts, ends = rec.of("start"), rec.of("end")
                total = 2 if how == "cancel" else 4
                ctx.check(len(starts) == total, "it goes on until it cancels itself", str(rec.events))
                want = [(1, "x")] * 2 + [{"new arguments": (2, "y"), "no arguments": (0, "-")}.get(how, (1, "x"))] * 2
                ctx.check(rec.tags("start") == want[:total], "each run gets the arguments it was given or asked for", str(rec.tags("start")))
                for i in range(1, total):
                    if i == 2 and how in ("after", "at"):
                        due = ends[1] + ask
                    else:
                        due = starts[i - 1] + every
                        if due < ends[i - 1]:
                            ctx.reach("overran")
                            due = ends[i - 1]
                        else:
                            ctx.reach("waited")
                    ctx.check(starts[i] >= due, "no run starts before its interval is over", f"{i} {rec.events}")
                    ctx.check(starts[i] <= due + RES + POLL, "each run starts promptly", f"{i} {rec.events}")
                await e.sync()
                ctx.check(e.state.value in ("completed",) or (how == "cancel" and fails and e.state.value == "failed"), "its last run is recorded", f"{e.state.value}")
                ctx.reach(how)
                ctx.observe(rec.tags("start"))

    ctx.go(main)


def outsider(ctx: Ctx) -> None:
    """Someone replaces, cancels or re-adds the task at any instant of the chain."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        every = ctx.p["every"]
        dur = ctx.p["dur"]
        what = ctx.pick("what", ["replace", "replace later", "cancel", "add", "cancel then add"])
        fails = ctx.bool("fails")

        async def perp(tag: str, perpetual: Perpetual = Perpetual(every=td(every))) -> None:
            rec.start(tag)
            try:
                await ctx.sleep_us(dur)
            except asyncio.CancelledError:
                rec.end(tag, "interrupted")
                raise
            rec.end(tag)
            if fails:
                raise Boom()

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(perp)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                await c.add(perp, key="k")("old")
                at = ctx.int("at", 1, ctx.p["at"])
                await ctx.sleep_us(at)
                now = ctx.now_us()
                busy = rec.n("start") > rec.n("end")
                delay = 0
                res = None
                if what.startswith("replace"):
                    delay = ctx.int("delay", 1, ctx.p["delay"]) if what == "replace later" else 0
                    await c.replace(perp, when=ctx.at(now + delay), key="k")("new")
                elif what == "add":
                    res = (await c.add(perp, key="k")("new")).disposition.value
                else:
                    await c.cancel("k")
                    if what == "cancel then add":
                        tie0 = await tied(ctx, rec, now)
                        now = ctx.now_us()
                        res = (await c.add(perp, key="k")("new")).disposition.value
                tie = await tied(ctx, rec, now) or (what == "cancel then add" and tie0)
                await ctx.sleep_us(delay + RES + POLL)
                at_n0 = ctx.now_us()
                n0 = await upcoming(c)
                await ctx.sleep_us(2 * (every + dur) + 2 * (RES + POLL))
                after = [(k, g, x) for k, g, x in rec.events if x > now]
                started = [g for k, g, _ in after if k == "start"]
                tie0 = any(x == at_n0 for _, _, x in rec.events)
                if tie:
                    ctx.reach("at the very instant of a change")
                elif what == "cancel":
                    ctx.check(started == [] and n0 == 0, "a cancelled perpetual does not come back", f"{rec.events}")
                    ctx.check(not busy or rec.n("interrupted") == 1, "cancelling interrupts the run in progress", f"{rec.events}")
                elif what == "add":
                    ctx.check(res == "already_scheduled" and set(started) == {"old"} and (tie0 or n0 >= 1), "a second add does not disturb the chain", f"{res} {rec.events}")
                else:
                    ctx.check(res in (None, "scheduled"), "the key is free after a cancellation", str(res))
                    ctx.check("old" not in started, "a replaced or cancelled perpetual does not overwrite that decision", f"{rec.events}")
                    ctx.check(len(started) >= 2, "the replacement goes on in turn", f"{rec.events}")
                    if started:
                        first = [x for k, g, x in rec.events if k == "start" and g == "new"][0]
                        ctx.check(first >= now + delay and first <= now + delay + RES + POLL + 2, "the replacement starts at its own time", f"{rec.events}")
                news = [x for k, g, x in rec.events if k == "start" and g == "new"]
                for i in range(1, len(news)):
                    ctx.check(news[i] >= news[i - 1] + every, "never more than one upcoming run", f"{rec.events}")
                ctx.reach(what)
                ctx.reach("while running" if busy else "between runs")
                ctx.observe(res, rec.tags("start"))

    ctx.go(main)


def automatic(ctx: Ctx) -> None:
    """Automatic perpetuals start by themselves on any number of workers joining at
    any time, run once per interval, and come back when their chain is lost."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        every = ctx.p["every"]
        dur = ctx.p["dur"]

        async def perp(perpetual: Perpetual = Perpetual(every=td(every), automatic=True)) -> None:
            rec.start("p")
            await ctx.sleep_us(dur)
            rec.end("p")

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, c, d2):
                x.register(perp)
            kw = dict(minimum_check_interval=td(POLL), scheduling_resolution=td(RES))
            loop = asyncio.get_running_loop()

            async def serve(x, name, after):
                await ctx.sleep_us(after)
                async with Worker(x, name=name, **kw) as wk:
                    await wk.run_forever()

            joins = ctx.int("b_joins", 0, ctx.p["joins"])
            ta = loop.create_task(serve(d, "a", 0))
            tb = loop.create_task(serve(d2, "b", joins))
            look = ctx.int("look", 1 * S, ctx.p["joins"])
            await ctx.sleep_us(look)
            s = await c.snapshot()
            tie = await tied(ctx, rec, ctx.now_us())
            n = len([e for e in s.future if e.key == "perp"]) + len([e for e in s.running if e.key == "perp"])
            ctx.check(tie or n == 1, "there is exactly one running or upcoming run of an automatic perpetual", f"{n} {rec.events}")
            await ctx.sleep_us(ctx.p["joins"] * 2)
            starts, ends = rec.of("start"), rec.of("end")
            ctx.check(len(starts) >= 3 and starts[0] <= RES + POLL, "an automatic perpetual is started by the first worker", f"{rec.events}")
            for i in range(1, len(starts)):
                ctx.check(starts[i] >= starts[i - 1] + every and starts[i] <= starts[i - 1] + every + RES + POLL, "joining workers do not disturb a healthy chain", f"{rec.events}")
            ctx.reach("healthy")
            ctx.observe(len(starts))
            for t in (ta, tb):
                t.cancel()
            await asyncio.gather(ta, tb, return_exceptions=True)

    ctx.go(main)


def lost(ctx: Ctx) -> None:
    """The chain of an automatic perpetual is cut (cancelled, or consumed by a worker
    that does not know the task): a live worker restarts it within a minute."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        every, dur = 20 * S, 300 * MS
        why = ctx.pick("why", ["cancelled", "cleared", "unknown worker"])

        async def perp(perpetual: Perpetual = Perpetual(every=td(every), automatic=True)) -> None:
            rec.start("p")
            await ctx.sleep_us(dur)
            rec.end("p")

        async def fallback(*args, **kwargs) -> None:
            rec.add("swallowed", "p")

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, c):
                x.register(perp)
            kw = dict(minimum_check_interval=td(2 * S), scheduling_resolution=td(2 * S), redelivery_timeout=td(40 * S))
            loop = asyncio.get_running_loop()

            async def serve(x, name, **more):
                async with Worker(x, name=name, **kw, **more) as wk:
                    await wk.run_forever()

            ta = loop.create_task(serve(d, "a"))
            at = ctx.int("at", 1, ctx.p["at"])
            await ctx.sleep_us(at)
            now = ctx.now_us()
            busy = rec.n("start") > rec.n("end")
            if (await tied(ctx, rec, now)):
                return
            now = ctx.now_us()
            if why == "cancelled":
                await c.cancel("perp")
            elif why == "cleared":
                await c.clear()
            else:
                # the next run goes to a worker that swallows it
                tb = loop.create_task(serve(d2, "b", schedule_automatic_tasks=False, fallback_task=fallback))
                await c.replace("perp", when=c_now(ctx), key="perp")()
                await ctx.sleep_us(25 * S)
                tb.cancel()
                if rec.n("swallowed") == 0:
                    return  # the worker that knows the task won the race
                now = [x for k, _, x in rec.events if k == "swallowed"][-1]
            fault = None
            if why == "cancelled" and ctx.bool("fault"):
                # the next attempt at restarting it meets a Redis that fails
                fault = fault_at(ctx, "main", 1, False, lambda op: op.upper() == "SET")
                await ctx.sleep_us(60 * S)
            await ctx.sleep_us(60 * S + 10 * S)
            if fault and fault["fired"]:
                ctx.reach("restarting failed at first")
            again = [x for x in rec.of("start") if x > now]
            ctx.check(len(again) >= 1, "a lost chain is restarted within a minute", f"{why} {rec.events}")
            for i in range(1, len(again)):
                if rec.n("swallowed") == 0:
                    ctx.check(again[i] >= again[i - 1] + every, "a restarted chain is a single one", f"{rec.events}")
            ctx.reach(why)
            ctx.reach("while running" if busy else "between runs")
            ctx.observe(why)
            ta.cancel()

    ctx.go(main)


def c_now(ctx: Ctx):
    return ctx.at(ctx.now_us())


HARNESSES = [
    Harness("chain", chain, "every in [0,0.9s], each run [0,0.7s] long, second run may fail and may ask for another delay in [0,0.9s], new arguments or to stop; 4 runs; looked at at any instant of [0,5s]",
            ["waited", "overran", "nothing", "after", "at", "new arguments", "cancel", "looked after the end", "looked during the chain"],
            quick={"every": 900 * MS, "dur": 700 * MS, "look": 5 * S}, thorough={"every": 3 * S, "dur": 2 * S, "look": 9 * S}, budget_quick=120),
    Harness("outsider", outsider, "replaced (now or up to 1s later), cancelled, re-added or cancelled and re-added at any instant of the first 2s; failing or succeeding runs", ["replace", "replace later", "cancel", "add", "cancel then add", "while running", "between runs"],
            quick={"every": 800 * MS, "dur": 300 * MS, "at": 2 * S, "delay": S}, thorough={"at": 5 * S, "delay": 3 * S}, budget_quick=100),
    Harness("automatic", automatic, "second worker joins at any instant of the first 3s; looked at at any instant of [1s,3s]", ["healthy"], quick={"every": 900 * MS, "dur": 300 * MS, "joins": 3 * S}, thorough={"joins": 6 * S}, budget_quick=80),
    Harness("lost", lost, "cut at any instant of the first 24s (cancelled, cleared, or swallowed by another worker's fallback); 94s horizon", ["cancelled", "cleared", "between runs", "unknown worker", "restarting failed at first"],
            quick={"at": 24 * S}, thorough={"at": 60 * S}, budget_quick=120),
    days("perpetual", "every 24, 25 or 49.5 hours", ["again"]),
    many("perpetual", "3 or 25 perpetual tasks, submitted at any moment of 1.2 s", [3, 25]),
]
