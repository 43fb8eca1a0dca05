"""C16 A worker respects its concurrency and drains what it started."""
import asyncio

from docket import Worker
from docket.dependencies import ConcurrencyLimit, Perpetual, Retry

from .c10 import serve, stop
from .many import many
from .lib import MS, S, Ctx, Harness, Rec, td, tied

FUNCTIONS = [
    "Worker._worker_loop", "Worker._run", "Worker.run_until_finished", "Worker.run_forever", "Worker.run_at_most", "Worker._scheduler_loop", "Worker._execute", "Worker.__aexit__",
    "StrikeList.add_condition", "StrikeList.remove_condition", "StrikeList.is_stricken", "_stream_due_tasks (Lua)", "Execution.schedule", "Execution._mark_as_terminal", "_terminal (Lua)",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time", "task bodies only wait"]
RES, POLL = 300 * MS, 300 * MS


def crowd(ctx: Ctx) -> None:
    """More work than slots, arriving, falling due and ending at any instants."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        dur = {}

        async def job(i: int) -> None:
            rec.start(i)
            await ctx.sleep_us(dur[i])
            rec.end(i)

        n = ctx.p["n"]
        conc = ctx.pick("concurrency", [1, 2, 3])
        later = ctx.bool("scheduled")
        ready = {}
        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            ts = [serve(d, "a", ctx, concurrency=conc)]
            await ctx.sleep_us(10 * MS)
            for i in range(n):
                dur[i] = ctx.int(f"dur{i}", 0, ctx.p["dur"]) if i < 2 else ctx.p["dur"] // 2
                if i == n - 1:
                    gap = ctx.int("gap", 0, ctx.p["gap"])
                    await ctx.sleep_us(gap)
                ready[i] = ctx.now_us()
                if later and i == 1:
                    delay = ctx.int("delay", 0, ctx.p["gap"])
                    ready[i] = ready[i] + delay
                    await c.add(job, key=f"k{i}", when=ctx.at(ready[i]))(i)
                else:
                    await c.add(job, key=f"k{i}")(i)
            await ctx.sleep_us(n * (ctx.p["dur"] + POLL) + ctx.p["gap"] + RES + S)
            ctx.check(rec.max_running[None] <= conc, "never more bodies at once than the concurrency", f"{conc}: {rec.events}")
            ctx.check(all(rec.n("start", i) == 1 and rec.n("end", i) == 1 for i in range(n)), "all the work is done", f"{rec.events}")
            if rec.max_running[None] == conc:
                ctx.reach(f"full at {conc}")
            # no task waits while a slot is free for longer than it takes to poll
            for i in range(n):
                s = rec.of("start", i)[0]
                running = 0
                for (kind, j, t), (_, _, nxt) in zip(rec.events, [*rec.events[1:], ("", None, s)]):
                    running += 1 if kind == "start" else -1
                    if t >= s:
                        break
                    x = t if t > ready[i] else ready[i]
                    y = nxt if nxt < s else s
                    if running < conc and x < y:
                        ctx.check(y - x <= POLL + RES + 2 * MS, "with a free slot due work is started within a polling interval", f"{conc} {i} ready {ready[i]}: {rec.events}")
                        ctx.reach("waited for the poll")
            ctx.reach("scheduled" if later else "immediate")
            ctx.observe(rec.max_running[None], rec.tags("end"))
            await stop(*ts)

    ctx.go(main)


def finishing(ctx: Ctx) -> None:
    """run_until_finished returns when, and only when, everything is done, whatever is
    started by whoever meanwhile."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        kind = ctx.pick("kind", ["scheduled", "retried", "adds another", "perpetual", "limited", "running elsewhere"])
        dur = ctx.int("dur", 0, ctx.p["dur"])
        delay = ctx.int("delay", 0, ctx.p["delay"])
        runs = {"scheduled": 1, "retried": 3, "adds another": 2, "perpetual": 3, "limited": 2, "running elsewhere": 1}[kind]

        async def plain(i: str) -> None:
            rec.start(i)
            await ctx.sleep_us(dur)
            rec.end(i)

        async def retried(i: str, retry: Retry = Retry(attempts=3, delay=td(delay))) -> None:
            rec.start(i)
            await ctx.sleep_us(dur)
            rec.end(i)
            if rec.n("start", i) < 3:
                raise ValueError("boom")

        async def adding(i: str) -> None:
            rec.start(i)
            await ctx.sleep_us(dur)
            await d.add(plain, when=ctx.at(ctx.now_us() + delay), key="k2")(i)
            rec.end(i)

        async def perpetual(i: str, p: Perpetual = Perpetual(every=td(delay))) -> None:
            rec.start(i)
            await ctx.sleep_us(dur)
            rec.end(i)
            if rec.n("start", i) == 3:
                p.cancel()

        async def limited(i: str, limit: ConcurrencyLimit = ConcurrencyLimit(1)) -> None:
            rec.start(i)
            await ctx.sleep_us(dur)
            rec.end(i)

        job = {"scheduled": plain, "retried": retried, "adds another": adding, "perpetual": perpetual, "limited": limited, "running elsewhere": plain}[kind]
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                for f in (plain, retried, adding, perpetual, limited):
                    x.register(f)
            ts = []
            if kind == "running elsewhere":
                ts = [serve(d2, "b", ctx)]
                await ctx.sleep_us(10 * MS)
            await c.add(job, key="k", when=ctx.at(ctx.now_us() + (delay if kind == "scheduled" else 0)))("x")
            if kind == "limited":
                await c.add(job, key="k1")("x")
            if kind == "running elsewhere":
                await ctx.sleep_us(1 * MS)
            async with Worker(d, name="a", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as w:
                t = asyncio.get_running_loop().create_task(w.run_until_finished())
                limit = 4 * (ctx.p["dur"] + ctx.p["delay"] + RES + 2 * POLL) + S
                await asyncio.wait([t], timeout=limit / 1_000_000)
                ctx.check(t.done(), "running until finished returns once all is done", f"{kind}: {rec.events}")
                await t
            at = ctx.now_us()
            s = ctx.client("client").store
            left = (await ctx.client("client").xlen("d:stream"), await ctx.client("client").zcard("d:queue"))
            ctx.check(rec.n("end", "x") == runs and rec.running[None] == 0, "running until finished has run everything", f"{kind} at {at}: {rec.events}")
            ctx.check(left == (0, 0), "nothing is left when running until finished returns", f"{kind} at {at}: {left} {rec.events}")
            ctx.check(at <= rec.of("end")[-1] + 3 * POLL + RES, "running until finished returns once all is done", f"{kind} at {at}: {rec.events}")
            ctx.reach(kind)
            ctx.observe(rec.n("end", "x"))
            await stop(*ts)

    ctx.go(main)


def bounded(ctx: Ctx) -> None:
    """run_at_most runs each named key at most so often, others freely, and leaves no trace of the bound."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        most = ctx.pick("most", [1, 2, 3])
        other = ctx.pick("other", [None, 0, 1, 2])  # bound of the second perpetual
        dur = ctx.int("dur", 0, ctx.p["dur"])
        every = ctx.int("every", 0, ctx.p["every"])
        fails = ctx.int("fails", 0, 3)

        async def perp(i: str, p: Perpetual = Perpetual(every=td(every))) -> None:
            rec.start(i)
            await ctx.sleep_us(dur)
            rec.end(i)
            if i == "y" and other is None and rec.n("start", i) == 4:
                p.cancel()

        async def tried(i: str, retry: Retry = Retry(attempts=4)) -> None:
            rec.start(i)
            rec.end(i)
            if rec.n("start", i) <= fails:
                raise ValueError("boom")

        async def plain(i: str) -> None:
            rec.start(i)
            rec.end(i)

        async with ctx.docket() as d, ctx.docket("client") as c:
            for f in (perp, tried, plain):
                d.register(f)
            await c.add(perp, key="kx")("x")
            await c.add(perp, key="ky")("y")
            await c.add(tried, key="kr")("r")
            await c.add(plain, key="kp")("p")
            bounds = {"kx": most, "kr": 2} | ({} if other is None else {"ky": other})
            async with Worker(d, name="a", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as w:
                t = asyncio.get_running_loop().create_task(w.run_at_most(bounds))
                await asyncio.wait([t], timeout=(6 * (ctx.p["dur"] + ctx.p["every"] + RES + 2 * POLL) + S) / 1_000_000)
                ctx.check(t.done(), "a bounded run returns", f"{bounds}: {rec.events}")
                await t
                ctx.check(rec.n("start", "x") == most, "a key runs at most as often as it is bounded, and as often as there is work", f"{bounds}: {rec.events}")
                ctx.check(rec.n("start", "y") == (4 if other is None else other), "a key runs at most as often as it is bounded, and as often as there is work", f"{bounds}: {rec.events}")
                ctx.check(rec.n("start", "r") == (1 if fails == 0 else 2), "attempts count as runs", f"{bounds} fails {fails}: {rec.events}")
                ctx.check(rec.n("start", "p") == 1, "other keys are not bounded", f"{rec.events}")
                # the bound is gone with the run
                await c.add(plain, key="kx")("again")
                await w.run_until_finished()
                ctx.check(rec.n("start", "again") == 1, "the bound ends with the run", f"{rec.events}")
            ctx.reach(f"most {most}")
            ctx.reach("unbounded" if other is None else f"other {other}")
            ctx.observe(rec.n("start"))

    ctx.go(main)


def stopping(ctx: Ctx) -> None:
    """A worker told to stop (cancelled, or its context left) at any instant finishes the bodies
    it started, starts no others, and what it left is done by the next worker."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        how = ctx.pick("how", ["cancelled", "left"])

        async def job(i: int) -> None:
            rec.start(i)
            await ctx.sleep_us(ctx.p["dur"] if i else long)
            rec.end(i)

        n = ctx.p["n"]
        long = ctx.int("long", 0, ctx.p["long"])
        at = ctx.int("at", 0, ctx.p["at"])
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            for i in range(n):
                await c.add(job, key=f"k{i}")(i)
            due = ctx.at(ctx.now_us() + 400 * MS)
            await c.add(job, key="later", when=due)(n)
            w = Worker(d, name="a", concurrency=2, minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False)
            await w.__aenter__()
            t = asyncio.get_running_loop().create_task(w.run_forever())
            await ctx.sleep_us(at)
            t0 = ctx.now_us()
            tie = await tied(ctx, rec, t0)
            if how == "cancelled":
                t.cancel()
                await asyncio.wait([t], timeout=5)
                ctx.check(t.done(), "a worker told to stop does", f"{rec.events}")
            await w.__aexit__(None, None, None)
            t1 = ctx.now_us()
            ctx.check(rec.running.get(None, 0) == 0 and rec.n("start") == rec.n("end"), "a stopping worker finishes the bodies it started", f"{how} at {t0}-{t1}: {rec.events}")
            if not tie:
                ctx.check(all(bool(s <= t0 + (POLL if how == "left" else 0)) for s in rec.of("start")), "a stopping worker starts no other bodies", f"{how} at {t0}-{t1}: {rec.events}")
            if rec.n("end") and rec.of("end")[-1] > t0:
                ctx.reach("drained")
            if rec.n("start") < n:
                ctx.reach("left some")
            b = serve(d2, "b", ctx)
            await ctx.sleep_us(n * (ctx.p["dur"] + POLL) + RES + S)
            ctx.check(all(rec.n("start", i) == 1 and rec.n("end", i) == 1 for i in range(n + 1)), "what a stopping worker left is done by another, and only that", f"{how} at {t0}-{t1}: {rec.events}")
            ctx.reach(how)
            ctx.observe(rec.tags("end"))
            await stop(b)

    ctx.go(main)


HARNESSES = [
    Harness("crowd", crowd, "concurrency 1 to 3, 4 tasks (thorough: 5) at once but the last arriving within 0.8s and perhaps one due within 0.8s, two with bodies of [0,0.7s]",
            ["full at 1", "full at 2", "full at 3", "scheduled", "immediate", "waited for the poll"], quick={"n": 4, "dur": 700 * MS, "gap": 800 * MS}, thorough={"n": 5, "gap": 2 * S}, budget_quick=80),
    Harness("finishing", finishing, "6 kinds of work with bodies of [0,0.6s] and delays of [0,0.8s]", ["scheduled", "retried", "adds another", "perpetual", "limited", "running elsewhere"],
            quick={"dur": 600 * MS, "delay": 800 * MS}, thorough={"dur": 2 * S, "delay": 2 * S}, budget_quick=80),
    Harness("bounded", bounded, "bounds 1 to 3 and none to 2 on two perpetual tasks, 2 on a task failing up to 3 times; bodies of [0,0.4s], intervals of [0,0.6s]",
            ["most 1", "most 2", "most 3", "unbounded", "other 0", "other 1", "other 2"], quick={"dur": 400 * MS, "every": 600 * MS}, thorough={"dur": S, "every": S}, budget_quick=60),
    Harness("stopping", stopping, "concurrency 2, 4 tasks and a scheduled one, one body of [0,1s], told to stop in 2 ways at any instant of the first 1.5s", ["cancelled", "left", "drained", "left some"],
            quick={"n": 4, "dur": 200 * MS, "long": S, "at": 1500 * MS}, thorough={"at": 3 * S}, budget_quick=80),
    many("concurrency", "6, 24 or 60 tasks on a worker of 3, 12 or 30 at once, submitted at any moment of 1.2 s", [3, 12, 30]),
]
