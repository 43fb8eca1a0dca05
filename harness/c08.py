"""C08 Retries run the declared number of attempts at the declared delays."""
import asyncio

from docket import Worker
from docket.dependencies import ExponentialRetry, Retry
from docket.execution import Execution

from .days import days
from .lib import MS, S, Ctx, Harness, Rec, freeze, running, td

FUNCTIONS = [
    "Retry.__aenter__", "Retry.handle_failure", "Retry.after", "Retry.at", "ExponentialRetry.__aenter__", "Execution.schedule", "_schedule (Lua, reschedule branch)",
    "_claim (Lua)", "_terminal (Lua)", "_stream_due_tasks (Lua)", "Worker._execute", "Docket.schedule",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time"]
RES, POLL = 500 * MS, 700 * MS


class Boom(Exception):
    pass


def linear(ctx: Ctx) -> None:
    """Any number of failures, any delay, requested by raising, retry.after() or retry.at()."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        attempts = ctx.pick("attempts", [1, 2, 3, None])
        failures = ctx.choice("failures", 4)
        how = ctx.pick("how", ["raise", "after", "at", "at past"])
        asked = delay = ctx.int("delay", 0, ctx.p["delay"])
        first = ctx.int("first", 0, ctx.p["first"])

        async def flaky(a: int, *, b: str, retry: Retry = Retry(attempts=attempts, delay=td(asked if how == "raise" else 3600 * S))) -> str:
            rec.start((a, b))
            rec.add("attempt", retry.attempt)
            await ctx.sleep_us(ctx.p["dur"])
            rec.end((a, b))
            if rec.n("end") <= failures:
                if how == "after":
                    retry.after(td(asked))
                if how == "at":
                    retry.at(ctx.at(ctx.now_us() + asked))
                if how == "at past":
                    retry.at(ctx.at(ctx.now_us() - 1 - asked))
                raise Boom()
            return "done"

        async with ctx.docket() as d:
            d.register(flaky)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk:
                due = ctx.now_us() + first
                e = await d.add(flaky, when=ctx.at(due), key="k")(41, b="x")
                await wk.run_until_finished()
                total = failures + 1 if attempts is None else min(failures + 1, attempts)
                ctx.check(rec.n("start") == total, "a failing task is attempted the declared number of times and stops at the first success", f"{attempts} {failures} {rec.events}")
                ctx.check(rec.tags("attempt") == list(range(1, total + 1)), "each attempt is numbered one higher than the last", str(rec.tags("attempt")))
                ctx.check(set(rec.tags("start")) == {(41, "x")}, "every attempt has the same arguments", str(rec.tags("start")))
                starts, ends = rec.of("start"), rec.of("end")
                ctx.check(starts[0] >= due, "the first attempt is on time", str(rec.events))
                if how == "at past":
                    delay = 0
                for i in range(1, total):
                    ctx.check(starts[i] >= ends[i - 1] + delay, "no attempt starts before its delay has passed", str(rec.events))
                    ctx.check(starts[i] <= ends[i - 1] + delay + RES + POLL, "an attempt starts promptly after its delay", str(rec.events))
                    ctx.reach("retried")
                await e.sync()
                ok = failures < total
                ctx.check(e.state.value == ("completed" if ok else "failed"), "when attempts run out it is recorded as failed, else as completed", f"{e.state.value} {rec.events}")
                ctx.reach("succeeded" if ok else "exhausted")
                ctx.reach(how)
                again = await d.add(flaky, key="k")(41, b="x")
                ctx.check(again.disposition.value == "scheduled", "the key is free after the last attempt", again.disposition.value)
                ctx.observe(rec.tags("attempt"))

    ctx.go(main)


def exponential(ctx: Ctx) -> None:
    """The delay after attempt n is min(maximum, minimum * 2**(n-1)), whatever n."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        n = ctx.pick("attempt", ctx.p["attempts"])
        lo = ctx.pick("minimum", ctx.p["min"]) if isinstance(ctx.p["min"], list) else ctx.int("minimum", 0, ctx.p["min"])
        hi = ctx.int("maximum", 0, ctx.p["max"])
        ctx.assume(hi >= lo)
        forever = ctx.bool("forever")
        policy = ExponentialRetry.forever(delay=td(lo), maximum_delay=td(hi)) if forever else ExponentialRetry(attempts=10_000, minimum_delay=td(lo), maximum_delay=td(hi))

        async def flaky(x: int, retry: ExponentialRetry = policy) -> None:
            rec.start(x)
            rec.add("attempt", retry.attempt)
            if rec.n("start") == 1:
                raise Boom()

        async with ctx.docket() as d:
            d.register(flaky)
            big = max(1, ctx.p["max"] // 4)
            async with Worker(d, name="w", minimum_check_interval=td(big), scheduling_resolution=td(big), redelivery_timeout=td(400 * S), schedule_automatic_tasks=False) as wk:
                e = Execution(d, flaky, (5,), {}, "k", ctx.at(ctx.now_us()), n)
                await d.schedule(e)
                await wk.run_until_finished()
                ctx.check(rec.n("start") == 2, "a failed attempt is followed by another", f"attempt {n}: {rec.events} {e.state}")
                ctx.check(rec.tags("attempt") == [n, n + 1], "each attempt is numbered one higher than the last", str(rec.tags("attempt")))
                gap = rec.of("start")[1] - rec.of("start")[0]
                want = lo * 2 ** (n - 1)
                capped = want > hi
                if capped:
                    ctx.reach("capped")
                    want = hi
                elif lo > 0:
                    ctx.reach("doubled")
                ctx.check(gap >= want, "exponential delays double from the minimum and never exceed the maximum", f"attempt {n}: too early")
                ctx.check(gap <= want + 2 * big, "exponential delays double from the minimum and never exceed the maximum", f"attempt {n}: too late")
                ctx.reach(f"attempt {n}")
                ctx.observe(rec.tags("attempt"))

    ctx.go(main)


def doubling(ctx: Ctx) -> None:
    """Whole runs of 4 attempts with exponential delays."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        lo = ctx.int("minimum", 1, 300 * MS)
        hi = ctx.p["cap"]

        async def flaky(retry: ExponentialRetry = ExponentialRetry(attempts=4, minimum_delay=td(lo), maximum_delay=td(hi))) -> None:
            rec.start(retry.attempt)
            raise Boom()

        async with ctx.docket() as d:
            d.register(flaky)
            async with Worker(d, name="w", minimum_check_interval=td(100 * MS), scheduling_resolution=td(100 * MS), schedule_automatic_tasks=False) as wk:
                e = await d.add(flaky, key="k")()
                await wk.run_until_finished()
                ctx.check(rec.tags("start") == [1, 2, 3, 4], "a failing task is attempted the declared number of times", str(rec.events))
                st = rec.of("start")
                for i in range(3):
                    w = lo * 2**i
                    if w > hi:
                        ctx.reach("capped")
                        w = hi
                    ctx.check(st[i + 1] >= st[i] + w and st[i + 1] <= st[i] + w + 200 * MS, "exponential delays double from the minimum and never exceed the maximum", f"{i} {rec.events}")
                await e.sync()
                ctx.check(e.state.value == "failed", "when attempts run out it is recorded as failed", e.state.value)
                ctx.reach("exhausted")
                ctx.observe(rec.tags("start"))

    ctx.go(main)


def beside(ctx: Ctx) -> None:
    """Two tasks of one function retried beside each other: what one asks for is its own."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        kind = ctx.pick("kind", ["linear", "exponential"])
        how = ctx.pick("how", ["raise", "after", "at"])
        low, asked = ctx.p["low"], ctx.p["asked"]
        policy = Retry(attempts=3, delay=td(low)) if kind == "linear" else ExponentialRetry(attempts=3, minimum_delay=td(low), maximum_delay=td(60 * S))

        async def flaky(who: str, dur: int, retry: Retry = policy) -> None:
            rec.start(who)
            first = retry.attempt == 1
            await ctx.sleep_us(dur)
            rec.add("attempt " + who, retry.attempt)
            rec.end(who)
            if who == "a" and first and how == "after":
                retry.after(td(asked))
            if who == "a" and first and how == "at":
                retry.at(ctx.at(ctx.now_us() + asked))
            if who == "a" or first:
                raise Boom()

        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(flaky)
            c.register(flaky)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                a = await c.add(flaky, key="a")("a", ctx.p["dur"])
                await ctx.sleep_us(ctx.int("gap", 0, ctx.p["gap"]))
                b = await c.add(flaky, key="b")("b", ctx.pick("body", [0, ctx.p["dur"] * 2]))
                await ctx.sleep_us(ctx.p["dur"] * 7 + 3 * asked + 4 * (RES + POLL))
                step = [low, low] if kind == "linear" else [low, 2 * low]
                for who, n, delays in (("a", 3, [step[0] if how == "raise" else asked, step[1]]), ("b", 2, step)):
                    ctx.check(rec.tags("attempt " + who) == list(range(1, n + 1)), "each attempt is numbered one higher than the last", f"{kind} {how} {rec.events}")
                    starts, ends = rec.of("start", who), rec.of("end", who)
                    for i in range(n - 1):
                        ctx.check(starts[i + 1] >= ends[i] + delays[i], "no attempt starts before its delay has passed", f"{kind} {how} {who} {i}: {rec.events}")
                        ctx.check(starts[i + 1] <= ends[i] + delays[i] + RES + POLL, "an attempt starts promptly after its delay", f"{kind} {how} {who} {i}: {rec.events}")
                await a.sync()
                await b.sync()
                ctx.check((a.state.value, b.state.value) == ("failed", "completed"), "each is recorded as it ended", f"{a.state} {b.state}")
                ctx.reach(kind)
                ctx.reach(how)
                ctx.observe(rec.tags("start"))

    ctx.go(main)


def redelivered(ctx: Ctx) -> None:
    """The worker dies at any instant around a run of attempts; interrupted attempts are
    repeated under their own number and completed ones are never exceeded."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        attempts = ctx.pick("attempts", [1, 2, 3])

        def make(who: str):
            async def flaky(x: int, retry: Retry = Retry(attempts=attempts, delay=td(ctx.p["delay"]))) -> None:
                rec.start((who, retry.attempt))
                await ctx.sleep_us(ctx.p["dur"])
                rec.end((who, retry.attempt))
                raise Boom()

            return flaky

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            d.register(make("a"))
            d2.register(make("b"))
            kw = dict(redelivery_timeout=td(ctx.p["timeout"]), minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False)

            async def serve(x, name):
                async with Worker(x, name=name, **kw) as wk:
                    await wk.run_forever()

            loop = asyncio.get_running_loop()
            ta = loop.create_task(serve(d, "a"))
            e = await c.add(make("client"), key="k")(5)
            died = ctx.int("dies_at", 1, ctx.p["dies"])
            await ctx.sleep_us(died)
            freeze(ctx, "main")
            at = ctx.now_us()
            tb = loop.create_task(serve(d2, "b"))
            await ctx.sleep_us(ctx.p["timeout"] + 3 * (ctx.p["dur"] + ctx.p["delay"] + RES + POLL) + 2 * POLL)
            ev = [(k, g, t) for k, g, t in rec.events if g[0] == "b" or t < at]
            tie = any(bool(t == at) for _, g, t in rec.events if g[0] == "a")
            started = [g[1] for k, g, _ in ev if k == "start"]
            ended = [g[1] for k, g, _ in ev if k == "end"]
            lost = [g for k, g, t in ev if k == "start" and ("end", g) not in [(k2, g2) for k2, g2, _ in ev]]
            ctx.check(tie or ended == list(range(1, attempts + 1)), "a failing task is attempted the declared number of times, a repeated attempt under its own number", f"{attempts}: {ev}")
            ctx.check(tie or len(started) == attempts + len(lost), "only an interrupted attempt is repeated", f"{attempts}: {ev}")
            await e.sync()
            ctx.check(tie or e.state.value == "failed", "when attempts run out it is recorded as failed", f"{e.state.value} {ev}")
            if lost:
                ctx.reach(f"died in attempt {lost[0][1]}")
            else:
                ctx.reach("died between attempts")
            ctx.observe(started, ended)
            for t in (ta, tb):
                t.cancel()
            await asyncio.gather(tb, return_exceptions=True)

    ctx.go(main)


HARNESSES = [
    Harness("linear", linear, "attempts 1, 2, 3 or unlimited; 0-3 failures; by raising, after() or at(); delay in [0,0.9s]; first due in [0,0.5s]",
            ["retried", "succeeded", "exhausted", "raise", "after", "at"], quick={"delay": 900 * MS, "first": 500 * MS, "dur": 100 * MS}, thorough={"delay": 2 * S}, budget_quick=100),
    Harness("exponential", exponential, "attempt numbers 1-8, 17, 40, 63, 64, 1025; minimum in [0,60s], maximum in [minimum,120s]; unlimited or 10000 attempts", ["capped", "doubled"],
            quick={"attempts": [1, 2, 3, 4, 5, 8, 17, 40, 63, 64, 1025], "min": 60 * S, "max": 120 * S}, thorough={"max": 1200 * S}, budget_quick=60),
    Harness("tiny", exponential, "attempts 17, 33, 40 and 1000 with minimum 1 us or 1 ms, any maximum up to 200 s", ["capped", "doubled"],
            quick={"attempts": [17, 33, 40, 1000], "min": [1, 1000], "max": 200 * S}, thorough={"attempts": [17, 25, 33, 40, 63, 64, 1000], "max": 1200 * S}, budget_quick=60),
    Harness("doubling", doubling, "4 attempts, minimum in (0,0.3s], maximum 0.5s", ["capped", "exhausted"], quick={"cap": 500 * MS}, thorough={"cap": 900 * MS}, budget_quick=30),
    Harness("redelivered", redelivered, "1, 2 or 3 attempts of 0.2s, 0.1s apart; the worker dies at any instant of (0,3s]; redelivery timeout 1s",
            ["died in attempt 1", "died in attempt 2", "died in attempt 3", "died between attempts"],
            quick={"delay": 100 * MS, "dur": 200 * MS, "timeout": S, "dies": 3 * S}, thorough={"dies": 6 * S, "delay": 400 * MS}, budget_quick=60),
    Harness("beside", beside, "2 tasks of one function, retried linearly or exponentially, one asking for its own delay in 3 ways, the other added at any instant of its first 1.2s", ["linear", "exponential", "raise", "after", "at"],
            quick={"low": 150 * MS, "asked": 1400 * MS, "dur": 200 * MS, "gap": 1200 * MS}, thorough={"gap": 4 * S}, budget_quick=40),
    days("retry", "a retry delayed 24, 25 or 49.5 hours", ["again"]),
]
