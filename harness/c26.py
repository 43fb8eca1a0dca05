"""C26 Progress reports are what the running task reported, and only its."""
import asyncio

from docket import CurrentExecution, Perpetual, Progress, Retry
from docket.execution import Execution, ExecutionProgress

from .c10 import serve, stop
from .lib import MS, S, Ctx, Harness, freeze, td, tied

FUNCTIONS = ["ExecutionProgress.set_total/increment/set_message/sync/subscribe", "_progress_write (Lua)", "_progress_increment (Lua)", "_claim (Lua)", "_terminal (Lua)", "Progress"]
ASSUMPTIONS = ["amounts up to 2^40", "operations take no time"]
BIG = 1 << 40
TEXTS = ["half way", "", "ünïcödé ☃ \"'\\"]
NOTHING = (None, 100, None)


async def read(d, key: str = "k") -> tuple:
    p = await ExecutionProgress.create(d, key)
    return (p.current, p.total, p.message)


def same(a: tuple, b: tuple) -> object:
    return a[2] == b[2] and (a[0] is None) == (b[0] is None) and (a[0] is None or bool(a[0] == b[0])) and bool(a[1] == b[1])


class Oddity:
    pass


BAD = {"zero": 0, "negative": -3, "fraction": 2.5, "text": "7", "none": None, "nan": float("nan"), "true": True}


def reports(ctx: Ctx) -> None:
    """Any sequence of up to n reports, of any amounts, seen by another process after each one."""

    async def main(ctx: Ctx) -> None:
        n = ctx.choice("count", ctx.p["n"] + 1)
        kinds = [ctx.pick(f"kind{i}", ctx.p["kinds"]) for i in range(n)]
        via = ctx.pick("via", ["dependency", "execution"]) if n < 2 else "dependency"
        log: list = []
        events: list = []
        over = asyncio.Event()

        async with ctx.docket() as d, ctx.docket("client") as c:

            async def job(progress: Progress = Progress(), execution: Execution = CurrentExecution()) -> None:
                p = progress if via == "dependency" else execution.progress
                current, total, message = 0, 100, None
                log.append(("start", await read(c), (0, 100, None)))
                for i, kind in enumerate(kinds):
                    refused = None
                    try:
                        if kind == "add":
                            amount = ctx.int(f"n{i}", 1, BIG)
                            await p.increment(amount)
                            current = current + amount
                        elif kind == "two":
                            x, y = ctx.int(f"n{i}", 1, BIG), ctx.int(f"m{i}", 1, BIG)
                            await asyncio.gather(p.increment(x), progress.increment(y))
                            current = current + x + y
                        elif kind == "total":
                            total = ctx.int(f"n{i}", 1, BIG)
                            await p.set_total(total)
                        elif kind == "message":
                            message = ctx.pick(f"text{i}", TEXTS)
                            await p.set_message(message)
                        elif kind == "clear":
                            message = None
                            await p.set_message(None)
                        elif kind == "bad total":
                            refused = ctx.pick(f"bad{i}", list(BAD))
                            await p.set_total(BAD[refused])
                        elif kind == "bad amount":
                            refused = ctx.pick(f"bad{i}", list(BAD))
                            await p.increment(BAD[refused])
                        elif kind == "any":
                            # Valid or not by its value.
                            amount = ctx.int(f"n{i}", -2, 3)
                            refused = "value" if bool(amount < 1) else None
                            await p.increment(amount)
                            current = current + amount
                        log.append(("taken", refused, kind))
                    except Exception as e:
                        log.append(("refused", refused, f"{kind} {type(e).__name__}: {e}"))
                    try:
                        got = await read(c)
                    except Exception as e:
                        got = (f"{type(e).__name__}: {e}", None, None)
                    log.append(("seen", got, (current, total, message)))
                    log.append(("own", (p.current, p.total, p.message), (current, total, message), bool(kinds[: i + 1] and "add" in kinds[: i + 1])))

            for x in (d, c):
                x.register(job)
            ex = await c.add(job, key="k")()
            ready = asyncio.Event()

            async def listen() -> None:
                async for e in ex.progress.subscribe(ready=ready):
                    events.append((e["current"], e["total"], e["message"]))

            listening = asyncio.create_task(listen())
            await ready.wait()
            ctx.check(same(await read(c), NOTHING), "there is no progress before the run", "")
            t = serve(d, "w", ctx)
            await ctx.sleep_us(S)
            why = f"{kinds} {log}"
            ctx.check(bool(log), "the task ran", "")
            ended = NOTHING
            for x in log:
                if x[0] == "start":
                    ctx.check(same(x[1], x[2]), "a run starts at zero", why)
                elif x[0] == "taken":
                    ctx.check(x[1] is None, "an invalid report is rejected", why)
                    ctx.reach(x[2])
                elif x[0] == "refused":
                    ctx.check(x[1] is not None, "a valid report is taken", why)
                    ctx.reach(f"refused {x[1]}")
                elif x[0] == "seen":
                    ctx.check(same(x[1], x[2]), "what is read is what was reported", why)
                    ended = x[2]
                elif x[0] == "own":
                    ctx.check(bool(x[1][1] == x[2][1]) and x[1][2] == x[2][2] and bool(x[1][0] == x[2][0]), "the task sees what it reported", why)
            ctx.check(same(await read(c), NOTHING), "progress is gone after the run", why)
            if events and "two" not in kinds:
                ctx.check(same(events[-1], ended), "the last event is the last report", f"{why} {events[-1]}")
            taken = len([x for x in log if x[0] == "taken"]) + kinds.count("two")
            ctx.check(len(events) == taken, "each report is announced once", f"{why} {events}")
            ctx.observe(len(log), len(events))
            listening.cancel()
            over.set()
            await stop(t)

    ctx.go(main)


def overlapping(ctx: Ctx) -> None:
    """A task that is replaced while it runs goes on reporting beside its successor."""

    async def main(ctx: Ctx) -> None:
        log: dict = {1: [], 2: []}  # (when, current, total, message)
        spans: dict = {}
        due = ctx.int("due", 0, ctx.p["hi"])
        turn = ctx.choice("turn", 2)
        pace = ctx.pick("pace", ctx.p["pace"])

        async with ctx.docket() as d, ctx.docket("d2") as d2, ctx.docket("client") as c:

            async def job(n: int, progress: Progress = Progress()) -> None:
                spans[n] = [ctx.now_us(), None]
                log[n].append((ctx.now_us(), 0, 100, None))
                current, total, message = 0, 100, None
                for i in range(ctx.p["steps"][n - 1]):
                    await ctx.sleep_us(pace[n - 1])
                    now = ctx.now_us()
                    if i % 2 == turn:
                        total, message = 10 * n + i, f"run {n} {i}"
                        await progress.set_total(total)
                        await progress.set_message(message)
                    else:
                        await progress.increment(n)
                        current += n
                    log[n].append((now, current, total, message))
                spans[n][1] = ctx.now_us()

            for x in (d, d2, c):
                x.register(job)
            await c.add(job, key="k")(1)
            t = serve(d, "w", ctx)
            t2 = serve(d2, "w2", ctx)
            await ctx.sleep_us(50 * MS)
            began = ctx.now_us()
            await c.replace(job, when=ctx.at(began + due), key="k")(2)
            await ctx.sleep_us(ctx.pick("look", ctx.p["look"]))
            now = ctx.now_us()
            got = await read(c)
            moments = [x for v in log.values() for x, *_ in v] + [x[1] for x in spans.values() if x[1] is not None]
            if any(bool(abs(now - m) < 2) for m in moments):
                t.cancel()
                t2.cancel()
                return
            why = f"looked {now}, runs {spans}, reported {log}: {got}"
            if 2 in spans:
                mine, phase = (2, "successor") if spans[2][1] is None else (None, "successor over")
            elif spans[1][1] is None:
                mine, phase = 1, "predecessor"
            else:
                mine, phase = None, "predecessor over"
            if mine is None:
                ctx.check(same(got, NOTHING), "progress is gone after the run", why)
            else:
                ctx.check(same(got, log[mine][-1][1:]), "the progress is that of the current run", why)
            if phase.startswith("successor") and spans[1][1] is None:
                phase += ", predecessor running"
            elif phase == "successor":
                phase += ", predecessor over"
            ctx.reach(phase)
            await ctx.sleep_us(4 * S)
            ctx.check(same(await read(c), NOTHING), "progress is gone after the run", f"in the end: {why}")
            ctx.observe(now, phase)
            await stop(t, t2)

    ctx.go(main)


def beside(ctx: Ctx) -> None:
    """Two tasks of one function, run by the same worker with any overlap, each report their own."""

    async def main(ctx: Ctx) -> None:
        log: dict = {}
        due = ctx.int("due", 0, S)

        async with ctx.docket() as d, ctx.docket("client") as c:

            async def job(n: int, progress: Progress = Progress()) -> None:
                log[n] = [(ctx.now_us(), 0, 100, None)]
                for i in range(1, 4):
                    await ctx.sleep_us((200 + 70 * n) * MS)
                    now = ctx.now_us()
                    await progress.increment(n)
                    await progress.set_total(10 * n + i)
                    await progress.set_message(f"{n} {i}")
                    log[n].append((now, n * i, 10 * n + i, f"{n} {i}"))
                log[n].append((ctx.now_us(), *NOTHING))

            for x in (d, c):
                x.register(job)
            t = serve(d, "w", ctx)
            began = ctx.now_us()
            await c.add(job, when=ctx.at(began + due), key="k1")(1)
            await c.add(job, key="k2")(2)
            await ctx.sleep_us(ctx.pick("look", ctx.p["look"]))
            now = ctx.now_us()
            got = {n: await read(c, f"k{n}") for n in (1, 2)}
            why = f"looked {now}, reported {log}: {got}"
            for n in (1, 2):
                if n not in log:
                    ctx.check(same(got[n], NOTHING), "there is no progress before the run", why)
                elif not any(bool(abs(now - m[0]) < 2) for m in log[n]):
                    ctx.check(same(got[n], log[n][-1][1:]), "what is read is what was reported", why)
            ctx.reach(f"{len(log.get(1, []))} {len(log[2])}")
            await ctx.sleep_us(3 * S)
            for n in (1, 2):
                ctx.check(same(await read(c, f"k{n}"), NOTHING), "progress is gone after the run", why)
            ctx.observe(now)
            await stop(t)

    ctx.go(main)


def again(ctx: Ctx) -> None:
    """Each run of a retried, perpetual or redelivered task starts at zero, and leaves nothing."""

    async def main(ctx: Ctx) -> None:
        how = ctx.pick("how", ["retries", "fails", "perpetual", "redelivered", "cancelled"])
        starts: list = []
        spans: list = []
        own: list = []

        async with ctx.docket() as d, ctx.docket("d2") as d2, ctx.docket("client") as c:

            async def work(progress) -> None:
                me = len(spans)
                spans.append([ctx.now_us(), None])
                starts.append(await read(c))
                await progress.set_total(7)
                await progress.increment(3)
                await progress.set_message("busy")
                own.append((progress.current, progress.total, progress.message))
                await ctx.sleep_us(400 * MS)
                spans[me][1] = ctx.now_us()
                if how == "retries" and me == 0 or how == "fails":
                    raise ValueError("no")

            async def retrying(progress: Progress = Progress(), retry: Retry = Retry(attempts=2, delay=td(600 * MS))) -> None:
                await work(progress)

            async def repeated(progress: Progress = Progress(), perpetual: Perpetual = Perpetual(every=td(S))) -> None:
                if len(spans) == 1:
                    perpetual.cancel()
                await work(progress)

            job = repeated if how == "perpetual" else retrying
            for x in (d, d2, c):
                x.register(job)
            await c.add(job, key="k")()
            t = serve(d, "w", ctx, redelivery_timeout=td(800 * MS))
            if how == "redelivered":
                await ctx.sleep_us(100 * MS)
                freeze(ctx, "main")
                t2 = serve(d2, "w2", ctx, redelivery_timeout=td(800 * MS))
            if how == "cancelled":
                await ctx.sleep_us(200 * MS)
                await c.cancel("k")
            await ctx.sleep_us(ctx.int("look", 0, ctx.p["hi"]))
            now = ctx.now_us()
            got = await read(c)
            why = f"{how} looked {now} runs {spans}: {got}"
            if how == "redelivered" and len(spans) < 2:
                ctx.check(same(got, (3, 7, "busy")), "the progress of a run stays until it ends", why)
            elif any(bool(abs(now - x) < 2) for s in spans for x in s if x is not None) or how == "cancelled" and bool(now < 210 * MS):
                ctx.reach("as it changes")
            elif spans and spans[-1][1] is None and how != "cancelled":
                ctx.check(same(got, (3, 7, "busy")), "what is read is what was reported", why)
                ctx.reach("during")
            elif how in ("retries", "fails") and len(spans) == 1:
                # Between attempts the task hasn't ended.
                ctx.check(same(got, NOTHING) or same(got, (3, 7, "busy")), "between attempts there is only the last one's progress", why)
                ctx.reach("between")
            elif spans:
                ctx.check(same(got, NOTHING), "progress is gone after the run", why)
                ctx.reach("between" if len(spans) == 1 else "after")
            ctx.check(all(x == (3, 7, "busy") for x in own), "a body sees its own reports", f"{why} {own}")
            ctx.check(all(same(x, (0, 100, None)) for x in starts), "a run starts at zero", f"{why} {starts}")
            ctx.reach(f"{how} {len(spans)}")
            ctx.observe(now, len(spans))
            t.cancel()
            await stop(*([t2] if how == "redelivered" else [t]))

    ctx.go(main)


HARNESSES = [
    Harness("reports", reports, "up to 2 (thorough: 3) reports of 8 kinds, of any amounts up to 2^40", ["add", "two", "total", "message", "clear", "any", *[f"refused {x}" for x in BAD], "refused value"],
            quick={"n": 2, "kinds": ["add", "total", "message", "clear", "two", "any", "bad total", "bad amount"]}, thorough={"n": 3}, budget_quick=150),
    Harness("sums", reports, "4 (thorough: 5) reports of 3 kinds", ["add", "total", "message"], quick={"n": 4, "kinds": ["add", "total", "message"]}, thorough={"n": 5}, budget_quick=150),
    Harness("overlapping", overlapping, "a successor due at any microsecond of a second, 5 moments to look", ["successor, predecessor running", "successor over, predecessor running", "predecessor", "successor over", "successor, predecessor over"],
            quick={"hi": S, "steps": [6, 3], "pace": [[330 * MS, 210 * MS], [150 * MS, 330 * MS]], "look": [200 * MS, 700 * MS, 1100 * MS, 1500 * MS, 2500 * MS]}, thorough={"hi": 2 * S, "look": [x * 130 * MS for x in range(1, 25)]}, budget_quick=100),
    Harness("beside", beside, "a second task due at any microsecond of a second, 4 moments to look", ["1 3", "2 2", "3 3", "5 5"],
            quick={"look": [410 * MS, 720 * MS, 1050 * MS, 1500 * MS]}, thorough={"look": [x * 130 * MS for x in range(1, 20)]}, budget_quick=60),
    Harness("again", again, "5 ways to run again or end; looked at any microsecond of 3 s", ["during", "between", "after", "retries 2", "fails 2", "perpetual 2", "redelivered 2", "cancelled 1"],
            quick={"hi": 3 * S}, budget_quick=100),
]
