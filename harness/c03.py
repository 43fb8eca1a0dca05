"""C03 Superseded work never starts nor overwrites its successor."""
import asyncio

from docket import Progress, Worker
from docket.dependencies import Perpetual, Retry

from .lib import MS, S, Ctx, Harness, Rec, aged, delay_at, freeze, running, td, tied

FUNCTIONS = [
    "Docket.replace", "_schedule (Lua, superseding branch)", "_claim (Lua)", "_terminal (Lua)", "Execution.is_superseded", "Worker._execute",
    "Retry.handle_failure", "Perpetual.on_complete", "ExecutionProgress.increment/set_message", "Worker.get_redeliveries", "_cancel_task (Lua)",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness"]
RES, POLL = 500 * MS, 700 * MS


def in_progress(ctx: Ctx) -> None:
    """A running task is replaced at any instant; whatever way the old run ends,
    the new one keeps its schedule, record, progress and result."""
    dur = ctx.p["dur"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        how = ctx.pick("old_ends", ctx.p["hows"])

        async def old(progress: Progress = Progress(), retry: Retry = Retry(attempts=2 if how == "retry" else 1, delay=td(200 * MS))) -> str:
            rec.start("old")
            await progress.set_total(77)
            await progress.increment(3)
            await ctx.sleep_us(dur)
            await progress.increment(5)
            await progress.set_message("old message")
            rec.end("old")
            if how in ("fail", "retry"):
                raise ValueError("old failure")
            return "old result"

        async def perp(perpetual: Perpetual = Perpetual(every=td(400 * MS))) -> str:
            rec.start("old")
            await ctx.sleep_us(dur)
            rec.end("old")
            if how == "perpetual cancel":
                perpetual.cancel()
            if how == "perpetual fails":
                raise ValueError("old failure")
            return "old result"

        async def new(tag: str, progress: Progress = Progress()) -> str:
            rec.start("new")
            await progress.set_total(50)
            await progress.increment(2)
            await ctx.sleep_us(ctx.p["ndur"])
            seen = (await rec.docket.get_execution("k")).progress
            rec.add("progress", (seen.current, seen.total, seen.message))
            rec.end("new")
            return "new result"

        async with ctx.docket() as d, ctx.docket("client") as c:
            for f in (old, perp, new):
                d.register(f)
                c.register(f)
            rec.docket = c
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                await aged(c, "k", ctx.pick("earlier_runs", [0, 8]))
                await c.add(perp if how.startswith("perp") else old, key="k")()
                at = ctx.int("replace_at", 0, dur + 100 * MS)
                await ctx.sleep_us(50 * MS)
                await ctx.sleep_us(at)
                finished = rec.n("end", "old")
                delay = ctx.int("delay", 0, ctx.p["delay"])
                due = ctx.now_us() + delay
                e = await c.replace(new, when=ctx.at(due), key="k")("x")
                # wait until the old run is over, then look at the record
                wait = ctx.int("look", 0, ctx.p["look"])
                await ctx.sleep_us(wait)
                started = rec.n("start", "new")
                await e.sync()
                st = e.state.value
                if started == 0:
                    ctx.reach("pending")
                    ctx.check(st in ("scheduled", "queued"), "an older run does not change the newer one's recorded state", f"{how}: {st} {rec.events}")
                elif rec.n("end", "new") == 0:
                    ctx.reach("both running" if rec.n("end", "old") == 0 else "new running")
                    ctx.check(st == "running", "an older run does not change the newer one's recorded state", f"{how}: {st} {rec.events}")
                await ctx.sleep_us(dur + ctx.p["delay"] + ctx.p["ndur"] + 2 * (RES + POLL))
                ctx.check(rec.n("start", "new") == 1, "the newer definition runs exactly once", f"{how} {rec.events}")
                s = rec.of("start", "new")[0]
                ctx.check(s >= due and s <= due + RES + POLL, "the newer definition runs at its own time", f"{how} {rec.events}")
                await e.sync()
                ctx.check(e.state.value == "completed", "the newer run's outcome is what is recorded", f"{how}: {e.state.value} {e.error} {rec.events}")
                ctx.check(rec.tags("progress") == [(2, 50, None)], "the newer run's progress is its own", f"{how} {rec.events}")
                r = await e.get_result(timeout=td(S))
                ctx.check(r == "new result", "the newer run's result is what is stored", f"{how}: {r!r} {rec.events}")
                ctx.check(all(t <= s for t in rec.of("start", "old")) if not finished else True, "superseded work never starts", f"{how} {rec.events}")
                if not finished:
                    ctx.reach("replaced while running")
                    ctx.check(rec.n("start", "old") == 1, "superseded work never starts again", f"{how} {rec.events}")
                ctx.reach(how)
                ctx.observe(st, rec.tags("start"))

    ctx.go(main)


def redelivered(ctx: Ctx) -> None:
    """The worker holding the older run dies; the key is replaced before or after its
    message is redelivered to another worker."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def job(tag: str, dur: int) -> str:
            rec.start((tag, ctx_client.get()))
            await ctx.sleep_us(dur)
            rec.end((tag, ctx_client.get()))
            return tag

        import contextvars

        ctx_client: contextvars.ContextVar = contextvars.ContextVar("c")
        kept = ctx.pick("retained", [True, False])
        ttl = {} if kept else {"execution_ttl": td(0)}
        async with ctx.docket(**ttl) as d, ctx.docket("client", **ttl) as c, ctx.docket("b", **ttl) as d2:
            for x in (d, d2):
                x.register(job)
            kw = dict(redelivery_timeout=td(timeout), minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False)

            async def serve(x, name):
                ctx_client.set(name)
                async with Worker(x, name=name, **kw) as wk:
                    await wk.run_forever()

            loop = asyncio.get_running_loop()
            ta = loop.create_task(serve(d, "a"))
            await aged(c, "k", ctx.pick("earlier_runs", [0, 8]))
            await c.add(job, key="k")("old", 10 * S)
            await ctx.sleep_us(100 * MS)
            ctx.check(rec.n("start", ("old", "a")) == 1, "the task starts", str(rec.events))
            freeze(ctx, "main")  # worker a is dead from here on
            tb = loop.create_task(serve(d2, "b"))
            at = ctx.int("replace_at", 0, ctx.p["hi"])
            await ctx.sleep_us(at)
            moved = rec.n("start", ("old", "b"))
            delay = ctx.int("delay", 0, ctx.p["delay"])
            due = ctx.now_us() + delay
            e = await c.replace(job, when=ctx.at(due), key="k")("new", 100 * MS)
            await ctx.sleep_us(ctx.p["hi"] + ctx.p["delay"] + RES + POLL + timeout)
            ctx.check(rec.n("start", ("old", "b")) == moved, "a replaced definition never starts on redelivery", str(rec.events))
            ctx.check(rec.n("start", ("new", "b")) == 1, "the newer definition runs exactly once", str(rec.events))
            s = rec.of("start", ("new", "b"))[0]
            ctx.check(s >= due and s <= due + RES + POLL, "the newer definition runs at its own time", str(rec.events))
            if kept:
                await e.sync()
                ctx.check(e.state.value == "completed", "the newer run's outcome is what is recorded", e.state.value)
            left = await ctx.client("client").xlen("d:stream")
            # (the older run, if it was redelivered, is still in progress)
            ctx.check(moved or left == 0, "superseded work is not delivered again and again", str(left))
            ctx.reach("redelivered first" if moved else "replaced first")
            ctx.reach("retained" if kept else "not retained")
            ctx.observe(moved, rec.tags("start"))
            for t in (ta, tb):
                t.cancel()
            await asyncio.gather(tb, return_exceptions=True)

    ctx.go(main)


def struck(ctx: Ctx) -> None:
    """The replaced definition has been struck when its message is redelivered."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def old(tag: str) -> None:
            rec.start(tag)
            await ctx.sleep_us(10 * S)

        async def new(tag: str) -> str:
            rec.start(tag)
            return tag

        async with ctx.docket() as d, ctx.docket("client") as c, ctx.docket("b") as d2:
            for x in (d, c, d2):
                x.register(old)
                x.register(new)
            kw = dict(redelivery_timeout=td(timeout), minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False)

            async def serve(x, name):
                async with Worker(x, name=name, **kw) as wk:
                    await wk.run_forever()

            loop = asyncio.get_running_loop()
            ta = loop.create_task(serve(d, "a"))
            await c.add(old, key="k")("old")
            await ctx.sleep_us(100 * MS)
            freeze(ctx, "main")
            await c.strike(old)
            tb = loop.create_task(serve(d2, "b"))
            at = ctx.int("replace_at", 0, ctx.p["hi"])
            await ctx.sleep_us(at)
            delay = ctx.pick("delay", [0, ctx.p["delay"] // 2, ctx.p["delay"]])
            due = ctx.now_us() + delay
            e = await c.replace(new, when=ctx.at(due), key="k")("new")
            look = ctx.pick("look", ctx.p["looks"])
            await ctx.sleep_us(look)
            started = rec.n("start", "new")
            now = ctx.now_us()
            if bool(ctx.bool("cancel")):
                await c.cancel("k")
                tie = await tied(ctx, rec, now)
                await ctx.sleep_us(ctx.p["hi"] + ctx.p["delay"] + RES + POLL + timeout)
                ctx.check(tie or rec.n("start", "new") == started, "a cancelled newer definition does not start", str(rec.events))
            else:
                r = await c.add(new, key="k")("again")
                tie = await tied(ctx, rec, now)
                await ctx.sleep_us(ctx.p["hi"] + ctx.p["delay"] + RES + POLL + timeout)
                if not started and not tie:
                    ctx.reach("still pending")
                    ctx.check(r.disposition.value == "already_scheduled", "the key still belongs to the newer definition", f"{r.disposition} {rec.events}")
                    ctx.check(rec.n("start", "again") == 0, "a rejected definition never runs", str(rec.events))
                ctx.check(rec.n("start", "new") == 1, "the newer definition runs exactly once", str(rec.events))
            if at + look > timeout and at < timeout:
                ctx.reach("redelivered in between")
            ctx.check(rec.n("start", "old") == 1, "a replaced definition never starts on redelivery", str(rec.events))
            ctx.observe(rec.tags("start"), started)
            for t in (ta, tb):
                t.cancel()
            await asyncio.gather(tb, return_exceptions=True)

    ctx.go(main)


def step_race(ctx: Ctx) -> None:
    """The replacement lands between any two Redis operations the older run performs
    while it finishes (completing, failing, retrying, perpetuating, being cancelled)."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        how = ctx.pick("old_ends", ["complete", "fail", "retry", "perpetual", "perpetual fails", "cancel"])

        async def old(retry: Retry = Retry(attempts=2 if how == "retry" else 1, delay=td(200 * MS))) -> None:
            rec.start("old")
            if how == "cancel":
                await ctx.sleep_us(5 * S)
            await ctx.sleep_us(100 * MS)
            rec.end("old")
            if how != "complete":
                raise ValueError("old failure")

        async def perp(perpetual: Perpetual = Perpetual(every=td(400 * MS))) -> None:
            rec.start("old")
            await ctx.sleep_us(100 * MS)
            rec.end("old")
            if how == "perpetual fails":
                raise ValueError("old failure")

        async def new() -> str:
            rec.start("new")
            await ctx.sleep_us(100 * MS)
            rec.end("new")
            return "new result"

        async with ctx.docket() as d, ctx.docket("client") as c:
            for f in (old, perp, new):
                d.register(f)
            n = 1 + ctx.choice("op", ctx.p["ops"])
            lag = ctx.p["lag"]
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                await aged(c, "k", 8)  # the old run is the key's 9th, the new one its 10th
                await c.add(perp if how.startswith("perp") else old, key="k")()
                await ctx.sleep_us(50 * MS)
                # from here on: count the operations of the run's ending
                delay_at(ctx, "main", n, lag, lambda op: op not in ("GET_MESSAGE", "PIPELINE", "XREADGROUP", "XAUTOCLAIM"))
                if how == "cancel":
                    await c.cancel("k")
                at = ctx.int("replace_at", 0, 100 * MS + lag)
                await ctx.sleep_us(at)
                delay = ctx.pick("delay", [0, 300 * MS])
                due = ctx.now_us() + delay
                runs_before = rec.n("start", "old")
                e = await c.replace(new, when=ctx.at(due), key="k")()
                if rec.n("start", "old") > runs_before:
                    runs_before = rec.n("start", "old")
                await ctx.sleep_us(lag + 3 * S)
                ctx.check(rec.n("start", "new") == 1, "the newer definition runs exactly once", f"{how} op {n}: {rec.events}")
                ctx.check(rec.of("start", "new")[0] >= due, "the newer definition runs at its own time", f"{how} {rec.events}")
                ctx.check(rec.n("start", "old") == runs_before, "superseded work never starts again", f"{how} op {n}: {rec.events}")
                await e.sync()
                ctx.check(e.state.value == "completed", "the newer run's outcome is what is recorded", f"{how} op {n}: {e.state.value} {rec.events}")
                ctx.reach(how)
                ctx.observe(rec.tags("start"))

    ctx.go(main)


HOWS = ["complete", "fail", "retry", "perpetual", "perpetual fails", "perpetual cancel"]
HARNESSES = [
    Harness("in_progress", in_progress, "old run of 0.4s replaced at any instant of its run or just after; new run due in [0,0.6s], 0.3s long; record read at any instant of [0,0.8s] after",
            ["pending", "both running", "new running", "replaced while running"] + HOWS,
            quick={"hows": HOWS, "dur": 400 * MS, "ndur": 300 * MS, "delay": 600 * MS, "look": 800 * MS}, thorough={"delay": 1500 * MS, "look": 2 * S, "dur": S}, budget_quick=100),
    Harness("redelivered", redelivered, "holder dies, redelivery timeout 1s, replaced at any instant of [0,2s] after the death, new due in [0,1s]", ["redelivered first", "replaced first"],
            quick={"timeout": S, "hi": 2 * S, "delay": S}, thorough={"hi": 4 * S, "delay": 3 * S}, budget_quick=40),
    Harness("struck", struck, "holder of a then struck task dies, redelivery timeout 1s, replaced at any instant of [0,1.3s] after the death by a task due 0, 0.5 or 1 s later, its key added to or cancelled at once, 0.4 s or 1.3s later",
            ["still pending", "redelivered in between"], quick={"timeout": S, "hi": 1300 * MS, "delay": S, "looks": [0, 400 * MS, 1300 * MS]}, thorough={"hi": 3 * S, "delay": 2 * S}, budget_quick=60),
    Harness("step_race", step_race, "any one of the ending run's Redis operations delayed by 0.3s, replacement at any instant of [0,0.4s]",
            ["complete", "fail", "retry", "perpetual", "perpetual fails", "cancel"],
            quick={"ops": 8, "lag": 300 * MS}, thorough={"ops": 16, "lag": 600 * MS}, budget_quick=80),
]
