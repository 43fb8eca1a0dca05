"""C02 No accepted task is lost when a worker dies at any point."""
import asyncio
import contextvars

from docket import Worker
from docket.dependencies import ConcurrencyLimit, Perpetual, Retry
from docket.execution import Disposition

from .many import many
from .lib import MS, S, Ctx, Harness, Rec, crash_at, td

FUNCTIONS = [
    "Docket.add", "Execution.schedule", "_schedule (Lua)", "_stream_due_tasks (Lua)", "_claim (Lua)", "_terminal (Lua)", "Worker._worker_loop (XREADGROUP/XAUTOCLAIM)",
    "Worker._execute", "Worker._renew_leases", "Worker._scheduler_loop", "Retry.handle_failure", "Perpetual.on_complete",
]
ASSUMPTIONS = ["a dead process performs no further Redis operation; the operation it died at took effect or did not (both explored)",
               "virtual time: Redis operations take no time"]


def crash(ctx: Ctx) -> None:
    """Worker a dies at its n-th Redis operation, before or after it takes effect;
    worker b is there from the start or joins later."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        kind = ctx.pick("kind", ctx.p["kinds"])
        who: contextvars.ContextVar = contextvars.ContextVar("who")
        state = {"fails": 1}

        async def note(tag: str) -> None:
            rec.start((tag, who.get()))
            await ctx.sleep_us(ctx.p["dur"])
            rec.end((tag, who.get()))
            rec.add("done", tag)

        async def job(tag: str) -> None:
            await note(tag)

        async def flaky(tag: str, retry: Retry = Retry(attempts=4, delay=td(300 * MS))) -> None:
            if state["fails"] > 0:
                state["fails"] -= 1
                rec.add("failed", tag)
                raise ValueError("first attempt")
            await note(tag)

        async def perp(tag: str, perpetual: Perpetual = Perpetual(every=td(600 * MS))) -> None:
            await note(tag)

        async def limited(tag: str, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)) -> None:
            await note(tag)

        async with ctx.docket() as d, ctx.docket("client") as c, ctx.docket("b") as d2:
            for f in (job, flaky, perp, limited):
                d.register(f)
                d2.register(f)
            kw = dict(redelivery_timeout=td(timeout), minimum_check_interval=td(400 * MS), scheduling_resolution=td(500 * MS), schedule_automatic_tasks=False)

            async def serve(x, name, after=0):
                who.set(name)
                await ctx.sleep_us(after)
                async with Worker(x, name=name, **kw) as wk:
                    await wk.run_forever()

            loop = asyncio.get_running_loop()
            fn = {"immediate": job, "future": job, "retry": flaky, "perpetual": perp, "limited": limited}[kind]
            delay = ctx.int("delay", 1, 700 * MS) if kind == "future" else 0
            due = ctx.now_us() + delay
            e = await c.add(fn, when=ctx.at(due), key="k")("k")
            ctx.check(e.disposition is Disposition.SCHEDULED, "the task is accepted")
            if kind == "limited":
                await c.add(fn, key="k2")("k2")
            n = 1 + ctx.choice("op", ctx.p["ops"])
            after = ctx.bool("after_effect")
            st = crash_at(ctx, "main", n, bool(after))
            # background noise of an idle worker does not count as a crash point
            ta = loop.create_task(serve(d, "a"))
            b_at = ctx.int("b_joins", 0, ctx.p["bmax"])
            tb = loop.create_task(serve(d2, "b", b_at))
            horizon = 700 * MS + timeout * 2 + ctx.p["bmax"] + 3 * S
            await ctx.sleep_us(horizon)
            for _ in range(12):
                # a process that dies while holding the key's lock blocks it for up to 10s
                if kind not in ("perpetual", "limited") or rec.n("done", "k") >= (3 if kind == "perpetual" else 1) and (kind != "limited" or rec.n("done", "k2")):
                    break
                await ctx.sleep_us(S)
            done = rec.n("done", "k")
            if st["fired"]:
                ctx.reach("crashed")
                if done and not [1 for k, g, _ in rec.events if k == "start" and g == ("k", "a")]:
                    ctx.reach("run by the survivor only")
            ctx.check(done >= 1, "an accepted task runs to completion although a worker died", f"{kind} crash at op {n} (after effect: {bool(after)}): {rec.events}")
            first = rec.of("start")[0]
            ctx.check(first >= due, "never before its time", str(rec.events))
            if kind == "limited":
                ctx.check(rec.n("done", "k2") >= 1, "a task waiting for a slot runs to completion although a worker died", f"crash at op {n} (after effect: {bool(after)}): {rec.events}")
            if kind == "perpetual":
                ctx.check(rec.n("done", "k") >= 3, "a perpetual task goes on although a worker died", f"crash at op {n}: {rec.events}")
            elif kind != "limited":
                ctx.check(done <= 2, "at most one repetition per crash", f"{kind} crash at op {n}: {rec.events}")
                await e.sync()
                ctx.check(e.state.value == "completed", "the completion is recorded", f"{kind} crash at op {n}: {e.state.value} {rec.events}")
            ctx.reach(kind)
            ctx.observe(kind, n, rec.tags("done"))
            for t in (ta, tb):
                t.cancel()
            await asyncio.gather(tb, return_exceptions=True)

    ctx.go(main)


def finished_not_rerun(ctx: Ctx) -> None:
    """Once the end of a run is recorded, a crash never makes it run again."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        who: contextvars.ContextVar = contextvars.ContextVar("who")
        fails = ctx.bool("fails")

        async def job() -> str:
            rec.start(who.get())
            await ctx.sleep_us(100 * MS)
            rec.end(who.get())
            if fails:
                raise ValueError("x")
            return "result"

        async with ctx.docket() as d, ctx.docket("client") as c, ctx.docket("b") as d2:
            d.register(job)
            d2.register(job)
            kw = dict(redelivery_timeout=td(timeout), minimum_check_interval=td(400 * MS), scheduling_resolution=td(500 * MS), schedule_automatic_tasks=False)

            async def serve(x, name):
                who.set(name)
                async with Worker(x, name=name, **kw) as wk:
                    await wk.run_forever()

            loop = asyncio.get_running_loop()
            e = await c.add(job, key="k")()
            n = 1 + ctx.choice("op", ctx.p["ops"])
            after = ctx.bool("after_effect")
            ta = loop.create_task(serve(d, "a"))
            await ctx.sleep_us(50 * MS)
            crash_at(ctx, "main", n, bool(after))
            joins = ctx.int("b_joins", 100 * MS, ctx.p["bmax"])
            await ctx.sleep_us(joins)
            await e.sync()
            recorded = e.state.value
            tb = loop.create_task(serve(d2, "b"))
            await ctx.sleep_us(2 * timeout + 2 * S)
            if recorded in ("completed", "failed"):
                ctx.reach("recorded")
                ctx.check(rec.n("start") == 1, "a run recorded as finished is not run again", f"crash at op {n}: {rec.events}")
            else:
                ctx.reach("not recorded")
                ctx.check(rec.n("start", "b") == 1, "an unfinished run is run again", f"crash at op {n}: {recorded} {rec.events}")
            ctx.observe(recorded, rec.tags("start"))
            for t in (ta, tb):
                t.cancel()
            await asyncio.gather(tb, return_exceptions=True)

    ctx.go(main)


KINDS = ["immediate", "future", "retry", "perpetual", "limited"]
HARNESSES = [
    Harness("crash", crash, "worker a dies at any of its first 40 Redis operations (before or after effect); worker b joins at any instant of [0,1s]; immediate, future (due in (0,0.7s]), retried, perpetual, concurrency-limited task; redelivery timeout 1s",
            KINDS + ["crashed", "run by the survivor only"],
            quick={"timeout": S, "ops": 40, "dur": 150 * MS, "bmax": S, "kinds": KINDS}, thorough={"ops": 90, "bmax": 3 * S}, budget_quick=150),
    Harness("finished_not_rerun", finished_not_rerun, "worker a dies at any of its operations around the end of a run; worker b joins any time in [0.1s,1.5s] after", ["recorded", "not recorded"],
            quick={"timeout": S, "ops": 14, "bmax": 1500 * MS}, thorough={"ops": 40}, budget_quick=50),
    many("dies", "3, 12 or 40 tasks on a worker dying at any moment of 1.2 s", [3, 12, 40]),
]
