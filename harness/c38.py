"""C38 A task a worker does not know goes to its fallback, once per attempt."""
import asyncio
from datetime import timedelta
from typing import Any

from docket import CurrentExecution, Depends, Retry, TaskKey
from docket.execution import Execution, ExecutionState

from .c10 import serve, stop
from .lib import MS, S, Ctx, Harness, Rec, delay_at, td, tied

FUNCTIONS = ["Execution.from_message", "default_fallback_task", "Worker(fallback_task=)", "Worker._worker_loop", "Worker._execute", "Docket.register", "Retry.handle_failure", "Execution.get_result"]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness"]
RES, POLL = 500 * MS, 400 * MS
ENDS = ["returns", "raises", "raises once", "default"]


def fallback(ctx: Ctx) -> None:
    """Unknown tasks, one of which becomes known at any moment, beside a known one."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        how = ctx.pick("how", ENDS)
        attempts = ctx.pick("attempts", [1, 2, 3]) if how != "default" else 1
        got: list = []
        n = [0]
        deps: list = []

        async def resource() -> Any:
            deps.append("open")
            return "resource"

        async def stand_in(*args, me: Execution = CurrentExecution(), key: str = TaskKey(), r: Any = Depends(resource), retry: Retry = Retry(attempts=attempts, delay=timedelta(milliseconds=400)), **kwargs) -> Any:
            rec.start("fallback")
            got.append((args, kwargs, me.function_name, me.key, key, me.attempt, r))
            n[0] += 1
            await ctx.sleep_us(ctx.p["dur"])
            rec.end("fallback")
            if how == "raises" or how == "raises once" and n[0] == 1:
                raise ValueError(f"unknown to me {n[0]}")
            return ["stood in", *args]

        async def job(a: Any, b: Any = 0, *, c: Any = 0) -> Any:
            rec.start("job")
            await ctx.sleep_us(ctx.p["dur"])
            rec.end("job")
            return ["done", a, b, c]

        async def known(i: int) -> int:
            rec.start("known")
            rec.end("known")
            return i + 1

        async with ctx.docket() as d, ctx.docket("client") as c:
            c.register(job)
            c.register(job, names=["by another name"])
            for x in (c, d):
                x.register(known)
            name = ctx.pick("name", ["job", "by another name"])
            x = ctx.int("x", -5, 5)
            args, kwargs = ctx.pick("call", [((x,), {}), ((x, "two"), {"c": x}), ((), {"a": x, "b": None})])
            kw = {} if how == "default" else {"fallback_task": stand_in}
            t = serve(d, "w", ctx, **kw)
            await ctx.sleep_us(10 * MS)
            wait = ctx.pick("wait", [0, 700 * MS])
            e = await c.add(name, when=ctx.at(ctx.now_us() + wait), key="k")(*args, **kwargs)
            k = await c.add(known, key="k2")(1)
            learns = ctx.bool("learns")
            at = None
            if learns:
                await ctx.sleep_us(ctx.int("learns_at", 0, ctx.p["hi"]))
                at = ctx.now_us()
                if await tied(ctx, rec, at):
                    ctx.reach("tied")
                    await stop(t)
                    return
                d.register(job, names=[name])
            await ctx.sleep_us(ctx.p["settle"])
            await e.sync()
            starts = rec.of("start", "fallback")
            why = f"{how} x{attempts} {name} learns {at}: {rec.events} {got} {e.state}"
            ran = rec.n("start", "job")
            stood = len(starts)
            if at is not None:
                ctx.check(all(bool(s <= at) for s in starts) and all(bool(s >= at) for s in rec.of("start", "job")), "a task that is known by then is run itself", why)
            else:
                ctx.check(ran == 0, "an unknown task is not run itself", why)
            fails = {"returns": 0, "raises": attempts, "raises once": 1, "default": 0}[how]
            most = min(fails + 1, attempts)
            if how == "default":
                ctx.check(stood == 0 and ran <= 1, "an unknown task is dropped", why)
            elif ran:
                ctx.check(ran == 1 and stood <= min(fails, attempts - 1), "a task is not run again once it has ended", why)
            else:
                ctx.check(stood == most, "the fallback is run once per attempt", why)
            for i, g in enumerate(got):
                ctx.check(bool(g[0] == args) and bool(g[1] == kwargs), "the fallback is given what was submitted", why)
                ctx.check(g[2:] == (name, "k", "k", i + 1, "resource"), "the fallback knows which task it stands in for", why)
            ctx.check(len(deps) == stood, "the fallback's dependencies are its own", why)
            fell = not ran and fails >= attempts
            ctx.check(e.state is (ExecutionState.FAILED if fell else ExecutionState.COMPLETED), "the outcome of an unknown task is its fallback's", why)
            want: Any = ["done", kwargs.get("a", x), args[1] if len(args) > 1 else kwargs.get("b", 0), kwargs.get("c", 0)] if ran else ["stood in", *args] if how != "default" else None
            try:
                r = await asyncio.wait_for(e.get_result(), 5)
                ctx.check(not fell and bool(r == want), "the outcome of an unknown task is its fallback's", f"{why} {r}")
            except ValueError as err:
                ctx.check(fell and str(err) == f"unknown to me {attempts}", "the outcome of an unknown task is its fallback's", f"{why} {err!r}")
            ctx.check(rec.n("start", "known") == 1 and await asyncio.wait_for(k.get_result(), 5) == 2, "known tasks are run themselves", why)
            r = await c.add(name, key="k")(*args, **kwargs)
            ctx.check(r.disposition.name == "SCHEDULED", "the key of a task that is over is free", why)
            ctx.reach(how)
            if ran:
                ctx.reach("learnt in time")
                if stood:
                    ctx.reach("learnt between attempts")
            ctx.observe(how, stood, ran)
            await stop(t)

    ctx.go(main)


def mixed(ctx: Ctx) -> None:
    """Two workers, one of which knows the task: one of them sees to it, however slow they are."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def stand_in(*args, **kwargs) -> Any:
            rec.start(("fallback", args[0]))
            await ctx.sleep_us(ctx.p["dur"])
            rec.end(("fallback", args[0]))
            return "stood in"

        async def job(i: int) -> Any:
            rec.start(("job", i))
            await ctx.sleep_us(ctx.p["dur"])
            rec.end(("job", i))
            return "done"

        async with ctx.docket() as d, ctx.docket("d2") as d2, ctx.docket("client") as c:
            for x in (d2, c):
                x.register(job)
            conc = ctx.pick("conc", [1, 2])
            t = serve(d, "old", ctx, fallback_task=stand_in, concurrency=conc, redelivery_timeout=td(ctx.p["timeout"]))
            st = delay_at(ctx, ctx.pick("slow", ["main", "d2"]), 1 + ctx.choice("op", ctx.p["ops"]), ctx.int("lag", 0, ctx.p["lag"]), match=lambda op: op.upper() != "XREADGROUP", sent=ctx.bool("sent"))
            t2 = serve(d2, "new", ctx, concurrency=conc, redelivery_timeout=td(ctx.p["timeout"]))
            await ctx.sleep_us(10 * MS)
            es = [await c.add(job, key=f"k{i}")(i) for i in range(ctx.p["n"])]
            if ctx.bool("later"):
                es.append(await c.add(job, when=ctx.at(ctx.now_us() + 300 * MS), key="later")(len(es)))
            await ctx.sleep_us(ctx.p["settle"])
            for i, e in enumerate(es):
                a, b = rec.n("start", ("fallback", i)), rec.n("start", ("job", i))
                why = f"{i}: {rec.events}"
                ctx.check(a + b == 1, "one worker sees to each task", why)
                r = await asyncio.wait_for(e.get_result(), 5)
                ctx.check(r == ("done" if b else "stood in"), "the outcome is that of the worker that saw to it", f"{why} {r}")
                ctx.reach("itself" if b else "fallback")
            if st["fired"]:
                ctx.reach("slow")
            ctx.observe(len(es))
            await stop(t, t2)

    ctx.go(main)


HARNESSES = [
    Harness("fallback", fallback, "3 fallbacks of up to 3 attempts and the default one, 3 calls with any number, now or later; the task becoming known at any moment of 2 s or never", ENDS + ["learnt in time", "learnt between attempts"],
            quick={"dur": 300 * MS, "hi": 2 * S, "settle": 5 * S}, thorough={"hi": 4 * S, "settle": 8 * S}, budget_quick=100),
    Harness("mixed", mixed, "3 or 4 tasks on two workers, one of which knows them, one of the first operations of either taking any time up to 0.5 s", ["itself", "fallback", "slow"],
            quick={"n": 3, "dur": 300 * MS, "ops": 12, "lag": 500 * MS, "timeout": 2 * S, "settle": 4 * S}, thorough={"ops": 24, "lag": 2500 * MS, "settle": 9 * S}, budget_quick=120),
]
