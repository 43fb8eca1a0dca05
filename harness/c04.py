"""C04 Replacing a task leaves exactly the newest definition to run."""
from docket import Worker
from docket.execution import Disposition

from .lib import MS, S, Ctx, Harness, Rec, delay_at, running, td

FUNCTIONS = [
    "Docket.add", "Docket.replace", "Execution.schedule", "_schedule (Lua)", "_stream_due_tasks (Lua)", "_claim (Lua)", "_terminal (Lua)",
    "Worker._worker_loop", "Worker._execute", "Worker._scheduler_loop", "Execution.claim", "Execution._mark_as_terminal",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness"]
RES, POLL = 500 * MS, 700 * MS


def bodies(ctx: Ctx, rec: Rec, dur: int):
    async def job(tag: str, x: int = 0) -> None:
        rec.start(tag)
        rec.add("arg", (tag, x))
        await ctx.sleep_us(dur)
        rec.end(tag)

    async def other(tag: str, x: int = 0) -> None:
        await job(tag, x)
        rec.add("other", tag)

    return job, other


def replace_pending(ctx: Ctx) -> None:
    """A task replaced at any instant, before or after being promoted, earlier or later than before."""
    hi, dur = ctx.p["hi"], ctx.p["dur"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        job, other = bodies(ctx, rec, dur)
        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            d.register(other)
            key = ctx.pick("key", ["k", "a:b"][: ctx.p["keys"]])
            w_at = ctx.int("worker_at", 0, ctx.p["wmax"]) if ctx.p["wmax"] else 0
            d1 = ctx.int("delay1", 0, hi)
            await d.add(job, when=ctx.at(ctx.now_us() + d1), key=key)("old", 1)
            await d.add(job, when=ctx.at(ctx.now_us() + ctx.p["byst"]), key="bystander")("bystander", 7)
            byst = ctx.now_us() + ctx.p["byst"]
            t0 = ctx.now_us()
            pause = ctx.int("pause", 0, ctx.p["pause"])

            async def replace(tag: str, x: int, delay, imm: bool):
                n = rec.n("start", "old")
                due = ctx.now_us() + delay
                e = await c.replace(other, when=ctx.at(due), key=key)(tag, x)
                return e, due, n

            if w_at > 0:
                # all of it before any worker is there
                await ctx.sleep_us(pause)
                e, due, before = await replace("new", 2, ctx.int("delay2", 0, hi), False)
                await ctx.sleep_us(w_at)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                if not w_at > 0:
                    await ctx.sleep_us(pause)
                    e, due, before = await replace("new", 2, ctx.int("delay2", 0, hi), False)
                else:
                    ctx.reach("late worker")
                ctx.check(e.disposition is Disposition.SCHEDULED, "a replacement takes effect", e.disposition.value)
                up = ctx.now_us()
                await ctx.sleep_us(hi + 2 * (RES + POLL) + 2 * dur)
                ctx.check(rec.n("start", "new") == 1, "the replacement runs exactly once", str(rec.events))
                s = rec.of("start", "new")[0]
                ctx.check(s >= due, "the replacement never starts before its new time", str(rec.events))
                ready = due if due > up else up
                ctx.check(s <= ready + RES + POLL, "the replacement starts on time", str(rec.events))
                ctx.check(("arg", ("new", 2)) in [(k, g) for k, g, _ in rec.events] and rec.n("other", "new") == 1, "the replacement's own function and arguments run", str(rec.events))
                if before == 0:
                    ctx.reach("pending")
                    ctx.check(rec.n("start", "old") == 0, "a replaced definition never starts", str(rec.events))
                else:
                    ctx.reach("already started")
                    ctx.check(rec.n("start", "old") == 1, "a run already under way is not repeated", str(rec.events))
                ctx.check(rec.n("start", "bystander") == 1 and rec.of("start", "bystander")[0] >= byst, "other keys are unaffected by a replacement", str(rec.events))
                snap = await d.snapshot()
                ctx.check(not snap.future and not snap.running, "nothing of the key is left behind", str(len(snap.future)))
                ctx.observe(rec.tags("start"))

    ctx.go(main)


def chain(ctx: Ctx) -> None:
    """Two replacements in a row: only the last one's definition and time count."""
    hi = ctx.p["hi"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        job, other = bodies(ctx, rec, 0)
        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            d.register(other)
            delays = [ctx.int(f"delay{i}", 0, hi) for i in range(3)]
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                fns = [job, other, job]
                dues, before = [], []
                for i in range(3):
                    due = ctx.now_us() + delays[i]
                    before.append([rec.n("start", f"t{j}") for j in range(i)])
                    dues.append(due)
                    await [d, c, d][i].replace(fns[i], when=ctx.at(due), key="k")(f"t{i}", i)
                    if i < 2:
                        await ctx.sleep_us(ctx.p["gap"][i])
                await ctx.sleep_us(hi + 2 * (RES + POLL))
                ctx.check(rec.n("start", "t2") == 1, "the replacement runs exactly once", str(rec.events))
                ctx.check(rec.of("start", "t2")[0] >= dues[2], "the replacement never starts before its new time", str(rec.events))
                ctx.check(rec.of("start", "t2")[0] <= dues[2] + RES + POLL, "the replacement starts on time", str(rec.events))
                for j in range(2):
                    n = before[j + 1][j]
                    ctx.check(rec.n("start", f"t{j}") == n, "a replaced definition never starts", f"t{j} {rec.events}")
                    ctx.reach(f"t{j} ran" if n else f"t{j} replaced")
                ctx.observe(rec.tags("start"))

    ctx.go(main)


def replace_race(ctx: Ctx) -> None:
    """Any one Redis operation of the worker is slow while the task is promoted,
    delivered and claimed; the replacement lands between any two of its steps."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        job, other = bodies(ctx, rec, 0)
        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            d.register(other)
            await c.replace(job, when=ctx.at(ctx.now_us() + ctx.pick("delay", [0, 200 * MS])), key="k")("old", 1)
            n = 1 + ctx.choice("op", ctx.p["ops"])
            lag = ctx.int("lag", 0, ctx.p["lag"])
            delay_at(ctx, "main", n, lag, lambda op: op not in ("GET_MESSAGE", "PIPELINE"))
            async with Worker(d, name="w", minimum_check_interval=td(300 * MS), scheduling_resolution=td(400 * MS), schedule_automatic_tasks=False) as wk, running(wk):
                at = ctx.int("replace_at", 0, ctx.p["hi"])
                await ctx.sleep_us(at)
                due = ctx.now_us() + ctx.pick("delay2", [0, 300 * MS])
                before = rec.n("start", "old")
                await c.replace(other, when=ctx.at(due), key="k")("new", 2)
                started = rec.n("start", "old")
                await ctx.sleep_us(ctx.p["lag"] + 2500 * MS)
                ctx.check(rec.n("start", "new") == 1, "the replacement runs exactly once", f"slow operation #{n}: {rec.events}")
                ctx.check(rec.of("start", "new")[0] >= due, "the replacement never starts before its new time", str(rec.events))
                if started == 0:
                    ctx.reach("pending")
                    ctx.check(rec.n("start", "old") == 0, "a replaced definition never starts", f"slow operation #{n}: {rec.events}")
                else:
                    ctx.reach("started")
                    ctx.check(rec.n("start", "old") == 1, "a run already under way is not repeated", str(rec.events))
                ctx.observe(before, rec.tags("start"))

    ctx.go(main)


def replace_finished(ctx: Ctx) -> None:
    """Replacing an absent, completed, failed or cancelled key schedules it."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        job, other = bodies(ctx, rec, 0)

        async def bad(tag: str) -> None:
            rec.start(tag)
            raise ValueError(tag)

        async with ctx.docket(execution_ttl=td(2 * S)) as d:
            for f in (job, other, bad):
                d.register(f)
            how = ctx.pick("how", ["absent", "completed", "failed", "cancelled"])
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk:
                if how == "completed":
                    await d.add(job, key="k")("old", 1)
                    await wk.run_until_finished()
                elif how == "failed":
                    await d.add(bad, key="k")("old")
                    await wk.run_until_finished()
                elif how == "cancelled":
                    await d.add(job, when=ctx.at(3600 * S), key="k")("old", 1)
                    await d.cancel("k")
                async with running(wk):
                    n0 = rec.n("start")
                    pre = ctx.int("pre", 0, 2500 * MS)
                    await ctx.sleep_us(pre)
                    due = ctx.now_us() + ctx.int("delay", 0, ctx.p["delay"])
                    e = await d.replace(other, when=ctx.at(due), key="k")("new", 2)
                    ctx.check(e.disposition is Disposition.SCHEDULED, "a replacement takes effect", how)
                    await ctx.sleep_us(ctx.p["delay"] + RES + POLL)
                    ctx.check(rec.n("start", "new") == 1, "replacing a free key schedules it", f"{how} {rec.events}")
                    s = rec.of("start", "new")[0]
                    ctx.check(s >= due and s <= due + RES + POLL, "the replacement starts on time", f"{how} {rec.events}")
                    ctx.check(rec.n("start") == n0 + 1, "nothing else runs", f"{how} {rec.events}")
                    ctx.reach(how)
                    ctx.observe(rec.tags("start"))

    ctx.go(main)


HARNESSES = [
    Harness("replace_pending", replace_pending, "old due in [0,1.2s], replaced at any instant of [0,1.2s], new due in [0,1.2s] after; body 0.2s",
            ["pending", "already started"],
            quick={"hi": 1200 * MS, "pause": 1200 * MS, "dur": 200 * MS, "byst": 600 * MS, "wmax": 0, "keys": 1},
            thorough={"hi": 2 * S, "pause": 2 * S, "wmax": 600 * MS, "keys": 2}, budget_quick=90),
    Harness("late_worker", replace_pending, "as replace_pending with the replacement before any worker joins", ["pending", "late worker"],
            quick={"hi": 600 * MS, "pause": 300 * MS, "dur": 0, "byst": 600 * MS, "wmax": 500 * MS, "keys": 2}, tiers=("quick",), budget_quick=40),
    Harness("chain", chain, "3 definitions of one key with delays in [0,0.9s], replaced 0.3s and 0.6s apart", ["t0 ran", "t0 replaced", "t1 ran", "t1 replaced"],
            quick={"hi": 900 * MS, "gap": [300 * MS, 600 * MS]}, thorough={"hi": 2 * S}, budget_quick=40),
    Harness("replace_race", replace_race, "any one of the worker's first 14 Redis operations delayed by any duration in [0,0.5s], replacement at any instant of [0,0.5s]",
            ["pending", "started"],
            quick={"ops": 14, "lag": 500 * MS, "hi": 500 * MS}, thorough={"ops": 30, "lag": S, "hi": S}, budget_quick=80),
    Harness("replace_finished", replace_finished, "key absent/completed/failed/cancelled, retention 2s, replaced after [0,2.5s], due in [0,2.5s]",
            ["absent", "completed", "failed", "cancelled"], quick={"delay": 2500 * MS}, thorough={"delay": 4 * S}, budget_quick=40),
]
