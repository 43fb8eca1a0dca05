"""C18 Recorded state, result and error tell what happened to the latest run."""
import asyncio

from docket import Docket, Worker
from docket.dependencies import Cooldown, FailureHandler, Perpetual, Retry
from docket.execution import ExecutionCancelled

from .lib import MS, S, Ctx, Harness, Rec, delay_at, running, td

FUNCTIONS = [
    "Execution.schedule", "_schedule (Lua)", "_claim (Lua)", "_terminal (Lua)", "_stream_due_tasks (Lua)", "Execution._mark_as_terminal", "Execution.sync",
    "Execution.get_result", "Execution.subscribe", "Docket.get_execution", "Docket.cancel", "Worker._execute", "ResultStorage.put/get",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time", "retention periods are whole seconds, as Redis expiry is"]
RES, POLL = 500 * MS, 700 * MS
OUTCOMES = ["value", "none", "raises", "cancelled", "dropped"]
FINAL = {"value": "completed", "none": "completed", "raises": "failed", "cancelled": "cancelled", "dropped": "cancelled"}


class Boom(Exception):
    pass


def tasks(ctx: Ctx, rec: Rec):
    async def job(tag: str, how: str, dur: int) -> object:
        rec.start(tag)
        await ctx.sleep_us(dur)
        if how == "cancelled":
            await ctx.sleep_us(60 * S)
        rec.end(tag)
        if how == "raises":
            raise Boom(tag)
        return None if how == "none" else ["result of", tag]

    async def cool(tag: str, how: str, dur: int, cooldown: Cooldown = Cooldown(td(3600 * S))) -> object:
        rec.start(tag)
        return ["result of", tag]

    return job, cool


async def check_outcome(ctx: Ctx, d: Docket, e, tag: str, how: str, where: str) -> None:
    await e.sync()
    ctx.check(e.state.value == FINAL[how], "the recorded state is how the latest run ended", f"{where}: {how} -> {e.state.value}")
    got = await d.get_execution("k")
    ctx.check(got is not None and got.state.value == FINAL[how], "a lookup shows how the latest run ended", f"{where}: {how} -> {got and got.state.value}")
    try:
        r = ("value", await got.get_result(timeout=td(100 * MS)))
    except ExecutionCancelled:
        r = ("cancelled", None)
    except Boom as x:
        r = ("raises", x.args)
    except TimeoutError:
        r = ("timeout", None)
    except Exception as x:  # noqa: BLE001
        r = (f"other:{type(x).__name__}", str(x))
    want = {"value": ("value", ["result of", tag]), "none": ("value", None), "raises": ("raises", (tag,)), "cancelled": ("cancelled", None), "dropped": ("cancelled", None)}[how]
    ctx.check(r == want, "the stored result or error is that of the latest run", f"{where}: {how}: {r!r}, expected {want!r}")
    ctx.check((got.error is not None) == (how == "raises"), "an error is recorded exactly for failures", f"{where}: {how}: {got.error!r}")


def lifecycle(ctx: Ctx) -> None:
    """One run; the record is read at any instant from scheduling to beyond its retention."""
    ttl, dur = ctx.p["ttl"], ctx.p["dur"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        job, cool = tasks(ctx, rec)
        async with ctx.docket(execution_ttl=td(ttl)) as d, ctx.docket("client", execution_ttl=td(ttl)) as c:
            for x in (d, c):
                x.register(job)
                x.register(cool)
            how = ctx.pick("how", OUTCOMES)
            if how == "dropped":
                await c.add(cool, key="first")("first", "value", 0)
                async with Worker(d, name="w0", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as w0:
                    await w0.run_until_finished()
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                delay = ctx.int("delay", 0, ctx.p["delay"])
                due = ctx.now_us() + delay
                e = await c.add(cool if how == "dropped" else job, when=ctx.at(due), key="k")("x", how, dur)
                ended = {}

                async def watch():
                    async for ev in e.subscribe():
                        if ev["type"] == "state":
                            ev = {**ev, "state": getattr(ev["state"], "value", ev["state"])}
                            rec.add("state", ev["state"])
                            if ev["state"] in ("completed", "failed", "cancelled"):
                                ended["at"] = ctx.now_us()

                w = asyncio.get_running_loop().create_task(watch())

                async def canceller():
                    while rec.n("start", "x") == 0:
                        await ctx.sleep_us(100 * MS)
                    await ctx.sleep_us(dur)
                    await c.cancel("k")

                cn = asyncio.get_running_loop().create_task(canceller()) if how == "cancelled" else None
                at = ctx.int("look", 0, ctx.p["look"])
                await ctx.sleep_us(at)
                now = ctx.now_us()
                got = await c.get_execution("k")
                st = got.state.value if got is not None else None
                started = rec.n("start", "x") > 0
                await ctx.sleep_us(1)
                if any(t == now for _, _, t in rec.events) or now == due:
                    ctx.reach("looked at the instant of a change")  # either answer is right
                elif "at" not in ended:
                    if started:
                        ctx.reach("looked while running")
                        ctx.check(st == "running", "while running the record says so", f"{st} {rec.events}")
                    elif not (how == "dropped" and now >= due):
                        ctx.reach("looked while waiting")
                        ctx.check(st in (("scheduled",) if now < due else ("scheduled", "queued", "running")), "while waiting the record says so", f"{st} {rec.events}")
                    ctx.check(rec.n("state", "completed") + rec.n("state", "failed") == 0, "no outcome is announced early")
                elif now < ended["at"] + ttl - 2 * MS:
                    ctx.reach("looked after the end")
                    await check_outcome(ctx, c, e, "x", how, "at any instant before the retention is over")
                elif now > ended["at"] + ttl + 2 * MS:
                    ctx.reach("looked after retention")
                    ctx.check(got is None, "the record is gone after its retention", f"{st} {now - ended['at']}")
                    gone = await c.result_storage.get("k")
                    ctx.check(gone is None, "the result is gone after its retention", f"{how}")
                await ctx.sleep_us(ctx.p["delay"] + dur + RES + POLL + 500 * MS)
                states = rec.tags("state")
                order = ["scheduled", "queued", "running", FINAL[how]]
                idx = [order.index(s) if s in order else 99 for s in states]
                ctx.check(idx == sorted(idx) and states[-1:] == [FINAL[how]] and states.count(FINAL[how]) == 1, "every state change is published in order, the final one last", f"{how} {states}")
                if how != "dropped":
                    ctx.check("running" in states, "every state change is published", str(states))
                if cn:
                    cn.cancel()
                w.cancel()
                ctx.reach(how)
                ctx.observe(st, states)

    ctx.go(main)


def sequence(ctx: Ctx) -> None:
    """Two runs of one key, each ending any way; the record is the latest one's."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        job, _ = tasks(ctx, rec)
        hows = OUTCOMES[:4]
        async with ctx.docket(execution_ttl=td(20 * S)) as d, ctx.docket("client", execution_ttl=td(20 * S)) as c:
            d.register(job)
            c.register(job)
            handle = None
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                for i in range(2):
                    how = ctx.pick(f"how{i}", hows)
                    replace = ctx.bool(f"replace{i}")
                    delay = ctx.int(f"delay{i}", 0, ctx.p["delay"])
                    due = ctx.now_us() + delay
                    e = await (c.replace if replace else c.add)(job, when=ctx.at(due), key="k")(f"r{i}", how, 200 * MS)
                    handle = handle or e
                    for x in (e, handle):
                        await x.sync()
                        ctx.check(x.state.value in ("scheduled", "queued") and x.error is None and x.result_key is None and x.completed_at is None and x.started_at is None and x.worker is None,
                                  "a new run starts with a clean record", f"{x.state.value} {x.error} {x.result_key} {x.completed_at} {x.started_at} {x.worker}")
                    await ctx.sleep_us(ctx.p["delay"] + RES + POLL)
                    if how == "cancelled":
                        await c.cancel("k")
                    await ctx.sleep_us(600 * MS)
                    await check_outcome(ctx, c, e, f"r{i}", how, f"run {i}")
                    # someone who has followed the key since the first run sees the same
                    await handle.sync()
                    ctx.check((handle.state, handle.error, handle.result_key, handle.worker, handle.started_at, handle.completed_at)
                              == (e.state, e.error, e.result_key, e.worker, e.started_at, e.completed_at),
                              "everyone sees the latest run's record", f"run {i} {how}: {handle.state} {handle.error!r} {handle.result_key} / {e.state} {e.error!r} {e.result_key}")
                    ctx.reach(f"{how}{i}")
                ctx.observe(rec.tags("start"))

    ctx.go(main)


def retries(ctx: Ctx) -> None:
    """Between attempts a retried task is waiting, not failed."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        n_fail = ctx.choice("failures", 4)

        async def flaky(retry: Retry = Retry(attempts=3, delay=td(600 * MS))) -> str:
            rec.start("f")
            await ctx.sleep_us(200 * MS)
            rec.end("f")
            if rec.n("end", "f") <= n_fail:
                raise Boom("f")
            return "done"

        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(flaky)
            c.register(flaky)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                e = await c.add(flaky, key="k")()
                total = min(n_fail + 1, 3)
                at = ctx.int("look", 0, ctx.p["look"])
                await ctx.sleep_us(at)
                now = ctx.now_us()
                await e.sync()
                st, starts, ends = e.state.value, rec.n("start", "f"), rec.n("end", "f")
                await ctx.sleep_us(1)
                if any(t == now for _, _, t in rec.events):
                    ctx.reach("looked at the instant of a change")
                elif ends == total:
                    ctx.reach("over")
                    ctx.check(st == ("failed" if n_fail >= 3 else "completed"), "the recorded state is how the latest run ended", f"{st} {rec.events}")
                elif starts > ends:
                    ctx.reach("attempt running")
                    ctx.check(st == "running", "while running the record says so", f"{st} {rec.events}")
                elif ends > 0:
                    ctx.reach("between attempts")
                    ctx.check(st in ("scheduled", "queued"), "a task being retried is recorded as waiting", f"{st} {rec.events}")
                ctx.observe(st, starts, ends)

    ctx.go(main)


def wrap_up(ctx: Ctx) -> None:
    """A cancellation lands between any two steps of starting a run, running it and
    recording how it ended: whatever is announced as the end is and stays the record."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        how = ctx.pick("how", ["value", "none", "raises"])
        job, _ = tasks(ctx, rec)
        n = 1 + ctx.choice("op", ctx.p["ops"])
        late = ctx.choice("slow_part", 3)
        async with ctx.docket() as d, ctx.docket("client") as c:
            d.register(job)
            c.register(job)
            e = await c.add(job, key="k")("x", how, 100 * MS)

            async def watch():
                async for ev in e.subscribe():
                    if ev["type"] == "state":
                        rec.add("state", getattr(ev["state"], "value", ev["state"]))

            w = asyncio.get_running_loop().create_task(watch())
            await ctx.sleep_us(MS)
            slow = delay_at(ctx, "main", n, ctx.p["lag"], lambda op: op not in ("GET_MESSAGE", "PIPELINE"), after=late == 1, sent=late == 2)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                at = ctx.int("cancel_at", 0, ctx.p["at"])
                await ctx.sleep_us(at)
                now = ctx.now_us()
                before = rec.tags("state")
                started = rec.n("start", "x")
                await c.cancel("k")
                await ctx.sleep_us(2 * S)
                states = rec.tags("state")
                ends = [x for x in states if x in ("completed", "failed", "cancelled")]
                await e.sync()
                st = e.state.value
                ctx.check(len(set(ends)) == 1, "a run ends in one way", f"{how} #{n} slow part {late}: {states} {st} {rec.events}")
                ctx.check(st == ends[0], "the recorded state is the one announced last", f"{how} #{n} slow part {late}: {states} {st}")
                ctx.check(states[-1] in ends, "nothing is announced after the end", f"{how} #{n} slow part {late}: {states}")
                if st != "cancelled":
                    ctx.check(st == FINAL[how] and rec.n("end", "x") == 1, "the recorded state is how the run ended", f"{st} {rec.events}")
                    ctx.reach("recorded " + st)
                    await check_outcome(ctx, c, e, "x", how, "cancelled too late")
                else:
                    ctx.check(FINAL[how] not in before, "a finished run stays finished", f"{states}")
                    ctx.reach("cancelled " + ("after its end" if rec.n("end", "x") else "before its end" if started else "before its start"))
                if slow["fired"]:
                    ctx.reach("slow operation")
                w.cancel()
                ctx.observe(st, states)

    ctx.go(main)


class Swallow(FailureHandler):
    """Takes every failure on itself, and does nothing about it."""

    async def __aenter__(self):
        return self

    async def handle_failure(self, execution, outcome) -> bool:
        return True


def stopping(ctx: Ctx) -> None:
    """The worker is told to stop at any instant: by the time it has, what it started has its final record."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        how = ctx.pick("how", ["value", "raises", "dropped", "swallowed"])
        way = ctx.pick("way", ["cancelled", "left"])
        slow = ctx.p["slow"]
        job, cool = tasks(ctx, rec)

        async def dropped(tag: str, how: str, dur: int, cooldown: Cooldown = Cooldown(td(3600 * S))) -> object:
            rec.start(tag)

        async def swallowed(tag: str, how: str, dur: int, s: Swallow = Swallow()) -> None:
            rec.start(tag)
            await ctx.sleep_us(dur)
            rec.end(tag)
            raise Boom(tag)

        f = {"dropped": dropped, "swallowed": swallowed}.get(how, job)
        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                for g in (job, dropped, swallowed):
                    x.register(g)
            if how == "dropped":
                await c.add(f, key="first")("first", "value", 0)
            w = Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False)
            await w.__aenter__()
            t = asyncio.get_running_loop().create_task(w.run_forever())
            await ctx.sleep_us(100 * MS)
            if how == "dropped":  # its decisions take a while
                delay_at(ctx, "main", 1 + ctx.choice("op", ctx.p["ops"]), slow, lambda op: op not in ("GET_MESSAGE", "XREADGROUP"))
            await c.add(f, key="k")("x", how, ctx.p["dur"])
            at = ctx.int("at", 0, ctx.p["at"])
            await ctx.sleep_us(at)
            if way == "cancelled":
                t.cancel()
                await asyncio.wait([t], timeout=5)
            await w.__aexit__(None, None, None)
            t1 = ctx.now_us()
            got = await c.get_execution("k")
            pending = (await ctx.client("client").xpending("d:stream", "docket-workers"))["pending"]
            if rec.n("start", "x") or (got is None or got.state.value not in ("scheduled", "queued")):
                ctx.check(pending == 0, "nothing a stopped worker took is left without an end", f"{how} {way} until {t1}: {pending} {rec.events}")
            if rec.n("start", "x") == 0 and how != "dropped":
                ctx.check(got is not None and got.state.value in ("scheduled", "queued"), "while waiting the record says so", f"{got and got.state}")
                ctx.reach("not started")
            else:
                want = FINAL.get(how, "failed")
                st = got.state.value if got is not None else None
                if not (how == "dropped" and st == "queued"):
                    ctx.check(st == want, "a stopped worker's tasks have their final record", f"{how} {way} until {t1}: {st} {rec.events}")
                    ctx.reach(how)
                else:
                    ctx.reach("not started")
            ctx.observe(how, got and got.state.value)
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)

    ctx.go(main)


HARNESSES = [
    Harness("lifecycle", lifecycle, "1 task due in [0,0.8s], body 0.3s, returning/returning None/raising/cancelled/dropped, record read at any instant of [0,4.5s], retention 2s",
            ["looked while waiting", "looked while running", "looked after the end", "looked after retention"] + OUTCOMES,
            quick={"ttl": 2 * S, "dur": 300 * MS, "delay": 800 * MS, "look": 4500 * MS}, thorough={"delay": 2 * S, "look": 7 * S}, budget_quick=100),
    Harness("sequence", sequence, "two runs of one key, 4 outcomes each, added or replaced, each due in [0,0.6s]", [f"{h}{i}" for h in OUTCOMES[:4] for i in (0, 1)],
            quick={"delay": 600 * MS}, thorough={"delay": 2 * S}, budget_quick=70),
    Harness("retries", retries, "0-3 failures of 3 attempts, delay 0.6s, record read at any instant of [0,4s]", ["over", "attempt running", "between attempts"],
            quick={"look": 4 * S}, thorough={"look": 8 * S}, budget_quick=40),
    Harness("wrap_up", wrap_up, "any one of a worker's first 22 operations or replies delayed by 0.3s, cancelled at any instant of [0,0.7s], body of 0.1s ending in 3 ways",
            ["recorded completed", "recorded failed", "cancelled before its start", "cancelled before its end", "cancelled after its end", "slow operation"],
            quick={"ops": 22, "lag": 300 * MS, "at": 700 * MS}, thorough={"ops": 40, "at": 1500 * MS}, budget_quick=60),
    Harness("stopping", stopping, "1 task of 0.4s ending in 4 ways, the worker told to stop in 2 ways at any instant of 0.8s, one of its first 10 operations slow by 0.3s when it is dropped",
            ["value", "raises", "dropped", "swallowed", "not started"], quick={"dur": 400 * MS, "at": 800 * MS, "slow": 300 * MS, "ops": 10}, thorough={"ops": 20, "at": 2 * S}, budget_quick=50),
]
