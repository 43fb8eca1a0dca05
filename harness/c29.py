"""C29 Redis outages delay work but lose none of it."""
import asyncio
from datetime import timedelta
from typing import Annotated, Any

from docket import ConcurrencyLimit, Perpetual, Retry, Worker
from docket.dependencies import RateLimit
from docket.execution import ExecutionState

from vp.redis_model import connection_error

from .lib import MS, S, Ctx, Harness, Rec, td

FUNCTIONS = [
    "Worker._run", "Worker._worker_loop", "Worker._scheduler_loop", "Worker._renew_leases", "Worker._heartbeat", "Worker._cancellation_listener", "Worker._reseed_automatic_perpetual_tasks_loop", "Worker._schedule_all_automatic_perpetual_tasks",
    "Worker._execute", "StrikeList._monitor_strikes", "ConcurrencyLimit.worker_lifecycle", "Execution.claim", "Execution.schedule", "_terminal (Lua)", "Docket._ensure_stream_and_group",
]
ASSUMPTIONS = ["a failing operation raises redis-py's ConnectionError, either before the server sees it or after the server has carried it out", "a worker that has exited is started again by its supervisor", "the virtual loop's scheduling; operations take no time"]
RES, POLL, LEASE, BACK = 500 * MS, 400 * MS, 1500 * MS, 300 * MS


class Supervised:
    """A worker that is started again when it exits."""

    def __init__(self, ctx: Ctx, docket: Any, **kw: Any) -> None:
        self.ctx, self.d, self.kw, self.exits, self.stopped = ctx, docket, kw, [], False
        self.task = asyncio.get_running_loop().create_task(self.run(), name="supervisor")

    async def run(self) -> None:
        while not self.stopped:
            try:
                async with Worker(self.d, name="a", minimum_check_interval=td(POLL), scheduling_resolution=td(RES), redelivery_timeout=td(LEASE), reconnection_delay=td(BACK), **self.kw) as w:
                    await w.run_forever()
                self.exits.append((self.ctx.now_us(), None))
            except Exception as e:
                self.exits.append((self.ctx.now_us(), repr(e)))
            if not self.stopped:
                await self.ctx.sleep_us(500 * MS)

    async def stop(self) -> None:
        self.stopped = True
        self.task.cancel()
        await asyncio.gather(self.task, return_exceptions=True)


class Fault:
    """Fails the worker's n-th operation, or all of them from an instant on, for a while."""

    def __init__(self, ctx: Ctx, client: str, counted: Any) -> None:
        self.ctx, self.ctl, self.counted, self.hits, self.count = ctx, ctx.ctl(client), counted, [], 0

    def note(self, op: str) -> None:
        from docket.dependencies import current_execution

        t = asyncio.current_task()
        task = current_execution.get(None) is not None
        name = t.get_name() if t else "?"
        self.hits.append((op, "task" if task or " - task:" in name else "?" if name.startswith("Task-") else name, self.ctx.now_us()))

    def at(self, n: Any, after: bool) -> None:
        fired = False

        async def before(op: str, args: Any) -> None:
            nonlocal fired
            if not self.counted(op) or fired:
                return
            self.count += 1
            if bool(n == self.count):
                if not after:
                    fired = True
                    self.note(op)
                    raise connection_error()

        async def later(op: str, args: Any) -> None:
            nonlocal fired
            if after and not fired and self.counted(op) and bool(n == self.count):
                fired = True
                self.note(op)
                raise connection_error()

        self.ctl.before, self.ctl.after = before, later

    def during(self, start: Any, end: Any) -> None:
        async def before(op: str, args: Any) -> None:
            now = self.ctx.now_us()
            if bool(now >= start) and bool(now < end):
                self.note(op)
                raise connection_error()

        self.ctl.before = before

    def of_tasks(self) -> bool:
        """Did this strike what a task itself does, rather than the worker's background activity?"""
        return any(name == "task" or (name == "supervisor" and op in OUTCOMES) for op, name, _ in self.hits)


OUTCOMES = ("__evalsha__", "__eval__", "SET", "GET", "HGET")  # of the main loop: what it records of a task that was not admitted
SHAPES = ["now", "later", "retry", "limited", "rate", "perpetual", "automatic"]


class Work:
    """Some accepted tasks of a kind, and what must come of them."""

    def __init__(self, ctx: Ctx, shape: str, dur: int) -> None:
        self.ctx, self.shape, self.rec = ctx, shape, Rec(ctx)
        rec = self.rec
        self.tries: dict = {}

        async def body(k: str) -> None:
            rec.add("start", k)
            await ctx.sleep_us(dur)
            rec.add("end", k)

        async def plain(k: str) -> str:
            await body(k)
            return k

        async def retry(k: str, retry: Retry = Retry(attempts=3, delay=timedelta(milliseconds=200))) -> str:
            self.tries[k] = self.tries.get(k, 0) + 1
            if self.tries[k] == 1:
                raise ValueError("again")
            await body(k)
            return k

        async def limited(k: str, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)) -> str:
            await body(k)
            return k

        async def rate(k: str, v: Annotated[str, RateLimit(1, per=timedelta(milliseconds=700))]) -> str:
            await body(k)
            return k

        async def perpetual(k: str, perpetual: Perpetual = Perpetual(every=timedelta(milliseconds=600))) -> None:
            await body(k)

        async def automatic(perpetual: Perpetual = Perpetual(every=timedelta(milliseconds=600), automatic=True)) -> None:
            await body("automatic")

        async def late(k: str) -> str:
            await body(k)
            return k

        async def struck(k: str) -> None:
            rec.add("start", k)

        async def long(k: str) -> None:
            try:
                rec.add("start", k)
                await ctx.sleep_us(4 * S)
                rec.add("end", k)
            except asyncio.CancelledError:
                rec.add("cancelled", k)
                raise

        self.fns = [plain, retry, limited, rate, perpetual, late, struck, long]
        if shape == "automatic":
            self.fns.append(automatic)
        self.executions: dict = {}

    async def accept(self, c: Any) -> None:
        ctx = self.ctx
        if self.shape == "automatic":
            return
        for i in range(2):
            k = f"t{i}"
            when = ctx.now() + td(700 * MS) if self.shape == "later" or i == 1 else None
            if self.shape in ("now", "later"):
                self.executions[k] = await c.add("plain", key=k, when=when)(k)
            elif self.shape == "rate":
                self.executions[k] = await c.add("rate", key=k)(k, "v")
            elif self.shape == "limited":
                self.executions[k] = await c.add("limited", key=k)(k)
            elif self.shape == "perpetual":
                if i == 0:
                    self.executions[k] = await c.add("perpetual", key=k)(k)
            else:
                self.executions[k] = await c.add(self.shape, key=k, when=when)(k)

    async def verify(self, c: Any, what: str, settled: bool) -> None:
        """settled: nothing went wrong in the tasks' own bookkeeping, so that each task ran once."""
        ctx, rec = self.ctx, self.rec
        if self.shape == "automatic":
            recent = [t for t in rec.of("start", "automatic") if bool(t > ctx.now_us() - 3 * S)]
            ctx.check(len(recent) >= 2, "an automatic perpetual task keeps running after the outage", f"{what}: {rec.events}")
        for k, e in self.executions.items():
            if self.shape == "perpetual":
                recent = [t for t in rec.of("start", k) if bool(t > ctx.now_us() - 3 * S)]
                ctx.check(len(recent) >= 2, "a perpetual task keeps running after the outage", f"{what}: {rec.events}")
                continue
            ctx.check(rec.n("end", k) >= 1, "every accepted task runs to completion", f"{what}: {k} {rec.events}")
            if settled:
                ctx.check(rec.n("end", k) == 1, "and the background's outage doesn't make it run again", f"{what}: {k} {rec.events}")
            x = await c.get_execution(k)
            ctx.check(x is not None and x.state == ExecutionState.COMPLETED, "and its record says so", f"{what}: {k} {x and x.state} {x and x.error} {rec.events}")
            try:
                got = await x.get_result(timeout=timedelta(milliseconds=100))
            except Exception as error:
                got = error
            ctx.check(got == k, "and its result is there", f"{what}: {k} {got!r} {rec.events}")
        async with c.redis() as r:
            left = await r.xlen(c.stream_key)
            ctx.check(left <= (1 if self.shape in ("perpetual", "automatic") else 0), "nothing is left unprocessed", f"{what}: {left} {rec.events}")

    async def afterwards(self, c: Any, what: str) -> None:
        """The worker does all its duties as before."""
        ctx, rec = self.ctx, self.rec
        t = ctx.now_us()
        await c.add("late", key="late")("late")
        await c.add("late", key="late2", when=ctx.now() + td(300 * MS))("late2")
        await c.add("long", key="long")("long")
        await c.strike("struck")
        await ctx.sleep_us(POLL + 100 * MS)
        await c.add("struck", key="struck")("struck")
        await c.cancel("long")
        await ctx.sleep_us(2 * S)
        ctx.check(rec.n("end", "late") == 1 and bool(rec.of("start", "late")[0] <= t + POLL + 50 * MS), "later tasks run as ever", f"{what}: {rec.events}")
        ctx.check(rec.n("end", "late2") == 1, "later scheduled tasks run as ever", f"{what}: {rec.events}")
        ctx.check(rec.n("cancelled", "long") == 1, "running tasks can be cancelled as ever", f"{what}: {rec.events}")
        ctx.check(rec.n("start", "struck") == 0, "strikes are obeyed as ever", f"{what}: {rec.events}")
        listed = {w.name for w in await c.workers()}
        ctx.check("a" in listed, "the worker is listed as ever", f"{what} {listed}")


def operation(ctx: Ctx) -> None:
    """Any one operation fails."""

    async def main(ctx: Ctx) -> None:
        work = Work(ctx, ctx.pick("shape", ctx.p["shapes"]), 300 * MS)
        n = ctx.int("n", 1, ctx.p["n"])
        after = ctx.bool("after")
        async with ctx.docket("worker", heartbeat_interval=timedelta(seconds=1)) as d, ctx.docket("client") as c:
            for f in work.fns:
                d.register(f)
                c.register(f)
            fault = Fault(ctx, "worker", lambda op: op != "GET_MESSAGE")
            fault.at(n, after)
            w = Supervised(ctx, d)
            await ctx.sleep_us(100 * MS)
            await work.accept(c)
            await ctx.sleep_us(ctx.p["until"])
            if any(op in ("SET", "GET") for op, _, _ in fault.hits):
                await ctx.sleep_us(62 * S if work.shape == "automatic" else 9 * S)  # a lock may be left behind until it expires
            what = f"{work.shape}: {fault.hits} {w.exits}"
            if w.exits:
                ctx.check(fault.of_tasks(), "the worker does not exit", what)
                ctx.reach("died with a task")
            await work.verify(c, what, not fault.of_tasks())
            await work.afterwards(c, what)
            ctx.reach(work.shape)
            ctx.reach("hit" if fault.hits else "missed")
            for op, name, _ in fault.hits:
                ctx.reach(op + (" after" if after else ""))
            ctx.observe([h[:2] for h in fault.hits], len(w.exits), work.rec.tags("start"))
            await w.stop()

    ctx.go(main)



def outage(ctx: Ctx) -> None:
    """Every operation of the worker fails for a while."""

    async def main(ctx: Ctx) -> None:
        work = Work(ctx, ctx.pick("shape", ctx.p["shapes"]), 300 * MS)
        start = ctx.int("start", 0, ctx.p["start"])
        length = ctx.pick("length", ctx.p["lengths"])
        async with ctx.docket("worker", heartbeat_interval=timedelta(seconds=1)) as d, ctx.docket("client") as c:
            for f in work.fns:
                d.register(f)
                c.register(f)
            fault = Fault(ctx, "worker", lambda op: True)
            fault.during(start, start + length)
            w = Supervised(ctx, d)
            await ctx.sleep_us(100 * MS)
            await work.accept(c)
            await ctx.sleep_us(ctx.p["until"])
            if any(op in ("SET", "GET") for op, _, _ in fault.hits):
                await ctx.sleep_us(62 * S if work.shape == "automatic" else 9 * S)
            what = f"{work.shape}: {fault.hits} {w.exits}"
            if w.exits:
                ctx.check(fault.of_tasks(), "the worker does not exit", what)
                ctx.reach("died with a task")
            await work.verify(c, what, not fault.of_tasks())
            await work.afterwards(c, what)
            ctx.reach(work.shape)
            ctx.reach("hit" if fault.hits else "missed")
            ctx.observe([h[:2] for h in fault.hits], len(w.exits), work.rec.tags("start"))
            await w.stop()

    ctx.go(main)


def dropped(ctx: Ctx) -> None:
    """The server drops the worker's connections."""

    async def main(ctx: Ctx) -> None:
        work = Work(ctx, ctx.pick("shape", ctx.p["shapes"]), 300 * MS)
        start = ctx.int("start", 0, ctx.p["start"])
        async with ctx.docket("worker", heartbeat_interval=timedelta(seconds=1)) as d, ctx.docket("client") as c:
            for f in work.fns:
                d.register(f)
                c.register(f)
            w = Supervised(ctx, d)

            async def drop() -> None:
                await ctx.sleep_us(start)
                ctx.client("worker").disconnect()

            dropping = asyncio.get_running_loop().create_task(drop())
            await ctx.sleep_us(100 * MS)
            await work.accept(c)
            await ctx.sleep_us(ctx.p["until"])
            await dropping
            what = f"{work.shape}: {w.exits}"
            ctx.check(not w.exits, "the worker does not exit", what)
            await work.verify(c, what, True)
            await work.afterwards(c, what)
            ctx.reach(work.shape)
            ctx.observe(len(w.exits), work.rec.tags("start"))
            await w.stop()

    ctx.go(main)


HARNESSES = [
    Harness("operation", operation, "any one of the worker's first operations", reach=("now", "hit"), quick={"shapes": SHAPES, "n": 60, "until": 6 * S}, thorough={"shapes": SHAPES, "n": 120, "until": 8 * S}, budget_quick=200, budget_thorough=1800, max_steps=300000, assumptions=ASSUMPTIONS),
    Harness("outage", outage, "every operation fails from any instant on for a while", reach=("now", "hit"), quick={"shapes": SHAPES, "start": 2 * S, "lengths": [200 * MS, 1000 * MS], "until": 6 * S}, thorough={"shapes": SHAPES, "start": 3 * S, "lengths": [100 * MS, 700 * MS, 2500 * MS], "until": 9 * S}, budget_quick=200, budget_thorough=1800, max_steps=300000, assumptions=ASSUMPTIONS),
    Harness("dropped", dropped, "the server drops the worker's connections at any instant", reach=("now",), quick={"shapes": SHAPES, "start": 2 * S, "until": 6 * S}, thorough={"shapes": SHAPES, "start": 3 * S, "until": 9 * S}, budget_quick=200, budget_thorough=1800, max_steps=300000, assumptions=ASSUMPTIONS),
]
