"""C23 A snapshot shows every task once, in its true condition."""
import asyncio

from docket import ConcurrencyLimit, Retry, Worker

from .c10 import WHO, serve, stop
from .many import many
from .lib import MS, S, Ctx, Harness, Rec, delay_at, freeze, td

FUNCTIONS = ["DocketSnapshotMixin.snapshot", "DocketSnapshotMixin.workers", "RunningExecution.__init__", "Execution.from_message", "Execution.sync", "_schedule (Lua)", "_stream_due_tasks (Lua)", "_claim (Lua)", "_terminal (Lua)"]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness", "at most 1000 queued tasks"]
RES, POLL = 500 * MS, 400 * MS
FATES = ["long", "short", "fails", "retried", "soon", "late", "replaced", "cancelled"]


class Truth:
    """What became of each task, from the bodies' own reports."""

    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.log: list = []  # (key, what, time, who)

    def note(self, key: str, what: str) -> None:
        self.log.append((key, what, self.ctx.now_us(), WHO.get("?")))

    def last(self, key: str):
        mine = [x for x in self.log if x[0] == key]
        return mine[-1] if mine else None


def population(ctx: Ctx) -> None:
    """Tasks of all kinds at any stage; the snapshot at any instant."""

    async def main(ctx: Ctx) -> None:
        truth = Truth(ctx)
        ctx.store.burner = bool(ctx.bool("memory backend")) if ctx.p["burner"] else False
        conc = ctx.pick("concurrency", [1, 2])
        fates = [ctx.pick(f"fate{i}", FATES if i < 2 else ["long", "soon"]) for i in range(ctx.p["n"])]
        dur = ctx.p["dur"]

        async def job(i: int, fate: str, retry: Retry = Retry(attempts=2, delay=td(300 * MS))) -> None:
            key = f"k{i}"
            truth.note(key, "start")
            await ctx.sleep_us(dur if fate in ("long", "soon", "late") else 100 * MS)
            n = sum(1 for k, w, _, _ in truth.log if k == key and w == "start")
            truth.note(key, "retry" if fate == "retried" and n == 1 else "end")
            if fate == "retried" and n == 1:
                raise ValueError("again")

        async def plain(i: int, fate: str) -> None:
            truth.note(f"k{i}", "start")
            await ctx.sleep_us(100 * MS)
            truth.note(f"k{i}", "end")
            if fate == "fails":
                raise ValueError("boom")

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(job, names=["job", "alias"])
                x.register(plain)
            t = serve(d, "w", ctx, concurrency=conc, redelivery_timeout=td(800 * MS))
            await ctx.sleep_us(10 * MS)
            due: dict = {}
            for i, fate in enumerate(fates):
                delay = {"soon": 350 * MS, "late": 5 * S}.get(fate, 0)
                due[f"k{i}"] = ctx.now_us() + delay
                if fate in ("replaced", "cancelled"):
                    await c.add(plain, when=ctx.at(ctx.now_us() + 300 * MS), key=f"k{i}")(i, fate)
                    if fate == "replaced":
                        due[f"k{i}"] = ctx.now_us() + 4 * S
                        await c.replace(plain, when=ctx.at(due[f"k{i}"]), key=f"k{i}")(i, fate)
                    else:
                        await c.cancel(f"k{i}")
                        truth.note(f"k{i}", "end")
                else:
                    await c.add(plain if fate == "fails" else "alias", when=ctx.at(due[f"k{i}"]), key=f"k{i}")(i, fate)
            at = ctx.int("at", 0, ctx.p["hi"])
            await ctx.sleep_us(at)
            now = ctx.now_us()
            before = list(truth.log)
            s = await c.snapshot()
            after = list(truth.log)
            await ctx.sleep_us(1)
            if len(before) != len(after) or any(bool(x[2] == now) or bool(x[2] == now + 1) for x in truth.log):
                t.cancel()
                return  # something happened at this very instant
            last = {k: truth.last(k) for k in due}
            running = {k for k in due if last[k] and last[k][1] == "start"}
            ended = {k for k in due if last[k] and last[k][1] == "end"}
            pending = set(due) - running - ended
            why = f"{fates} at {now}: {truth.log}"
            ctx.check(sorted(e.key for e in s.running) == sorted(running), "each running task is listed once as running", why)
            ctx.check(sorted(e.key for e in s.future) == sorted(pending), "each pending task is listed once as future", f"{[e.key for e in s.future]} {why}")
            ctx.check(s.total_tasks == len(running) + len(pending), "the count matches", why)
            for e in [*s.running, *s.future]:
                i = int(e.key[1:])
                ctx.check((e.args, e.kwargs) == ((i, fates[i]), {}) and e.function_name == ("plain" if fates[i] in ("fails", "replaced") else "alias"), "a listed task has its own definition", f"{e.key} {e.args} {e.function_name}")
                if fates[i] != "retried":
                    ctx.check(e.when == ctx.at(due[e.key]), "a listed task has its own due time", f"{e.key} {e.when}")
            for e in s.running:
                ctx.check(e.worker == "w", "a running task is listed on the worker that holds it", e.worker)
                ctx.check(e.started == ctx.at(last[e.key][2]), "a running task is listed with the time it started", f"{e.key} {e.started} {why}")
                ctx.check(e.state.value == "running", "a running task is reported as running", e.state.value)
            ctx.check([w.name for w in s.workers] == ["w"], "the workers alive are listed", str([w.name for w in s.workers]))
            ctx.check(s.taken == ctx.at(now), "the snapshot says when it was taken", "")
            for f in fates:
                ctx.reach(f)
            for n, what in ((len(running), "running"), (len(pending), "pending"), (len(ended), "ended")):
                if n:
                    ctx.reach(what)
            ctx.observe(sorted(running), sorted(pending))
            await stop(t)
            await c.add(plain, key="extra")(9, "x")

            async def dump() -> tuple:
                async with c.redis() as r:
                    return (await r.xrange(c.stream_key, "-", "+"), await r.zrange(c.queue_key, 0, -1, withscores=True), *[await r.hgetall(x) for k in [*due, "extra"] for x in (c.runs_key(k), c.parked_task_key(k))])

            was = await dump()
            await c.snapshot()
            ctx.check(await dump() == was, "a snapshot changes nothing", "")

    ctx.go(main)


def moving(ctx: Ctx) -> None:
    """Tasks move (promoted, started, retried, scheduled, ended) while the snapshot is being taken."""

    async def main(ctx: Ctx) -> None:
        truth = Truth(ctx)
        what = ctx.pick("what", ["promoted", "retried", "scheduled", "replaced"])

        async def job(i: int, retry: Retry = Retry(attempts=2, delay=td(3 * S))) -> None:
            truth.note(f"k{i}", "start")
            await ctx.sleep_us(200 * MS)
            if what == "retried" and i == 0 and sum(1 for x in truth.log if x[:2] == ("k0", "start")) == 1:
                raise ValueError("again")
            await ctx.sleep_us(4 * S)

        async with ctx.docket() as d, ctx.docket("client") as c, ctx.docket("other") as o:
            for x in (d, c, o):
                x.register(job)
            t = serve(d, "w", ctx, redelivery_timeout=td(60 * S))
            await c.add(job, when=ctx.at(ctx.now_us() + (0 if what == "retried" else 300 * MS)), key="k0")(0)
            await c.add(job, when=ctx.at(ctx.now_us() + 5 * S), key="k1")(1)
            at = ctx.int("at", 0, ctx.p["hi"])
            await ctx.sleep_us(at)
            n = 1 + ctx.choice("op", ctx.p["ops"])
            lag = ctx.int("lag", 0, ctx.p["lag"])
            st = delay_at(ctx, "client", n, lag)
            going = asyncio.get_running_loop().create_task(c.snapshot())
            added = False
            if what in ("scheduled", "replaced"):
                gap = ctx.pick("gap", [0, 1, 150 * MS, 400 * MS])
                await ctx.sleep_us(gap)
                added = not going.done()
                if what == "scheduled":
                    await o.add(job, when=ctx.at(ctx.now_us() + 4 * S), key="k2")(2)
                else:
                    await o.replace(job, when=ctx.at(ctx.now_us() + 4 * S), key="k1")(1)
            s = await going
            keys = sorted(e.key for e in s.running) + sorted(e.key for e in s.future)
            ctx.check(len(keys) == len(set(keys)), "no task is listed twice", f"{what} {keys} {truth.log}")
            ctx.check({"k0", "k1"} <= set(keys), "a task that is there throughout is listed", f"{what} {n} {keys} {truth.log}")
            if not added:
                ctx.check(set(keys) - {"k2"} == {"k0", "k1"}, "only tasks that are there are listed", f"{keys}")
            ctx.check(s.total_tasks == len(keys), "the count matches", f"{what} {s.total_tasks} {keys}")
            if st["fired"]:
                ctx.reach(what)
            if added:
                ctx.reach("meanwhile")
            ctx.observe(keys, s.total_tasks)
            await stop(t)

    ctx.go(main)


def waiting(ctx: Ctx) -> None:
    """Tasks waiting for a concurrency slot."""

    async def main(ctx: Ctx) -> None:
        truth = Truth(ctx)

        async def job(i: int, who: str, limit: ConcurrencyLimit = ConcurrencyLimit("who", 1)) -> None:
            truth.note(f"k{i}", "start")
            await ctx.sleep_us(ctx.p["dur"])
            truth.note(f"k{i}", "end")

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(job)
            t = serve(d, "w", ctx, redelivery_timeout=td(3 * S))
            await ctx.sleep_us(10 * MS)
            for i in range(2):
                await c.add(job, key=f"k{i}")(i, "a")
            at = ctx.int("at", 1, ctx.p["hi"])
            await ctx.sleep_us(at)
            now = ctx.now_us()
            c.tasks.update(d.tasks)
            s = await c.snapshot()
            await ctx.sleep_us(1)
            if any(bool(x[2] == now) or bool(x[2] == now + 1) for x in truth.log):
                t.cancel()
                return
            last = {k: truth.last(k) for k in ("k0", "k1")}
            ctx.check([e.key for e in s.running] == [k for k in last if last[k] and last[k][1] == "start"], "each running task is listed once as running", f"{truth.log}")
            if last["k1"] is None:
                ctx.reach("waiting")
                ctx.check([e.key for e in s.future] == ["k1"], "a task waiting for a concurrency slot is listed as future", f"{[e.key for e in s.future]}")
            else:
                ctx.reach("slot handed on")
                ctx.check(not s.future, "each pending task is listed once as future", f"{[e.key for e in s.future]}")
            ctx.observe([e.key for e in s.running])
            await stop(t)

    ctx.go(main)


def handed_over(ctx: Ctx) -> None:
    """A dead worker's task is shown with whoever has it, since when they do."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        truth = Truth(ctx)

        async def job() -> None:
            truth.note("k", "start")
            await ctx.sleep_us(3 * S)

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job)
            ta = serve(d, "a", ctx, redelivery_timeout=td(timeout))
            await ctx.sleep_us(10 * MS)
            await c.add(job, key="k")()
            await ctx.sleep_us(100 * MS)
            freeze(ctx, "main")
            death = ctx.now_us()
            await ctx.sleep_us(timeout // 2)
            delay_at(ctx, "b", 1 + ctx.choice("op", ctx.p["ops"]), 400 * MS, lambda op: op not in ("GET_MESSAGE", "XREADGROUP"))
            tb = serve(d2, "b", ctx, redelivery_timeout=td(timeout))
            at = ctx.int("at", 0, ctx.p["hi"])
            await ctx.sleep_us(at)
            now = ctx.now_us()
            s = await c.snapshot()
            await ctx.sleep_us(1)
            starts = {x[3]: x[2] for x in truth.log if x[1] == "start"}
            if any(bool(abs(x - now) < 2) for x in starts.values()):
                ta.cancel()
                await stop(tb)
                return
            why = f"death {death} now {now}: {[(x.key, x.worker, x.started) for x in s.running]} {truth.log}"
            ctx.check([x.key for x in s.running] == ["k"] and not s.future and s.total_tasks == 1, "each running task is listed once as running", why)
            shown = s.running[0]
            if "b" in starts:
                ctx.check(shown.worker == "b" and ctx.at(death + timeout // 2) <= shown.started and shown.started <= ctx.at(starts["b"]), "a running task is shown with its worker and start", why)
                ctx.reach("taken over")
            elif shown.worker == "a":
                ctx.check(shown.started == ctx.at(starts["a"]), "a running task is shown with its worker and start", why)
                ctx.reach("still the dead worker's")
            else:
                ctx.check(shown.worker == "b" and shown.started >= ctx.at(death + timeout // 2), "a redelivered task is not shown as started by its new worker before it died", why)
                ctx.reach("handed over, not started")
            ctx.observe(shown.worker, len(starts))
            ta.cancel()
            await stop(tb)

    ctx.go(main)


HARNESSES = [
    Harness("population", population, "2 (thorough: 3) tasks of 8 fates each (third: 2), worker with 1 or 2 slots, snapshot at any instant of [0,1.3s]", FATES + ["running", "pending", "ended"],
            quick={"hi": 1300 * MS, "dur": 900 * MS, "n": 2, "burner": False}, thorough={"n": 3, "hi": 3 * S}, budget_quick=140),
    Harness("backend", population, "as population, with one task, and replies as redis-py's or the in-memory backend's", ["running", "pending", "ended"],
            quick={"hi": 1300 * MS, "dur": 900 * MS, "n": 1, "burner": True}, thorough={"n": 2, "hi": 3 * S}, budget_quick=50),
    Harness("moving", moving, "any one of the snapshot's first 4 (thorough: 12) Redis operations delayed by up to 0.5s while tasks move, at any instant of [0,0.35s]", ["promoted", "retried", "scheduled", "replaced", "meanwhile"],
            quick={"hi": 350 * MS, "ops": 4, "lag": 500 * MS}, thorough={"ops": 12, "hi": S, "lag": S}, budget_quick=100),
    Harness("waiting", waiting, "one task of 0.6s running and one waiting for its concurrency slot, snapshot at any instant of [0,0.9s]", ["waiting", "slot handed on"], quick={"hi": 900 * MS, "dur": 600 * MS}, budget_quick=30),
    Harness("handed_over", handed_over, "a worker dead with its task, another with one of its first 14 operations slow by 0.4s; snapshot at any instant of 2.5s", ["taken over", "still the dead worker's", "handed over, not started"],
            quick={"timeout": S, "hi": 2500 * MS, "ops": 14}, thorough={"ops": 30}, budget_quick=40),
    many("snapshot", "12 or 60 tasks, half of them due later, a snapshot at any moment of 1.2 s", [6, 30]),
]
