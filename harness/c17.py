"""C17 A live worker keeps its task; a dead worker's task is redelivered."""
import asyncio

from docket import CurrentExecution, Worker
from docket.dependencies import Retry
from docket.execution import Execution

from .c10 import WHO, serve, stop
from .lib import MS, S, Ctx, Harness, Rec, crash_at, fault_at, freeze, td

FUNCTIONS = [
    "Worker._worker_loop", "Worker._renew_leases", "Worker._run", "Worker.__aexit__", "Worker._execute", "Execution.from_message", "Execution.claim", "_claim (Lua)",
    "Execution.schedule", "_terminal (Lua)",
]
ASSUMPTIONS = [
    "virtual time: Redis operations take no time unless delayed by the harness", "task bodies only wait, so the event loop is never blocked",
    "redelivery timeouts of at least a few times the polling interval",
]
POLL = 300 * MS


def keeps(ctx: Ctx) -> None:
    """Bodies of any length on one worker while two others look for work."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        how = ctx.pick("how", ctx.p["how"])
        dur = [ctx.int("dur0", 0, ctx.p["dur"]) if how == "keeps running" else ctx.pick("dur0", [S, 3 * S]), ctx.pick("dur1", [S, 3 * S])]

        async def job(i: int, e: Execution = CurrentExecution()) -> None:
            rec.start((i, WHO.get("?")))
            ctx_ok.append(not e.redelivered)
            await ctx.sleep_us(dur[i])
            rec.end((i, WHO.get("?")))

        ctx_ok: list[bool] = []
        gap = ctx.pick("gap", [0, ctx.p["gap"]])
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            leave = asyncio.Event()

            async def run() -> None:
                WHO.set("a")
                async with Worker(d, name="a", minimum_check_interval=td(POLL), scheduling_resolution=td(POLL), schedule_automatic_tasks=False, redelivery_timeout=td(timeout)) as w:
                    going = asyncio.get_running_loop().create_task(w.run_forever())
                    left = asyncio.get_running_loop().create_task(leave.wait())
                    try:
                        await asyncio.wait([going, left], return_when=asyncio.FIRST_COMPLETED)
                        if how == "cancelled":
                            going.cancel()
                    finally:
                        left.cancel()
                await going

            t = asyncio.get_running_loop().create_task(run())
            await ctx.sleep_us(10 * MS)
            await c.add(job, key="k0")(0)
            await ctx.sleep_us(gap)
            await c.add(job, key="k1")(1)
            await ctx.sleep_us(20 * MS)
            b = serve(d2, "b", ctx, redelivery_timeout=td(timeout))
            if how != "keeps running":
                at = ctx.int("at", 0, ctx.p["at"])
                await ctx.sleep_us(at)
                busy = rec.running.get(None, 0)
                if how == "disconnected":
                    fault_at(ctx, "main", 1, bool(ctx.bool("after")), lambda op: op == "xreadgroup")
                else:
                    leave.set()
                if busy:
                    ctx.reach("stopped while busy")
            await ctx.sleep_us(ctx.p["dur"] + timeout + 2 * POLL + S)
            starts = rec.tags("start")
            ctx.check(starts.count((0, "a")) == 1, "the task starts on the live worker", f"{how}: {rec.events}")
            ctx.check([x for x in starts if x[0] == 0] == [(0, "a")], "a task running on a live worker is not handed to another", f"{how}: {rec.events}")
            ctx.check(len([x for x in starts if x[0] == 1]) == 1, "a task running on a live worker is not handed to another", f"{how}: {rec.events}")
            ctx.check(rec.n("end") == 2, "a long task finishes", f"{how}: {rec.events}")
            ctx.check(all(ctx_ok), "a task delivered once does not say it is redelivered", f"{rec.events}")
            for i in (0, 1):
                if dur[i] > timeout:
                    ctx.reach("longer than the timeout")
                if dur[i] > 2 * timeout:
                    ctx.reach("twice as long")
            ctx.reach(how)
            ctx.observe(starts)
            await stop(t, b)

    ctx.go(main)


def dies(ctx: Ctx) -> None:
    """The worker dies at any instant, or at any of its Redis operations, during any attempt."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        dead: set = set()
        seen: list = []
        instant = ctx.bool("by instant")
        fails = ctx.bool("fails first")

        async def job(i: str, *, tag: str, retry: Retry = Retry(attempts=3, delay=td(200 * MS)), e: Execution = CurrentExecution()) -> None:
            if WHO.get("?") in dead:
                return
            rec.start(WHO.get("?"))
            seen.append((WHO.get("?"), i, tag, e.attempt, e.redelivered, e.key))
            if fails and e.attempt == 1:
                rec.end("failed " + WHO.get("?"))
                raise ValueError("boom")
            await ctx.sleep_us(ctx.p["dur"])
            if WHO.get("?") not in dead:
                rec.end(WHO.get("?"))

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            await c.add(job, key="k")("x", tag="y")
            st: dict = {}
            if not instant:
                st = crash_at(ctx, "main", 1 + ctx.choice("op", ctx.p["ops"]), bool(ctx.bool("after")))
            ta = serve(d, "a", ctx, redelivery_timeout=td(timeout))
            death = 0
            if instant:
                at = ctx.int("at", 0, ctx.p["at"])
                await ctx.sleep_us(at)
                freeze(ctx, "main")
                dead.add("a")
                death = ctx.now_us()
            else:
                for _ in range(40):
                    await ctx.sleep_us(50 * MS)
                    if st["fired"]:
                        break
                dead.add("a")
                death = ctx.now_us()
                if not st["fired"]:
                    freeze(ctx, "main")
            held = rec.running.get(None, 0)
            before = rec.n("start")
            tb = serve(d2, "b", ctx, redelivery_timeout=td(timeout))
            await ctx.sleep_us(timeout + 2 * ctx.p["dur"] + 5 * POLL + S)
            if rec.n("end", "a") == 0 and rec.n("end", "b") == 0:  # it died holding the key's lock
                await ctx.sleep_us(10 * S)
            s_b = rec.of("start", "b")
            if rec.n("end", "a") == 0:
                ctx.check(len(s_b) >= 1, "the task of a dead worker is started by another", f"{death}: {rec.events} {seen}")
                ctx.check(s_b[0] <= death + timeout + POLL + (200 * MS + POLL if fails else 0) + 2 * MS, "it is started within the timeout and a polling interval of the death", f"{death}: {rec.events}")
                ctx.check(rec.n("end", "b") == 1, "the redelivered task finishes", f"{death}: {rec.events} {seen}")
                ctx.reach("taken over")
            for who, i, tag, attempt, redelivered, key in seen:
                ctx.check((i, tag, key) == ("x", "y", "k"), "a redelivered task keeps its arguments", str(seen))
            by_a = [x for x in seen if x[0] == "a"]
            by_b = [x for x in seen if x[0] == "b"]
            if by_a and by_b and s_b[0] >= death + timeout - POLL - 50 * MS and held:
                ctx.check(by_b[0][3] == by_a[-1][3], "a redelivered task keeps its attempt number", str(seen))
                ctx.check(by_b[0][4], "a redelivered task says so", str(seen))
                ctx.reach("redelivered attempt " + str(by_a[-1][3]))
            ctx.observe(len(s_b), seen)
            ta.cancel()
            await stop(tb)

    ctx.go(main)


def crowd(ctx: Ctx) -> None:
    """Many long bodies at once, short and long timeouts, one renewal that fails."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        timeout = ctx.pick("timeout", ctx.p["timeouts"])
        n = ctx.pick("n", ctx.p["n"])
        fault = ctx.pick("fault", [None, "before", "after"])

        async def job(i: int) -> None:
            rec.start(i)
            await ctx.sleep_us(2 * timeout + i * 10 * MS)
            rec.end(i)

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            kw = dict(redelivery_timeout=td(timeout), concurrency=n + 2, minimum_check_interval=td(100 * MS))
            ta = serve(d, "a", ctx, **kw)
            await ctx.sleep_us(10 * MS)
            for i in range(n):
                await c.add(job, key=f"k{i}")(i)
            st = {"fired": True}
            if fault:
                st = fault_at(ctx, "main", 1, fault == "after", lambda op: op.upper() == "XCLAIM")
            other = ctx.int("other", 0, timeout)
            await ctx.sleep_us(other)
            tb = serve(d2, "b", ctx, **kw)
            await ctx.sleep_us(2 * timeout + n * 10 * MS + S)
            ctx.check(all(rec.n("start", i) == 1 for i in range(n)), "a task running on a live worker is not handed to another", f"{timeout} {n} {fault}: {rec.events}")
            ctx.check(all(rec.n("end", i) == 1 for i in range(n)), "a long task finishes", f"{timeout} {n} {fault}: {rec.events}")
            if st["fired"]:
                ctx.reach(f"renewal fails {fault}" if fault else "renewed")
            ctx.reach(f"{n} at once")
            ctx.observe(sorted(rec.tags("start")))
            await stop(ta, tb)

    ctx.go(main)


HARNESSES = [
    Harness("keeps", keeps, "redelivery timeout 1.2s, bodies of [0,3s] and of 1 or 3 s started 0 or 0.9 s apart while another worker looks for work",
            ["longer than the timeout", "twice as long", "keeps running"], quick={"timeout": 1200 * MS, "dur": 3 * S, "gap": 900 * MS, "how": ["keeps running"]}, thorough={"dur": 6 * S}, budget_quick=100),
    Harness("drains", keeps, "redelivery timeout 1.2s, bodies of 1 or 3 s started 0 or 0.9 s apart, the holder cancelled, left or disconnected at any instant of 2s while another worker looks for work",
            ["longer than the timeout", "twice as long", "cancelled", "left", "disconnected", "stopped while busy"], quick={"timeout": 1200 * MS, "dur": 3 * S, "gap": 900 * MS, "at": 2 * S, "how": ["cancelled", "left", "disconnected"]},
            thorough={"at": 4 * S}, budget_quick=120),
    Harness("dies", dies, "redelivery timeout 1.2s, body of 1s failing at once on its first attempt or not, death at any instant of 2s or at any of the worker's first 26 operations before or after it takes effect",
            ["taken over", "redelivered attempt 1", "redelivered attempt 2"], quick={"timeout": 1200 * MS, "dur": S, "at": 2 * S, "ops": 26}, thorough={"ops": 50, "at": 4 * S}, budget_quick=100),
    Harness("crowd", crowd, "1 or 12 bodies at once of twice the redelivery timeout (0.8, 1.6 or 20 s), a second worker joining at any instant of the first timeout, the first renewal failing or not",
            ["1 at once", "12 at once", "renewed", "renewal fails before", "renewal fails after"], quick={"timeouts": [800 * MS, 1600 * MS, 20 * S], "n": [1, 12]}, thorough={"n": [1, 4, 12, 25]}, budget_quick=100, max_steps=200000),
]
