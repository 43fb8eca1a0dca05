"""C11 Every task waiting for a concurrency slot eventually runs, once."""
import asyncio

from docket import Worker
from docket.dependencies import ConcurrencyLimit
from docket.execution import Disposition

from .c10 import WHO, serve, stop
from .many import many
from .lib import MS, S, Ctx, Harness, Rec, crash_at, delay_at, freeze, td, tied

FUNCTIONS = [
    "ConcurrencyLimit.__aenter__", "_acquire_or_park (Lua)", "_release_and_wake (Lua)", "_scavenge_and_wake (Lua)", "_cancel_cleanup (Lua)", "_safeguard_wake",
    "ConcurrencyLimit._cancel_subscriber", "ConcurrencyLimit._cleanup_cancelled_waiter", "_schedule (Lua)", "_cancel_task (Lua)", "_claim (Lua)", "Worker._execute",
]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness"]
RES, POLL = 500 * MS, 400 * MS


class Boom(Exception):
    pass


def task(ctx: Ctx, rec: Rec, limit: int = 1, dead: set = frozenset(), elsewhere: int = 0):
    async def job(tag: str, dur: int, fails: bool = False, limiter: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=limit)) -> None:
        if WHO.get("?") in dead:
            return
        rec.start(tag)
        try:
            await ctx.sleep_us(dur if WHO.get("?") == "a" or not elsewhere else elsewhere)
        except BaseException:
            rec.end(tag, "interrupted")
            raise
        if WHO.get("?") not in dead:
            rec.end(tag)
        if fails:
            raise Boom()

    return job


def waiting(ctx: Ctx) -> None:
    """Waiters that are cancelled, replaced or added again at any instant, and their neighbours."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        job = task(ctx, rec)
        op = ctx.pick("op", ["cancel", "replace", "add", "replace then cancel", "cancel then add", "cancel both"])
        ends = ctx.pick("holder_ends", ["returns", "fails", "cancelled"])
        short, dur = ctx.p["short"], ctx.p["dur"]
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            ts = [serve(d, "a", ctx), serve(d2, "b", ctx)]
            await c.add(job, key="h")("h", dur, ends == "fails")
            await ctx.sleep_us(1 * MS)
            for tag in ("w1", "w2", "w3"):
                await c.add(job, key=tag)(tag, short)
                await ctx.sleep_us(1 * MS)
            at = ctx.int("at", 0, ctx.p["at"])
            t_end = ctx.now_us() + dur // 2
            if ends == "cancelled":
                async def canceller():
                    await ctx.sleep_us(dur // 2)
                    await c.cancel("h")
                ts.append(asyncio.get_running_loop().create_task(canceller()))
            await ctx.sleep_us(at)
            now = ctx.now_us()
            started = rec.n("start", "w1")
            over = rec.n("end", "w1")
            e = await c.get_execution("w1")
            state = e.state.value if e else None
            due = now
            if op.startswith("replace"):
                delay = ctx.int("delay", 0, ctx.p["delay"])
                due = now + delay
                await c.replace(job, when=ctx.at(due), key="w1")("new", short)
            elif op == "add":
                e2 = await c.add(job, key="w1")("new", short)
            else:
                await c.cancel("w1")
                if op == "cancel both":
                    await c.cancel("w2")
                if op == "cancel then add":
                    await ctx.sleep_us(30 * MS)
                    e2 = await c.add(job, key="w1")("new", short)
            if op == "replace then cancel":
                await ctx.sleep_us(30 * MS)
                begun = rec.n("start", "new")
                await c.cancel("w1")
            tie = await tied(ctx, rec, now)
            if "then" in op:
                tie = tie or any(bool(t >= now) and bool(t <= now + 31 * MS) for _, g, t in rec.events if g in ("w1", "new", "w2"))
            await ctx.sleep_us(dur + 5 * (short + POLL) + ctx.p["delay"] + RES)
            if tie:
                ctx.reach("tie")
                return
            if ends == "cancelled":
                ctx.check(rec.n("interrupted", "h") == 1, "a cancelled holder is interrupted", str(rec.events))
            if not started:
                ctx.check(state == "scheduled" or state == "queued", "a waiting task is recorded as waiting", f"{state} {rec.events}")
                ctx.reach("waiting: " + op)
            for tag in ("w2", "w3"):
                if op == "cancel both" and tag == "w2":
                    continue
                ctx.check(rec.n("start", tag) == 1 and rec.n("end", tag) == 1, "a waiting task runs exactly once, whatever happens to its neighbours", f"{op}: {rec.events}")
            if op != "cancel both" and not rec.n("start", "new"):  # a newcomer may take the slot a waiter was just woken for
                ctx.check(rec.of("start", "w2")[0] <= rec.of("start", "w3")[0], "waiting tasks run in arrival order", str(rec.events))
            if op == "add" and not started:
                ctx.check(rec.of("start", "w1")[0] <= rec.of("start", "w2")[0], "waiting tasks run in arrival order", str(rec.events))
            if op in ("cancel", "cancel both", "cancel then add"):
                ctx.check(rec.n("start", "w1") == started, "a waiting task that was cancelled never runs", f"{op}: {rec.events}")
            if op == "cancel then add":
                if over == 0 and not started:
                    ctx.check(e2.disposition is Disposition.SCHEDULED, "a cancelled waiter's key is free", f"{e2.disposition}")
                ctx.check(rec.n("start", "new") == (1 if e2.disposition is Disposition.SCHEDULED else 0), "what is scheduled runs exactly once", f"{op}: {rec.events}")
            if op == "replace":
                ctx.check(rec.n("start", "w1") == started, "a waiting task that was replaced never runs", f"{rec.events}")
                ctx.check(rec.n("end", "new") == 1, "the replacement runs exactly once", f"{rec.events}")
                ctx.check(rec.of("start", "new")[0] >= due, "the replacement never runs before its time", f"{rec.events}")
            if op == "replace then cancel":
                ctx.check(rec.n("start", "w1") == started, "a waiting task that was replaced never runs", f"{rec.events}")
                ctx.check(rec.n("start", "new") == begun, "a waiting task that was cancelled never runs", f"{op}: {rec.events}")
            if op == "add":
                if over == 0:
                    ctx.check(e2.disposition is Disposition.ALREADY_SCHEDULED, "an add under a waiting task's key is rejected", f"{e2.disposition} {rec.events}")
                    ctx.check(rec.n("start", "new") == 0 and rec.n("start", "w1") == 1, "an add under a waiting task's key changes nothing", f"{rec.events}")
            # no slot stays unused while someone waits
            ctx.check(rec.max_running[None] == 1, "the limit holds", str(rec.events))
            last = max(t for _, _, t in rec.events)
            begin = due if op == "replace" else now
            first_free = rec.of("interrupted" if ends == "cancelled" else "end", "h")[0]
            if begin < first_free:
                begin = first_free
            ctx.check(last <= begin + 4 * (short + POLL) + RES, "waiting tasks run as slots free up, without waiting for anything else", str(rec.events))
            snap = await c.snapshot()
            ctx.check(not snap.future and not snap.running, "nothing is left behind", str([x.key for x in snap.future]))
            ctx.reach(ends)
            ctx.observe(op, rec.tags("start"))
            await stop(*ts)

    ctx.go(main)


def rescue(ctx: Ctx) -> None:
    """The holder's worker dies, and the holder may be cancelled or replaced besides."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        dead: set = set()
        job = task(ctx, rec, dead=dead, elsewhere=100 * MS)
        then = ctx.pick("then", ["nothing", "cancelled", "replaced", "waiter cancelled"])
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            kw = dict(redelivery_timeout=td(timeout))
            ta = serve(d, "a", ctx, **kw)
            await c.add(job, key="h")("h", 20 * S)
            await ctx.sleep_us(10 * MS)
            tb = serve(d2, "b", ctx, **kw)
            await c.add(job, key="w1")("w1", 100 * MS)
            await c.add(job, key="w2")("w2", 100 * MS)
            died = ctx.int("dies_at", 1, ctx.p["dies"])
            await ctx.sleep_us(died)
            freeze(ctx, "main")
            dead.add("a")
            at = ctx.int("after", 0, ctx.p["after"])
            await ctx.sleep_us(at)
            t = ctx.now_us()
            begun = rec.n("start", "h")
            if then == "cancelled":
                await c.cancel("h")
            if then == "replaced":
                await c.replace(job, when=ctx.at(t), key="h")("new", 100 * MS)
            if then == "waiter cancelled":
                started = rec.n("start", "w1")
                await c.cancel("w1")
            tie = await tied(ctx, rec, t)
            await ctx.sleep_us(5 * timeout + 4 * POLL + 2 * RES)
            if tie:
                return
            if then in ("nothing", "waiter cancelled"):
                ctx.check(rec.n("start", "h") == 2, "the dead holder's task is redelivered", str(rec.events))
                ctx.reach("redelivered")
            else:
                for w in ("w1", "w2"):
                    ctx.check(rec.n("end", w) == 1, "a waiting task runs although the holder's worker died", f"{then}: {rec.events}")
                if then == "replaced":
                    ctx.check(rec.n("end", "new") == 1, "the replacement runs exactly once", f"{rec.events}")
                ctx.reach(f"{then} {'before' if begun == 1 else 'after'} redelivery")
            if then == "waiter cancelled":
                ctx.check(rec.n("start", "w1") == started, "a waiting task that was cancelled never runs", str(rec.events))
            ctx.observe(then, rec.tags("start"))
            await stop(tb)
            ta.cancel()

    ctx.go(main)


def stranded(ctx: Ctx) -> None:
    """The only worker dies at any operation while it parks a task, and the holder it was running never ends."""
    timeout = ctx.p["timeout"]

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        dead: set = set()
        job = task(ctx, rec, dead=dead, elsewhere=100 * MS)
        then = ctx.pick("then", ["nothing", "cancelled", "replaced", "struck"])
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job)
            kw = dict(redelivery_timeout=td(timeout))
            ta = serve(d, "a", ctx, **kw)
            await c.add(job, key="h")("h", 20 * S)
            await ctx.sleep_us(10 * MS)
            st = crash_at(ctx, "main", ctx.p["from"] + ctx.choice("op", ctx.p["ops"]), after=ctx.bool("after"))
            await c.add(job, key="w1")("w1", 100 * MS)
            await ctx.sleep_us(600 * MS)
            freeze(ctx, "main")
            dead.add("a")
            parked = bool(ctx.store.lookup(b"d:runs:w1").find(b"waiter_entry_id"))
            at = ctx.int("at", 0, ctx.p["at"])
            tb = serve(d2, "b", ctx, **kw) if ctx.bool("at once") else None
            await ctx.sleep_us(at)
            if then == "cancelled":
                await c.cancel("h")
            if then == "replaced":
                await c.replace(job, when=ctx.now() + td(300 * MS), key="h")("new", 100 * MS)
            if then == "struck":
                await c.strike(job, "tag", "==", "h")
                await ctx.sleep_us(10 * MS)
            if tb is None:
                tb = serve(d2, "b", ctx, **kw)
            # (The lock under which a task is being scheduled outlives its owner by up to 10 s.)
            await ctx.sleep_us(6 * timeout + 4 * POLL + 2 * RES + 10 * S)
            ctx.check(rec.n("end", "w1") == 1, "a waiting task runs although the worker that parked it died", f"{then} died {st['fired']} parked {parked}: {rec.events}")
            ctx.reach(then)
            if parked and st["fired"]:
                ctx.reach("parked")
            ctx.observe(then, rec.n("end", "w1"))
            await stop(tb)
            ta.cancel()

    ctx.go(main)


def step_race(ctx: Ctx) -> None:
    """A cancel, replacement or add lands between any two Redis operations of the worker
    that starts, parks, releases or wakes tasks."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        job = task(ctx, rec)
        op = ctx.pick("op", ["cancel", "replace", "add", "none", "cancel holder"])
        n = 1 + ctx.choice("nth", ctx.p["ops"])
        part = ctx.choice("slow_part", 3)
        lag = ctx.p["lag"]
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2):
                x.register(job)
            ts = [serve(d, "a", ctx)]
            await c.add(job, key="h")("h", 200 * MS)
            await ctx.sleep_us(10 * MS)
            st = delay_at(ctx, "main", n, lag, lambda o: o not in ("GET_MESSAGE", "PIPELINE", "XREADGROUP", "XAUTOCLAIM"), after=part == 1, sent=part == 2)
            await c.add(job, key="w1")("w1", 100 * MS)
            ts.append(serve(d2, "b", ctx))
            at = ctx.int("at", 0, ctx.p["at"])
            await ctx.sleep_us(at)
            now = ctx.now_us()
            begun = rec.n("start", "w1")
            ended = rec.n("end", "w1")
            if op == "cancel":
                await c.cancel("w1")
            elif op == "replace":
                await c.replace(job, when=ctx.at(now), key="w1")("new", 100 * MS)
            elif op == "cancel holder":
                await c.cancel("h")
            elif op == "add":
                e2 = await c.add(job, key="w1")("new", 100 * MS)
            tie = await tied(ctx, rec, now, but=("interrupted",))
            await c.add(job, key="w2")("w2", 100 * MS)
            await ctx.sleep_us(lag + 2 * S)
            if tie:
                return
            ctx.check(rec.n("end", "w2") == 1, "a waiting task runs exactly once", f"{op} {n} {part}: {rec.events}")
            ctx.check(rec.max_running[None] == 1, "the limit holds", f"{op} {n} {part}: {rec.events}")
            if op in ("none", "cancel holder"):
                ctx.check(rec.n("end", "w1") == 1, "a waiting task runs exactly once", f"{op} {n} {part}: {rec.events}")
            if op in ("cancel", "replace") and not begun:
                ctx.check(rec.n("start", "w1") == 0, "a waiting task that was cancelled or replaced never runs", f"{op} {n} {part}: {rec.events}")
            if op == "replace":
                ctx.check(rec.n("end", "new") == 1, "the replacement runs exactly once", f"{n}: {rec.events}")
            if op == "add" and not ended:
                ctx.check(e2.disposition is Disposition.ALREADY_SCHEDULED and rec.n("start", "new") == 0 and rec.n("end", "w1") == 1, "an add under a waiting task's key is rejected", f"{n}: {e2.disposition} {rec.events}")
            if st["fired"]:
                ctx.reach(op)
            ctx.observe(op, rec.tags("start"))
            await stop(*ts)

    ctx.go(main)


OPS = ["cancel", "replace", "add", "replace then cancel", "cancel then add", "cancel both"]
HARNESSES = [
    Harness("waiting", waiting, "2 workers, limit 1, holder of 0.4s ending in 3 ways, 3 waiters of 0.1s; 6 operations on the first at any instant of [0,0.8s]; replacement due in [0,0.5s]",
            ["returns", "fails", "cancelled"] + ["waiting: " + o for o in OPS],
            quick={"dur": 400 * MS, "short": 100 * MS, "at": 800 * MS, "delay": 500 * MS}, thorough={"dur": S, "at": 2 * S, "delay": 1500 * MS}, budget_quick=110),
    Harness("rescue", rescue, "redelivery timeout 1s, holder's worker dies at any instant of [0,1.6s] of its run; up to 1.5s later the holder is cancelled or replaced, or a waiter cancelled",
            ["redelivered", "cancelled before redelivery", "replaced before redelivery"],
            quick={"timeout": S, "dies": 1600 * MS, "after": 1500 * MS}, thorough={"dies": 4 * S, "after": 3 * S}, budget_quick=90),
    Harness("stranded", stranded, "redelivery timeout 1s; the worker dies before or after any of its 8th to 19th operation (or is cut off right after) while it parks a task, the holder cancelled, replaced or struck at any instant of 1.2s before or after another worker comes", ["nothing", "cancelled", "replaced", "struck", "parked"],
            quick={"timeout": S, "from": 8, "ops": 12, "at": 1200 * MS}, thorough={"from": 1, "ops": 30, "at": 4 * S}, budget_quick=110),
    Harness("step_race", step_race, "any one of the first 16 operations of a worker, or their replies, delayed by 0.3s, operation on a waiter at any instant of [0,0.5s]", ["cancel", "replace", "add", "none", "cancel holder"],
            quick={"ops": 16, "lag": 300 * MS, "at": 500 * MS}, thorough={"ops": 30, "at": S}, budget_quick=120),
    many("waiters", "6 or 30 tasks for 2 or 10 slots, every fourth cancelled at any moment of 1.2 s", [6, 30]),
]
