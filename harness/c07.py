"""C07 A task runs with exactly the definition that was submitted."""
import asyncio
import copy
from datetime import datetime

from docket import ConcurrencyLimit, CurrentExecution, Perpetual, RateLimit, Retry, Worker
from docket.execution import Execution

from .c10 import WHO, serve, stop
from .lib import MS, S, Ctx, Harness, Rec, freeze, td

FUNCTIONS = [
    "Execution.as_message", "Execution.from_message", "_schedule (Lua)", "_stream_due_tasks (Lua)", "_acquire_or_park (Lua)", "_release_and_wake (Lua)", "Docket.add", "Docket.replace",
    "Docket.get_execution", "Execution.sync", "Execution.schedule", "Perpetual.on_complete", "Retry.handle_failure", "Worker._worker_loop", "Worker._execute",
    "Worker._schedule_all_automatic_perpetual_tasks",
]
ASSUMPTIONS = ["arguments are pickled and unpickled by the real cloudpickle (symbolic integers pickle to themselves)", "virtual time: Redis operations take no time unless delayed by the harness"]
RES, POLL = 500 * MS, 400 * MS

KEYS = ["k", "a key\twith \"quotes\"\\\n", "ключ:{x}*?[a]", "__k__:1", "%s:lock", " "]
VALUES = [None, "", "text:1", b"\x00\xff", [1, {"a": (2,)}], datetime(2024, 1, 2, 3), 1.5, True]
PATHS = ["immediate", "future", "replaced", "parked", "retried at once", "retried later", "postponed", "perpetual", "redelivered"]


async def ready(d) -> None:
    """A docket that workers have worked on before."""
    async with d.redis() as r:
        await r.xgroup_create(groupname=d.worker_group_name, name=d.stream_key, id="0-0", mkstream=True)



def definition(ctx: Ctx) -> None:
    """One task through each storage hop; what its body and lookups see."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        path = ctx.pick("path", ctx.p["paths"])
        key = ctx.pick("key", KEYS)
        name = ctx.pick("name", ["job", "alias:1"])
        value = ctx.pick("value", VALUES) if key == "k" else "v"
        n = ctx.int("n", -5, 5)
        seen: list = []
        limits = {
            "parked": ConcurrencyLimit("who", 1), "postponed": RateLimit(1, per=td(600 * MS)), "perpetual": Perpetual(every=td(500 * MS)),
            "retried at once": Retry(attempts=2), "retried later": Retry(attempts=2, delay=td(300 * MS)),
        }

        async def other(who: str, limit: ConcurrencyLimit = ConcurrencyLimit("who", 1)) -> None:
            await ctx.sleep_us(300 * MS)

        async def body(e: Execution, i, who, rest, more) -> None:
            seen.append((e.key, e.function_name, *copy.deepcopy((e.args, e.kwargs)), e.when, e.attempt, e.redelivered, copy.deepcopy((i, who, rest, more)), ctx.now_us(), WHO.get("?")))
            if isinstance(rest[-1] if rest else None, list):
                rest[-1].append("changed by the body")
                rest[-1][1]["a"] = 0
            if path.startswith("retried") and e.attempt == 1:
                raise ValueError("again")
            if path == "redelivered" and WHO.get("?") == "a":
                await ctx.sleep_us(20 * S)

        if path in limits:

            async def job(i: int, *rest: object, who: str = "w", e: Execution = CurrentExecution(), p=limits[path], **more: object) -> None:
                if path == "perpetual" and len(seen) >= 2:
                    p.cancel()
                await body(e, i, who, rest, more)
        else:

            async def job(i: int, *rest: object, who: str = "w", e: Execution = CurrentExecution(), **more: object) -> None:
                await body(e, i, who, rest, more)

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job, names=[name])
                x.register(other)

            async def look(where: str, attempt=None) -> None:
                e = await c.get_execution(key)
                if e is None:
                    ctx.check(False, "a lookup finds the task", f"{path} {where}")
                ctx.check((e.key, e.function_name, e.args, e.kwargs) == (key, name, (n, "x", value), {"who": "me", "extra": n + 1}), "a lookup shows the definition that was submitted",
                          f"{path} {where}: {(e.key, e.function_name, e.args, e.kwargs)}")
                if attempt is not None:
                    ctx.check(e.attempt == attempt, "a lookup shows the attempt", f"{path} {where}: {e.attempt} for {attempt}")

            delay = ctx.int("delay", 1, ctx.p["delay"]) if path in ("future", "replaced") else 0
            if path == "parked":
                await c.add(other, key="o")("me")
            if path == "postponed":
                await c.add(name, key="o")(0)
            ta = serve(d, "a", ctx, redelivery_timeout=td(S))
            if path in ("parked", "postponed"):
                await ctx.sleep_us(10 * MS)
            due = ctx.now_us() + delay
            if path == "replaced":
                await c.add(name, when=ctx.at(ctx.now_us() + 2 * S), key=key)(99)
            make = c.replace if path == "replaced" else c.add
            e = await make(name, when=ctx.at(due), key=key)(n, "x", value, who="me", extra=n + 1)
            ctx.check((e.key, e.function_name, e.args, e.kwargs, e.attempt) == (key, name, (n, "x", value), {"who": "me", "extra": n + 1}, 1), "the submission reports the definition", path)
            await look("submitted", 1)
            tb = None
            if path == "redelivered":
                await ctx.sleep_us(10 * MS)
                freeze(ctx, "main")
                tb = serve(d2, "b", ctx, redelivery_timeout=td(S))
            await ctx.sleep_us(20 * MS)
            await look("later", 2 if path == "retried later" else None)
            await ctx.sleep_us(ctx.p["delay"] + RES + POLL + S)
            mine = [s for s in seen if s[0] == key]
            want = 2 if path.startswith("retried") or path in ("perpetual", "redelivered") else 1
            ctx.check(len(mine) >= want, "the task runs", f"{path}: {mine}")
            for j, s in enumerate(mine[:want]):
                ctx.check(s[1] == name, "the body sees its function's name", f"{path} run {j + 1}: {s[1]}")
                ctx.check((s[2], s[3]) == ((n, "x", value), {"who": "me", "extra": n + 1}), "the body sees the arguments that were submitted", f"{path} run {j + 1}: {s[2]} {s[3]}")
                ctx.check(s[7] == (n, "me", ("x", value), {"extra": n + 1}), "the function is called with the arguments that were submitted", f"{path} run {j + 1}: {s[7]}")
                ctx.check(s[5] == (j + 1 if path.startswith("retried") else 1), "the body sees its attempt number", f"{path} run {j + 1}: {s[5]}")
                ctx.check(s[6] == (path == "redelivered" and s[9] == "b"), "the body sees whether it was redelivered", f"{path}: {s[6]}")
                if j == 0 and path != "postponed":
                    ctx.check(s[4] == ctx.at(due), "the body sees the due time that was submitted", f"{path} run {j + 1}: {s[4]}")
                if path == "redelivered" and j == 1:
                    ctx.check(s[4] == ctx.at(due), "the body sees the due time that was submitted", f"{path} run {j + 1}: {s[4]}")
            if path not in ("perpetual", "redelivered"):
                await look("ended")
            ctx.reach(path)
            ctx.reach(name)
            ctx.observe(len(mine), path, key)
            ta.cancel()
            if tb is not None:
                await stop(tb)
            else:
                await stop(ta)

    ctx.go(main)


def unreadable(ctx: Ctx) -> None:
    """A stored task that cannot be read or described, among others."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        bad = ctx.pick("bad", ["arguments", "when", "attempt", "description", "unknown function", "no key"])
        future = bool(ctx.bool("future"))
        order = ctx.choice("order", 3)

        async def job(i: int) -> None:
            rec.start(i)
            rec.end(i)

        from typing import Annotated

        from docket import Logged

        class Odd:
            def __repr__(self) -> str:
                raise ValueError("no repr")

        async def odd(i: int, x: Annotated[object, Logged]) -> None:
            rec.start(i)
            rec.end(i)

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(job)
                x.register(odd)
            await ready(d)
            gap = ctx.int("gap", 0, ctx.p["gap"])
            t = serve(d, "a", ctx, redelivery_timeout=td(S))
            for i in range(3):
                if i == order:
                    if bad == "unknown function":

                        async def unheard(i: int) -> None:
                            rec.start(i)

                        c.register(unheard)
                        await c.add(unheard, key="bad")(9)
                    elif bad == "description":
                        await c.add(odd, key="bad", when=ctx.at(ctx.now_us() + (300 * MS if future else 0)))(7, Odd())
                    else:
                        e = Execution(c, job, (8,), {}, "bad", ctx.at(ctx.now_us() + (300 * MS if future else 0)), attempt=1)
                        message = e.as_message()
                        if bad == "arguments":
                            message[b"args"] = b"\x80\x05cno_such_module\nThing\n."
                        elif bad == "when":
                            message[b"when"] = b"soon"
                        elif bad == "attempt":
                            message[b"attempt"] = b"first"
                        elif bad == "no key":
                            del message[b"key"]
                        async with c.redis() as r:
                            if future and bad != "no key":
                                await r.hset(c.parked_task_key("bad"), mapping=message)
                                await r.zadd(c.queue_key, {"bad": e.when.timestamp()})
                            else:
                                await r.xadd(c.stream_key, message)
                await c.add(job, key=f"k{i}")(i)
                await ctx.sleep_us(gap)
            await ctx.sleep_us(RES + POLL + 3 * S)
            for i in range(3):
                ctx.check(rec.n("end", i) == 1, "a task that cannot be read does not hold up the others", f"{bad}: {rec.events}")
            if bad == "description":
                ctx.check(rec.n("end", 7) == 1, "a task whose arguments cannot be described still runs", str(rec.events))
            async with c.redis() as r:
                left = (await r.xlen(c.stream_key)) + (await r.zcard(c.queue_key))
            ctx.check(left == 0, "a task that cannot be read is not delivered again and again", f"{bad} {left}")
            if bad in ("arguments", "when", "attempt"):
                async with c.redis() as r:
                    state = await r.hget(c.runs_key("bad"), "state")
                ctx.check(state == b"failed", "a task that cannot be read is recorded as failed", f"{bad} {state}")
            ctx.check(not t.done(), "a task that cannot be read does not stop the worker", bad)
            ctx.reach(bad)
            ctx.observe(rec.tags("start"))
            await stop(t)

    ctx.go(main)


def older(ctx: Ctx) -> None:
    """Tasks stored by older versions, lacking the fields those did not write."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        seen: list = []
        where = ctx.pick("where", ["scheduled", "queued"])
        runs = bool(ctx.bool("runs record"))
        then = ctx.pick("then", ["nothing", "added", "replaced", "cancelled"])

        async def job(i: int, *, tag: str, e: Execution = CurrentExecution()) -> None:
            rec.start(tag)
            seen.append((i, tag, e.key, e.attempt, e.when))
            rec.end(tag)

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(job)
            await ready(d)
            delay = ctx.int("delay", 0, ctx.p["delay"])
            due = ctx.now_us() + (delay if where == "scheduled" else 0)
            e = Execution(c, job, (5,), {"tag": "old"}, "k", ctx.at(due), attempt=2)
            message = e.as_message()
            del message[b"generation"]
            async with c.redis() as r:
                if where == "scheduled":
                    await r.hset(c.parked_task_key("k"), mapping=message)
                    await r.zadd(c.queue_key, {"k": e.when.timestamp()})
                else:
                    mid = await r.xadd(c.stream_key, message)
                    await r.set(c.stream_id_key("k"), mid)
                await r.set(c.known_task_key("k"), str(e.when.timestamp()))
                if runs:
                    await r.hset(c.runs_key("k"), mapping={"state": "scheduled" if where == "scheduled" else "queued", "when": str(e.when.timestamp())})
            at = ctx.int("at", 0, ctx.p["delay"])
            first = bool(ctx.bool("before the worker")) if then != "nothing" else False
            t = None
            if not first:
                t = serve(d, "a", ctx)
            await ctx.sleep_us(at)
            started = rec.n("start", "old")
            now = ctx.now_us()
            if then == "added":
                r = await c.add(job, key="k")(6, tag="new")
            elif then == "replaced":
                r = await c.replace(job, when=ctx.at(ctx.now_us()), key="k")(6, tag="new")
            elif then == "cancelled":
                await c.cancel("k")
            if t is None:
                t = serve(d, "a", ctx)
            await ctx.sleep_us(1)
            tie = any(bool(x == now) for k, g, x in rec.events if g == "old")
            await ctx.sleep_us(2 * ctx.p["delay"] + RES + POLL + S)
            if tie:
                await stop(t)
                return
            old = 1 if then in ("nothing", "added") or started else 0
            ctx.check(rec.n("end", "old") == old, "an older version's task runs once unless replaced or cancelled", f"{where} {then} {started}: {rec.events}")
            for i, tag, key, attempt, when in seen:
                if tag == "old":
                    ctx.check((i, key, attempt, when) == (5, "k", 2, ctx.at(due)), "an older version's task runs with its definition", str(seen))
            if then == "added":
                ctx.check(rec.n("end", "new") == (1 if started else 0), "an older version's task holds its key", f"{where} {started} {r.disposition}: {rec.events}")
            if then == "replaced":
                ctx.check(rec.n("end", "new") == 1, "the replacement of an older version's task runs", f"{where} {started}: {rec.events}")
            ctx.reach(where)
            ctx.reach(then)
            ctx.observe(rec.tags("start"), started)
            await stop(t)

    ctx.go(main)


def automatic(ctx: Ctx) -> None:
    """Automatic perpetual tasks registered under other names than their own."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        n = 1 + ctx.choice("n", 2)
        named = ctx.pick("named", ["own", "alias", "both"])

        def make(i: int):
            async def auto(e: Execution = CurrentExecution(), p: Perpetual = Perpetual(every=td(ctx.p["every"]), automatic=True)) -> None:
                rec.start((i, e.function_name))

            auto.__name__ = f"auto{i}"
            return auto

        tasks = [make(i) for i in range(n)]
        async with ctx.docket() as d, ctx.docket("b") as d2:
            for x in (d, d2):
                for i, f in enumerate(tasks):
                    x.register(f, names={"own": None, "alias": [f"alias{i}"], "both": [f"auto{i}", f"alias{i}"]}[named])

            async def run(x, name: str) -> None:
                async with Worker(x, name=name, minimum_check_interval=td(POLL), scheduling_resolution=td(RES)) as w:
                    await w.run_forever()

            loop = asyncio.get_running_loop()
            at = ctx.int("at", 0, ctx.p["every"])
            ts = [loop.create_task(run(d, "a"))]
            await ctx.sleep_us(at)
            ts.append(loop.create_task(run(d2, "b")))
            await ctx.sleep_us(2 * ctx.p["every"])
            ctx.check(not any(t.done() for t in ts), "the workers start", f"{named}: {[t.done() and t.exception() for t in ts]}")
            for i in range(n):
                runs = [g for g in rec.tags("start") if g[0] == i]
                ctx.check(len(runs) >= 2, "an automatic task runs whatever its name", f"{named} {rec.events}")
                names = {"own": [f"auto{i}"], "alias": [f"alias{i}"], "both": [f"auto{i}", f"alias{i}"]}[named]
                ctx.check(all(g[1] in names for g in runs), "an automatic task runs under a name it was registered with", f"{named} {rec.events}")
            ctx.reach(named)
            ctx.observe(rec.tags("start"))
            await stop(*ts)

    ctx.go(main)


HARNESSES = [
    Harness("definition", definition, "each of 9 storage paths, 6 key texts, 8 argument values next to symbolic integers in [-5,5], registered name or alias, due in [0,0.6s]", PATHS + ["alias:1", "job"],
            quick={"paths": PATHS, "delay": 600 * MS}, thorough={"delay": 2 * S}, budget_quick=110),
    Harness("unreadable", unreadable, "one of 6 kinds of unreadable task, queued or due in 0.3s, before, between or after others submitted up to 0.5s apart", ["arguments", "when", "attempt", "description", "unknown function", "no key"],
            quick={"gap": 500 * MS}, thorough={"gap": 2 * S}, budget_quick=60),
    Harness("older", older, "a task without generation, with legacy bookkeeping, with or without a run record, due in [0,0.7s]; key added to, replaced or cancelled up to 0.7s later, before or after a worker starts",
            ["scheduled", "queued", "nothing", "added", "replaced", "cancelled"], quick={"delay": 700 * MS}, thorough={"delay": 2 * S}, budget_quick=80),
    Harness("automatic", automatic, "1 or 2 automatic tasks under their own name, an alias or both, on 2 workers started up to 1s apart", ["own", "alias", "both"], quick={"every": S}, thorough={"every": 2 * S}, budget_quick=60),
]
