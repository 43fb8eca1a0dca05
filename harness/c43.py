"""C43 What a run is told about itself is true."""
from datetime import timedelta
from typing import Any

from docket import CurrentDocket, CurrentExecution, CurrentWorker, Depends, Docket, Execution, Retry, TaskArgument, TaskKey, TaskLogger, Worker
from docket.dependencies import ConcurrencyLimit, Perpetual, RateLimit

from .c10 import WHO, serve, stop
from .lib import MS, S, Ctx, Harness, Rec, td, tied

FUNCTIONS = ["_CurrentWorker/_CurrentDocket/_CurrentExecution/_TaskKey/_TaskArgument/_TaskLogger.__aenter__", "resolved_dependencies", "Execution.from_message", "Execution.get_argument", "Worker._execute", "Worker._worker_loop", "Execution.specific_labels", "Retry.handle_failure", "Perpetual.on_complete", "ConcurrencyLimit.__aenter__"]
ASSUMPTIONS = ["virtual time: Redis operations take no time"]
RES, POLL = 400 * MS, 400 * MS


async def seen_by(ctx: Ctx, notes: list, i: Any, key: str, e: Execution, w: Worker, d: Docket, log: Any, more: Any) -> dict:
    """What a run is told, noted once more after it slept."""
    note = {"i": i, "who": WHO.get(), "now": ctx.now_us(), "told": [], "more": more, "docket": d}
    notes.append(note)

    def tell() -> None:
        note["told"].append({
            "key": key, "execution": e.key, "args": e.args, "kwargs": dict(e.kwargs), "function": e.function_name, "attempt": e.attempt, "redelivered": e.redelivered, "when": e.when,
            "worker": w.name, "docket": d.name, "extra": dict(log.extra), "state": e.state.value,
        })

    tell()
    await ctx.sleep_us(300 * MS)
    tell()
    return note


def what_was_submitted(ctx: Ctx, note: dict, key: str, args: tuple, kwargs: dict, function: str, attempt: int, redelivered: bool, lo: Any, hi: Any, dockets: dict) -> None:
    """Everything the run was told, against what was asked for."""
    for t in note["told"]:
        why = f"{key} {args} {kwargs} attempt {attempt} redelivered {redelivered} between {lo} and {hi}: {note}"
        ctx.check(t["key"] == key and t["execution"] == key, "a run is told its own key", why)
        ctx.check(len(t["args"]) == len(args) and all(bool(a == b) for a, b in zip(t["args"], args)) and set(t["kwargs"]) == set(kwargs) and all(bool(t["kwargs"][k] == kwargs[k]) for k in kwargs), "a run is told its own arguments", why)
        ctx.check(t["function"] == function, "a run is told its own function", why)
        ctx.check(t["attempt"] == attempt, "a run is told its attempt", why)
        ctx.check(t["redelivered"] is redelivered, "a run is told whether it was redelivered", why)
        ctx.check(bool(t["when"] >= ctx.at(lo)) and bool(t["when"] <= ctx.at(hi)), "a run is told when it was due", why)
        ctx.check(t["worker"] == note["who"] and note["docket"] is dockets[note["who"]], "a run is told its own worker and docket", why)
        ctx.check(t["extra"].get("docket.key") == key and t["extra"].get("docket.worker") == note["who"] and t["extra"].get("docket.task") == function and t["extra"].get("docket.attempt") == attempt, "a run's logger says what runs where", why)
        ctx.check(t["state"] == "running", "a run is told that it is running", why)


def mixed(ctx: Ctx) -> None:
    """Tasks of several kinds at once, on two workers that share a process."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        notes: list = []
        n = {"flaky": 0, "again": 0}

        async def inner(key: str = TaskKey(), e: Execution = CurrentExecution(), w: Worker = CurrentWorker(), i: int = TaskArgument(), x: int = TaskArgument("extra", optional=True)) -> tuple:
            await ctx.sleep_us(50 * MS)
            return key, e.key, w.name, i, x

        async def body(tag: str, i: Any, *told: Any) -> None:
            rec.start(tag)
            await seen_by(ctx, notes, (tag, i), *told)
            rec.end(tag)

        async def plain(i: int, extra: int = 0, key: str = TaskKey(), e: Execution = CurrentExecution(), w: Worker = CurrentWorker(), d: Docket = CurrentDocket(), log: Any = TaskLogger(), more: tuple = Depends(inner)) -> None:
            await body("plain", i, key, e, w, d, log, more)

        async def slot(i: int, key: str = TaskKey(), e: Execution = CurrentExecution(), w: Worker = CurrentWorker(), d: Docket = CurrentDocket(), log: Any = TaskLogger(), more: tuple = Depends(inner), limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)) -> None:
            await body("slot", i, key, e, w, d, log, more)

        async def rated(i: int, key: str = TaskKey(), e: Execution = CurrentExecution(), w: Worker = CurrentWorker(), d: Docket = CurrentDocket(), log: Any = TaskLogger(), more: tuple = Depends(inner), limit: RateLimit = RateLimit(1, per=timedelta(milliseconds=700))) -> None:
            await body("rated", i, key, e, w, d, log, more)

        async def flaky(i: int, key: str = TaskKey(), e: Execution = CurrentExecution(), w: Worker = CurrentWorker(), d: Docket = CurrentDocket(), log: Any = TaskLogger(), more: tuple = Depends(inner), retry: Retry = Retry(attempts=3, delay=timedelta(milliseconds=200))) -> None:
            await body("flaky", i, key, e, w, d, log, more)
            n["flaky"] += 1
            if n["flaky"] <= fails:
                raise ValueError("no")

        async def again(i: int, key: str = TaskKey(), e: Execution = CurrentExecution(), w: Worker = CurrentWorker(), d: Docket = CurrentDocket(), log: Any = TaskLogger(), more: tuple = Depends(inner), p: Perpetual = Perpetual(every=timedelta(milliseconds=600))) -> None:
            await body("again", i, key, e, w, d, log, more)
            n["again"] += 1
            if n["again"] == 1:
                p.perpetuate(i + 1)
            else:
                p.cancel()

        fns = [plain, slot, rated, flaky, again]
        fails = ctx.pick("fails", [0, 2])
        kind = ctx.pick("kind", ctx.p["kinds"])
        f = {x.__name__: x for x in fns}[kind]
        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                for y in fns:
                    x.register(y)
            ts = [serve(d, "a", ctx, concurrency=2), serve(d2, "b", ctx, concurrency=2)]
            await ctx.sleep_us(10 * MS)
            v0, v1 = ctx.int("v0", 0, 9), ctx.int("v1", 0, 9)
            t0 = ctx.now_us()
            later = ctx.int("later", 1, ctx.p["hi"])
            alias = ctx.bool("by name")
            await c.add("plain" if alias else plain, key="p")(v0, extra=v1)
            await c.add(plain, when=ctx.at(t0 + later), key="q")(v1)
            t1 = ctx.now_us()
            await c.add(f, key="k0")(v0)
            if kind in ("slot", "rated"):
                gap = ctx.int("gap", 0, 600 * MS)
                await ctx.sleep_us(gap)
                t2 = ctx.now_us()
                await c.add(f, key="k1")(i=v1)
            await ctx.sleep_us(ctx.p["hi"] + 5 * S)
            dockets = {"a": d, "b": d2}

            def of(tag: str, key: str) -> list:
                return [x for x in notes if x["i"][0] == tag and x["told"][0]["key"] == key]

            for key, args, kwargs, lo, hi in (("p", (v0,), {"extra": v1}, t0, t0 + MS), ("q", (v1,), {}, t0 + later, t0 + later)):
                got = of("plain", key)
                ctx.check(len(got) == 1, "a run is told its own key", f"{key}: {notes}")
                what_was_submitted(ctx, got[0], key, args, kwargs, "plain", 1, False, lo, hi, dockets)
                m = got[0]["more"]
                ctx.check(m[0] == key and m[1] == key and m[2] == got[0]["who"] and bool(m[3] == args[0]) and (bool(m[4] == v1) if kwargs else m[4] in (0, None)), "a dependency is told of the run it is for", f"{m}: {notes}")
            runs = of(kind, "k0")
            expect = {"flaky": fails + 1, "again": 2}.get(kind, 1)
            if kind == "plain":
                ctx.reach("plain")
            else:
                ctx.check(len(runs) == expect, "a run is told its own key", f"{kind} {expect}: {notes}")
            lo, hi = t1, t1 + MS
            for j, r in enumerate(runs):
                v = v0 + 1 if kind == "again" and j else v0
                what_was_submitted(ctx, r, "k0", (v,), {}, kind, j + 1 if kind == "flaky" else 1, False, lo, hi, dockets)
                m = r["more"]
                ctx.check(m[0] == "k0" and m[1] == "k0" and m[2] == r["who"] and bool(m[3] == v), "a dependency is told of the run it is for", f"{m}: {notes}")
                lo, hi = r["now"] + 300 * MS + 200 * MS - MS, r["now"] + 300 * MS + 200 * MS + MS
                if kind == "again":
                    lo, hi = r["now"], r["now"] + S
                ctx.reach(f"{kind} {j}")
            if kind in ("slot", "rated"):
                got = of(kind, "k1")
                ctx.check(len(got) == 1, "a run is told its own key", f"{notes}")
                what_was_submitted(ctx, got[0], "k1", (), {"i": v1}, kind, 1, False, t2, got[0]["now"], dockets)
                m = got[0]["more"]
                ctx.check(m[0] == "k1" and m[1] == "k1" and m[2] == got[0]["who"] and bool(m[3] == v1), "a dependency is told of the run it is for", f"{m}: {notes}")
                ctx.reach("held back" if bool(got[0]["now"] > t2 + 60 * MS) else "let through")
            ctx.observe(len(notes))
            await stop(*ts)

    ctx.go(main)


def history(ctx: Ctx) -> None:
    """A task whose worker dies, or which is replaced, while it waits or runs."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        notes: list = []

        async def job(i: int, key: str = TaskKey(), e: Execution = CurrentExecution(), w: Worker = CurrentWorker(), d: Docket = CurrentDocket(), log: Any = TaskLogger(), retry: Retry = Retry(attempts=2)) -> None:
            rec.start("job")
            await seen_by(ctx, notes, ("job", i), key, e, w, d, log, None)
            await ctx.sleep_us(200 * MS)
            rec.end("job")
            if i < 0:
                raise ValueError("no")

        async with ctx.docket() as d, ctx.docket("d2") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job)
            t = serve(d, "a", ctx, redelivery_timeout=td(S))
            await ctx.sleep_us(10 * MS)
            t0 = ctx.now_us()
            delay = ctx.pick("delay", [0, 500 * MS])
            v = ctx.int("v", -3, 3)
            e = await c.add(job, key="k", when=ctx.at(t0 + delay))(v)
            at = ctx.int("at", 0, ctx.p["hi"])
            await ctx.sleep_us(at)
            if await tied(ctx, rec, ctx.now_us()):
                ctx.reach("tied")
                await stop(t)
                return
            began, done = rec.n("start"), rec.n("end")
            what = ctx.pick("what", ["dies", "replaced", "looked at"])
            ts = [t]
            t1 = ctx.now_us()
            if what == "dies":
                ctx.ctl("main").dead = True
                ts = [serve(d2, "b", ctx, redelivery_timeout=td(S))]
            elif what == "replaced":
                e = await c.replace(job, ctx.at(t1 + 300 * MS), key="k")(7)
            else:
                got = await d2.get_execution("k")
                if done and not (bool(v < 0) and began < 2 and done < 2):
                    pass
                elif got is None:
                    ctx.fail("a task that is to run is known", f"{notes}")
                else:
                    ctx.check(got.key == "k" and len(got.args) == 1 and bool(got.args[0] == v) and got.function_name == "job", "an execution looked up is the task's", f"{got.args} {notes}")
                    if began > done:
                        ctx.check(got.state.value == "running" and got.worker == "a" and got.attempt == began, "an execution looked up says where it runs", f"{got.state} {got.worker} {notes}")
                        ctx.reach("looked at while it ran")
            known = len(notes)
            await ctx.sleep_us(ctx.p["settle"])
            dockets = {"a": d, "b": d2}
            whole = [x for x in notes if len(x["told"]) == 2 and (what != "dies" or x["who"] == "b" or done)]
            for j, x in enumerate(notes):
                if what == "dies" and x["who"] == "a" and j >= done:
                    continue  # its process is gone
                why = f"{what} at {at}: {rec.events} {notes}"
                first, new = x["told"][0], bool(x["i"][1] == 7)
                if new:
                    what_was_submitted(ctx, x, "k", (7,), {}, "job", 1, False, t1 + 300 * MS, t1 + 300 * MS, dockets)
                    ctx.reach("replaced")
                    continue
                again = what == "dies" and x["who"] == "b" and began > done and all(y["who"] != "b" for y in notes[:j])
                attempt = 1 + (sum(1 for y in notes[:j] if y["who"] == "b") if x["who"] == "b" else j) + (done if x["who"] == "b" else 0)
                first_run = attempt == 1
                lo, hi = (t0 + delay, t0 + delay + MS) if first_run else (t0, x["now"])
                ctx.check(first["attempt"] == attempt, "a run is told its attempt", f"{j} {attempt} {why}")
                what_was_submitted(ctx, x, "k", (v,), {}, "job", attempt, again, lo, hi, dockets)
                ctx.reach(f"attempt {attempt}")
                if again:
                    ctx.reach("redelivered")
            ctx.observe(what, known)
            await stop(*ts)

    ctx.go(main)


HARNESSES = [
    Harness("mixed", mixed, "two plain tasks (one within 0.9 s) and one or two of a kind - held by a slot or a rate, failing 0 or 2 times, perpetuating itself - with any arguments 0..9, 0 to 0.6 s apart, on two workers", ["plain", "slot 0", "rated 0", "flaky 0", "flaky 2", "again 1", "held back", "let through"],
            quick={"hi": 900 * MS, "kinds": ["plain", "slot", "rated", "flaky", "again"]}, thorough={"hi": 3 * S}, budget_quick=90),
    Harness("history", history, "a task of 0.5 s due now or in 0.5 s with any argument -3..3, failing if negative; at any moment of 1.3 s its worker dies, it is replaced or looked up", ["replaced", "redelivered", "attempt 1", "attempt 2", "looked at while it ran"],
            quick={"hi": 1300 * MS, "settle": 6 * S}, thorough={"hi": 3 * S}, budget_quick=60),
]
