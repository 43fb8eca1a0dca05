"""C41 The metrics count what happened, each thing once."""
from datetime import timedelta
from typing import Any

from opentelemetry import metrics

from docket import Perpetual, Retry
from docket.execution import Disposition

from .c10 import serve, stop
from .lib import MS, S, Ctx, Harness, Rec, delay_at, td, tied

FUNCTIONS = ["Worker._execute", "Worker._heartbeat", "Docket.add/replace/schedule/cancel", "Retry.handle_failure", "Perpetual.on_complete", "StrikeList._apply", "Worker.labels", "Docket.labels", "Execution.general_labels", "StrikeInstruction.labels"]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness", "measurements are read where the code hands them to OpenTelemetry's instruments; exporting them is not covered", "a task postponed or dropped by admission control is not part of these histories"]
RES, POLL = 500 * MS, 400 * MS
LOG: list = []


class Instrument:
    """Any of OpenTelemetry's instruments, keeping what it is given."""

    def __init__(self, name: str) -> None:
        self.name = name

    def add(self, amount: Any, attributes: Any = None, context: Any = None) -> None:
        LOG.append((self.name, amount, dict(attributes or {})))

    record = set = add


class Meter(metrics.Meter):
    def create_counter(self, name, *a, **k):
        return Instrument(name)

    create_up_down_counter = create_histogram = create_gauge = create_observable_counter = create_observable_gauge = create_observable_up_down_counter = create_counter


class Provider(metrics.MeterProvider):
    def get_meter(self, name, *a, **k):
        return Meter(name)


metrics.set_meter_provider(Provider())


def of(name: str, /, **labels: Any) -> list:
    """The measurements of one instrument with these labels."""
    want = {f"docket.{k}": v for k, v in labels.items()}
    return [a for n, a, at in LOG if n == f"docket_{name}" and all(at.get(k) == v for k, v in want.items())]


def total(name: str, /, **labels: Any) -> Any:
    return sum(of(name, **labels))


def near(a: Any, b: Any) -> bool:
    """Microseconds against float seconds."""
    d = a * S - b
    return bool(d < 1500) and bool(d > -1500)


def runs(ctx: Ctx) -> None:
    """Tasks that return, fail, are retried, perpetuate themselves, are cancelled, replaced or struck."""

    async def main(ctx: Ctx) -> None:
        LOG.clear()
        rec = Rec(ctx)
        whens: dict = {}
        spans: dict = {}
        attempts = ctx.pick("attempts", ctx.p["attempts"])
        fails = ctx.pick("fails", ctx.p["fails"])
        dur = ctx.pick("dur", [0, 300 * MS])
        n = {"flaky": 0, "again": 0}
        ok: dict = {}

        async def body(tag: str) -> None:
            t = ctx.now_us()
            rec.start(tag)
            whens.setdefault(tag, []).append(t)
            try:
                await ctx.sleep_us(dur)
            finally:
                rec.end(tag)
                spans.setdefault(tag, []).append(ctx.now_us() - t)
            ok[tag] = ok.get(tag, 0) + 1

        async def plain() -> None:
            await body("plain")

        async def later() -> None:
            await body("later")

        async def flaky(retry: Retry = Retry(attempts=attempts, delay=timedelta(milliseconds=300))) -> None:
            await body("flaky")
            n["flaky"] += 1
            if n["flaky"] <= fails:
                raise ValueError("no")

        async def again(perpetual: Perpetual = Perpetual(every=timedelta(milliseconds=600))) -> None:
            await body("again")
            n["again"] += 1
            if n["again"] == 3:
                perpetual.cancel()
            if n["again"] == 2:
                raise ValueError("not this time")

        fns = {f.__name__: f for f in (plain, later, flaky, again)}
        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                for f in fns.values():
                    x.register(f)
            t = serve(d, "w", ctx, concurrency=ctx.pick("conc", [1, 5]))
            await ctx.sleep_us(10 * MS)
            due = ctx.now_us() + 800 * MS
            es = {"plain": await c.add(plain, key="plain")(), "later": await c.add(later, when=ctx.at(due), key="later")(), "flaky": await c.add(flaky, key="flaky")(), "again": await c.add(again, key="again")()}
            scheduled = {"plain": 1, "later": 1, "flaky": 1, "again": 1}
            what = ctx.pick("what", ["nothing", "cancel", "replace", "strike", "duplicate"])
            of_ = ctx.pick("of", ["later", "flaky", "again"]) if what == "cancel" else "later"
            at = ctx.int("at", 0, ctx.p["hi"])
            await ctx.sleep_us(at)
            now = ctx.now_us()
            if await tied(ctx, rec, now):
                ctx.reach("tied")
                await stop(t)
                return
            for f in fns:
                ctx.check(bool(total("tasks_running", worker="w", task=f) == rec.n("start", f) - rec.n("end", f)), "the tasks counted as running are those that are running", f"{f} at {now}: {rec.events}")
                ctx.check(bool(total("tasks_started", worker="w", task=f) == rec.n("start", f)), "each run is counted as started, once", f"{f} at {now}: {rec.events} {LOG}")
            if rec.n("start") > rec.n("end"):
                ctx.reach("running")
            if what == "cancel":
                await c.cancel(of_)
            elif what == "replace":
                r = await c.replace(later, ctx.at(ctx.now_us() + 400 * MS), key="later")()
                scheduled["later"] += r.disposition is Disposition.SCHEDULED
            elif what == "strike":
                await c.strike("later")
            elif what == "duplicate":
                r = await c.add(later, when=ctx.at(ctx.now_us() + 400 * MS), key="later")()
                scheduled["later"] += r.disposition is Disposition.SCHEDULED
            await ctx.sleep_us(ctx.p["settle"])
            bad = {"flaky": min(fails, n["flaky"]), "again": int(n["again"] >= 2)}
            for f in fns:
                why = f"{f} {what} {of_} at {now}: {rec.events} {[x for x in LOG if x[2].get('docket.task') == f]}"
                started = rec.n("start", f)
                k = {"worker": "w", "task": f, "name": "d"}
                ctx.check(bool(total("tasks_started", **k) == started), "each run is counted as started, once", why)
                ctx.check(bool(total("tasks_completed", **k) == started), "each run is counted as completed, once", why)
                ctx.check(bool(total("tasks_running", **k) == 0), "the tasks counted as running are those that are running", why)
                ctx.check(bool(total("tasks_succeeded", **k) == ok.get(f, 0) - bad.get(f, 0)), "each run that returns is counted as succeeded", why)
                ctx.check(bool(total("tasks_failed", **k) == bad.get(f, 0)), "each run that raises is counted as failed", why)
                ctx.check(bool(total("tasks_redelivered", task=f) == 0), "a task that was not redelivered is not counted as such", why)
                retried = total("tasks_retried", task=f)
                ctx.check(bool(retried <= bad.get(f, 0)) and bool(retried >= started - 1) if f == "flaky" else bool(retried == 0), "each retry is counted, once", why)
                perpetuated = total("tasks_perpetuated", task=f)
                ctx.check(bool(perpetuated <= min(2, n["again"])) and bool(perpetuated >= started - 1) if f == "again" else bool(perpetuated == 0), "each perpetuation is counted, once", why)
                if what != "cancel":
                    ctx.check(bool(retried == min(bad.get(f, 0), attempts - 1)) if f == "flaky" else True, "each retry is counted, once", why)
                    ctx.check(bool(perpetuated == 2) if f == "again" else True, "each perpetuation is counted, once", why)
                ctx.check(bool(total("tasks_scheduled", task=f, name="d") == scheduled[f] + perpetuated), "each accepted schedule is counted, once", why)
                took = of("task_duration", **k)
                ctx.check(len(took) == started and all(near(a, b) for a, b in zip(took, spans.get(f, []))), "the duration recorded is how long the run took", f"{why} {spans}")
                late = of("task_punctuality", **k)
                ctx.check(len(late) == started and all(bool(x >= -0.001) and bool(x * S <= RES + POLL + 400 * MS + 1500) for x in late), "the punctuality recorded is how late the run started", why)
                if f == "later" and started == 1 and what in ("nothing", "cancel", "strike"):
                    ctx.check(near(late[0], whens[f][0] - due), "the punctuality recorded is how late the run started", f"{why} due {due}")
                struck = total("tasks_stricken", task=f)
                if f != "later" or what != "strike":
                    ctx.check(bool(struck == 0), "a task that was not struck is not counted as such", why)
                elif not started:
                    ctx.check(bool(struck == 1), "each struck task is counted, once", why)
                    ctx.reach("struck")
            added = [total("tasks_cancelled"), total("tasks_replaced", task="later")]
            ctx.check(added[0] >= (what == "cancel") and added[1] >= (what == "replace"), "cancellations and replacements are counted", f"{what} {added}")
            ctx.reach(what)
            if bad["flaky"]:
                ctx.reach("failed")
            ctx.observe(what, rec.n("start"))
            await stop(t)

    ctx.go(main)


def redelivered(ctx: Ctx) -> None:
    """The worker dies at any operation, another takes over."""

    async def main(ctx: Ctx) -> None:
        LOG.clear()
        rec = Rec(ctx)

        async def job() -> None:
            rec.start("job")
            await ctx.sleep_us(600 * MS)
            rec.end("job")

        async with ctx.docket() as d, ctx.docket("d2") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job)
            t = serve(d, "a", ctx, redelivery_timeout=td(S))
            await ctx.sleep_us(10 * MS)
            await c.add(job, key="k")()
            dies = ctx.int("dies", 0, ctx.p["hi"])
            await ctx.sleep_us(dies)
            if await tied(ctx, rec, ctx.now_us()):
                ctx.reach("tied")
                await stop(t)
                return
            ctx.ctl("main").dead = True
            began, done = rec.n("start"), rec.n("end")
            t2 = serve(d2, "b", ctx, redelivery_timeout=td(S))
            await ctx.sleep_us(ctx.p["settle"])
            why = f"died at {dies}: {rec.events} {LOG}"
            for w, first in (("a", began), ("b", 0)):
                started = first if w == "a" else int(not done)
                ctx.check(bool(total("tasks_started", worker=w, task="job") == started), "each run is counted as started, once", f"{w} {why}")
                if w == "b":
                    ctx.check(bool(total("tasks_completed", worker=w, task="job") == started), "each run is counted as completed, once", f"{w} {why}")
                    ctx.check(bool(total("tasks_succeeded", worker=w, task="job") == started), "each run that returns is counted as succeeded", f"{w} {why}")
                    ctx.check(bool(total("tasks_running", worker=w, task="job") == 0), "the tasks counted as running are those that are running", f"{w} {why}")
                again = w == "b" and began and not done
                ctx.check(bool(total("tasks_redelivered", worker=w, task="job") == int(bool(again))), "each redelivered run is counted as such", f"{w} {why}")
            ctx.reach("redelivered" if began and not done else "delivered once")
            ctx.observe(began, done)
            await stop(t2)

    ctx.go(main)


def depths(ctx: Ctx) -> None:
    """What a worker's heartbeat says is due and scheduled, as tasks come due, run and end."""

    async def main(ctx: Ctx) -> None:
        LOG.clear()
        rec = Rec(ctx)
        beat = 700 * MS

        async def job(i: int) -> None:
            rec.start(i)
            await ctx.sleep_us(ctx.p["dur"])
            rec.end(i)

        async with ctx.docket(heartbeat_interval=td(beat)) as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(job)
            delays = [0, ctx.int("delay1", 1, ctx.p["hi"]), ctx.int("delay2", 1, ctx.p["hi"])]
            due = {}
            for i, delay in enumerate(delays):
                due[i] = ctx.now_us() + delay
                await c.add(job, when=ctx.at(due[i]), key=f"k{i}")(i)
            await ctx.sleep_us(1)
            seen: list = []
            post = Instrument.add

            def reading(self, amount, attributes=None, context=None):
                post(self, amount, attributes, context)
                if self.name in ("docket_queue_depth", "docket_schedule_depth"):
                    seen.append((self.name, amount, ctx.now_us(), {i for i in due if rec.n("end", i)}, dict(attributes or {})))

            Instrument.set = reading
            try:
                t = serve(d, "w", ctx, concurrency=ctx.pick("conc", [1, 5]))
                await ctx.sleep_us(ctx.p["settle"])
                await stop(t)
            finally:
                Instrument.set = post
            ctx.check(len(seen) >= 2 * (ctx.p["settle"] // beat - 1), "the depths are reported with each heartbeat", f"{seen}")
            for name, amount, at, ended, attributes in seen:
                why = f"{name} {amount} at {at}: {due} {ended} {rec.events}"
                if any(bool(at == x) for x in due.values()) or any(k == "end" and bool(at == x) for k, _, x in rec.events):
                    ctx.reach("tied")
                    continue
                ctx.check(attributes == {"docket.name": "d"}, "depths are those of the docket", why)
                if name == "docket_schedule_depth":
                    ctx.check(amount == sum(1 for x in due.values() if bool(x > at)), "the schedule depth is the number of tasks due later", why)
                    ctx.reach(f"later {amount}")
                else:
                    ctx.check(amount == sum(1 for i, x in due.items() if bool(x < at) and i not in ended), "the queue depth is the number of tasks due and not over", why)
                    ctx.reach(f"due {amount}")
            ctx.observe(len(seen))

    ctx.go(main)


def outages(ctx: Ctx) -> None:
    """A task's life with Redis slow at any of its operations."""

    async def main(ctx: Ctx) -> None:
        LOG.clear()
        rec = Rec(ctx)
        fails = ctx.pick("fails", [0, 1, 2])

        async def job(retry: Retry = Retry(attempts=2)) -> None:
            rec.start("job")
            await ctx.sleep_us(300 * MS)
            rec.end("job")
            if rec.n("end") <= fails:
                raise ValueError("no")

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(job)
            t = serve(d, "w", ctx)
            await ctx.sleep_us(10 * MS)
            st = delay_at(ctx, "main", 1 + ctx.choice("op", ctx.p["ops"]), ctx.int("lag", 0, ctx.p["lag"]), match=lambda op: op.upper() != "XREADGROUP", sent=ctx.bool("sent"))
            await c.add(job, key="k")()
            await ctx.sleep_us(ctx.p["settle"])
            why = f"{rec.events} {LOG}"
            k = {"worker": "w", "task": "job"}
            started = rec.n("start")
            ctx.check(started == min(2, fails + 1), "a failed task is retried", why)
            ctx.check(bool(total("tasks_started", **k) == started) and bool(total("tasks_completed", **k) == started) and bool(total("tasks_running", **k) == 0), "each run is counted as started and completed, once", why)
            ctx.check(bool(total("tasks_failed", **k) == fails) and bool(total("tasks_succeeded", **k) == started - fails), "each run is counted as succeeded or failed", why)
            ctx.check(bool(total("tasks_retried", **k) == min(fails, 1)), "each retry is counted, once", why)
            ctx.reach(f"fails {fails}")
            if st["fired"]:
                ctx.reach("slow")
            ctx.observe(fails)
            await stop(t)

    ctx.go(main)


def strikes(ctx: Ctx) -> None:
    """Any history of strikes and restorations by two clients."""

    async def main(ctx: Ctx) -> None:
        LOG.clear()
        async with ctx.docket("client") as c, ctx.docket("other") as o:
            active: set = set()
            history = []
            kinds = [("f", None, "==", None), ("f", "a", "==", 1), (None, "a", ">", 2)]
            for i in range(ctx.p["n"]):
                k = kinds[ctx.choice(f"kind{i}", 3)]
                restore = bool(ctx.bool(f"restore{i}"))
                by = ctx.pick(f"by{i}", [c, o]) if i else c
                args = k if k[1] else k[:1]
                await (by.restore if restore else by.strike)(*args)
                history.append((restore, k))
                already = (k in active) != restore
                (active.discard if restore else active.add)(k)
                if already:
                    ctx.reach("nothing new")
            await ctx.sleep_us(ctx.pick("wait", [100 * MS, 3 * S]))
            for k in kinds:
                label = {"task": k[0]} if k[0] else {}
                if k[1]:
                    label |= {"parameter": k[1], "operator": k[2], "value": repr(k[3])}
                got = sum(a for n, a, at in LOG if n == "docket_strikes_in_effect" and {x: v for x, v in at.items() if x != "docket.name"} == {f"docket.{x}": v for x, v in label.items()})
                ctx.check(got == 2 * (k in active), "the strikes counted as in effect are those that are, in each client", f"{history}: {k} {got}")
            ctx.reach(f"{len(active)} in effect")
            ctx.observe(len(active))

    ctx.go(main)


HARNESSES = [
    Harness("runs", runs, "a task run at once, one due in 0.8 s, one failing 0 to 2 times of up to 2 attempts, one perpetuating itself twice; one of them cancelled, replaced, struck or submitted again at any moment of 1.5 s", ["running", "nothing", "cancel", "replace", "strike", "struck", "duplicate", "failed"],
            quick={"hi": 1500 * MS, "settle": 5 * S, "attempts": [2], "fails": [0, 1, 2]}, thorough={"hi": 3 * S, "attempts": [1, 2, 3], "fails": [0, 1, 2, 3]}, budget_quick=120),
    Harness("redelivered", redelivered, "the worker frozen at any moment of 1.5 s of a task of 0.6 s", ["redelivered", "delivered once"],
            quick={"hi": 1500 * MS, "settle": 6 * S}, thorough={"hi": 3 * S}, budget_quick=40),
    Harness("depths", depths, "three tasks due at any moments of 2.5 s, heartbeats of 0.7 s", ["later 0", "later 1", "later 2", "due 0", "due 1", "due 2"],
            quick={"hi": 2500 * MS, "dur": 900 * MS, "settle": 6 * S}, thorough={"hi": 5 * S, "settle": 9 * S}, budget_quick=60),
    Harness("outages", outages, "a task of up to 2 attempts, one of the worker's operations taking any time up to 1.5 s", ["fails 0", "fails 1", "fails 2", "slow"],
            quick={"ops": 12, "lag": 1500 * MS, "settle": 6 * S}, thorough={"ops": 24, "lag": 3 * S, "settle": 10 * S}, budget_quick=60),
    Harness("strikes", strikes, "3 strikes or restorations of 3 kinds by two clients, in any order", ["nothing new", "0 in effect", "1 in effect", "2 in effect", "3 in effect"],
            quick={"n": 3}, thorough={"n": 5}, budget_quick=40),
]
