"""C24 Live workers are listed, dead ones disappear."""
import asyncio

from docket import Worker

from .c10 import stop
from .many import many
from .lib import MS, S, Ctx, Harness, freeze, td

FUNCTIONS = ["Worker._heartbeat", "Worker._remove_heartbeat", "DocketSnapshotMixin.workers", "DocketSnapshotMixin.task_workers", "DocketSnapshotMixin.snapshot"]
ASSUMPTIONS = ["every docket object has the same heartbeat settings", "operations take no time unless delayed", "a heartbeat every interval exactly when limits are of one missed heartbeat"]
POLL, RES = 1700 * MS, 2300 * MS
BUILT_IN = {"trace", "fail", "sleep"}


def serving(ctx: Ctx, d, name: str):
    async def go() -> None:
        async with Worker(d, name=name, minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False, redelivery_timeout=td(60 * S)) as w:
            await w.run_forever()

    return asyncio.create_task(go())


async def a() -> None: ...
async def b() -> None: ...
async def c() -> None: ...


async def look(ctx: Ctx, viewer, how: str) -> dict:
    """Each listed worker's tasks, by one of the ways to ask."""
    if how == "workers":
        ws = await viewer.workers()
    elif how == "snapshot":
        ws = (await viewer.snapshot()).workers
    else:
        ws = await viewer.task_workers(how)
    out: dict = {}
    for w in ws:
        ctx.check(w.name not in out, "a worker is listed once", w.name)
        out[w.name] = (set(w.tasks), w.last_seen)
    return out


def listed(ctx: Ctx) -> None:
    """Two workers with different tasks; one exits or dies at any moment; asked at any moment."""

    async def main(ctx: Ctx) -> None:
        interval, missed = ctx.pick("settings", ctx.p["settings"])
        end = ctx.pick("end", ["exits", "exits busy", "dies", "stays"])
        how = ctx.pick("how", ctx.p["how"])
        settings = {"heartbeat_interval": td(interval), "missed_heartbeats": missed}
        age = interval * missed
        async with ctx.docket(**settings) as da, ctx.docket("other", **settings) as db, ctx.docket("viewer", **settings) as v:

            async def busy() -> None:
                await ctx.sleep_us(300 * MS)

            for f in (a, b):
                da.register(f)
            for f in (b, c):
                db.register(f)
            tasks = {"A": {"a", "b"} | BUILT_IN, "B": {"b", "c"} | BUILT_IN}
            if end == "exits busy":
                db.register(busy)
                tasks["B"].add("busy")
            ta = serving(ctx, da, "A")
            await ctx.sleep_us(ctx.pick("offset", ctx.p["offset"]))
            began = ctx.now_us()
            tb = serving(ctx, db, "B")
            await ctx.sleep_us(1)
            # In the quick tier one of the two moments is any, and the other one of a few.
            free = "both" if ctx.p["both"] else ctx.pick("free", ["life", "after"])
            life = ctx.int("life", 10 * MS, interval + interval // 2) if free != "after" and end != "stays" else ctx.pick("life", [10 * MS, interval - 10 * MS, interval + 10 * MS] if end != "stays" else [10 * MS])
            await ctx.sleep_us(life - 1)
            gone = None
            if end == "exits busy":
                await v.add(busy, key="k")()
                await ctx.sleep_us(POLL + 20 * MS)
            if end.startswith("exits"):
                tb.cancel()
                await asyncio.sleep(0)
                if end == "exits":
                    await stop(tb)
                gone = ctx.now_us()
            elif end == "dies":
                freeze(ctx, "other")
                gone = ctx.now_us()
            last_beat = None if gone is None else began + ((gone - began) // interval) * interval
            after = ctx.int("after", 1, age + interval // 2) if free != "life" and not end.startswith("exits") else ctx.pick("after", [1, interval + 1] if end.startswith("exits") else [1, age - interval, age - 20 * MS, age + 20 * MS])
            await ctx.sleep_us(after)
            got = await look(ctx, v, how)
            now = ctx.now_us()
            why = f"{how} every {interval} x{missed}: B from {began}, {end} {gone}, asked {now}: {got}"
            can = {n for n in "AB" if how in ("workers", "snapshot") or how in tasks[n]}
            for n in can:
                if n == "B" and gone is not None:
                    continue
                if bool((now - (began if n == "B" else 0)) % interval == 0):
                    continue  # as it beats
                ctx.check(n in got, "a running worker is listed", f"{n} {why}")
                if n in got:
                    ctx.check(got[n][0] == tasks[n], "a running worker is listed with exactly its tasks", f"{n} {why}")
                    seen = got[n][1]
                    ctx.check(seen <= ctx.at(now) and seen >= ctx.at(now - interval), "a running worker was seen at its last heartbeat", f"{n} {why}")
                ctx.reach("running")
            if end.startswith("exits"):
                ctx.check("B" not in got, "a worker that exited is not listed", why)
                ctx.reach("exited")
            elif end == "dies":
                if bool(now >= last_beat + age + 1 * MS):
                    ctx.check("B" not in got, "a worker that died disappears after the missed heartbeats", why)
                    ctx.reach("disappeared")
                elif "B" in got:
                    ctx.reach("not yet")
            ctx.check(set(got) <= can, "only workers that can run it are listed for a task", why)
            ctx.reach(how)
            ctx.observe(sorted(got), now)
            ta.cancel()
            tb.cancel()
            await stop(ta)

    ctx.go(main)


def restarted(ctx: Ctx) -> None:
    """A worker that exited or died comes back under its name, with other tasks."""

    async def main(ctx: Ctx) -> None:
        interval, missed = ctx.pick("settings", ctx.p["settings"])
        end = ctx.pick("end", ["exits", "dies"])
        settings = {"heartbeat_interval": td(interval), "missed_heartbeats": missed}
        async with ctx.docket(**settings) as d1, ctx.docket("again", **settings) as d2, ctx.docket("viewer", **settings) as v:
            for f in (a, b):
                d1.register(f)
            for f in (b, c):
                d2.register(f)
            t1 = serving(ctx, d1, "A")
            await ctx.sleep_us(interval // 3)
            if end == "dies":
                freeze(ctx, "main")
            else:
                await stop(t1)
            await ctx.sleep_us(ctx.int("pause", 1, interval * missed + 10 * MS))
            back = ctx.now_us()
            t2 = serving(ctx, d2, "A")
            await ctx.sleep_us(ctx.int("after", 1, interval * missed * 2))
            now = ctx.now_us()
            if bool((now - back) % interval == 0):
                return
            for how in ("workers", "b", "c"):
                got = await look(ctx, v, how)
                why = f"{how}: back at {back} asked {now}: {got}"
                ctx.check("A" in got and got["A"][0] == {"b", "c"} | BUILT_IN, "a running worker is listed with exactly its tasks", why)
            if bool(now >= interval // 3 + interval * missed):
                got = await look(ctx, v, "a")
                ctx.check(not got, "only workers that can run it are listed for a task", f"{now}: {got}")
                ctx.reach("forgotten")
            ctx.reach(end)
            ctx.observe(now)
            t1.cancel()
            await stop(t2)

    ctx.go(main)


def hiccups(ctx: Ctx) -> None:
    """A heartbeat fails (or is late), or tasks are registered later."""

    async def main(ctx: Ctx) -> None:
        from .lib import delay_at, fault_at

        interval, missed = ctx.pick("settings", ctx.p["settings"])
        what = ctx.pick("what", ["fails before", "fails after", "late", "registers"])
        settings = {"heartbeat_interval": td(interval), "missed_heartbeats": missed}
        async with ctx.docket(**settings) as d, ctx.docket("viewer", **settings) as v:
            d.register(a)
            t = serving(ctx, d, "A")
            await ctx.sleep_us(interval // 2)
            n = 1 + ctx.choice("beat", 4)  # the beat, or its statistics
            beats = lambda op: op == "PIPELINE"  # noqa: E731
            st = {"fired": False}
            if what.startswith("fails"):
                st = fault_at(ctx, "main", n, what == "fails after", match=beats)
            elif what == "late":
                st = delay_at(ctx, "main", n, ctx.pick("lag", [interval // 3, interval * (missed - 1) - 10 * MS]), match=beats)
            else:
                d.register(b)
                d.register(c)
            await ctx.sleep_us(ctx.int("after", 1, interval * (missed + 2)))
            now = ctx.now_us()
            if bool((now % interval < 2) if what != "late" else False):
                return
            got = await look(ctx, v, "workers")
            why = f"{what}: asked {now}: {got}"
            ctx.check("A" in got, "a running worker is listed", why)
            if what != "registers":
                ctx.check(got["A"][0] == {"a"} | BUILT_IN, "a running worker is listed with exactly its tasks", why)
            elif bool(now >= interval + 2):
                ctx.check(got["A"][0] == {"a", "b", "c"} | BUILT_IN, "a task registered later is listed from the next heartbeat", why)
                ctx.reach("registered")
            if st["fired"]:
                ctx.reach(what)
            ctx.observe(now)
            await stop(t)

    ctx.go(main)


QUICK = [(700 * MS, 3), (1900 * MS, 1)]
DEEP = [*QUICK, (300 * MS, 2), (700 * MS, 1), (700 * MS, 5), (1900 * MS, 2), (2 * S, 5)]
HARNESSES = [
    Harness("listed", listed, "2 heartbeat settings (7 thorough), 4 ways to end, 3 (5) ways to ask; any lifetime or (thorough: and) any moment of asking", ["running", "exited", "disappeared", "not yet", "workers", "snapshot", "b"],
            quick={"settings": QUICK, "both": False, "offset": [130 * MS], "how": ["workers", "snapshot", "b"]}, thorough={"both": True, "how": ["workers", "snapshot", "a", "b", "c"], "settings": DEEP, "offset": [0, 130 * MS]}, budget_quick=200),
    Harness("restarted", restarted, "a worker back under its name after any pause, asked at any moment", ["exits", "dies", "forgotten"],
            quick={"settings": [(700 * MS, 2), (1900 * MS, 1)]}, thorough={"settings": DEEP}, budget_quick=100),
    Harness("hiccups", hiccups, "one of two heartbeats failing or late, or tasks registered later", ["fails before", "fails after", "late", "registered"],
            quick={"settings": [(700 * MS, 2)]}, thorough={"settings": [x for x in DEEP if x[1] > 1]}, budget_quick=60),
    many("workers", "3 or 14 workers of two processes, half of them leaving", [3, 14]),
]
