"""Crowds: the same guarantees with dozens of tasks, workers, waiters or strikes instead of a few."""
import asyncio
from datetime import timedelta

from docket import Agenda
from docket.dependencies import ConcurrencyLimit, Perpetual, RateLimit

from .lib import MS, S, Ctx, Harness, Rec, td

RES = 300 * MS


def many(kind: str, bounds: str, sizes: list, reach: list | None = None, budget: int = 40) -> Harness:
    def fn(ctx: Ctx) -> None:
        async def main(ctx: Ctx) -> None:
            from .c10 import serve, stop

            rec = Rec(ctx)
            n = ctx.pick("n", ctx.p["sizes"])
            at = ctx.int("at", 1, ctx.p["hi"])
            dur = 400 * MS
            busy: dict = {}

            async def body(i: int) -> None:
                rec.start(i)
                try:
                    await ctx.sleep_us(dur + i * MS)
                finally:
                    rec.end(i)

            async def job(i: int) -> None:
                await body(i)

            async def limited(i: int, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=max(1, n // 3))) -> None:
                await body(i)

            async def rated(i: int, limit: RateLimit = RateLimit(max(1, n // 3), per=timedelta(seconds=1))) -> None:
                await body(i)

            async def again(i: int, perpetual: Perpetual = Perpetual(every=timedelta(seconds=1))) -> None:
                await body(i)

            fns = [job, limited, rated, again]
            f = {"slots": limited, "waiters": limited, "rate": rated, "perpetual": again}.get(kind, job)
            kw = dict(minimum_check_interval=td(RES), scheduling_resolution=td(RES), redelivery_timeout=td(2 * S))
            async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
                for x in (d, d2, c):
                    for g in fns:
                        x.register(g)
                e = {}

                async def submit(delay=None) -> None:
                    for i in range(n):
                        e[i] = await c.add(f, key=f"k{i}", **({} if delay is None else {"when": ctx.at(ctx.now_us() + delay(i))}))(i)

                def most() -> int:
                    """The most bodies running at once."""
                    now = top = 0
                    for k, _, _ in rec.events:
                        now += {"start": 1, "end": -1}.get(k, 0)
                        top = max(top, now)
                    return top

                if kind == "dies":
                    ta = serve(d, "a", ctx, concurrency=n // 2 + 1, **kw)
                    await ctx.sleep_us(10 * MS)
                    await submit()
                    await ctx.sleep_us(at)
                    if any(bool(t == ctx.now_us()) for _, _, t in rec.events) or any(bool(ctx.now_us() == t + dur + i * MS) for k, i, t in rec.events):
                        ctx.reach("tied")
                        await stop(ta)
                        return
                    ctx.ctl("main").dead = True
                    gone = len(rec.events)
                    ended = {i for k, i, _ in rec.events if k == "end"}
                    tb = serve(d2, "b", ctx, concurrency=n // 3 + 1, **kw)
                    await ctx.sleep_us(12 * S)
                    # the dead worker's bodies go on in this process: their ends don't count
                    late = [i for k, i, _ in rec.events[gone:] if k == "start"]
                    ctx.check(sorted(late) == sorted(set(range(n)) - ended), "each task a dead worker left behind is run, once", f"{n} died at {at}: {rec.events}")
                    await stop(tb)
                elif kind == "concurrency":
                    ta = serve(d, "a", ctx, concurrency=n, **kw)
                    await ctx.sleep_us(at)
                    await submit()
                    for i in range(n, 2 * n):
                        e[i] = await c.add(f, key=f"k{i}")(i)
                    await ctx.sleep_us(8 * S)
                    ctx.check(most() == n, "a worker runs as many tasks as its concurrency, not more", f"{n}: {most()}")
                    ctx.check(all(rec.n("start", i) == rec.n("end", i) == 1 for i in range(2 * n)), "each task runs once", f"{n}: {rec.events}")
                    await stop(ta)
                elif kind in ("slots", "waiters", "rate"):
                    ta, tb = serve(d, "a", ctx, concurrency=n, **kw), serve(d2, "b", ctx, concurrency=n, **kw)
                    await ctx.sleep_us(10 * MS)
                    await submit()
                    if kind == "waiters":
                        await ctx.sleep_us(at)
                        # one that starts or whose slot is freed at this very instant may go either way
                        now = ctx.now_us()
                        if any(bool(t == now) or k == "start" and bool(now == t + dur + i * MS) for k, i, t in rec.events):
                            ctx.reach("tied")
                            await stop(ta, tb)
                            return
                        out = [i for i in range(n) if i % 4 == 3]
                        for i in out:
                            await c.cancel(f"k{i}")
                        gone = rec.tags("start")
                        left = [i for i in range(n) if i not in out or i in gone]
                    else:
                        left = list(range(n))
                    await ctx.sleep_us(14 * S)
                    ran = sorted(i for k, i, _ in rec.events if k == "start")
                    ctx.check(ran == left, "each task over the limit runs in its turn, once", f"{n}: {ran} of {left}")
                    if kind == "rate":
                        at_ = sorted(rec.of("start"))
                        m = max(1, n // 3)
                        ctx.check(all(bool(y - x >= S - 2 * MS) for x, y in zip(at_, at_[m:])), "a rate limit is never exceeded", f"{n}: {at_}")
                    else:
                        ctx.check(most() == max(1, n // 3), "a concurrency limit is used up and never exceeded", f"{n}: {most()} {rec.events}")
                    await stop(ta, tb)
                elif kind == "perpetual":
                    ta = serve(d, "a", ctx, concurrency=n, **kw)
                    await ctx.sleep_us(at)
                    t0 = ctx.now_us()
                    await submit()
                    await ctx.sleep_us(3400 * MS)
                    for i in range(n):
                        runs = rec.of("start", i)
                        ctx.check(len(runs) >= 3 and all(bool(y - x >= S - 2 * MS) and bool(y - x <= S + 2 * RES + 2 * MS) for x, y in zip(runs, runs[1:])), "each perpetual task has its next run", f"{i} of {n} from {t0}: {runs}")
                    await stop(ta)
                elif kind == "due":
                    ta = serve(d, "a", ctx, concurrency=2 * n, **kw)
                    await ctx.sleep_us(10 * MS)
                    t0 = ctx.now_us()
                    await submit(lambda i: at + i * 13 * MS)
                    await ctx.sleep_us(ctx.p["hi"] + 4 * S)
                    for i in range(n):
                        due, runs = t0 + at + i * 13 * MS, rec.of("start", i)
                        ctx.check(len(runs) == 1 and bool(runs[0] >= due - MS) and bool(runs[0] <= due + 2 * RES + 10 * MS), "each task starts on time", f"{i} of {n} due {due}: {runs}")
                    await stop(ta)
                elif kind in ("clear", "snapshot"):
                    ta = serve(d, "a", ctx, concurrency=n // 3 + 1, **kw)
                    await ctx.sleep_us(10 * MS)
                    for i in range(2 * n):
                        e[i] = await c.add(f, key=f"k{i}", **({} if i < n else {"when": ctx.at(ctx.now_us() + S + i * S)}))(i)
                    await ctx.sleep_us(at)
                    events = list(rec.events)
                    if any(bool(t == ctx.now_us()) for _, _, t in events):
                        ctx.reach("tied")
                        await stop(ta)
                        return
                    started, ended = ({i for k, i, _ in events if k == x} for x in ("start", "end"))
                    if kind == "snapshot":
                        s = await c.snapshot()
                        if rec.events == events:
                            got = sorted(x.args[0] for x in s.running), sorted(x.args[0] for x in s.future)
                            want = sorted(started - ended), sorted(set(range(2 * n)) - started)
                            ctx.check(got == want and s.total_tasks == len(want[0]) + len(want[1]), "a snapshot lists each task, once", f"{n} at {at}: {got} not {want}")
                    else:
                        removed = await c.clear()
                        ctx.check(removed == 2 * n - len(started), "clear says how many tasks it removed", f"{n} at {at}: {removed}, started {started}")
                        await ctx.sleep_us(6 * S)
                        ctx.check(rec.tags("start") == tuple(sorted(started)) or set(rec.tags("start")) == started, "a cleared task doesn't run", f"{n} at {at}: {rec.events}")
                        ctx.check(set(rec.tags("end")) == started, "what runs isn't cleared", f"{n} at {at}: {rec.events}")
                    await stop(ta)
                elif kind == "strikes":
                    ta = serve(d, "a", ctx, concurrency=n, **kw)
                    await ctx.sleep_us(10 * MS)
                    await submit(lambda i: at + S)
                    out = [i for i in range(n) if i % 3 == 1]
                    for i in range(n):
                        if i % 3:
                            await c.strike("job", "i", "==", i)
                    for i in range(n):
                        if i % 3 == 2:
                            await c.restore("job", "i", "==", i)
                    await ctx.sleep_us(ctx.p["hi"] + 4 * S)
                    ctx.check(set(rec.tags("start")) == set(range(n)) - set(out), "exactly the struck tasks don't run", f"{n}: {rec.tags('start')}")
                    await stop(ta)
                elif kind == "results":
                    ta = serve(d, "a", ctx, concurrency=n, **kw)
                    await ctx.sleep_us(10 * MS)
                    first = await c.add(f, key="k0")(0)
                    waits = []
                    for i in range(n):
                        waits.append(asyncio.ensure_future(first.get_result()))
                    await ctx.sleep_us(at)
                    for i in range(n):
                        waits.append(asyncio.ensure_future((await d2.get_execution("k0")).get_result()))
                    await ctx.sleep_us(3 * S)
                    ctx.check(all(w.done() and w.exception() is None for w in waits), "everyone waiting for a result gets it", f"{n}: {[w for w in waits if not w.done()]}")
                    await stop(ta, *waits)
                elif kind == "workers":
                    ts = [serve(d if i % 2 else d2, f"w{i}", ctx, **kw) for i in range(n)]
                    await ctx.sleep_us(at)
                    await ctx.sleep_us(S)
                    ctx.check({w.name for w in await c.workers()} == {f"w{i}" for i in range(n)}, "each live worker is listed", f"{n}")
                    ctx.check({w.name for w in await c.task_workers("job")} == {f"w{i}" for i in range(n)}, "each live worker is listed with its tasks", f"{n}")
                    await stop(*ts[: n // 2])
                    await ctx.sleep_us(6 * 2 * S)
                    ctx.check({w.name for w in await c.workers()} == {f"w{i}" for i in range(n // 2, n)}, "each worker that left disappears, the others stay", f"{n}")
                    await stop(*ts[n // 2 :])
                else:
                    ta = serve(d, "a", ctx, concurrency=2 * n, **kw)
                    await ctx.sleep_us(10 * MS)
                    a = Agenda()
                    for i in range(n):
                        a.add(f)(i)
                    t0 = ctx.now_us()
                    over = 1 + at
                    es = await a.scatter(c, over=td(over))
                    ctx.check(len({x.key for x in es}) == n, "each item of an agenda is scheduled", f"{n}")
                    await ctx.sleep_us(ctx.p["hi"] + 4 * S)
                    for i in range(n):
                        runs = rec.of("start", i)
                        ctx.check(len(runs) == 1 and bool(runs[0] <= t0 + over + 2 * RES + 10 * MS), "each item of an agenda runs, once, within its time", f"{i} of {n} over {over}: {runs}")
                    await stop(ta)
                ctx.reach(f"{n}")
                ctx.observe(n)

        ctx.go(main)

    fn.__name__ = "many"
    fn.__doc__ = "Crowds of tasks, workers, waiters or strikes."
    return Harness("many", fn, bounds, [str(x) for x in sizes], quick={"hi": 1200 * MS, "sizes": sizes}, thorough={"hi": 3 * S, "sizes": sizes + [2 * sizes[-1]]}, budget_quick=budget, max_steps=2000000)
