"""C21 Scattering an agenda schedules every task inside the window."""
import asyncio

from docket import Agenda
from docket.execution import Disposition

from vp import clock

from .c10 import serve, stop
from .many import many
from .lib import MS, S, Ctx, Harness, td

FUNCTIONS = ["Agenda.add", "Agenda.scatter", "Agenda.__len__/__iter__/clear", "Docket.add", "Docket.register", "Execution.schedule", "_schedule (Lua)"]
ASSUMPTIONS = ["virtual time: Redis operations take no time", "durations are whole microseconds; even spreading is exact to 1 us per task"]


def tasks():
    async def one(i: int, *, w: str = "-") -> None: ...

    async def two(i: int, *, w: str = "-") -> None: ...

    return one, two


def fill(ctx: Ctx, agenda: Agenda, one, two, n: int, named: str, keyed: bool) -> list:
    """Tasks by function, by name or both; returns what is expected of each."""
    want = []
    for i in range(n):
        f = (one, two)[i % 2]
        by_name = named == "name" or named == "mixed" and i % 3 == 1
        key = f"k{i}" if keyed else None
        add = agenda.add(f.__name__ if by_name else f, key=key)
        if i % 2:
            add(i, w=f"w{i}")
            want.append((f.__name__, (i,), {"w": f"w{i}"}, key))
        else:
            add(i)
            want.append((f.__name__, (i,), {}, key))
    return want


async def listed(d) -> list:
    s = await d.snapshot()
    return [*s.future, *s.running]


def spread(ctx: Ctx) -> None:
    async def main(ctx: Ctx) -> None:
        one, two = tasks()
        n = ctx.pick("n", ctx.p["n"])
        over = ctx.int("over", 1, ctx.p["over"])
        named = ctx.pick("named", ["function", "name", "mixed"])
        keyed = ctx.bool("keyed")
        at = ctx.pick("start", ["now", "given"])
        offset = ctx.int("offset", -3600 * S, 3600 * S) if at == "given" else 0
        jit = ctx.pick("jitter", ctx.p["jitter"])
        jitter = 0
        draws = []
        if jit == "some":
            jitter = 4 * ctx.int("by", 1, ctx.p["over"] // 4)  # no half microseconds

            def draw():
                draws.append(ctx.pick(f"draw{len(draws)}", [0, 0.75, 1] if n > 2 else [0, 0.25, 0.5, 0.75, 1]))
                return draws[-1]

            clock.RANDOM_HOOK = draw
        try:
            async with ctx.docket() as d:
                d.register(one)
                d.register(two)
                agenda = Agenda()
                want = fill(ctx, agenda, one, two, n, named, bool(keyed))
                before = list(agenda)
                start = ctx.now_us() + offset
                kw = {"start": ctx.at(start)} if at == "given" else {}
                if jit == "some":
                    kw["jitter"] = td(jitter)
                got = await agenda.scatter(d, over=td(over), **kw)
                ctx.check(list(agenda) == before and len(agenda) == n, "scattering leaves the agenda as it was", "")
                ctx.check(len(got) == n, "every task is scheduled once", f"{len(got)} of {n}")
                why = f"{n} over {over} from {start}: {[e.when for e in got]} draws {draws} jitter {jitter}"
                for i, (e, (name, args, kwargs, key)) in enumerate(zip(got, want)):
                    ctx.check((e.function_name, e.args, e.kwargs) == (name, args, kwargs) and (key is None or e.key == key), "each task is scheduled in order with its own arguments", f"{i}: {e.function_name} {e.args} {e.kwargs} {e.key}")
                    even2 = over * (1 if n == 1 else 2 * i)  # twice (n-1) times the even time
                    lo = 2 * ctx_us(e.when) - 2 * start
                    parts = 1 if n == 1 else n - 1
                    off = lo * parts - even2
                    slack = 2 * parts * (n + 1)
                    if jit == "none":
                        ctx.check(-slack <= off, "tasks are spread evenly over the period", why)
                        ctx.check(off <= slack, "tasks are spread evenly over the period", why)
                    else:
                        ctx.check(-slack - 2 * parts * jitter <= off, "jitter moves a task by at most the jitter", why)
                        ctx.check(off <= slack + 2 * parts * jitter, "jitter moves a task by at most the jitter", why)
                        d_ = draws[i]
                        if bool(lo > 0) and i:
                            # (b - a) * draw, to the microsecond
                            moved = off - 2 * parts * jitter * (2 * d_ - 1)
                            ctx.check(-slack - 2 * parts <= moved, "jitter is drawn for each task by itself", why)
                            ctx.check(moved <= slack + 2 * parts, "jitter is drawn for each task by itself", why)
                    ctx.check(ctx_us(e.when) >= start, "no task is scheduled before the start", why)
                seen = {e.key: e for e in await listed(d)}
                ctx.check(sorted(seen) == sorted(e.key for e in got) and len(seen) == n, "exactly the agenda's tasks are scheduled", f"{sorted(seen)}")
                for e in got:
                    s = seen[e.key]
                    ctx.check((s.function_name, s.args, s.kwargs) == (e.function_name, e.args, e.kwargs) and bool(s.when == e.when), "what is scheduled is what is returned", f"{s} {e}")
                ctx.reach(f"{n}")
                ctx.reach(jit + " jitter")
                ctx.reach(at)
                if ctx.p["again"]:
                    again = await agenda.scatter(d, over=td(over), **kw)
                    seen = await listed(d)
                    if keyed:
                        ctx.check([e.disposition for e in again] == [Disposition.ALREADY_SCHEDULED] * n and len(seen) == n, "scattering again under the same keys changes nothing", why)
                    else:
                        ctx.check(len(seen) == 2 * n and len({e.key for e in seen}) == 2 * n, "scattering again schedules every task again", why)
                    agenda.clear()
                    ctx.check(len(agenda) == 0 and await agenda.scatter(d, over=td(over)) == [], "a cleared agenda schedules nothing", "")
                ctx.observe(*[e.when for e in got])
        finally:
            clock.RANDOM_HOOK = None

    ctx.go(main)


def ctx_us(when):
    return clock.us_of(when) - clock.BASE_US


def refused(ctx: Ctx) -> None:
    """An agenda that can't be scheduled schedules nothing."""

    async def main(ctx: Ctx) -> None:
        one, two = tasks()
        n = ctx.pick("n", ctx.p["n"])
        bad = ctx.choice("bad", n)
        over = ctx.int("over", -S, S)
        async with ctx.docket() as d:
            d.register(one)
            d.register(two)
            agenda = Agenda()
            unknown = ctx.bool("unknown")
            for i in range(n):
                agenda.add("nobody" if unknown and i == bad else one, key=f"k{i}")(i)
            before = list(agenda)
            try:
                got = await agenda.scatter(d, over=td(over))
                r = "scheduled"
            except (KeyError, ValueError) as e:
                r = type(e).__name__
            now = await listed(d)
            ok = bool(over > 0)
            ctx.check(r == ("ValueError" if not ok else "KeyError" if unknown else "scheduled"), "an agenda that cannot be scheduled is refused", f"{r} over {over}")
            ctx.check(len(now) == (n if r == "scheduled" else 0), "an agenda that cannot be scheduled schedules nothing", f"{len(now)}")
            ctx.check(list(agenda) == before, "scattering leaves the agenda as it was", "")
            ctx.reach(r)
            ctx.observe(r)

    ctx.go(main)


def runs(ctx: Ctx) -> None:
    """The scattered tasks are run, under the name they were added by, each once, by a worker."""

    async def main(ctx: Ctx) -> None:
        n = ctx.pick("n", ctx.p["n"])
        how = ctx.pick("how", ["function", "name", "alias"])
        over = ctx.int("over", 1 * MS, ctx.p["over"])
        ran: list = []

        async def one(i: int) -> None:
            ran.append((i, ctx.now_us()))

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(one, names=["alias"] if how == "alias" else None)
            agenda = Agenda()
            for i in range(n):
                agenda.add({"function": one, "name": "one", "alias": "alias"}[how])(i)
            t = serve(d, "w", ctx)
            got = await agenda.scatter(c, over=td(over))
            await ctx.sleep_us(over + 1200 * MS)
            ctx.check(sorted(i for i, _ in ran) == list(range(n)), "every scattered task runs once", f"{how} {ran}")
            for i, at in ran:
                ctx.check(bool(at >= ctx_us(got[i].when)), "no task runs before its time", f"{ran}")
            ctx.reach(how)
            ctx.observe(len(ran))
            await stop(t)

    ctx.go(main)


HARNESSES = [
    Harness("spread", spread, "1-6 tasks, over any period up to 1 day, from now or any start within an hour, by function or name, with or without keys; scattered twice", ["1", "2", "3", "4", "5", "6", "now", "given", "none jitter"],
            quick={"n": [1, 2, 3, 4, 5, 6], "over": 86400 * S, "jitter": ["none"], "again": True}, thorough={"n": list(range(1, 13)), "over": 366 * 86400 * S}, budget_quick=50),
    Harness("jitter", spread, "1-3 tasks, jitter up to 1 day with 3-5 draws per task", ["1", "2", "3", "now", "given", "some jitter"],
            quick={"n": [1, 2, 3], "over": 86400 * S, "jitter": ["some"], "again": False}, thorough={"n": [1, 2, 3, 4], "over": 366 * 86400 * S}, budget_quick=90),
    Harness("refused", refused, "1-3 tasks, one possibly unknown, any period in [-1s,1s]", ["scheduled", "KeyError", "ValueError"], quick={"n": [1, 2, 3]}, thorough={"n": [1, 2, 3, 4, 5]}, budget_quick=20),
    Harness("runs", runs, "1-3 tasks over up to 0.8s, by function, name or another name", ["function", "name", "alias"], quick={"n": [1, 2, 3], "over": 800 * MS}, thorough={"n": [1, 2, 3, 4], "over": 3 * S}, budget_quick=40),
    many("scatter", "12 or 60 items over any time up to 1.2 s", [12, 60]),
]
