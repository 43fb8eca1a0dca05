"""C39 Test assertions pass exactly when what they say is true."""
import itertools
from typing import Any

from docket import Worker, testing

from .lib import MS, S, Ctx, Harness, Rec, running, td, tied

FUNCTIONS = ["testing.assert_task_scheduled", "testing.assert_task_not_scheduled", "testing.assert_task_count", "testing.assert_no_tasks", "testing._matches_criteria", "Docket.snapshot", "Docket.add/replace/cancel/clear"]
ASSUMPTIONS = ["virtual time: Redis operations take no time", "a task is scheduled from its submission until it starts, is cancelled or cleared, and again while it waits for its next run"]
RES, POLL = 500 * MS, 400 * MS


async def passes(assertion: Any) -> bool:
    try:
        await assertion
    except AssertionError:
        return False
    return True


def same(a: Any, b: Any) -> bool:
    return bool(a == b)


async def compare(ctx: Ctx, c: Any, tasks: list, fns: dict, asked: tuple, rec: Any, why: str) -> None:
    """Every assertion, of the tasks that are really scheduled: (function name, args, kwargs, key)."""
    function, args, kwargs, key = asked
    hits = [
        t for t in tasks
        if t[0] == function[0] and (args is None or len(t[1]) == len(args) and all(same(x, y) for x, y in zip(t[1], args)))
        and (kwargs is None or all(k in t[2] and same(t[2][k], v) for k, v in kwargs.items())) and (key is None or t[3] == key)
    ]
    n = sum(1 for t in tasks if t[0] == function[0])
    f = function[0] if function[1] else fns[function[0]]
    crit = {k: v for k, v in (("args", args), ("kwargs", kwargs), ("key", key)) if v is not None}
    why = f"{why}: {function} {crit} of {tasks}"
    said = [
        (await passes(testing.assert_task_scheduled(c, f, **crit)), bool(hits), "assert_task_scheduled passes exactly if there is such a task"),
        (await passes(testing.assert_task_not_scheduled(c, f, **crit)), not hits, "assert_task_not_scheduled passes exactly if there is no such task"),
        (await passes(testing.assert_no_tasks(c)), not tasks, "assert_no_tasks passes exactly if there are none"),
    ]
    for count in range(4) if not crit else ():
        said.append((await passes(testing.assert_task_count(c, count=count)), count == len(tasks), "assert_task_count passes exactly if there are as many tasks"))
        said.append((await passes(testing.assert_task_count(c, f, count=count)), count == n, "assert_task_count passes exactly if there are as many of a function"))
    if rec is not None and await tied(ctx, rec, ctx.now_us()):
        ctx.reach("tied")
        return
    for got, want, label in said:
        ctx.check(got == want, label, why)
    ctx.reach("found" if hits else "not found")
    ctx.reach("none" if not tasks else "some")
    if hits and len(hits) < n:
        ctx.reach("one of several")


def criteria(ctx: Ctx) -> None:
    """Any tasks, asked for in any way."""

    async def main(ctx: Ctx) -> None:
        async def f(*args, **kwargs) -> None: ...

        async def g(*args, **kwargs) -> None: ...

        fns = {"f": f, "g": g}
        values = {"number": lambda n: ctx.int(n, 0, 2), "text": lambda n: "x"}

        def value(n: str) -> Any:
            return values[ctx.pick(f"{n}_kind", ctx.p["kinds"])](n)

        def call(n: str, least: int = 0) -> tuple:
            shape = ctx.pick(f"{n}_shape", ctx.p["shapes"])
            args = tuple(value(f"{n}{i}") for i in range(shape.count("a")))
            return args, {k: value(n + k) for k in shape if k in "kl"}

        async with ctx.docket("client") as c:
            c.register(f)
            c.register(g)
            tasks = []
            for i in range(ctx.choice("tasks", 3)):
                name = ctx.pick(f"task{i}", ["f", "g"])
                args, kwargs = call(f"t{i}")
                await c.add(fns[name], when=ctx.at(ctx.now_us() + (2 * S if ctx.bool(f"later{i}") else 0)), key=f"k{i}0"[: 3 - i])(*args, **kwargs)
                tasks.append((name, args, kwargs, f"k{i}0"[: 3 - i]))
            args, kwargs = call("q")
            for by_args, by_kwargs, key, by_name in itertools.product([None, args], [None, kwargs], [None, "k0", "k00", "k9"], [False, True]):
                await compare(ctx, c, tasks, fns, (("f", by_name), by_args, by_kwargs, key), None, "asked")
            ctx.observe(len(tasks))

    ctx.go(main)


def life(ctx: Ctx) -> None:
    """Asked at any moment of the life of some tasks."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def f(i: int) -> None:
            rec.start(i)
            await ctx.sleep_us(400 * MS)
            rec.end(i)

        async def g(i: int) -> None: ...

        fns = {"f": f, "g": g}
        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(f)
                x.register(g)
            async with Worker(d, name="w", concurrency=ctx.pick("conc", [1, 3]), minimum_check_interval=td(POLL), scheduling_resolution=td(RES), schedule_automatic_tasks=False) as wk, running(wk):
                await ctx.sleep_us(10 * MS)
                t0 = ctx.now_us()
                gone: set = set()
                args = {0: 0, 1: 1, 2: 2}
                await c.add(f, key="k0")(0)
                await c.add(f, key="k1")(1)
                await c.add(f, when=ctx.at(t0 + 500 * MS), key="k2")(2)
                what = ctx.pick("what", ["nothing", "cancel", "replace", "clear"])
                await ctx.sleep_us(ctx.int("at", 0, ctx.p["hi"]))
                if what == "cancel":
                    await c.cancel("k2")
                    gone.add(2)
                elif what == "replace":
                    await c.replace(f, ctx.at(ctx.now_us() + 300 * MS), key="k2")(5)
                    gone.add(2)
                    args[5] = 5
                elif what == "clear":
                    gone |= {i for i in range(3)}
                    await c.clear()
                await ctx.sleep_us(ctx.int("then", 0, ctx.p["then"]))
                now = ctx.now_us()
                keys = {0: "k0", 1: "k1", 2: "k2", 5: "k2"}
                tasks = [("f", (i,), {}, keys[i]) for i in args if i not in gone and rec.n("start", i) == 0]
                i = ctx.pick("of", sorted(args))
                how = ctx.pick("how", ["count", "args", "key"])
                asked = (("f", True), (i,) if how == "args" else None, None, keys[i] if how == "key" else None)
                await compare(ctx, c, tasks, fns, asked, rec, f"{what} at {now} {rec.events}")
                ctx.reach(what)
                ctx.observe(what, len(tasks))

    ctx.go(main)


HARNESSES = [
    Harness("criteria", criteria, "up to 2 tasks of 2 functions, now or later, called in 5 ways with any numbers 0..2 or a text; asked for by function or name, arguments, keywords, key and count in every combination, counts 0..3", ["found", "not found", "none", "some", "one of several"],
            quick={"kinds": ["number"], "shapes": ["", "a", "aa", "k", "kl"]}, thorough={"kinds": ["number", "text"], "shapes": ["", "a", "aa", "k", "l", "kl", "ak"]}, budget_quick=160),
    Harness("life", life, "three tasks, one due in 0.5 s, one of them cancelled or replaced or all cleared at any moment of 1.2 s; asked at any moment of 1.2 s thereafter", ["found", "not found", "none", "some", "cancel", "replace", "clear"],
            quick={"hi": 1200 * MS, "then": 1200 * MS}, thorough={"hi": 3 * S, "then": 3 * S}, budget_quick=100),
]
