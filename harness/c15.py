"""C15 Strikes block exactly the matching tasks until restored."""
import asyncio
from decimal import Decimal

from docket.execution import Disposition
from docket.strikelist import StrikeList

from .c10 import WHO, serve, stop
from .many import many
from .lib import MS, S, Ctx, Harness, Rec, delay_at

FUNCTIONS = [
    "Docket.strike", "Docket.restore", "StrikeList.send_instruction", "StrikeList.update", "StrikeList._strike", "StrikeList._restore", "StrikeList.is_stricken",
    "StrikeList._is_dict_stricken", "StrikeList._matches_task_or_parameter_strike", "StrikeList._is_match", "StrikeList._monitor_strikes", "StrikeList._read_strikes",
    "StrikeInstruction.as_message", "StrikeInstruction.from_message", "Docket.add", "Docket.replace", "Worker._execute", "Execution.mark_as_cancelled",
]
ASSUMPTIONS = ["values of strikes are compared with Python's own operators", "virtual time: Redis operations take no time unless delayed by the harness"]

def between(a, lo, hi):
    return lo <= a and a <= hi


OPS = {
    "==": lambda a, v: a == v,
    "!=": lambda a, v: a != v,
    ">": lambda a, v: a > v,
    ">=": lambda a, v: a >= v,
    "<": lambda a, v: a < v,
    "<=": lambda a, v: a <= v,
    "between": lambda a, v: between(a, *v),
}


def holds(op: str, a, v) -> bool:
    return bool(OPS[op](a, v))


def struck(force, function: str, args: dict) -> bool:
    """The oracle: some instruction in force matches."""
    for f, p, op, v in force:
        if f is not None and f != function:
            continue
        if p is None:
            if f is not None:
                return True
            continue
        if p in args and holds(op, args[p], v):
            return True
    return False


def history(ctx: Ctx) -> None:
    """Any sequence of strikes and restores issued by two clients; tasks submitted before
    and after it, under any arguments, a worker that connected before or after it."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def f(a: int, b: int = 1) -> None:
            rec.start(("f", WHO.get("?")))

        async def g(a: int, b: int = 1) -> None:
            rec.start(("g", WHO.get("?")))

        op = ctx.pick("op", list(OPS))

        def value(n: int):
            return (0, n) if op == "between" else n

        forms = [
            ("f", None, "==", None), ("f", "a", op, value(0)), ("f", "a", op, value(1)), (None, "a", op, value(0)), ("f", "b", "==", 1), (None, "b", "==", 2), ("g", None, "==", None),
        ]
        forms = forms[: ctx.p["forms"]]
        early = ctx.bool("worker first")
        a = ctx.int("a", -3, 5)
        b = ctx.int("b", 0, 3)
        force: list = []
        async with ctx.docket("c1") as c1, ctx.docket("c2") as c2, ctx.docket("w") as d:
            cs = [c1, c2]
            for x in (*cs, d):
                x.register(f)
                x.register(g)
            ts = [serve(d, "w", ctx)] if early else []
            await ctx.sleep_us(10 * MS)
            # waiting when the instructions come
            due = ctx.at(ctx.now_us() + 500 * MS)
            await c1.add(f, when=due, key="f1")(a, b)
            for i in range(ctx.p["n"]):
                restore = ctx.bool(f"restore{i}") if i else False
                form = forms[ctx.choice(f"form{i}", len(forms))]
                fn, p, o, v = form
                fn = {"f": f, "g": "g", None: None}[fn]
                c = cs[i % 2]
                if restore:
                    await c.restore(fn, p, o, v)
                    if form in force:
                        force.remove(form)
                        ctx.reach("restored")
                else:
                    await c.strike(fn, p, o, v)
                    if form not in force:
                        force.append(form)
            await ctx.sleep_us(1 * MS)
            want = struck(force, "f", {"a": a, "b": b})
            want_default = struck(force, "f", {"a": a, "b": 1})
            want_g = struck(force, "g", {"a": a, "b": b})
            for c in cs:
                for verdict, expected, what in (
                    (await c.add(f, key=f"f2-{cs.index(c)}")(a, b=b), want, "keyword"),
                    (await c.add(f, key=f"f3-{cs.index(c)}")(a), want_default, "default"),
                    (await c.add(g, key=f"g-{cs.index(c)}")(a, b), want_g, "other function"),
                ):
                    ctx.check((verdict.disposition is Disposition.STRUCK) == expected, "a submission is blocked exactly when a strike in force matches it", f"{what} {force} a={a} b={b}: {verdict.disposition}")
            if not early:
                ts = [serve(d, "w", ctx)]
            await ctx.sleep_us(1500 * MS)
            nf = rec.tags("start").count(("f", "w"))
            ng = rec.tags("start").count(("g", "w"))
            ctx.check(nf == (not want) + 2 * (not want) + 2 * (not want_default), "a task starts exactly when no strike in force matches it", f"{force} a={a} b={b}: {rec.events}")
            ctx.check(ng == 2 * (not want_g), "a task starts exactly when no strike in force matches it", f"g {force} a={a} b={b}: {rec.events}")
            if want:
                e = await c1.get_execution("f1")
                ctx.check(e is not None and e.state.value == "cancelled", "a blocked task is recorded as cancelled", f"{e and e.state}")
            for k in [op] + (["blocked"] if want else ["runs"]) + (["blocked by another"] if want_g else []):
                ctx.reach(k)
            ctx.observe(nf, ng)
            await stop(*ts)

    ctx.go(main)


def restoring(ctx: Ctx) -> None:
    """Two strikes that differ in one thing only, and one restoration: the other stays in force."""

    async def main(ctx: Ctx) -> None:
        async def f(a: int, b: int = 1, **rest) -> None: ...

        async def g(a: int, b: int = 1, **rest) -> None: ...

        parts = [["f", "g", None], ["a", "b", "c"], ["==", "!=", "<"], [0, 1]]
        form = [p[0] if i != 0 else ctx.pick("function", p) for i, p in enumerate(parts)]
        form[1] = ctx.pick("parameter", parts[1])
        i = ctx.choice("part", len(parts) + 1)
        other = list(form)
        if i == len(parts):
            other = ["f", None, "==", None]
        else:
            other[i] = ctx.pick("other", [x for x in parts[i] if x != form[i]])
        force = [tuple(form), tuple(other)]
        if force[0] == force[1]:
            return
        a, b, z = ctx.int("a", -1, 2), ctx.int("b", -1, 2), ctx.int("c", -1, 2)
        async with ctx.docket("c1") as c, ctx.docket("w") as d:
            for x in (c, d):
                x.register(f)
                x.register(g)
            for x in force:
                await c.strike(*x)
            gone = ctx.choice("gone", 3)
            if gone < 2:
                await c.restore(*force[gone])
                force.pop(gone)
            if ctx.bool("unhashable too"):
                await c.strike("f", "a", "==", [1])
                await c.strike("g", "b", "==", 2)
                force.append(("g", "b", "==", 2))
            await ctx.sleep_us(MS)
            for x in (c, d):
                for t in (f, g):
                    want = struck(force, t.__name__, {"a": a, "b": b, "c": z})
                    got = (await x.add(t, key="k", when=ctx.at(ctx.now_us() + 100 * S))(a, b, c=z)).disposition is Disposition.STRUCK
                    ctx.check(got == want, "a submission is blocked exactly when a strike in force matches it", f"{force} {t.__name__} a={a} b={b} c={z}: {got}")
                    if not got:
                        await x.cancel("k")
                    ctx.reach("blocked" if want else "free")
            ctx.reach("restored" if gone < 2 else "both")
            ctx.reach("parameter " + str(form[1]))
            ctx.observe(force)

    ctx.go(main)


def order(ctx: Ctx) -> None:
    """Two clients striking and restoring the same thing at about the same time, requests
    or replies delayed: everyone ends up with the same set, that of the stream."""

    async def main(ctx: Ctx) -> None:
        async def f(a: int) -> None: ...

        whole = ctx.bool("whole function")
        target = (f,) if whole else (f, "a", "<", 1)
        async with ctx.docket("c1") as c1, ctx.docket("c2") as c2, ctx.docket("w") as d:
            for x in (c1, c2, d):
                x.register(f)
            await ctx.sleep_us(10 * MS)
            lag = ctx.int("lag", 0, ctx.p["lag"])
            side = ctx.bool("reply delayed")
            nth = 1 + ctx.choice("nth", ctx.p["nth"])
            delay_at(ctx, "c1", nth, lag, match=lambda op: not op.endswith("XREAD") and "wake" not in op, after=bool(side))

            async def one() -> None:
                await c1.strike(*target)
                if ctx.p["twice"]:
                    await c1.restore(*target)
                    await c1.strike(*target)

            t = asyncio.get_running_loop().create_task(one())
            gap = ctx.int("gap", 0, ctx.p["lag"])
            await ctx.sleep_us(gap)
            await c2.restore(*target)
            await t
            await ctx.sleep_us(2 * ctx.p["lag"])
            entries = [fields for _, fields in await ctx.client("c2").xrange("d:strikes")]
            last = entries[-1][b"direction"]
            got = []
            for c in (c1, c2, d):
                e = await c.add(f, key="k", when=ctx.at(ctx.now_us() + 100 * S))(0)
                got.append(e.disposition is Disposition.STRUCK)
            async with ctx.docket("late") as late:
                late.register(f)
                await late.wait_for_strikes_loaded()
                got.append((await late.add(f, key="k", when=ctx.at(ctx.now_us() + 100 * S))(0)).disposition is Disposition.STRUCK)
            ctx.check(got == [last == b"strike"] * 4, "every client converges to the same set, whatever the order", f"{last} {got}")
            ctx.reach("ends " + last.decode())
            ctx.observe(last, got)

    ctx.go(main)


class Rude:
    """Compares with nothing, in its own way."""

    def __eq__(self, other):
        raise RuntimeError("not comparable")

    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__

    def __hash__(self):
        return 7


class Vague:
    """Comparisons have no truth value, like those of arrays."""

    class Many:
        def __bool__(self):
            raise ValueError("ambiguous")

    def __eq__(self, other):
        return self.Many()

    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__

    def __hash__(self):
        return 8


def odd_values(ctx: Ctx) -> None:
    """Comparisons that make no sense neither block nor crash, and leave other strikes in force."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)

        async def f(a, b: int = 0) -> None:
            rec.start("f")

        op = ctx.pick("op", list(OPS))
        args = {"int": 1, "str": "x", "none": None, "rude": Rude(), "vague": Vague(), "decimal": Decimal("sNaN"), "list": [1]}
        arg = args[ctx.pick("arg", list(args))]
        vals = {"int": 1, "str": "x", "none": None, "tuple": (0, 2), "triple": (0, 1, 2), "rude": Rude()}
        v = vals[ctx.pick("value", list(vals))]
        b = ctx.int("b", -2, 2)
        try:
            want = holds(op, arg, v)
        except Exception:
            want = False
            ctx.reach("incomparable")
        async with ctx.docket("c1") as c, ctx.docket("w") as d:
            for x in (c, d):
                x.register(f)
            await c.add(f, key="before", when=ctx.at(ctx.now_us() + 100 * MS))(arg, b)
            await c.strike(f, "a", op, v)
            await c.strike(f, "b", ">", 0)
            want = want or bool(b > 0)
            e = await c.add(f, key="after")(arg, b)
            ctx.check((e.disposition is Disposition.STRUCK) == want, "a submission is blocked exactly when a strike in force matches it", f"{arg!r} {op} {v!r}: {e.disposition}")
            t = serve(d, "w", ctx)
            await ctx.sleep_us(1500 * MS)
            ctx.check(not t.done(), "a comparison never brings a worker down", f"{arg!r} {op} {v!r}")
            ctx.check(rec.n("start") == (0 if want else 2), "a task starts exactly when no strike in force matches it", f"{type(arg)} {op} {v!r} b={b}: {rec.events}")
            ctx.reach("blocked" if want else "runs")
            ctx.observe(rec.n("start"))
            await stop(t)

    ctx.go(main)


def standalone(ctx: Ctx) -> None:
    """A StrikeList on its own, connected to the same stream, judges parameters alike; an
    instruction nobody can read does not keep the others from taking effect."""

    async def main(ctx: Ctx) -> None:
        op = ctx.pick("op", list(OPS))
        v = (0, 1) if op == "between" else 1
        a = ctx.int("a", -3, 5)
        junk = ctx.choice("unreadable at", ctx.p["n"] + 1)
        force: list = []
        forms = [("f", None, "==", None), (None, "a", op, v), (None, "b", "==", 2), ("f", "a", op, v)]
        async with ctx.docket("c1") as c, ctx.docket("w") as d:
            for i in range(ctx.p["n"]):
                if junk == i:
                    await ctx.client("c1").xadd("d:strikes", {b"direction": b"strike", b"operator": b"==", b"value": b"\\x80junk"})
                form = forms[ctx.choice(f"form{i}", len(forms))]
                if i and ctx.bool(f"restore{i}"):
                    await c.restore(*form)
                    if form in force:
                        force.remove(form)
                else:
                    await c.strike(*form)
                    force.append(form)
                    force = list(dict.fromkeys(force))
            async with StrikeList(url="memory://s", name="d") as sl:
                await asyncio.wait_for(sl.wait_for_strikes_loaded(), 5)
                want = any(fn is None and p == "a" and holds(o, a, w) for fn, p, o, w in force)
                ctx.check(sl.is_stricken({"a": a, "z": 1}) == want, "a strike list on its own judges parameters by the strikes in force", f"{force} a={a}")
                ctx.check(c.strike_list.is_stricken({"a": a}) == want, "every client converges to the same set, whatever the order", f"{force} a={a}")
                ctx.reach("blocked" if want else "free")
                ctx.reach("unreadable" if junk < ctx.p["n"] else "readable")
                ctx.observe(want)

    ctx.go(main)


HARNESSES = [
    Harness("history", history, "3 instructions (thorough: 4) of strike or restore out of 7 forms over 2 functions, 2 parameters and all operators, by 2 clients; integer arguments in [-3,5] and [0,3]; worker connecting before or after",
            list(OPS) + ["restored", "blocked", "runs", "blocked by another"], quick={"n": 3, "forms": 7}, thorough={"n": 4}, budget_quick=110),
    Harness("restoring", restoring, "two strikes that differ in their function, parameter, operator or value (or one of a whole function), one or none of them restored, perhaps a value nobody can compare; 3 integer arguments in [-1,2], one for **kwargs",
            ["blocked", "free", "restored", "both", "parameter a", "parameter b", "parameter c"], budget_quick=60),
    Harness("order", order, "a strike (then a restore and a strike) by one client with any of its operations or replies delayed by up to 0.4s, a restore of the same by another at any instant of it",
            ["ends strike", "ends restore"], quick={"lag": 400 * MS, "nth": 4, "twice": True}, thorough={"nth": 6}, budget_quick=40),
    Harness("odd_values", odd_values, "7 kinds of argument against 6 kinds of value under all operators, next to an ordinary strike", ["incomparable", "blocked", "runs"], budget_quick=40),
    Harness("standalone", standalone, "3 instructions out of 4 forms, one of them followed by an unreadable one, integer argument in [-3,5]", ["blocked", "free", "unreadable", "readable"], quick={"n": 3}, thorough={"n": 4}, budget_quick=40),
    many("strikes", "6 or 40 tasks, two thirds struck one by one, half of those restored, due at any moment of 1.2 s", [6, 40]),
]
