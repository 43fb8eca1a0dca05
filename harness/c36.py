"""C36 The command line does and shows what its options say."""
import asyncio
import contextlib
import importlib
import io
import logging
import re
import sys
from datetime import timedelta
from types import SimpleNamespace

import typer
from rich.console import Console

from docket import Docket, Perpetual, Worker
from docket.execution import Disposition
from vp import clock
from vp.sym import concrete_of

from .c10 import serve, stop
from .lib import MS, S, Ctx, Harness

cli = importlib.import_module("docket.cli")
support = importlib.import_module("docket.cli._support")

FUNCTIONS = [
    "docket.cli.strike/restore/clear/snapshot/worker", "docket.cli.tasks trace/fail/sleep", "docket.cli.workers ls/for-task",
    "docket.cli._support.interpret_python_value", "docket.cli._support.handle_strike_wildcard", "docket.cli._support.print_workers", "docket.cli._support.relative_time", "Worker.run",
]
ASSUMPTIONS = ["commands run in this process, on the model's Redis instead of the URL's", "a terminal wide enough for every cell", "texts are the sampled ones"]
OPS = {
    "==": lambda v, s: v == s, "!=": lambda v, s: v != s, ">": lambda v, s: v > s, ">=": lambda v, s: v >= s, "<": lambda v, s: v < s, "<=": lambda v, s: v <= s,
}
NAMES = ["k", "[red]k", "[/k]", "k:100:", "k\\", "k k"]
COMMAND = typer.main.get_command(cli.app)


class Pending(BaseException):
    def __init__(self, coro) -> None:
        self.coro = coro


async def command(ctx: Ctx, *argv: str) -> str:
    """`docket ARGV`: what it prints.  A usage error raises."""
    screen = io.StringIO()
    result: list = []

    def run(coro):
        if not result:
            raise Pending(coro)
        coro.close()
        return result[0]

    def connect(name: str = "docket", url: str = "", **kw):
        ctx.check(url == "redis://there/0", "a command goes to the server it was given", url)
        return Docket(name=name, url="memory://cli", **kw)

    def console(**kw):
        return Console(file=screen, width=240, color_system=None, force_terminal=False)

    parts = [(cli, {"Docket": connect, "Console": console, "asyncio": SimpleNamespace(**{**vars(asyncio), "run": run})}), (support, {"Console": console})]
    old = [(m, {k: getattr(m, k) for k in new}) for m, new in parts]
    level, handlers = logging.root.level, list(logging.root.handlers)

    with contextlib.redirect_stdout(screen):
        try:
            for m, new in parts:
                for k, v in new.items():
                    setattr(m, k, v)
            try:
                COMMAND.main(args=list(argv), standalone_mode=False)
            except Pending as pending:
                ctx._pending_client = "cli"
                result.append(await pending.coro)
                if result[0] is not None:  # now that the result is known
                    COMMAND.main(args=list(argv), standalone_mode=False)
        finally:
            for m, was in old:
                for k, v in was.items():
                    setattr(m, k, v)
            logging.root.setLevel(level)
            logging.root.handlers[:] = handlers
    return screen.getvalue()


HERE = ("--docket", "d", "--url", "redis://there/0")


def striking(ctx: Ctx) -> None:
    """A strike given on the command line, perhaps restored, and a task submitted afterwards."""

    async def main(ctx: Ctx) -> None:
        async def f(a, b=0) -> None: ...

        async def g(a) -> None: ...

        function = ctx.pick("function", ["f", "*", "g", ""])
        parameter = ctx.pick("parameter", ["a", "*", "b", ""])
        op = ctx.pick("op", list(OPS))
        texts = {
            "int:1": 1, "float:0.5": 0.5, "x": "x", "str:x:y": "x:y", "str:http://x": "http://x", "bool:True": True, "bool:false": False, "str:": "", "1": "1",
            "datetime.timedelta:5": timedelta(seconds=5), "decimal.Decimal:2": __import__("decimal").Decimal(2), None: None,
        }
        text = ctx.pick("value", [t for t in texts if t is None or t in ctx.p["values"]])
        value = texts[text]
        argv = [function, parameter, op] + ([] if text is None else [text])
        async with ctx.docket("client") as c:
            for x in (f, g):
                c.register(x)
            nothing = function in ("", "*") and parameter in ("", "*")
            try:
                await command(ctx, "strike", *argv, *HERE)
                ctx.check(not nothing, "a strike of nothing is refused", str(argv))
                await ctx.sleep_us(10 * MS)
                if ctx.pick("restored", [False, True]):
                    restored = ctx.pick("restore", ["same", "other op", "other function"])
                    again = list(argv)
                    if restored == "other op":
                        again[2] = "!=" if op == "==" else "=="
                    if restored == "other function":
                        again[0] = "g" if function == "f" else "f"
                    await command(ctx, "restore", *again, *HERE)
                    await ctx.sleep_us(10 * MS)
                else:
                    restored = None
            except typer.BadParameter:
                ctx.check(nothing, "a strike of something is accepted", str(argv))
                restored = "never struck"
            a = {"int": lambda: ctx.int("a", -3, 3), "x": lambda: "x", "x:y": lambda: "x:y", "y": lambda: "y", "url": lambda: "http://x", "1": lambda: "1"}[ctx.pick("kind", ctx.p["kinds"])]()
            e = await c.add(f)(a)
            against = a if parameter == "a" else 0
            if function in ("f", "*", "") and not nothing:
                if parameter in ("*", ""):
                    want = True
                else:
                    try:
                        want = bool(OPS[op](against, value))
                    except TypeError:
                        want = False
            else:
                want = False
            # (Without a parameter, the operator and value say nothing.)
            if restored == "same" or restored == "never struck" or restored == "other op" and parameter in ("*", ""):
                want = False
            if restored == "other function" and (function, parameter) == ("f", "*"):
                want = True
            ctx.check((e.disposition is Disposition.STRUCK) == want, "a task is blocked exactly as the strikes on the command line say", f"{argv} restored: {restored}, submitted with {a!r}: {e.disposition}")
            ctx.reach("struck" if want else "not struck")
            if restored == "same":
                ctx.reach("restored")
            if nothing:
                ctx.reach("refused")
            ctx.observe(argv, restored, want)

    ctx.go(main)


FORMS = {"{}": 1, "{}s": 1, "{}m": 60, "{}h": 3600}


def adding(ctx: Ctx) -> None:
    """The built-in tasks, added with any delay."""

    async def main(ctx: Ctx) -> None:
        kind = ctx.pick("kind", ["trace", "fail", "sleep"])
        form = ctx.pick("form", [None, *FORMS])
        n = ctx.int("n", 0, 10**5) if form else 0
        extra = ctx.pick("argument", ([None, "2.5"] if kind == "sleep" else [None, "hello [x] :y:"]))
        argv = ["tasks", kind] + ([] if extra is None else [extra])
        if form:
            argv += ["--delay", form.format(n)]
        async with ctx.docket("client") as c:
            await ctx.sleep_us(ctx.int("at", 0, 10 * S))
            now = ctx.now_us()
            said = await command(ctx, *argv, *HERE)
            snap = await c.snapshot()
            ctx.check(len(snap.future) == 1 and not snap.running, "one task is added", str(argv))
            e = snap.future[0]
            ctx.check(e.function_name == kind, "the task added is the one asked for", f"{argv}: {e.function_name}")
            given = (1 if kind == "sleep" else "Howdy!") if extra is None else (2.5 if kind == "sleep" else extra)
            ctx.check(e.args == (given,) and not e.kwargs, "a task is added with its argument", f"{argv}: {e.args}")
            due = now + n * FORMS.get(form, 0) * S
            ctx.check(clock.us_of(e.when) - clock.BASE_US == due, "a task is added for when its delay is over", f"{argv}: {e.when}")
            ctx.check(repr(e.key) in said and "'d'" in said, "the key is told", said)
            ctx.reach(kind)
            ctx.observe(kind, form, extra)

    ctx.go(main)


def rows(text: str) -> list[list[str]]:
    """The cells of the rows of the tables in a text."""
    return [[cell.rstrip() if i else cell.strip() for i, cell in enumerate(line.strip("│").split("│"))] for line in text.splitlines() if line.startswith("│")]


def cells(text: str) -> list[tuple[str, ...]]:
    return [tuple(cell[1:] if cell.startswith(" ") else cell for cell in row) for row in rows(text)]


def showing(ctx: Ctx) -> None:
    """What the snapshot and the worker listings show, whatever the names and keys."""

    async def main(ctx: Ctx) -> None:
        name = ctx.pick("names", NAMES)
        busy = ctx.pick("busy", [0, 1])
        waiting = ctx.pick("waiting", [0, 1, 2])
        stats = ctx.pick("stats", [True, False])

        async def job() -> None:
            await ctx.sleep_us(10 * S)

        docket = "d" + name
        there = ("--docket", docket, "--url", "redis://there/0")
        module = SimpleNamespace(tasks=[job], __name__="vpmodule")
        # a task's name is what it is registered as
        job.__name__ = "job" + name
        sys.modules["vpmodule"] = module
        try:
            async with ctx.docket("w", name=docket) as d, ctx.docket("client", name=docket) as c:
                for x in (d, c):
                    x.register(job)
                t = serve(d, "w" + name, ctx)
                due = {}
                if busy:
                    await c.add(job, key="b" + name)()
                await ctx.sleep_us(500 * MS)
                for i in range(waiting):
                    due[f"f{i}{name}"] = when = ctx.at(ctx.now_us() + ctx.pick(f"due{i}", [5 * S, 40 * 60 * S]))
                    await c.add(job, when=when, key=f"f{i}{name}")()
                await ctx.sleep_us(1 * S)
                snap = await c.snapshot()
                said = await command(ctx, "snapshot", "--tasks", "vpmodule:tasks", *there, *(["--stats"] if stats else []))
                got = cells(said)
                tasks = [row for row in got if len(row) == 5]
                ctx.check(sorted(row[2] for row in tasks) == sorted([*due, *(["b" + name] if busy else [])]), "each task is shown once, by its key", f"{name!r}: {got}")
                ctx.check(all(row[1] == job.__name__ for row in tasks), "tasks are shown with their function", f"{got}")
                for row in tasks:
                    if row[2] in due:
                        left = due[row[2]] - ctx.at(ctx.now_us())
                        want = f"in {left}" if left < timedelta(minutes=30) else f"at {support.local_time(due[row[2]])}"
                        ctx.check(row[0] == want and row[3:] == ("", ""), "a scheduled task is shown with its time", f"{row} {want}")
                    else:
                        ctx.check(row[3] == "w" + name and row[4] == f"{ctx.at(ctx.now_us()) - snap.running[0].started} ago", "a running task is shown with its worker and start", f"{row}")
                ctx.check(f"1 workers, {busy}/{busy + waiting} running" in said and repr(docket) in said, "the tasks are counted", said)
                if stats and busy + waiting:
                    ctx.check([(row[0], *(x.strip() for x in row[1:4])) for row in got if len(row) == 6] == [(job.__name__, str(busy + waiting), str(busy), str(waiting))], "the statistics are shown", f"{got}")
                    ctx.reach("stats")
                for argv in (["workers", "ls"], ["workers", "for-task", job.__name__]):
                    said = await command(ctx, *argv, *there)
                    got = cells(said)
                    ctx.check([row[0] for row in got if row[0]] == ["w" + name], "workers are shown by their names", f"{argv}: {got}")
                    ctx.check([row[2] for row in got] == sorted(d.tasks), "a worker is shown with its tasks", f"{argv}: {got}")
                    ctx.check(docket in said, "the docket is named", said)
                said = await command(ctx, "workers", "for-task", "nothing", *there)
                ctx.check(not cells(said), "only workers that know a task are shown for it", said)
                ctx.reach("busy" if busy else "idle")
                ctx.reach(name)
                ctx.observe(name, busy, waiting, stats)
                ctx.crash("w")
                t.cancel()
        finally:
            del sys.modules["vpmodule"]

    ctx.go(main)


def relative(ctx: Ctx) -> None:
    """How any moment is described from any other."""
    now, when = ctx.int("now", 0, 10**7), ctx.int("when", 0, 10**7)
    got = support.relative_time(ctx.at(now * MS), ctx.at(when * MS))
    half = 30 * 60 * 1000
    if when - now > half or now - when >= half:
        ctx.check(got == f"at {support.local_time(ctx.at(when * MS))}", "a distant moment is given by its time", got)
        ctx.reach("at")
    else:
        words = re.fullmatch(r"in (.*)" if when > now else r"(.*) ago", got, re.S)
        ctx.check(words is not None, "a moment is before or after now", f"{now} {when}: {got}")
        ctx.reach("in" if when > now else "ago")
        if words:
            ctx.check(words[1] == str(clock.mk_timedelta((when - now if when > now else now - when) * MS)), "a moment is described by how far it is", f"{now} {when}: {got}")


def clearing(ctx: Ctx) -> None:
    async def main(ctx: Ctx) -> None:
        async def job() -> None: ...

        now = ctx.pick("queued", [0, 1, 2])
        later = ctx.pick("scheduled", [0, 1, 2])
        async with ctx.docket("client") as c, ctx.docket("other", name="e") as o:
            for x in (c, o):
                for i in range(now):
                    await x.add(job, key=f"q{i}")()
                for i in range(later):
                    await x.add(job, when=ctx.at(ctx.int(f"due{i} {x.name}", 1, 10**9)), key=f"s{i}")()
            said = await command(ctx, "clear", *HERE)
            left, others = await c.snapshot(), await o.snapshot()
            ctx.check(f"Cleared {now + later} tasks" in said, "the cleared tasks are counted", said)
            ctx.check(not left.future and len(others.future) == now + later, "the docket named is cleared, and no other", f"{len(left.future)} {len(others.future)}")
            ctx.reach("cleared")
            ctx.observe(now, later)

    ctx.go(main)


def working(ctx: Ctx) -> None:
    """A worker started from the command line."""

    async def main(ctx: Ctx) -> None:
        running, most, ran = [0], [0], []

        async def job(n: int) -> None:
            running[0] += 1
            most[0] = max(most[0], running[0])
            await ctx.sleep_us(300 * MS)
            running[0] -= 1
            ran.append(n)

        async def fallback(*args) -> None:
            ran.append(args)

        async def auto(perpetual: Perpetual = Perpetual(automatic=True)) -> None:
            ran.append("auto")
            perpetual.cancel()

        started: list = []

        init = Worker.__init__

        def spy(self, *a, **kw) -> None:
            init(self, *a, **kw)
            started.append(self)

        sys.modules["vpmodule"] = SimpleNamespace(tasks=[job, auto], fallback=fallback, __name__="vpmodule")
        Worker.__init__ = spy
        try:
            concurrency = ctx.pick("concurrency", [None, 1, 2, 12])
            option = ctx.pick("option", [None, "redelivery_timeout", "reconnection_delay", "minimum_check_interval", "scheduling_resolution"])
            form = ctx.pick("form", list(FORMS)) if option else "{}"
            n = ctx.int("n", 1, 3) if option else 0
            named = ctx.pick("named", [None, "me"])
            unknown = ctx.pick("unknown", [False, True])
            argv = ["worker", "--until-finished", "--tasks", "vpmodule:tasks", "--docket", "d", "--url", "memory://cli", "--logging-level", "CRITICAL"]
            defaults = {"redelivery_timeout": 300 * S, "reconnection_delay": 5 * S, "minimum_check_interval": 100 * MS, "scheduling_resolution": 250 * MS}
            if concurrency:
                argv += ["--concurrency", str(concurrency)]
            if option:
                argv += ["--" + option.replace("_", "-"), form.format(n)]
                defaults[option] = n * FORMS[form] * S
            if named:
                argv += ["--name", named]
            if unknown:
                argv += ["--fallback-task", "vpmodule:fallback"]
            async with ctx.docket("client") as c:
                c.register(job)
                c.register(fallback, names=["gone"])
                for i in range(3):
                    await c.add(job)(i)
                if unknown:
                    await c.add("gone")("x")
                await c.add(job, when=ctx.at(ctx.now_us() + 700 * MS))(3)
                before = ctx.now_us()
                slow = {"minimum_check_interval": 1, "scheduling_resolution": 1}.get(option) and form in ("{}m", "{}h")
                going = asyncio.create_task(command(ctx, *argv))
                done, _ = await asyncio.wait({going}, timeout=30)
                ctx.check(len(started) == 1, "a worker starts", f"{argv} {going.exception() if done else ''!r}")
                w = started[0]
                for k, us in defaults.items():
                    ctx.check(getattr(w, k) == clock.mk_timedelta(us), "a worker has the durations it was given", f"{argv}: {k} {getattr(w, k)}")
                ctx.check(w.concurrency == (concurrency or 10) and w.docket.name == "d" and (w.name == named if named else w.name), "a worker is as it was asked for", f"{argv}: {w.concurrency} {w.docket.name} {w.name if named else bool(w.name)}")
                if not slow:
                    ctx.check(bool(done), "a worker until finished ends once all is done", str(argv))
                    if done:
                        ctx.check(going.exception() is None, "a worker until finished ends well", repr(going.exception()))
                    ctx.check(sorted(x for x in ran if isinstance(x, int)) == [0, 1, 2, 3] and ran.count(("x",)) == unknown and ran.count("auto") == 1, "a worker runs everything first", f"{argv} {ran}")
                    ctx.check(most[0] == min(concurrency or 10, 3), "a worker runs as many at once as it was told", f"{argv} {most[0]}")
                    ctx.reach("finished")
                else:
                    ctx.reach("slow")
                    ctx.crash("cli")
                    going.cancel()
                ctx.observe(concurrency, option, form, named, unknown)
        finally:
            Worker.__init__ = init
            del sys.modules["vpmodule"]

    ctx.go(main)


HARNESSES = [
    Harness("striking", striking, "one strike (4 functions, 4 parameters, 6 operators, 12 values) and perhaps a restoration, then a task with any argument -3..3 or a text", ["struck", "not struck", "restored", "refused"],
            quick={"values": ["int:1", "x", "str:x:y", "bool:false", "datetime.timedelta:5"], "kinds": ["int", "x:y", "y"]},
            thorough={"values": ["int:1", "float:0.5", "x", "str:x:y", "str:http://x", "bool:True", "bool:false", "str:", "1", "datetime.timedelta:5", "decimal.Decimal:2"], "kinds": ["int", "x", "x:y", "y", "url", "1"]}, budget_quick=120),
    Harness("adding", adding, "3 tasks, 5 forms of delay, any delay up to 10^5 units, at any moment", ["trace", "fail", "sleep"], budget_quick=60),
    Harness("clearing", clearing, "up to 2 queued and 2 scheduled tasks on each of two dockets", ["cleared"], budget_quick=60),
    Harness("showing", showing, "up to 1 running and 2 scheduled tasks; 6 shapes of names", ["stats", "busy", "idle", *NAMES], budget_quick=80),
    Harness("relative", relative, "any two moments up to 10^7 ms", ["at", "in", "ago"], budget_quick=30),
    Harness("working", working, "4 duration options in 4 forms, 4 concurrencies, named or not, with a fallback or not", ["finished"], budget_quick=90),
]
