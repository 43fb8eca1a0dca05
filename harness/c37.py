"""C37 Watching a task follows it to its end."""
import asyncio
import importlib
from types import SimpleNamespace

from docket import Progress, Retry
from vp import redis_model

from .c10 import serve, stop
from .lib import MS, S, Ctx, Harness, delay_at, freeze, td

cli = importlib.import_module("docket.cli")

FUNCTIONS = ["docket.cli.watch", "docket.cli._support.iterate_with_timeout", "Docket.get_execution", "Execution.subscribe", "Execution.sync"]
ASSUMPTIONS = ["the terminal is replaced by a recorder of what is drawn", "the key is not scheduled again while watched"]
ENDS = ["returns", "raises", "retried", "cancelled pending", "cancelled running", "cleared", "struck"]


class Screen:
    """What watch draws: the text of each layout, and the progress bar."""

    def __init__(self, ctx: Ctx) -> None:
        self.shown: list = []
        self.said: list = []
        self.bar: dict = {}
        screen = self

        class Layout:
            def __init__(self, text="", *a, **kw) -> None:
                self.parts = [text]

            def update(self, layout) -> None:
                self.parts = [layout]

            def split_column(self, *layouts) -> None:
                self.parts = list(layouts)

            def __str__(self) -> str:
                return "\n".join(str(p) for p in self.parts)

        class Live:
            def __init__(self, layout, **kw) -> None:
                self.update(layout)

            def update(self, layout, **kw) -> None:
                screen.shown.append((ctx.now_us(), str(layout)))

            def __enter__(self):
                return self

            def __exit__(self, *a) -> None:
                pass

        class Console:
            def print(self, what="", *a, **kw) -> None:
                screen.said.append(str(what))

        class Bar:
            def __init__(self, *a, **kw) -> None:
                self.tasks: list = []

            def add_task(self, description, total=None, completed=0) -> int:
                screen.bar = {"completed": completed, "total": total, "description": description}
                self.tasks.append(SimpleNamespace(start_time=None))
                return len(self.tasks) - 1

            def update(self, task_id, **kw) -> None:
                screen.bar.update(kw)

        self.parts = {"Layout": Layout, "Live": Live, "Console": Console, "Progress": Bar}


async def watching(ctx: Ctx, screen: Screen, key: str, after_connecting=None) -> None:
    """docket watch KEY, in this process."""
    coros: list = []
    parts = {**screen.parts, "asyncio": SimpleNamespace(**{**vars(asyncio), "run": coros.append})}
    old = {k: getattr(cli, k) for k in parts}
    hook = redis_model.NEW_CLIENT_HOOK

    def created(client) -> None:
        hook(client)
        if ctx._pending_client == "watch" and after_connecting is not None:
            after_connecting()

    try:
        for k, v in parts.items():
            setattr(cli, k, v)
        cli.watch(key, url="memory://watch", docket_name="d")
        ctx._pending_client = "watch"
        redis_model.NEW_CLIENT_HOOK = created
        await coros[0]
    finally:
        redis_model.NEW_CLIENT_HOOK = hook
        for k, v in old.items():
            setattr(cli, k, v)


def watch(ctx: Ctx) -> None:
    """Watching from any moment a task that is silent for a while and ends in any way."""

    async def main(ctx: Ctx) -> None:
        how = ctx.pick("how", ctx.p["how"])
        quiet = ctx.pick("quiet", ctx.p["quiet"])
        wait = ctx.pick("wait", ctx.p["wait"])
        ended: list = []
        n = [0]

        async def job(progress: Progress = Progress(), retry: Retry = Retry(attempts=2)) -> None:
            n[0] += 1
            await progress.set_total(10)
            await progress.increment(3)
            await ctx.sleep_us(max(quiet, 1500 * MS) if how == "cancelled running" else quiet)
            if how == "raises" or how == "retried" and n[0] == 1:
                if n[0] == 2:
                    ended.append(ctx.now_us())
                raise ValueError("sorry")
            ended.append(ctx.now_us())

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(job)
            await c.add(job, when=ctx.at(ctx.now_us() + wait), key="k")()
            t = serve(d, "w", ctx)
            if how == "struck":
                await c.strike(job)
                await ctx.sleep_us(10 * MS)

            async def cancel() -> None:
                await ctx.sleep_us(wait + 700 * MS if how == "cancelled running" else wait // 2)
                await (c.clear() if how == "cleared" else c.cancel("k"))
                ended.append(ctx.now_us())

            other = asyncio.create_task(cancel()) if how.startswith("c") else None
            await ctx.sleep_us(ctx.int("start", 0, ctx.p["hi"]))
            screen = Screen(ctx)
            lag = ctx.pick("lag", ctx.p["lag"])

            def slow() -> None:
                delay_at(ctx, "watch", ctx.choice("op", ctx.p["ops"]) + 1, lag)

            began = ctx.now_us()
            going = asyncio.create_task(watching(ctx, screen, "k", slow if lag else None))
            done, _ = await asyncio.wait({going}, timeout=20)
            if other is not None:
                await other
            now = ctx.now_us()
            last = screen.shown[-1][1] if screen.shown else "".join(screen.said)
            why = f"{how} watched from {began} to {now}, ended {ended}: {last!r}"
            ctx.check(bool(done), "watching ends when the task does", why)
            if done:
                going.result()
            if how == "struck":
                ctx.check(not n[0], "a struck task does not run", why)
            else:
                ctx.check(bool(ended) and now >= ended[-1], "watching does not end before the task does", why)
                ctx.check(now <= max(ended[-1], began) + 2 * lag + 1100 * MS, "watching ends when the task does", why)
            want = {"raises": "FAILED", "returns": "COMPLETED", "retried": "COMPLETED"}.get(how, "CANCELLED")
            ctx.check(want in last, "the end that is shown is the task's own", why)
            if how == "raises":
                ctx.check("sorry" in last, "the error of a failed task is shown", why)
            if not screen.shown:
                ctx.reach("already over")
            elif screen.bar:
                ctx.check((screen.bar["completed"], screen.bar["total"]) == (3, 10), "the progress shown is what the task reported", f"{why} {screen.bar}")
                ctx.reach("progress")
            ctx.reach(how)
            ctx.observe(how, now)
            going.cancel()
            await stop(t)

    ctx.go(main)


def handed_over(ctx: Ctx) -> None:
    """The worker of the watched task dies; another one finishes it."""

    async def main(ctx: Ctx) -> None:
        ended: list = []
        runs: list = []

        async def job() -> None:
            me = len(runs)
            runs.append(ctx.now_us())
            await ctx.sleep_us(700 * MS)
            if me:
                ended.append(ctx.now_us())

        async with ctx.docket() as d, ctx.docket("d2") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job)
            await c.add(job, key="k")()
            t = serve(d, "w", ctx, redelivery_timeout=td(1500 * MS))
            screen = Screen(ctx)
            start = ctx.int("start", 0, ctx.p["hi"])
            going = None
            if bool(start < 100 * MS):
                await ctx.sleep_us(start)
                going = asyncio.create_task(watching(ctx, screen, "k"))
            await ctx.sleep_us(100 * MS - ctx.now_us())
            freeze(ctx, "main")
            t2 = serve(d2, "w2", ctx, redelivery_timeout=td(1500 * MS))
            if going is None:
                await ctx.sleep_us(start - ctx.now_us())
                going = asyncio.create_task(watching(ctx, screen, "k"))
                ctx.reach("after its worker died")
            else:
                ctx.reach("before its worker died")
            began = ctx.now_us()
            done, _ = await asyncio.wait({going}, timeout=20)
            now = ctx.now_us()
            last = screen.shown[-1][1] if screen.shown else "".join(screen.said)
            why = f"watched to {now}, ran {runs}, ended {ended}: {last!r}"
            ctx.check(bool(done) and bool(ended), "watching ends when the task does", why)
            ctx.check(now >= ended[-1], "watching does not end before the task does", why)
            ctx.check(now <= max(ended[-1], began) + 1100 * MS, "watching ends when the task does", why)
            ctx.check("COMPLETED" in last and "w2" in last, "the end that is shown is the task's own", why)
            ctx.observe(now)
            t.cancel()
            await stop(t2)

    ctx.go(main)


HARNESSES = [
    Harness("watch", watch, "7 ways to end, silent 0.3 or 2.5 s, due 0.2 or 2.3 s ahead, watched from any microsecond of 3 s", ENDS + ["already over", "progress"],
            quick={"how": ENDS, "quiet": [300 * MS, 2500 * MS], "wait": [200 * MS, 2300 * MS], "hi": 3 * S, "lag": [0], "ops": 1}, thorough={"hi": 6 * S}, budget_quick=120, budget_thorough=1500),
    Harness("slow", watch, "3 ways to end, one of the first Redis operations of watch taking 0.7 s", ["returns", "progress"],
            quick={"how": ["returns", "raises", "cancelled running"], "quiet": [900 * MS], "wait": [200 * MS], "hi": 1300 * MS, "lag": [700 * MS], "ops": 8}, thorough={"ops": 12, "hi": 3 * S, "lag": [300 * MS, 700 * MS, 1500 * MS]}, budget_quick=120, budget_thorough=1500),
    Harness("handed_over", handed_over, "the worker dies 0.1 s in; watched from any microsecond of 2 s", ["before its worker died", "after its worker died"], quick={"hi": 2 * S}, thorough={"hi": 4 * S}, budget_quick=60),
]
