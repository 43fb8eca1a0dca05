"""C31 Dependencies are resolved once, shared, and always cleaned up."""
import asyncio
import inspect
from contextlib import asynccontextmanager, contextmanager
from typing import Annotated, Any

from docket import Retry, Shared, Timeout, Worker
from docket.dependencies import ConcurrencyLimit, Cooldown, Dependency, Depends, TaskArgument
from docket.execution import ExecutionState

from .c10 import POLL, RES, serve, stop
from .lib import MS, S, Ctx, Harness, td

FUNCTIONS = ["resolved_dependencies", "_Depends", "_TaskArgument", "Execution.get_argument", "_argument_value", "Worker._execute", "Worker.__aenter__/__aexit__ (Shared)", "validate_worker_dependencies"]
ASSUMPTIONS = ["the virtual loop's scheduling; operations take no time", "uncalled_for (third party) is executed as it is"]
KINDS = ["sync", "async", "cm", "acm", "class"]


class Problem(Exception):
    pass


class Log:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx, self.events = ctx, []

    def add(self, what: str, name: str, run: Any, value: Any = None) -> None:
        self.events.append((what, name, run, value, self.ctx.now_us()))

    def names(self, what: str, run: Any = None) -> list:
        return [n for w, n, r, _, _ in self.events if w == what and (run is None or r == run)]


def with_parameters(fn: Any, deps: dict) -> Any:
    """Give fn(**kw) named parameters that default to the dependencies."""
    fn.__signature__ = inspect.Signature([inspect.Parameter(k, inspect.Parameter.KEYWORD_ONLY, default=v) for k, v in deps.items()])
    return fn


def node(ctx: Ctx, log: Log, name: str, kind: str, needs: dict, *, fails: str | None = None, pause: Any = 0, swallows: bool = False) -> Any:
    """A dependency of one of the kinds, that records what it is given and how it is used."""
    from docket.dependencies import current_execution

    def run() -> Any:
        return current_execution.get().key, current_execution.get().attempt

    def made(kw: dict) -> Any:
        log.add("enter", name, run(), (object(), dict(kw)))
        return log.events[-1][3][0]

    def refuse() -> None:
        log.add("refuse", name, run())
        raise Problem(f"{name} enter")

    async def gap() -> None:
        if bool(pause > 0):
            await ctx.sleep_us(pause)

    if kind == "sync":

        def sync(**kw: Any) -> Any:
            if fails == "enter":
                refuse()
            return made(kw)

        return Depends(with_parameters(sync, needs))
    if kind == "async":

        async def asyn(**kw: Any) -> Any:
            await gap()
            if fails == "enter":
                refuse()
            return made(kw)

        return Depends(with_parameters(asyn, needs))

    def leave(me: Any, error: bool) -> None:
        log.add("exit", name, me, error)
        if fails == "exit":
            raise Problem(f"{name} exit")

    if kind == "cm":

        @contextmanager
        def cm(**kw: Any) -> Any:
            me = run()
            if fails == "enter":
                refuse()
            value, error = made(kw), False
            try:
                yield value
            except BaseException:
                error = True
                if not swallows:
                    raise
            finally:
                leave(me, error)

        return Depends(with_parameters(cm, needs))
    if kind == "acm":

        @asynccontextmanager
        async def acm(**kw: Any) -> Any:
            me = run()
            await gap()
            if fails == "enter":
                refuse()
            value, error = made(kw), False
            try:
                yield value
            except Exception:
                error = True
                if not swallows:
                    raise
            except BaseException:
                error = True
                raise
            finally:
                leave(me, error)

        return Depends(with_parameters(acm, needs))

    class Own(Dependency[Any]):
        async def __aenter__(self) -> Any:
            await gap()
            if fails == "enter":
                refuse()
            return made({})

        async def __aexit__(self, kind: Any, error: Any, tb: Any) -> bool:
            leave(run(), error is not None)
            return swallows and isinstance(error, Exception)

    return Own()


CLOSED = ("cm", "acm", "class")
ENDS = ["returns", "raises", "times out", "retried"]
SHAPES = ["two", "chain", "diamond", "again"]


def graph(shape: str, make: Any) -> tuple[dict, dict]:
    """The body's dependencies, and who needs whom."""
    if shape == "two":
        return {"a": make("A", {}), "b": make("B", {})}, {"A": [], "B": [], "body": ["A", "B"]}
    a = make("A", {})
    if shape == "chain":
        b = make("B", {"a": a})
        return {"c": make("C", {"b": b})}, {"A": [], "B": ["A"], "C": ["B"], "body": ["C"]}
    if shape == "diamond":
        return {"b": make("B", {"a": a}), "c": make("C", {"a": a})}, {"A": [], "B": ["A"], "C": ["A"], "body": ["B", "C"]}
    return {"a": a, "b": make("B", {"a": a})}, {"A": [], "B": ["A"], "body": ["A", "B"]}


def judge(ctx: Ctx, log: Log, run: Any, needs: dict, kinds: dict, fails: dict, why: str) -> None:
    """What every execution owes its dependencies."""
    mine = [(w, n, v) for w, n, r, v, _ in log.events if r == run]
    entered = [n for w, n, _ in mine if w == "enter"]
    values = {n: v[0] for w, n, v in mine if w == "enter"}
    ctx.check(len(entered) == len(set(entered)), "a dependency is made once per execution", why)
    for w, n, v in mine:
        if w == "enter" and kinds[n] != "class":
            ctx.check(all(v[1].get(x.lower()) is values.get(x) for x in needs[n]), "nested dependencies are shared", f"{why} {n}")
    exits = [n for w, n, _ in mine if w == "exit"]
    ctx.check(exits == [n for n in reversed(entered) if kinds[n] in CLOSED], "what was entered is closed once, in reverse", f"{why} entered {entered} closed {exits}")
    body = [i for i, (w, n, v) in enumerate(mine) if w == "body"]
    done = [i for i, (w, n, v) in enumerate(mine) if w == "body over"]
    ctx.check(len(body) <= 1, "the body runs once per execution", why)
    if body:
        got = mine[body[0]][2]
        ctx.check(all(got.get(x.lower()) is values.get(x, Problem) for x in needs["body"]), "the body is given what was made", f"{why} {got} {values}")
        ctx.check("enter" not in fails.values() or run[1] > 1, "the body doesn't run without a dependency", why)
        ctx.check(all(w != "enter" for w, _, _ in mine[body[0] :]), "dependencies are ready before the body", why)
        ctx.check(not done or all(w != "exit" for w, _, _ in mine[: done[0]]), "dependencies are kept until the body is over", why)


TERMINAL = (ExecutionState.COMPLETED, ExecutionState.FAILED, ExecutionState.CANCELLED)


class Watch:
    def __init__(self, ex: Any) -> None:
        self.states: list = []
        self.ex, self.ready = ex, asyncio.Event()
        self.task = asyncio.create_task(self.go())

    async def go(self) -> None:
        async for e in self.ex.subscribe():
            if e["type"] == "state":
                self.states.append(e["state"])


def outcomes(ctx: Ctx) -> None:
    """Every graph, kind of node, failing node and way for the body to end."""

    async def main(ctx: Ctx) -> None:
        log = Log(ctx)
        shape = ctx.pick("shape", ctx.p["shapes"])
        nodes = ["A", "B", "C"] if shape in ("chain", "diamond") else ["A", "B"]
        one = ctx.pick("kind", ctx.p["kinds"])
        which = ctx.pick("which", ctx.p.get("which") or nodes)
        kinds = {n: one if n == which else "acm" for n in nodes}
        if one == "class" and shape != "two":
            # A class has no parameters to be given others by.
            # (One of a class is used where it is declared, each time.)
            if which != "A" or shape != "chain":
                ctx.reach("no such graph")
                return
        fails = {}
        how = ctx.pick("fails", ["", "enter", "exit"])
        if how:
            if how == "exit" and one not in CLOSED:
                return
            fails[which] = how
        outcome = ctx.pick("outcome", ctx.p["outcomes"])
        pause = ctx.pick("pause", ctx.p["pauses"])
        cancel_at = ctx.int("cancel", 0, S) if outcome == "cancelled" else None

        async with ctx.docket() as d, ctx.docket("client") as c:
            deps, needs = graph(shape, lambda n, need: node(ctx, log, n, kinds[n], need, fails=fails.get(n), pause=pause))
            if outcome == "times out":
                deps["timeout"] = Timeout(td(200 * MS))
            if outcome == "retried":
                deps["retry"] = Retry(attempts=2)

            async def job(**kw: Any) -> Any:
                from docket.dependencies import current_execution

                me = current_execution.get().key, current_execution.get().attempt
                log.add("body", "body", me, kw)
                try:
                    await ctx.sleep_us(300 * MS)
                    if outcome == "raises" or outcome == "retried" and me[1] == 1:
                        raise Problem("body")
                finally:
                    log.add("body over", "body", me)
                return 7

            with_parameters(job, deps)
            for x in (d, c):
                x.register(job)
            ex = await c.add(job, key="k")()
            watch = Watch(ex)
            await asyncio.sleep(0)
            t = serve(d, "w", ctx)
            if cancel_at is not None:
                await ctx.sleep_us(cancel_at)
                await c.cancel("k")
                at = ctx.now_us()
            await ctx.sleep_us(4 * S)
            runs = sorted({r for _, _, r, _, _ in log.events})
            why = f"{shape} {kinds} fails {fails} {outcome} pause {pause} {cancel_at}: {[(w, n, r[1]) for w, n, r, _, _ in log.events]} {watch.states}"
            for r in runs:
                judge(ctx, log, r, needs, kinds, fails, why)
            await ex.sync()
            ran, over = log.names("body"), log.names("body over")
            attempts = 2 if outcome == "retried" and (fails or True) else 1
            if outcome != "cancelled":
                ctx.check(len(runs) == attempts, "every attempt is made", why)
                ctx.check(len(ran) == (0 if how == "enter" else attempts), "the body runs when its dependencies are there", why)
                good = not fails and outcome in ("returns", "retried")
                ctx.check(ex.state is (ExecutionState.COMPLETED if good else ExecutionState.FAILED), "the outcome is that of the body and its dependencies", f"{why} {ex.state}")
                getting = asyncio.create_task(ex.get_result())
                await asyncio.wait([getting], timeout=5)
                got: Any = "nothing" if not getting.done() else getting.exception() or getting.result()
                getting.cancel()
                ctx.check(got == 7 if good else isinstance(got, Exception), "the result is that of the body and its dependencies", f"{why} {got!r}")
            else:
                ctx.check(ex.state in TERMINAL, "a cancelled task ends", f"{why} {ex.state}")
                if ran and not over:
                    ctx.check(False, "a cancelled task ends", why)
            ctx.check(len([s for s in watch.states if s in TERMINAL]) == 1, "a task ends once", why)
            ctx.reach(f"{shape} {one}")
            ctx.reach(f"{outcome} {how}".strip())
            if cancel_at is not None:
                begun = [x for w, n, _, _, x in log.events if w == "enter"]
                ctx.reach("cancelled during resolution" if ex.state is ExecutionState.CANCELLED and begun and not ran else "cancelled otherwise")
            ctx.observe(len(log.events), str(ex.state))
            watch.task.cancel()
            await stop(t)

    ctx.go(main)


def beside(ctx: Ctx) -> None:
    """Two executions of the same function overlap in any way: each has its own, both use the shared ones."""

    async def main(ctx: Ctx) -> None:
        log = Log(ctx)
        shape = ctx.pick("shape", ctx.p["shapes"])
        kinds = {n: "acm" for n in "ABC"}
        offset = ctx.int("offset", 0, ctx.p["hi"])
        pause = 150 * MS
        stops = ctx.pick("stops", ctx.p["stops"])
        trouble = ctx.pick("trouble", ["none", "first fails", "slow"])
        shared: list = []
        state = {"made": 0}

        @asynccontextmanager
        async def pool() -> Any:
            state["made"] += 1
            me = state["made"]
            shared.append(("begin", me, ctx.now_us()))
            await ctx.sleep_us((400 if trouble == "slow" else 100) * MS)
            if trouble == "first fails" and me == 1:
                shared.append(("fail", me, ctx.now_us()))
                raise Problem("pool")
            shared.append(("open", me, ctx.now_us()))
            try:
                yield me
            finally:
                shared.append(("close", me, ctx.now_us()))

        async with ctx.docket() as d, ctx.docket("client") as c:
            deps, needs = graph(shape, lambda n, need: node(ctx, log, n, "acm", need, pause=pause))
            deps["pool"] = Shared(pool)

            async def job(**kw: Any) -> Any:
                from docket.dependencies import current_execution

                me = current_execution.get().key, current_execution.get().attempt
                log.add("body", "body", me, kw)
                try:
                    await ctx.sleep_us(500 * MS)
                finally:
                    log.add("body over", "body", me)

            with_parameters(job, deps)
            for x in (d, c):
                x.register(job)
            began = ctx.now_us()
            await c.add(job, key="k1")()
            await c.add(job, when=ctx.at(began + offset), key="k2")()
            t = serve(d, "w", ctx)
            await ctx.sleep_us(stops)
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
            ended = ctx.now_us()
            why = f"{shape} {trouble} offset {offset} stops {stops}: {[(w, n, r) for w, n, r, _, _ in log.events]} {shared}"
            runs = sorted({r for _, _, r, _, _ in log.events})
            for r in runs:
                judge(ctx, log, r, needs, kinds, {}, why)
            opened = [m for w, m, _ in shared if w == "open"]
            closed = [m for w, m, _ in shared if w == "close"]
            ctx.check(len(opened) <= 1, "a worker-wide dependency is made once per worker", why)
            ctx.check(closed == opened, "a worker-wide dependency is closed when the worker stops", why)
            bodies = [x for w, _, _, _, x in log.events if w in ("body", "body over", "exit")]
            if closed and bodies:
                ctx.check(bool(shared[-1][2] >= max(bodies)), "a worker-wide dependency is kept until the tasks are over", why)
            for w, n, r, v, _ in log.events:
                if w == "body":
                    ctx.check([v["pool"]] == opened, "every task is given the same worker-wide dependency", f"{why} {v}")
            mine = {r: [v for w, n, r2, v, _ in log.events if w == "enter" and r2 == r] for r in runs}
            if len(runs) == 2:
                x, y = ({id(v[0]) for v in vs} for vs in mine.values())
                ctx.check(not x & y, "each execution has its own dependencies", why)
                both = [(r, w, x) for w, n, r, _, x in log.events if w in ("body", "body over")]
                ctx.reach("overlapping" if len(both) == 4 and both[0][0] != both[1][0] else "apart")
            ctx.reach(f"{trouble} {len(opened)}")
            for k in ("k1", "k2"):
                # Nothing that was begun is left undone.
                begun = [r for r in runs if r[0] == k]
                if begun:
                    e = await c.get_execution(k)
                    ctx.check(e is not None and e.state in TERMINAL, "a task that was begun is finished before the worker stops", f"{why} {k} {e and e.state}")
            ctx.observe(len(log.events), ended)

    ctx.go(main)


def arguments(ctx: Ctx) -> None:
    """Arguments reach dependencies, and may stand in for them, however they are passed."""

    async def main(ctx: Ctx) -> None:
        log = Log(ctx)
        got: list = []
        bound: list = []
        n = ctx.int("n", -5, 5)
        m = ctx.int("m", -5, 5)
        first = ctx.pick("first", ["position", "keyword"])
        second = ctx.pick("second", ["default", "position", "keyword"])
        third = ctx.pick("third", ["resolved", "position", "keyword"])

        class Mark(Dependency[Any]):
            def __init__(self, tag: Any = None) -> None:
                self.tag = tag

            def bind_to_parameter(self, name: str, value: Any) -> "Mark":
                return Mark((name, value))

            async def __aenter__(self) -> None:
                bound.append(self.tag)

        async def of_x(x: Any = TaskArgument()) -> Any:
            log.add("enter", "of_x", None)
            return ("x", x)

        async def of_y(other: Any = TaskArgument("y"), missing: Any = TaskArgument("nope" if False else "z", optional=True)) -> Any:
            return ("y", other, missing)

        async with ctx.docket() as d, ctx.docket("client") as c:

            async def job(x: Annotated[int, Mark()], y: Annotated[int, Mark()] = 9, z: Any = Depends(of_x), w: Any = Depends(of_y), v: Any = TaskArgument("x")) -> Any:
                got.append((x, y, z, w, v))

            for q in (d, c):
                q.register(job)
            args: list = []
            kw: dict = {}
            if second == "position" and first == "keyword" or third == "position" and (first == "keyword" or second != "position"):
                ctx.reach("no such call")
                return
            if first == "position":
                args.append(n)
            else:
                kw["x"] = n
            if second == "position":
                args.append(m)
            elif second == "keyword":
                kw["y"] = m
            if third == "position":
                args.append("mine")
            elif third == "keyword":
                kw["z"] = "mine"
            ex = await c.add(job, key="k")(*args, **kw)
            t = serve(d, "w", ctx)
            await ctx.sleep_us(S)
            await ex.sync()
            why = f"{args} {kw}: {got} {bound} {ex.state} {ex.error}"
            ctx.check(len(got) == 1, "the task ran", why)
            if got:
                x, y, z, w, v = got[0]
                ey = 9 if second == "default" else m
                ctx.check(bool(x == n) and bool(v == n), "an argument is given as it was passed", why)
                ctx.check(bool(y == ey), "an argument is given as it was passed", why)
                ez = "mine" if third != "resolved" else ("x", n)
                ctx.check((z == "mine") if third != "resolved" else z[0] == "x" and bool(z[1] == n), "an argument stands in for a dependency", f"{why} {ez}")
                ctx.check(len(log.names("enter")) == (1 if third == "resolved" else 0), "a dependency that was passed isn't made", why)
                ctx.check(bool(w[1] == ey), "a dependency is given the task's argument", why)
                ctx.check(len(bound) == 2 and bound[0][0] == "x" and bool(bound[0][1] == n) and bound[1][0] == "y" and bool(bound[1][1] == ey), "an annotation sees its argument", why)
            ctx.reach(f"{first} {second} {third}")
            ctx.observe(len(got))
            await stop(t)

    ctx.go(main)


def swallowed(ctx: Ctx) -> None:
    """A dependency that swallows, or adds, exceptions changes only what it is meant to."""

    async def main(ctx: Ctx) -> None:
        log = Log(ctx)
        kind = ctx.pick("kind", ["cm", "acm", "class", "worker"])
        what = ctx.pick("what", ["body", "resolution", "concurrency", "cooldown", "nothing"])
        does = ctx.pick("does", ["swallows", "fails"])
        place = ctx.pick("place", ["before", "after"])
        offset = ctx.int("offset", 0, 300 * MS)
        ran: list = []

        async with ctx.docket() as d, ctx.docket("client") as c:
            sw = node(ctx, log, "S", "acm" if kind == "worker" else kind, {}, swallows=does == "swallows", fails="exit" if does == "fails" else None)
            other: dict = {}
            if what == "resolution":
                other["o"] = node(ctx, log, "O", "async", {}, fails="enter")
            elif what == "concurrency":
                other["o"] = ConcurrencyLimit(1)
            elif what == "cooldown":
                other["o"] = Cooldown(td(5 * S))
            s = {} if kind == "worker" else {"s": sw}
            deps = {**s, **other} if place == "before" else {**other, **s}

            async def job(**kw: Any) -> Any:
                from docket.dependencies import current_execution

                ran.append(current_execution.get().key)
                await ctx.sleep_us(400 * MS)
                if what == "body":
                    raise Problem("body")
                return 7

            with_parameters(job, deps)
            for x in (d, c):
                x.register(job)
            began = ctx.now_us()
            watches = [Watch(await c.add(job, key="k1")()), Watch(await c.add(job, when=ctx.at(began + offset), key="k2")())]
            await asyncio.sleep(0)
            kw: dict = {"dependencies": {"s": sw}} if kind == "worker" else {}
            t = serve(d, "w", ctx, redelivery_timeout=td(2 * S), **kw)
            await ctx.sleep_us(6 * S)
            exs = {k: await c.get_execution(k) for k in ("k1", "k2")}
            states = {k: e.state if e else None for k, e in exs.items()}
            why = f"{kind} {what} {does} {place} offset {offset}: ran {ran} {states} {[e and e.error for e in exs.values()]} {[(w, n, r) for w, n, r, _, _ in log.events]}"
            for w in watches:
                ctx.check(len([x for x in w.states if x in TERMINAL]) == 1, "a task ends once", f"{why} {w.states}")
                w.task.cancel()
            if what == "cooldown":
                ctx.check(len(ran) == 1 and [states[k] for k in states if k not in ran] == [ExecutionState.CANCELLED], "admission control decides what runs", why)
            elif what == "resolution":
                ctx.check(not ran, "the body doesn't run without a dependency", why)
            else:
                ctx.check(sorted(ran) == ["k1", "k2"], "every accepted task runs once", why)
            snap = await c.snapshot()
            ctx.check(not snap.running and not snap.future, "nothing is left", f"{why} {[(e.key) for e in (*snap.running, *snap.future)]}, {[e and e.error for e in exs.values()]}")
            entered, exited = log.names("enter").count("S"), log.names("exit").count("S")
            ctx.check(entered == exited, "what was entered is closed once, in reverse", why)
            for k in ran:
                want = ExecutionState.FAILED if does == "fails" or what == "resolution" else ExecutionState.COMPLETED
                # (An exception of the body that a dependency swallowed is nobody's to judge.)
                ctx.check(states[k] is want or (what, does) == ("body", "swallows") and states[k] is ExecutionState.FAILED, "the outcome is that of the body and its dependencies", f"{why} {k}")
            if what == "resolution":
                ctx.check(all(x is ExecutionState.FAILED for x in states.values()), "a task without a dependency fails", why)
            ctx.reach(f"{what} {does}")
            ctx.observe(len(ran), str(states))
            await stop(t)

    ctx.go(main)


HARNESSES = [
    Harness("outcomes", outcomes, "4 graphs of 2 or 3 nodes, one of 5 kinds and failing on entry or exit, 4 ways to end",
            [*[f"{s} {k}" for s in SHAPES for k in KINDS[:4]], "two class", "chain class", *[f"{o} {h}".strip() for o in ENDS for h in ("", "enter", "exit")]],
            quick={"shapes": SHAPES, "kinds": KINDS, "outcomes": ENDS, "pauses": [0]}, thorough={"pauses": [0, 150 * MS]}, budget_quick=120),
    Harness("cancels", outcomes, "4 graphs of 2 or 3 nodes, one of 3 kinds and failing on entry or exit, cancelled at any microsecond of 1 s", ["cancelled", "cancelled enter", "cancelled exit", "cancelled during resolution"],
            quick={"shapes": ["two", "diamond"], "kinds": ["acm", "class"], "outcomes": ["cancelled"], "pauses": [150 * MS], "which": ["A"]}, thorough={"shapes": SHAPES, "kinds": KINDS, "pauses": [0, 150 * MS], "which": None}, budget_quick=100),
    Harness("beside", beside, "two executions at any offset in 1.5 s, and a worker stopped at 5 moments", ["overlapping", "apart", "none 1", "slow 1", "first fails 1"],
            quick={"shapes": ["two", "diamond"], "hi": 1500 * MS, "stops": [200 * MS, 900 * MS, 3 * S]}, thorough={"shapes": SHAPES, "stops": [x * 100 * MS for x in range(1, 31, 2)]}, budget_quick=100),
    Harness("arguments", arguments, "every way to pass three arguments, of any values", ["position default resolved", "position position position", "keyword keyword keyword", "position keyword keyword"], budget_quick=60),
    Harness("swallowed", swallowed, "4 places of a swallowing or failing dependency, 5 things that go wrong, a second task at any instant of 300 ms",
            [f"{w} {s}" for w in ("body", "resolution", "concurrency", "cooldown", "nothing") for s in ("swallows", "fails")], budget_quick=100),
]
