"""C33 Different keys and dockets never interfere."""
import asyncio
import inspect
from datetime import timedelta
from typing import Annotated, Any

from vp import sym

from docket import ConcurrencyLimit, Perpetual, Progress, Retry, Worker
from docket.dependencies import Cooldown, Debounce, RateLimit
from docket.execution import ExecutionProgress, ExecutionState

from .c10 import POLL, RES, WHO, serve, stop
from .lib import MS, S, Ctx, Harness, Rec, td

FUNCTIONS = [
    "Docket.add/replace/cancel/clear/snapshot/get_execution", "Docket.key/parked_task_key/runs_key/known_task_key", "Execution.schedule + _schedule (Lua)", "_cancel_task (Lua)", "_clear_tasks (Lua)",
    "_stream_due_tasks (Lua)", "Execution.claim + _claim (Lua)", "_terminal (Lua)", "Worker._cancellation_listener", "ConcurrencyLimit", "RateLimit", "Cooldown", "Debounce",
]
ASSUMPTIONS = ["the virtual loop's scheduling; operations take no time"]
LONG = 400 * MS
PLAIN = [("k", "K"), ("k", "k "), ("k", "k:1"), ("a*", "ab"), ("k", "{k}"), ("k", "d:k"), ("k", "__safeguard__:k"), ("k", ""), ("é", "e\u0301"), ("k", "k\n"), ('k"', "k")]
LAYOUT = [("k", "known:k"), ("k", "runs:k"), ("k", "progress:k"), ("k", "stream-id:k"), ("k", "k:lock"), ("k", "cancel:k"), ("k", "state:k"), ("k", "lock:k"), ("k", "parked:k"), ("runs:k", "parked:runs:k"), ("k", "results::k")]
SYSTEM = ["queue", "stream", "workers", "results", "strikes", "perpetual:lock", "worker-tasks:a", "task-workers:job"]
STORIES = ["now", "later", "cancelled", "replaced", "fails", "stopped"]


class Story:
    """What is done with one key, and what must come of that, whatever is done with others."""

    def __init__(self, ctx: Ctx, docket: Any, key: str, kind: str, runs: list, due: Any, then: Any) -> None:
        self.ctx, self.d, self.key, self.kind, self.runs, self.due, self.then = ctx, docket, key, kind, runs, due, then
        self.execution: Any = None

    async def play(self) -> None:
        d, ctx, key, job = self.d, self.ctx, self.key, "job"
        if self.kind in ("now", "fails", "stopped"):
            self.execution = await d.add(job, key=key)(key, 1, self.kind)
        else:
            self.execution = await d.add(job, key=key, when=ctx.now() + td(self.due))(key, 1, self.kind)
        if self.kind in ("cancelled", "replaced", "stopped"):
            await ctx.sleep_us(self.then)
            if self.kind == "replaced":
                self.execution = await d.replace(job, ctx.now() + td(self.due), key=key)(key, 2, self.kind)
            else:
                await d.cancel(key)

    def expected(self) -> tuple:
        runs = {"cancelled": [], "replaced": [2]}.get(self.kind, [1])
        state = {"fails": ExecutionState.FAILED, "cancelled": ExecutionState.CANCELLED, "stopped": ExecutionState.CANCELLED}.get(self.kind, ExecutionState.COMPLETED)
        return runs, state

    async def verify(self, what: str) -> None:
        ctx = self.ctx
        runs, state = self.expected()
        ctx.check([n for k, n in self.runs if k == self.key] == runs, "each key's task runs as it was scheduled itself", f"{what}: {self.key!r} {self.kind}: {self.runs}")
        e = await self.d.get_execution(self.key)
        ctx.check(e is not None and e.key == self.key and e.state == state, "each key's record tells its own task's outcome", f"{what}: {self.key!r} {self.kind}: {e and (e.key, e.state)}")
        if state == ExecutionState.COMPLETED:
            got = await asyncio.wait_for(self.execution.get_result(), 5)
            ctx.check(got == [self.key, runs[0]], "each key's result is its own", f"{what}: {self.key!r} {got}")


def jobs(ctx: Ctx, runs: list) -> Any:
    async def job(key: str, n: int, kind: str, progress: ExecutionProgress = Progress()) -> list:
        runs.append((key, n))
        await progress.set_total(7 + len(key))
        await progress.increment(1 + len(key))
        if kind in ("stopped",):
            await ctx.sleep_us(4 * LONG)
        await ctx.sleep_us(LONG)
        if kind == "fails":
            raise ValueError(key)
        return [key, n]

    return job


def keys(ctx: Ctx) -> None:
    """Two keys, each with a history of its own."""

    async def main(ctx: Ctx) -> None:
        one, two = ctx.pick("keys", ctx.p["pairs"])
        if ctx.bool("swap"):
            one, two = two, one
        runs: list = []
        async with ctx.docket() as d, ctx.docket("client") as c:
            job = jobs(ctx, runs)
            for x in (d, c):
                x.register(job)
            w = serve(d, "a", ctx)
            a = Story(ctx, c, one, ctx.pick("first", ctx.p["first"]), runs, 3 * LONG, LONG)
            gap = ctx.int("gap", 0, ctx.p["gap"])
            b = Story(ctx, c, two, ctx.pick("second", ctx.p["second"]), runs, 2 * LONG, LONG // 2)
            ta = asyncio.get_running_loop().create_task(a.play())
            await ctx.sleep_us(gap)
            tb = asyncio.get_running_loop().create_task(b.play())
            try:
                await ta
                await tb
            except Exception as e:
                ctx.fail("operations on one key don't fail because of another", f"{one!r} {a.kind}, {two!r} {b.kind}: {e!r}")
            # while they are pending or running, each is reported as itself
            snap = await c.snapshot()
            for s in (a, b):
                for e in (await c.get_execution(s.key),):
                    ctx.check(e is not None and e.key == s.key, "a key's record is its own", f"{one!r} {two!r}: {e}")
                    if e.state == ExecutionState.RUNNING:
                        await e.progress.sync()
                        ctx.check(e.progress.total == 7 + len(s.key), "a key's progress is its own", f"{one!r} {two!r}: {e.progress.total}")
                        ctx.reach("looked at progress")
            listed = [e.key for e in [*snap.future, *snap.running]]
            ctx.check(len(set(listed)) == len(listed) and set(listed) <= {one, two}, "the snapshot lists these tasks only", f"{listed}")
            await ctx.sleep_us(3 * S)
            for s in (a, b):
                await s.verify(f"{one!r} {a.kind}, {two!r} {b.kind}")
            ctx.check(not w.done(), "the worker keeps working", f"{one!r} {two!r}: {w}")
            for s in (a, b):
                ctx.reach(s.kind)
            ctx.observe(runs)
            await stop(w)

    ctx.go(main)


def system(ctx: Ctx) -> None:
    """A key named like something of the docket's own."""

    async def main(ctx: Ctx) -> None:
        key = ctx.pick("key", ctx.p["keys"])
        runs: list = []
        async with ctx.docket() as d, ctx.docket("client") as c:
            job = jobs(ctx, runs)
            for x in (d, c):
                x.register(job)
            w = serve(d, "a", ctx)
            await c.strike("other")
            gap = ctx.int("gap", 0, ctx.p["gap"])
            others = [Story(ctx, c, f"o{i}", kind, runs, 3 * LONG, LONG) for i, kind in enumerate(["now", "later", "cancelled"])]
            for s in others:
                await s.play()
            await ctx.sleep_us(gap)
            me = Story(ctx, c, key, ctx.pick("story", ctx.p["stories"]), runs, LONG, LONG // 2)
            try:
                await me.play()
                if ctx.bool("clears"):
                    await c.add("job", key=key + "!", when=ctx.now() + td(100 * S))(key, 9, "later")
                    await c.cancel(key + "!")
                listed = {x.name for x in await c.workers()}
                ctx.check(listed == {"a"}, "the worker is still listed", f"{key!r} {listed}")
            except Exception as e:
                ctx.fail("operations on one key don't fail because of another", f"{key!r} {me.kind}: {e!r}")
            await ctx.sleep_us(3 * S)
            for s in (*others, me):
                await s.verify(f"{key!r} {me.kind}")
            ctx.check(not w.done(), "the worker keeps working", f"{key!r}")
            last = Story(ctx, c, "last", "now", runs, 0, 0)
            await last.play()
            await ctx.sleep_us(2 * S)
            await last.verify("afterwards")
            async with ctx.docket("late") as late:
                await late.wait_for_strikes_loaded()
                ctx.check("other" in late.strike_list.task_strikes, "strikes stay in force", f"{key!r}")
            ctx.reach(me.kind)
            ctx.observe(runs)
            await stop(w)

    ctx.go(main)


def dockets(ctx: Ctx) -> None:
    """Two dockets that use the same keys."""

    async def main(ctx: Ctx) -> None:
        one, two = ctx.pick("names", ctx.p["names"])
        if ctx.bool("swap"):
            one, two = two, one
        mine: list = []
        theirs: list = []
        async with ctx.docket("a", name=one) as d, ctx.docket("b", name=two) as e, ctx.docket("ca", name=one) as ca, ctx.docket("cb", name=two) as cb:
            fa, fb = jobs(ctx, mine), jobs(ctx, theirs)
            for x in (d, ca):
                x.register(fa)
            for x in (e, cb):
                x.register(fb)
            ta, tb = serve(d, "a", ctx), serve(e, "b", ctx)
            what = ctx.pick("they", ctx.p["they"])
            keys = ["k", "later", "long"]
            stories = [Story(ctx, ca, "k", "now", mine, 0, 0), Story(ctx, ca, "later", "later", mine, 3 * LONG, 0), Story(ctx, ca, "long", ctx.pick("mine", ["now", "stopped"]), mine, 0, 2 * LONG)]
            plays = [asyncio.get_running_loop().create_task(s.play()) for s in stories]
            gap = ctx.int("gap", 0, ctx.p["gap"])
            await ctx.sleep_us(gap)
            hurt: list = []
            for i, k in enumerate(keys):
                s = Story(ctx, cb, k, what if what in STORIES else "later", theirs, 2 * LONG, LONG)
                hurt.append(s)
            if what in STORIES:
                plays += [asyncio.get_running_loop().create_task(s.play()) for s in hurt]
            elif what == "clear":
                for s in hurt:
                    await s.play()
                ctx.check(await cb.clear() == len(keys), "clearing a docket clears its own tasks", f"{one!r} {two!r}")
                for s in hurt:
                    s.kind = "cancelled"
            elif what == "strike":
                await cb.strike("job")
                hurt = []
            elif what == "cancel":
                for k in keys:
                    await cb.cancel(k)
                    await cb.cancel("*")
                hurt = []
            for p in plays:
                await p
            await ctx.sleep_us(4 * S)
            for s in (*stories, *hurt):
                await s.verify(f"{one!r} {two!r} {what}")
            listed = [sorted(x.name for x in await c.workers()) for c in (ca, cb)]
            ctx.check(listed == [["a"], ["b"]], "each docket lists its own workers", f"{one!r} {two!r} {listed}")
            ctx.check(not ta.done() and not tb.done(), "both workers keep working", f"{ta} {tb}")
            ctx.reach(what)
            ctx.observe(mine, theirs)
            await stop(ta, tb)

    ctx.go(main)


VALUES = [("5", "5:waiters"), ("5", "5:waiters:"), ("5:waiters", "5:waiters:"), ("5", "5:5"), ("a", "a*"), ("a", "A"), ("", ":"), ("5", "5:last")]


def limits(ctx: Ctx) -> None:
    """Limits of different values, functions, scopes and dockets, at once."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        kind = ctx.pick("kind", ["concurrency", "rate", "cooldown", "debounce"])
        differ = ctx.pick("differ", ["value", "function", "argument", "docket", "named"])
        pair = ctx.pick("values", VALUES) if differ == "value" else ("5", "waiters" if differ == "named" else "5")
        if differ == "value" and ctx.bool("swap"):
            pair = pair[::-1]
        make = {
            "concurrency": lambda: ConcurrencyLimit(max_concurrent=1),
            "rate": lambda: RateLimit(1, per=timedelta(seconds=3)),
            "cooldown": lambda: Cooldown(timedelta(seconds=3)),
            "debounce": lambda: Debounce(timedelta(milliseconds=600)),
        }[kind]

        def limited(fn: Any, argument: str | None) -> Any:
            if argument:
                fn.__annotations__[argument] = Annotated[str, make()]
                params = []
            else:
                params = [inspect.Parameter("limiter", inspect.Parameter.KEYWORD_ONLY, default=make())]
            sig = inspect.signature(fn)
            old = [p.replace(annotation=fn.__annotations__.get(n, p.annotation)) for n, p in sig.parameters.items() if n != "_"]
            fn.__signature__ = sig.replace(parameters=[*old, *params])
            return fn

        a1, a2 = {"value": ("who", "who"), "argument": ("who", "first"), "docket": ("who", "who"), "function": (None, None), "named": (None, "first")}[differ]

        async def first(i: int, who: str, other: str, **_: Any) -> None:
            rec.start(("first", i))
            await ctx.sleep_us(LONG)

        async def second(i: int, who: str, first: str, **_: Any) -> None:
            rec.start(("second", i))
            await ctx.sleep_us(LONG)

        limited(first, a1)
        limited(second, a2)
        fns = (first, first) if differ in ("value", "docket") else (first, second)
        other = "e" if differ == "docket" else "d"
        async with ctx.docket("a", name="d") as d, ctx.docket("b", name=other) as e:
            for x in (d, e):
                x.register(first)
                x.register(second)
            ta, tb = serve(d, "a", ctx), serve(e, "b", ctx)
            held = ctx.int("already", 1, 2)
            for i in range(2):
                if bool(held > i):
                    await d.add(fns[0], key=f"f{i}")(i, pair[0], pair[0])
            gap = ctx.int("gap", 0, ctx.p["gap"])
            await ctx.sleep_us(gap)
            t = ctx.now_us()
            await e.add(fns[1], key="s")(100, pair[1], pair[1])
            await ctx.sleep_us(5 * S)
            tag = (fns[1].__name__, 100)
            settle = 600 * MS if kind == "debounce" else 0
            at = rec.of("start", tag)
            ctx.check(len(at) == 1, "a task isn't dropped for a limit that isn't its own", f"{kind} {differ} {pair}: {rec.events}")
            ctx.check(at[0] - t <= settle + (RES + POLL + 20 * MS if settle else 10 * MS), "a task doesn't wait for a limit that isn't its own", f"{kind} {differ} {pair}: {at[0] - t}")
            n = [g for g in rec.tags("start") if g[1] < 100]
            want = 2 if kind in ("concurrency", "rate") and bool(held == 2) else 1
            ctx.check(len(n) == want, "and those others run as ever", f"{kind} {differ} {pair} {rec.events}")
            ctx.reach(kind)
            ctx.reach(differ)
            ctx.observe(rec.tags("start"))
            await stop(ta, tb)

    ctx.go(main)


# ---- the layout of all keys ------------------------------------------------

MARK, DOCKET = "~K~", "~D~"
EVERY_ARG = {"DEL", "EXISTS", "UNLINK"}


def touched(store: Any, seen: set) -> Any:
    """Notes which Redis keys and channels commands are applied to."""

    def listen(name: str, args: Any) -> None:
        cmd = name.upper()
        a = [x.decode(errors="replace") if isinstance(x, bytes) else str(x) for x in args if isinstance(x, (bytes, str))]
        if cmd.startswith(("EVAL", "SCRIPT")) or cmd in ("PING", "SCAN", "KEYS"):
            return
        if cmd.startswith(("XREAD", "XGROUP", "XINFO")):
            keys = [x for x in a if x.startswith(DOCKET)][:1]
        else:
            keys = a if cmd in EVERY_ARG else a[:1]
        for k in keys:
            seen.add(("channel" if cmd == "PUBLISH" else "key", cmd, k))

    store.listeners.append(listen)
    return listen


async def probe(ctx: Ctx, key: str) -> set:
    """All that is done to Redis on behalf of one task key, through a long life of it."""
    seen: set = set()
    listen = touched(ctx.store, seen)
    one = ConcurrencyLimit("who", max_concurrent=1)

    async def work(i: int, progress: ExecutionProgress = Progress()) -> int:
        await progress.increment(1)
        return i

    async def hold(who: str, us: Any, limit: ConcurrencyLimit = one) -> None:
        await ctx.sleep_us(us)

    async def again(perpetual: Perpetual = Perpetual(every=timedelta(milliseconds=300))) -> None:
        runs.append(1)
        if len(runs) % 2 == 0:
            perpetual.cancel()

    async def flaky(retry: Retry = Retry(attempts=2, delay=timedelta(milliseconds=300))) -> None:
        raise ValueError("boom")

    async def limited(a: Annotated[str, RateLimit(5, per=timedelta(seconds=1))], b: Annotated[str, Cooldown(timedelta(seconds=1))], c: Annotated[str, Debounce(timedelta(milliseconds=100))]) -> None:
        pass

    async def itself(perpetual: Perpetual = Perpetual(every=timedelta(seconds=1), automatic=True)) -> None:
        pass

    runs: list = []
    async with ctx.docket("probe", name=DOCKET) as d:
        for f in (work, hold, again, flaky, limited, itself):
            d.register(f)
        async with Worker(d, name="b", minimum_check_interval=td(POLL), scheduling_resolution=td(RES)) as wk:
            automatic = asyncio.get_running_loop().create_task(wk.run_forever())
            await ctx.sleep_us(S)
            await d.cancel("itself")
            await stop(automatic)
        await d.clear()
        await d.strike("nothing")
        w = serve(d, "a", ctx)
        later = td(500 * MS)
        for when in (None, later):
            e = await d.add(work, key=key, when=when and ctx.now() + when)(1)
            await ctx.sleep_us(2 * S)
            ctx.check(await e.get_result() == 1, "the probe ran", key)
        await d.add(work, key=key, when=ctx.now() + td(5 * S))(1)
        await d.replace(work, ctx.now() + td(9 * S), key=key)(2)
        await d.snapshot()
        await d.cancel(key)
        await d.replace(work, ctx.now() + td(9 * S), key=key)(2)
        await d.clear()
        for cancelled in (False, True):
            await d.add(hold, key="holder")("x", S)
            await ctx.sleep_us(100 * MS)
            await d.add(hold, key=key)("x", 100 * MS)
            await ctx.sleep_us(300 * MS)
            if cancelled:
                await d.cancel(key)
            await ctx.sleep_us(3 * S)
        for f in (again, flaky):
            await d.add(f, key=key)()
            await ctx.sleep_us(3 * S)
        await d.add(hold, key=key)("y", 2 * S)
        await ctx.sleep_us(S)
        await d.cancel(key)
        await ctx.sleep_us(S)
        await d.get_execution(key)
        await d.add(limited, key=key)("x", "y", "z")
        await ctx.sleep_us(S)
        await d.workers()
        await d.task_workers("hold")
        await stop(w)
    ctx.store.listeners.remove(listen)
    return {x for x in seen if x[2].startswith(DOCKET)}


def layout(ctx: Ctx) -> None:
    """Whether any two task keys, of any text, could ever share a Redis key."""
    import os
    import time

    import z3

    async def main(ctx: Ctx) -> None:
        base = await probe(ctx, MARK)
        consts = {x for x in base if MARK not in x[2]}
        # classes of keys: (how a key of the class looks, the Redis names it uses)
        heads: list = []
        own = {(space, n.replace(MARK, "\0", 1)) for space, _, n in base if MARK in n}
        ctx.check(len(own) >= 5 and all(n.count("\0") == 1 and MARK not in n for _, n in own), "the probe's names are read", f"{own}")
        classes: dict = {("other", ""): own}
        system = {("key", n) for space, _, n in consts if space == "key" and "holder" not in n and "itself" not in n}
        x1, x2 = z3.String("x1"), z3.String("x2")  # what a key of a class adds to its head

        def key(x: Any, c: tuple) -> Any:
            kind, h = c
            return x if kind == "other" else z3.StringVal(h) if kind == "exact" else z3.Concat(z3.StringVal(h + ":"), x)

        def within(x: Any, c: tuple) -> Any:
            if c[0] != "other":
                return z3.BoolVal(True)
            return z3.And(*[z3.And(x != z3.StringVal(h), z3.Not(z3.PrefixOf(z3.StringVal(h + ":"), x))) for h in heads], z3.Not(z3.PrefixOf(z3.StringVal("__safeguard__:"), x)))

        def join(*parts: Any) -> Any:
            parts = [z3.StringVal(x) if isinstance(x, str) else x for x in parts if not isinstance(x, str) or x]
            return z3.Concat(*parts) if len(parts) > 1 else parts[0] if parts else z3.StringVal("")

        def same(n: str, m: str) -> Any:
            """n with x1 for its mark and m with x2: the condition for these to be equal texts."""
            (p, a, s), (q, b, t) = n.partition("\0"), m.partition("\0")
            i = len(os.path.commonprefix([p, q]))
            if (i < len(p) or not a and not s) and (i < len(q) or not b and not t) and (p[i:] or q[i:]):
                return None  # they differ in what they begin with
            return join(p[i:], a and x1, s) == join(q[i:], b and x2, t)

        def ask(*conditions: Any) -> Any:
            solver = z3.Solver()
            solver.set("timeout", 60000)
            solver.add(*conditions)
            t = time.perf_counter()
            r = solver.check()
            st = sym.CUR.stats
            st.queries += 1
            st.check_queries += 1
            st.solver_s += time.perf_counter() - t
            ctx.check(r != z3.unknown, "the solver decides", f"{conditions}")
            if r == z3.unsat:
                st.unsat += 1
                return None
            st.sat += 1
            m = solver.model()
            return [m.eval(x, model_completion=True) for x in (x1, x2)]

        settled: set = set()  # "other" only ever shrinks, so no answer here goes stale

        def clash() -> Any:
            todo = sorted(classes)
            for i, a in enumerate(todo):
                for b in [None, *todo[i:]]:
                    if (a, b) in settled:
                        continue
                    pairs = []
                    for space, n in sorted(classes[a]):
                        for space2, m in sorted(system if b is None else classes[b]):
                            if space2 == space and (c := same(n, m)) is not None:
                                pairs.append((n, m, c))
                    distinct = {c.sexpr(): (n, m, c) for n, m, c in pairs}
                    for n, m, c in distinct.values():
                        if got := ask(c, within(x1, a), z3.BoolVal(True) if b is None else z3.And(within(x2, b), key(x1, a) != key(x2, b))):
                            here = [(x1, got[0]), (x2, got[1])]
                            return a, b, n, m, [z3.simplify(z3.substitute(key(x, c), *here)).as_string() for x, c in ((x1, a), (x2, b)) if c]
                    settled.add((a, b))
            return None

        for step in range(60):
            found = clash()
            if found is None:
                break
            a, b, n, m, keys = found
            fresh = []
            for c, k in zip((a, b), keys):
                if c is not None and c[0] == "other":
                    fresh.append(k.partition(":")[0])
            if not fresh:
                ctx.fail("no two task keys share a Redis key", f"{keys[0]!r} and {keys[1] if b else 'the docket itself'!r}: {n!r} and {m!r}")
            for h in dict.fromkeys(fresh):
                # this kind of key may be laid out otherwise: look
                heads.append(h)
                seen = await probe(ctx, h + ":" + MARK)
                classes["head", h] = {(space, x.replace(MARK, "\0", 1)) for space, _, x in seen if MARK in x}
                seen = await probe(ctx, h)
                classes["exact", h] = {(space, x) for space, _, x in {y for y in seen if y not in consts}}
                ctx.reach("a kind of key of its own")
        else:
            ctx.fail("no two task keys share a Redis key", f"no end of kinds of keys: {heads}")
        ctx.observe(sorted(heads))

    ctx.go(main)


def nested(ctx: Ctx) -> None:
    """A docket named like another docket's keys."""

    async def main(ctx: Ctx) -> None:
        runs: list = []
        async with ctx.docket("a", name="d") as d, ctx.docket("b", name="d:runs") as e:
            job = jobs(ctx, runs)
            for x in (d, e):
                x.register(job)
            gap = ctx.int("gap", 0, 500 * MS)
            a = Story(ctx, d, ctx.pick("key", ["queue", "k"]), "later", runs, 2 * LONG, 0)
            b = Story(ctx, e, "z", "later", runs, LONG, 0)
            ta, tb = serve(d, "a", ctx), serve(e, "b", ctx)
            await ctx.sleep_us(100 * MS)
            label = "a docket named 'd:runs' keeps apart from docket 'd' and its task 'queue'" if a.key == "queue" else "nested docket names are kept apart"
            try:
                await a.play()
                await ctx.sleep_us(gap)
                await b.play()
            except Exception as x:
                ctx.fail(label, f"{a.key!r}: {x!r}")
            await ctx.sleep_us(3 * S)
            ctx.check(sorted(k for k, _ in runs) == sorted([a.key, "z"]), label, f"{runs}")
            for s in (a, b):
                e = await s.d.get_execution(s.key)
                ctx.check(e is not None and e.state == ExecutionState.COMPLETED, label, f"{s.key!r} {e}")
            ctx.reach("kept apart")
            ctx.observe(runs)
            await stop(ta, tb)

    ctx.go(main)


ALL = PLAIN + LAYOUT
HARNESSES = [
    Harness("keys", keys, f"{len(ALL)} pairs of keys, in both orders, each with one of six histories (run, delayed, cancelled, replaced, failing, cancelled while running) started 0 to 1.2 s apart",
            reach=tuple(STORIES) + ("looked at progress",),
            quick={"pairs": ALL, "gap": 600 * MS, "first": ["now", "replaced", "stopped"], "second": ["later", "cancelled", "fails"]}, thorough={"pairs": ALL, "gap": 1200 * MS, "first": STORIES, "second": STORIES},
            budget_quick=240, budget_thorough=2400, max_steps=200000, assumptions=ASSUMPTIONS),
    Harness("system", system, f"keys named like what the docket keeps for itself ({', '.join(SYSTEM)}), among other tasks",
            reach=("later", "cancelled", "now", "stopped"), quick={"keys": SYSTEM, "gap": 500 * MS, "stories": ["later", "cancelled", "now", "stopped"]}, thorough={"keys": SYSTEM, "gap": 1500 * MS, "stories": STORIES}, budget_quick=80, budget_thorough=1200, max_steps=200000,
            assumptions=ASSUMPTIONS),
    Harness("dockets", dockets, "pairs of docket names, alike or with glob characters, using the same keys on one server: what is done in one at any instant of the other's tasks",
            reach=("clear", "strike", "cancel", "stopped", "replaced"), quick={"names": [("d", "e"), ("d", "d2"), ("d1", "d?"), ("d1", "d[1]"), ("D", "d"), ("d\\", "d")], "gap": 700 * MS, "they": ["clear", "strike", "cancel", "stopped", "replaced"]},
            thorough={"names": [("d", "e"), ("d", "d2"), ("d1", "d?"), ("dx", "d*"), ("d1", "d[1]"), ("d^", "d[^1]"), ("D", "d"), ("d\\", "d"), ("{d}", "d"), ("d ", "d")], "gap": 1500 * MS, "they": ["clear", "strike", "cancel", *STORIES]},
            budget_quick=160, budget_thorough=1500, max_steps=300000, assumptions=ASSUMPTIONS),
    Harness("limits", limits, "each kind of limit, full for one value, function, argument name or docket, and a task of another one 0 to 700 ms later",
            reach=("concurrency", "rate", "cooldown", "debounce", "value", "function", "argument", "docket", "named"), quick={"gap": 700 * MS}, thorough={"gap": 3 * S}, budget_quick=120, budget_thorough=900, max_steps=200000, assumptions=ASSUMPTIONS),
    Harness("layout", layout, "the Redis keys and channels used for a task key through its life (added, promoted, replaced, cancelled, cleared, parked, woken, retried, perpetuated), as string terms: z3 decides whether any two keys of any text share one; keys of another layout are told apart by their text up to the first ':'",
            reach=("a kind of key of its own",), budget_quick=200, budget_thorough=1200, max_steps=3000000, assumptions=[*ASSUMPTIONS, "the layout of a key's names depends on its text only up to the first ':'", "keys don't begin with '__safeguard__:', the docket's own"]),
    Harness("nested", nested, "a docket named like another docket's keys, at any offset", reach=("kept apart",), budget_quick=20, budget_thorough=60, max_steps=100000, assumptions=ASSUMPTIONS),
]
