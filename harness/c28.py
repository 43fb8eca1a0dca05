"""C28 Arguments not marked for logging never appear in logs."""
import logging
from typing import Annotated

from docket import Docket, Logged
from docket.dependencies import ExponentialRetry, Perpetual, Retry, Timeout
from docket.execution import Execution

from .c10 import serve, stop
from .lib import MS, Ctx, Harness, S, td

FUNCTIONS = ["Execution.call_repr", "Annotation.annotated_parameters", "Logged.format", "Worker._execute", "Retry.handle_failure", "Perpetual.on_complete"]
ASSUMPTIONS = ["annotations are evaluated ones (not strings)", "admission gates keyed on an argument name it in their reason by design"]
# How a parameter is taken, in the order Python requires of them.
ORDER = ["pos", "any", "args", "kw", "kwargs"]
LOGGED = Logged
SHOWN, LENGTH, HIDDEN = "shown", "length", "hidden"
NOTES = {
    "none": (HIDDEN, None),
    "plain": (HIDDEN, str),
    "other": (HIDDEN, Annotated[str, "nah chief"]),
    "class": (SHOWN, Annotated[str, LOGGED]),
    "instance": (SHOWN, Annotated[str, "x", LOGGED()]),
    "length": (LENGTH, Annotated[list, LOGGED(length_only=True)]),
}


def declare(params: list):
    """A task taking these parameters: (name, kind, note, defaulted)."""
    ns: dict = {}
    text = []
    kinds = [k for _, k, _, _ in params]
    for i, (name, kind, note, default) in enumerate(params):
        if NOTES[note][1] is not None:
            ns[f"A_{name}"] = NOTES[note][1]
        if kind == "kw" and "args" not in kinds and "kw" not in kinds[:i]:
            text.append("*")
        star = {"args": "*", "kwargs": "**"}.get(kind, "")
        ann = f": A_{name}" if NOTES[note][1] is not None else ""
        text.append(f"{star}{name}{ann}" + (" = None" if default and not star else ""))
        if kind == "pos" and (i + 1 == len(params) or kinds[i + 1] != "pos"):
            text.append("/")
    exec(f"async def task({', '.join(text)}): return locals()", ns)  # noqa: S102
    return ns["task"]


def received(f, args: list, kwargs: dict) -> dict:
    """What each parameter gets when the task is called."""
    try:
        f(*args, **kwargs).send(None)
    except StopIteration as e:
        return e.value


class Sized:
    """A collection that shows what it holds."""

    def __init__(self, inner) -> None:
        self.inner = inner

    def __len__(self) -> int:
        return len(self.inner)

    def __repr__(self) -> str:
        return f"Sized({self.inner!r})"


SHAPES = [lambda v: [v, "x"], lambda v: (v, v, v), lambda v: {"secret": v}, lambda v: {"secret", str(v)}, lambda v: Sized([v]), lambda v: [], lambda v: f"a{v}"]


def docket_of(ctx: Ctx) -> Docket:
    return Docket(name="c28", url="memory://c28")


def text_of(value) -> str:
    return value if isinstance(value, str) else repr(value)


def judge(ctx: Ctx, params: list, args: list, kwargs: dict, said: str, plain: dict) -> None:
    """Which parameter receives each argument is Python's own answer."""
    notes = {name: NOTES[note][0] for name, _, note, _ in params}
    kinds = {name: kind for name, kind, _, _ in params}
    for receiver, value in received(declare(params), args, kwargs).items():
        each = list(value) if kinds[receiver] == "args" else list(value.values()) if kinds[receiver] == "kwargs" else [value]
        for v in each:
            if id(v) not in plain:
                continue  # left at its default
            secret = text_of(plain[id(v)])
            how = notes[receiver]
            if how == SHOWN:
                ctx.check(repr(v) in said, "an argument marked for logging is shown", f"{secret} is not in {said!r}")
            elif how == HIDDEN:
                ctx.check(secret not in said, "an argument not marked for logging is not shown", f"{secret} is in {said!r}")
            elif hasattr(v, "__len__"):
                ctx.check(secret not in said, "an argument marked for its length does not show its contents", f"{secret} is in {said!r}")
                ctx.check(f"len {len(v)}" in said, "the length of an argument so marked is shown", f"{len(v)} is not in {said!r}")
            ctx.reach(how)


def legal(kinds: list) -> bool:
    return all(ORDER.index(a) <= ORDER.index(b) and not (a == b and a in ("args", "kwargs")) for a, b in zip(kinds, kinds[1:]))


def describe(ctx: Ctx) -> None:
    """Any signature of up to n parameters, called in any way it allows."""
    n = ctx.pick("count", [1, 2, 3][: ctx.p["n"]])
    kinds = []
    for i in range(n):
        allowed = [k for k in ORDER if legal([*kinds, k])]
        if not allowed:
            ctx.assume(False)
        kinds.append(ctx.pick(f"kind{i}", allowed))
    notes = [ctx.pick(f"note{i}", ctx.p["notes"]) for i in range(n)]
    params = [(f"p{i}", k, note, True) for i, (k, note) in enumerate(zip(kinds, notes))]
    where = {k: i for i, k in enumerate(kinds)}
    args: list = []
    kwargs: dict = {}
    plain: dict = {}
    keep: list = []
    serial = 0

    def value(note: str):
        nonlocal serial
        serial += 1
        v = ctx.int(f"v{serial}", serial * 10**9, serial * 10**9 + 10**8)
        whole = SHAPES[ctx.p.get("shape", 0)](v) if note == "length" else v
        keep.append(whole)
        plain[id(whole)] = v
        return whole

    positional = [i for i, k in enumerate(kinds) if k in ("pos", "any")]
    given = ctx.pick("given", list(range(len(positional) + 1)))
    for i in positional[:given]:
        args.append(value(notes[i]))
    if "args" in where and given == len(positional):
        for _ in range(ctx.pick("extra", [0, 1, 2])):
            args.append(value(notes[where["args"]]))
    for i, k in enumerate(kinds):
        if k == "kw" or (k == "any" and i in positional[given:]):
            if ctx.pick(f"passed{i}", [True, False]):
                kwargs[f"p{i}"] = value(notes[i])
    if "kwargs" in where:
        note = notes[where["kwargs"]]
        names = ["unheard_of"]
        # A name that no keyword can reach may be used by a spare one.
        names += [f"p{i}" for i, k in enumerate(kinds) if k in ("pos", "args", "kwargs")]
        for name in names:
            if ctx.pick(f"spare {name}", [False, True]):
                kwargs[name] = value(note)
    f = declare(params)
    execution = Execution(docket_of(ctx), f, tuple(args), kwargs, "k", ctx.now(), 1)
    said = execution.call_repr()
    ctx.check(said.startswith("task(") and "{k}" in said, "a call is described by its task and key", said)
    judge(ctx, params, args, kwargs, said, plain)
    ctx.reach("done")
    ctx.observe(len(args), sorted(kwargs))


def alike(ctx: Ctx) -> None:
    """Tasks whose signatures differ only in what they mark, described in turn."""
    notes = [ctx.pick(f"note{i}", list(NOTES)) for i in range(2)]
    shape = ctx.pick("shape", list(range(len(SHAPES))))
    unhashable = ctx.pick("unhashable", [False, True])
    d = docket_of(ctx)
    for turn in range(2):
        params = [("p0", "any", notes[turn], True)]
        v = ctx.int(f"v{turn}", (turn + 1) * 10**9, (turn + 1) * 10**9 + 10**8)
        whole = SHAPES[shape](v)
        f = declare(params)
        if unhashable:
            f.__defaults__ = ([],)
        said = Execution(d, f, (), {"p0": whole}, "k", ctx.now(), 1).call_repr()
        judge(ctx, params, [], {"p0": whole}, said, {id(whole): v} if len(getattr(whole, "inner", whole)) else {id(whole): "secret"})
    ctx.reach("done")
    ctx.observe(notes)


OUTCOMES = ["returns", "raises", "retries", "backs off", "gives up", "perpetual", "cancelled", "struck", "added while struck", "times out", "superseded", "unknown", "duplicate"]


class Kept(logging.Handler):
    def __init__(self) -> None:
        super().__init__(logging.DEBUG)
        self.lines: list = []

    def emit(self, record: logging.LogRecord) -> None:
        self.lines.append(self.format(record))


def worker(ctx: Ctx) -> None:
    """What is logged of a task that a worker handles, however it ends: only what is marked."""
    outcome = ctx.pick("outcome", OUTCOMES)
    note = ctx.pick("note", ["none", "class"])
    keyword = bool(ctx.bool("keyword"))
    kept = Kept()
    top = logging.getLogger("docket")
    old, disabled = top.level, logging.root.manager.disable
    runs: list = []
    secret = ctx.int("secret", 10**8, 10**9)

    async def main(ctx: Ctx) -> None:
        async with ctx.docket() as d:

            async def body(p) -> None:
                runs.append(ctx.now_us())
                n = len(runs)
                if outcome in ("raises", "gives up") or (outcome in ("retries", "backs off") and n == 1):
                    raise ValueError("it failed")
                if outcome == "superseded":
                    await call(d.replace(job, ctx.now() + td(300 * MS), "k"), 1)
                if outcome in ("cancelled", "times out"):
                    await ctx.sleep_us(2 * S)

            deps = {
                "retries": Retry(attempts=2), "backs off": ExponentialRetry(attempts=2, minimum_delay=td(S // 4), maximum_delay=td(S)),
                "gives up": Retry(attempts=2), "perpetual": Perpetual(every=td(S // 2)), "times out": Timeout(td(S // 2)),
            }
            if outcome in deps:
                async def job(p, dep=deps[outcome]) -> None:
                    if outcome == "perpetual" and runs:
                        dep.cancel()
                    await body(p)
            else:
                async def job(p) -> None:
                    if p != 1:
                        await body(p)
            if NOTES[note][1] is not None:
                job.__annotations__["p"] = NOTES[note][1]

            async def call(submit, value):
                return await (submit(p=value) if keyword else submit(value))

            d.register(job)
            if outcome == "added while struck":
                await d.strike(job)
            await call(d.add(job, key="k"), secret)
            if outcome == "unknown":
                d.tasks.pop("job", None)
            if outcome == "struck":
                await d.strike(job)
            if outcome == "duplicate":
                await call(d.add(job, key="k"), secret)
            t = serve(d, "w", ctx)
            if outcome == "cancelled":
                await ctx.sleep_us(S)
                await d.cancel("k")
            await ctx.sleep_us(3 * S)
            await stop(t)
        mine = [x for x in kept.lines if str(secret) in x]
        about = [x for x in kept.lines if "job(" in x and "{k}" in x]
        if note == "none":
            ctx.check(not mine, "the logs hold nothing of an argument that is not marked", f"{outcome}: {mine[:1]}")
        elif outcome not in ("unknown", "added while struck"):
            ctx.check(bool(mine), "the logs show the argument that is marked", f"{outcome}: {about[:2]}")
        if outcome not in ("unknown", "added while struck"):
            ctx.check(bool(about), "a task that was handled is described in the logs", outcome)
        ctx.reach(outcome)
        ctx.observe(outcome, len(runs))

    top.addHandler(kept)
    top.setLevel(logging.DEBUG)
    top.propagate = False
    logging.disable(logging.NOTSET)
    try:
        ctx.go(main)
    finally:
        top.removeHandler(kept)
        top.setLevel(old)
        top.propagate = True
        logging.disable(disabled)


HARNESSES = [
    Harness("describe", describe, "any signature of up to 2 parameters of the 5 kinds, in 4 ways of marking, called in any way it allows, with any values", ["done", SHOWN, LENGTH, HIDDEN],
            quick={"n": 2, "notes": ["plain", "class", "length"]}, thorough={"n": 3, "notes": ["plain", "class", "length"]}, budget_quick=150, budget_thorough=4000),
    Harness("alike", alike, "two signatures marked in any of 6 ways each, any values in 7 shapes, defaults that can and cannot be hashed", ["done", SHOWN, LENGTH, HIDDEN], quick={}, budget_quick=60),
    Harness("worker", worker, f"{len(OUTCOMES)} ways for a task to end, any argument", OUTCOMES, quick={}, budget_quick=60),
]
