"""C32 Command-line durations and statistics mean what they say."""
import re
from types import SimpleNamespace

from docket.cli import _support
from vp import clock
from vp.sym import SymInt, and_, concrete_of

from .lib import S, Ctx, Harness

FUNCTIONS = ["docket.cli._support.duration", "docket.cli._support.get_task_stats"]
ASSUMPTIONS = ["numbers up to 10^7", "where the parser looks at the digits of a number itself, its values are the sampled ones"]
TOP = 10**7
SAMPLES = [0, 1, 9, 59, 60, 61, 99, 100, 1439, 86400, TOP]
FORMS = {
    "N": (1,), "Ns": (1,), "Nm": (60,), "Nh": (3600,), "N:N": (60, 1), "N:N:N": (3600, 60, 1),
}


def parse(text: str):
    try:
        return _support.duration(text)
    except (ValueError, OverflowError):
        return None


def means(ctx: Ctx) -> None:
    """Every supported form, with any numbers."""
    form = ctx.pick("form", list(FORMS))
    weights = FORMS[form]
    numbers = [ctx.int(f"n{i}", 0, TOP) for i in range(len(weights))]
    pieces = form.split("N")
    got = parse("".join(f"{p}{n}" for p, n in zip(pieces, numbers)) + pieces[-1])
    if got is None or (isinstance(numbers[0], SymInt) and not isinstance(getattr(got, "us", None), SymInt)):
        # The parser did not take the number whole: judge it by chosen numbers.
        for i, n in enumerate(numbers):
            ctx.assume(n == ctx.pick(f"s{i}", SAMPLES))
        numbers = [concrete_of(n) for n in numbers]
        width = ctx.pick("width", [1, 2, 4])
        got = parse("".join(f"{p}{n:0{width}d}" for p, n in zip(pieces, numbers)) + pieces[-1])
        ctx.reach("sampled")
    else:
        ctx.reach("symbolic")
    ctx.check(got is not None, "a supported duration is accepted", form)
    total = sum(n * w for n, w in zip(numbers, weights))
    ctx.check(got == clock.mk_timedelta(total * S), "a duration is exactly what was given", f"{form} {numbers}: {got}")
    ctx.reach(form)
    ctx.observe(got)


def texts(ctx: Ctx) -> None:
    """Every short text over the characters that matter."""
    n = ctx.choice("length", ctx.p["n"] + 1)
    text = "".join(ctx.pick(f"c{i}", ctx.p["alphabet"]) for i in range(n))
    try:
        got = _support.duration(text)
    except (ValueError, OverflowError):
        got = None
    if m := re.fullmatch(r"([0-9]+)([smh]?)", text):
        want = int(m[1]) * {"": 1, "s": 1, "m": 60, "h": 3600}[m[2]]
    elif m := re.fullmatch(r"([0-9]+):([0-9]+)(?::([0-9]+))?", text):
        parts = [int(x) for x in m.groups() if x is not None]
        want = sum(x * w for x, w in zip(reversed(parts), (1, 60, 3600)))
    elif m := re.fullmatch(r"-([0-9]+)([smh]?)", text):
        # Not documented; but if it is taken, it is negative.
        want = None if got is None else -int(m[1]) * {"": 1, "s": 1, "m": 60, "h": 3600}[m[2]]
    elif re.search(r"[ _+]", text) and ":" not in text:
        want = None if got is None else parse(re.sub(r"[ _+]", "", text))
        want = want if want is None else want.total_seconds()
    elif re.search(r"[ _+]", text):
        want = None if got is None else parse(re.sub(r"[ _+]", "", text))
        want = want if want is None else want.total_seconds()
    else:
        want = None
    if want is None:
        ctx.check(got is None, "anything else is rejected", f"{text!r}: {got}")
        ctx.reach("rejected")
    else:
        ctx.check(got is not None and got.total_seconds() == want, "a duration is exactly what was given", f"{text!r}: {got}")
        ctx.reach("accepted")
    ctx.observe(text)


def stats(ctx: Ctx) -> None:
    """The statistics of a snapshot of up to n tasks, running and queued, at any times."""
    n = 1 + ctx.choice("count", ctx.p["n"])
    running, future = [], []
    for i in range(n):
        name = ctx.pick(f"name{i}", ["a", "b"])
        t = ctx.int(f"t{i}", 0, 10**6)
        if ctx.pick(f"running{i}", [True, False]):
            running.append((name, t, SimpleNamespace(function_name=name, started=ctx.at(t), when=ctx.at(ctx.int(f"w{i}", 0, 10**6)))))
        else:
            future.append((name, t, SimpleNamespace(function_name=name, when=ctx.at(t))))
    got = _support.get_task_stats(SimpleNamespace(running=[e for *_, e in running], future=[e for *_, e in future]))
    ctx.check(set(got) == {x[0] for x in running + future}, "the tasks counted are those there", f"{sorted(got)}")
    for name, s in got.items():
        r, f = [t for k, t, _ in running if k == name], [t for k, t, _ in future if k == name]
        ctx.check((s.running, s.queued, s.total) == (len(r), len(f), len(r) + len(f)), "each task is counted once", f"{s}")
        for kind, times in (("started", r), ("queued", f)):
            oldest, latest = getattr(s, f"oldest_{kind}"), getattr(s, f"latest_{kind}")
            if not times:
                ctx.check(oldest is None and latest is None, "no time is given where there is none", f"{name} {kind}")
                continue
            o, l = clock.us_of(oldest) - clock.BASE_US, clock.us_of(latest) - clock.BASE_US
            ctx.check(and_(*[o <= t for t in times]), "the oldest is the earliest", f"{kind} {times}: {o}")
            ctx.check(and_(*[l >= t for t in times]), "the latest is the last", f"{kind} {times}: {l}")
            ctx.check(any(bool(o == t) for t in times) and any(bool(l == t) for t in times), "the times are those of tasks", f"{kind} {times}: {o} {l}")
            ctx.reach(kind)
    ctx.observe(len(running), len(future))


HARNESSES = [
    Harness("means", means, "6 forms, any numbers up to 10^7", list(FORMS), quick={}, budget_quick=30),
    Harness("texts", texts, "every text of up to 3 (quick) or 5 (thorough) of the characters of durations and some others", ["accepted", "rejected"],
            quick={"n": 3, "alphabet": "07:smh-. x"}, thorough={"n": 5, "alphabet": "17:smh- "}, budget_quick=80, budget_thorough=3000),
    Harness("clocks", texts, "every text of up to 5 of 5 characters", ["accepted", "rejected"], quick={"n": 5, "alphabet": "17:m-"}, thorough={"n": 6, "alphabet": "17:m-"}, budget_quick=80, budget_thorough=3000),
    Harness("stats", stats, "up to 3 (quick) or 4 tasks of 2 functions, running or queued, at any times", ["started", "queued"], quick={"n": 3}, thorough={"n": 4}, budget_quick=60),
]
