"""C30 Cron tasks run at every declared time and at no other."""
import asyncio
import datetime as _dt
from zoneinfo import ZoneInfo

from vp import clock

from docket import Worker
from docket.dependencies import Cron
from docket.dependencies._base import TaskOutcome, current_docket, current_execution, current_worker

from .lib import MS, S, Ctx, Harness, Rec, running, td

FUNCTIONS = ["Cron.__init__", "Cron.__aenter__", "Cron.next_time", "Cron.initial_when", "Cron.on_complete", "Perpetual.on_complete", "Docket.replace", "Execution.schedule",
             "Worker._schedule_all_automatic_perpetual_tasks", "Worker._execute", "_schedule (Lua)", "_stream_due_tasks (Lua)"]
ASSUMPTIONS = ["CronSim (third party) is a step function of the instant it starts from: the stand-in queries the real one and branches on the neighbouring instants", "virtual time: Redis operations take no time"]
UTC = _dt.timezone.utc
MIN = 60 * S
KEYWORDS = {"@yearly": "0 0 1 1 *", "@monthly": "0 0 1 * *", "@weekly": "0 0 * * 0", "@daily": "0 0 * * *", "@hourly": "0 * * * *", "@midnight": "0 0 * * *"}


def field(text: str, lo: int, hi: int) -> set[int]:
    out: set[int] = set()
    for part in text.split(","):
        rng, _, step = part.partition("/")
        a, b = (lo, hi) if rng == "*" else (int(x) for x in (rng.split("-") if "-" in rng else (rng, rng)))
        out |= set(range(a, b + 1, int(step or 1)))
    return out


def previous_match(expr: str, r: _dt.datetime, tz) -> int:
    """The last instant (us since epoch) before r that matches, by calendar search."""
    mi, ho, dom, mo, dow = KEYWORDS.get(expr, expr).split()
    M, H, D, N, W = field(mi, 0, 59), field(ho, 0, 23), field(dom, 1, 31), field(mo, 1, 12), {x % 7 for x in field(dow, 0, 7)}
    both = dom.startswith("*") or dow.startswith("*")

    def day_ok(d: _dt.date) -> bool:
        a, b = d.day in D, d.isoweekday() % 7 in W
        return d.month in N and ((a and b) if both else (a or b))

    t = r.astimezone(UTC)
    if ho == "*":
        while True:
            t -= _dt.timedelta(minutes=1)
            x = t.astimezone(tz)
            if x.minute in M and day_ok(x.date()):
                return clock.us_of(t)
    day = r.astimezone(tz).date()
    while True:
        if day_ok(day):
            for h in sorted(H, reverse=True):
                for m in sorted(M, reverse=True):
                    x = _dt.datetime(day.year, day.month, day.day, h, m, tzinfo=tz)
                    if x.astimezone(UTC).astimezone(tz).hour != h:
                        continue  # does not exist on that day
                    if x.astimezone(UTC) < r.astimezone(UTC):
                        return clock.us_of(x)
        day -= _dt.timedelta(days=1)


def matches(expr: str, r: _dt.datetime, tz) -> bool:
    mi, ho, dom, mo, dow = KEYWORDS.get(expr, expr).split()
    x = r.astimezone(tz)
    a, b = x.day in field(dom, 1, 31), x.isoweekday() % 7 in {y % 7 for y in field(dow, 0, 7)}
    both = dom.startswith("*") or dow.startswith("*")
    return x.second == 0 and x.microsecond == 0 and x.minute in field(mi, 0, 59) and x.hour in field(ho, 0, 23) and x.month in field(mo, 1, 12) and ((a and b) if both else (a or b))


DAY = 86400 * S
ERAS = {"plain": "2023-11-14T22:13:20", "leap day": "2024-02-28T12:00:00", "spring forward": "2024-03-09T20:00:00", "fall back": "2024-11-02T20:00:00", "year end": "2023-12-30T06:00:00"}
# expression, zone, eras, window
CASES = [
    ("* * * * *", "UTC", ["plain"], 4 * MIN),
    ("*/15 * * * *", "UTC", ["year end"], 60 * MIN),
    ("5,35 * * * *", "Asia/Kolkata", ["plain"], 120 * MIN),
    ("@hourly", "America/New_York", ["spring forward", "fall back"], 14 * 60 * MIN),
    ("@daily", "UTC", ["leap day", "year end"], 4 * DAY),
    ("30 9 * * 1-5", "America/New_York", ["spring forward", "fall back", "plain"], 4 * DAY),
    ("15 18 * * *", "Europe/Paris", ["plain", "leap day"], 4 * DAY),
    ("0 0 1,15 * 1", "UTC", ["year end"], 20 * DAY),
    ("@weekly", "UTC", ["year end", "leap day"], 20 * DAY),
    ("@monthly", "Asia/Tokyo", ["year end"], 70 * DAY),
    ("@yearly", "UTC", ["year end"], 400 * DAY),
    ("0 12 29 2 *", "UTC", ["leap day"], 2 * DAY),
]


def instants(ctx: Ctx) -> None:
    """The declared, first and following instants, computed at any present: the real
    Cron object and a real docket, the present moved by hand."""

    async def main(ctx: Ctx) -> None:
        expr, zone, eras, window = ctx.pick("case", CASES)
        era = ctx.pick("era", eras)
        tz = UTC if zone == "UTC" else ZoneInfo(zone)
        ctx.advance((_dt.datetime.fromisoformat(ERAS[era]).replace(tzinfo=UTC) - _dt.datetime.fromtimestamp(clock.BASE_US // S, UTC)) // _dt.timedelta(microseconds=1))

        def check_next(r, now_us, what: str) -> None:
            us = clock.us_of(r)
            real = _dt.datetime(1970, 1, 1, tzinfo=UTC) + _dt.timedelta(microseconds=us if isinstance(us, int) and type(us) is int else int(us))
            ctx.check(matches(expr, real, tz), f"{what} matches the declaration", f"{expr} {zone}: {real.astimezone(tz)}")
            ctx.check(us > now_us, f"{what} is in the future", f"{expr} {zone}: {real.astimezone(tz)}")
            prev = previous_match(expr, real, tz)
            ctx.check(now_us >= prev, f"{what} is the first matching instant", f"{expr} {zone}: {real.astimezone(tz)} although {(_dt.datetime(1970, 1, 1, tzinfo=UTC) + _dt.timedelta(microseconds=prev)).astimezone(tz)} was to come")

        async def job(cron: Cron = Cron(expr) if zone == "UTC" else Cron(expr, tz=tz)) -> None: ...

        cron = job.__defaults__[0]
        async with ctx.docket() as d:
            d.register(job)
            async with Worker(d, name="w", schedule_automatic_tasks=False) as wk:
                first = ctx.int("asked", 0, window // 2)
                ctx.advance(first)
                r1 = cron.initial_when
                check_next(r1, clock.CLOCK.now_us(), "the first run")
                e = await d.add(job, when=r1, key="job")()
                # the run begins late by any amount and takes any time
                late = ctx.int("late", 0, window // 2)
                dur = ctx.int("duration", 0, window // 4)
                now = clock.CLOCK.now_us()
                begin = clock.us_of(r1) + late
                ctx.advance(begin - now)
                await e.claim("w")
                current_execution.set(e)
                current_docket.set(d)
                current_worker.set(wk)
                inst = await cron.__aenter__()
                ctx.advance(dur)
                handled = await inst.on_complete(e, TaskOutcome(duration=td(dur), result=None))
                ctx.check(handled, "the next run is scheduled")
                nxt = await d.get_execution("job")
                r2 = nxt.when
                check_next(r2, begin, "the run after")
                ctx.reach(f"{expr} {zone}")
                if bool(clock.us_of(r2) < begin + dur):
                    ctx.reach("overran")
                # a lost chain restarts at the first instant after the present
                r3 = cron.initial_when
                check_next(r3, clock.CLOCK.now_us(), "a restarted run")
                ctx.observe(expr, era)

    ctx.go(main)


def minutely(ctx: Ctx) -> None:
    """A real worker and a cron task that is due every minute (or every other)."""

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        step = ctx.pick("step", [1, 2])
        RES, POLL = 4 * S, 5 * S
        declared = ctx.int("start", 0, MIN)
        dur = ctx.int("duration", 0, ctx.p["dur"])
        fails = ctx.bool("fails")
        await ctx.sleep_us(declared)

        async def job(cron: Cron = Cron("* * * * *" if step == 1 else "*/2 * * * *")) -> None:
            rec.start("j")
            await ctx.sleep_us(dur)
            rec.end("j")
            if fails:
                raise ValueError()

        wait = ctx.pick("worker_starts_later_by", [0, 70 * S])
        await ctx.sleep_us(wait)
        t0 = ctx.now_us()
        async with ctx.docket() as d:
            d.register(job)
            async with Worker(d, name="w", minimum_check_interval=td(POLL), scheduling_resolution=td(RES)) as wk, running(wk):
                await ctx.sleep_us(ctx.p["horizon"])
                base = clock.BASE_US
                p = step * MIN

                def ceil_after(us):  # first instant after us
                    return ((base + us) // p + 1) * p - base

                starts, ends = rec.of("start"), rec.of("end")
                due = ceil_after(t0)
                for i, s in enumerate(starts):
                    if i:
                        due = ceil_after(starts[i - 1])
                        if due < ends[i - 1]:
                            ctx.reach("overran")
                            due = ends[i - 1]
                        else:
                            ctx.reach("waited")
                    ctx.check(s >= due, "no run is ahead of its declared time", f"{i} {rec.events}")
                    ctx.check(s <= due + RES + POLL, "each run is at its declared time, or at once when the previous run covered it", f"{i} {rec.events}")
                ctx.check(len(starts) >= 1, "it runs at every declared time", f"{rec.events}")
                ctx.reach(f"every {step}")
                ctx.observe(len(starts))

    ctx.go(main)


HARNESSES = [
    Harness("instants", instants, "12 expressions in 6 time zones around leap day, year end and both daylight-saving changes; asked at any instant of a window of up to 400 days; begins late and lasts any part of the window",
            [f"{c[0]} {c[1]}" for c in CASES] + ["overran"], quick={}, budget_quick=120),
    Harness("minutely", minutely, "every minute or every other; declared at any instant of a minute, worker started at once or 70s later, each run [0,130s] long; horizon 200s", ["overran", "waited", "every 1", "every 2"],
            quick={"dur": 130 * S, "horizon": 200 * S}, thorough={"horizon": 480 * S}, budget_quick=120),
]
