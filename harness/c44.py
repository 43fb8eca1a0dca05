"""C44 The metrics page shows what was measured."""
import re
import sys
import threading
from typing import Any

from opentelemetry import metrics
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.resources import Resource
from prometheus_client import REGISTRY
from prometheus_client.exposition import generate_latest

import docket._prometheus_exporter as exporter
from docket._prometheus_exporter import PrometheusMetricReader

from .c10 import serve, stop
from .lib import MS, Ctx, Harness, Rec

FUNCTIONS = ["PrometheusMetricReader.__init__/_receive_metrics/shutdown", "_CustomCollector.collect/add_metrics_data/_translate_to_prometheus/_check_value/_create_info_metric", "_convert_buckets", "map_unit", "sanitize_full_name", "sanitize_attribute"]
ASSUMPTIONS = ["OpenTelemetry's SDK and prometheus_client are run as they are; the HTTP server in front of them is not"]
NASTY = ['quo"te', "back\\slash", "new\nline", "", "ü{}=,", "a|b%c"]
UNITS = [("1", ""), ("s", "_seconds"), ("ms", "_milliseconds"), ("By", "_bytes"), ("By/s", "_bytes_per_second"), ("{tasks}", ""), ("%", "_percent"), ("{tasks}/min", "_per_min"), ("By/h", "_bytes_per_hour"), ("d", "_days")]


class Page:
    """The registry's own reading of one scrape."""

    def __init__(self) -> None:
        self.samples: list = []
        self.types: dict = {}
        self.helps: dict = {}
        for family in REGISTRY.collect():
            if family.name.startswith(("python_", "process_")):
                continue
            self.types[family.name] = family.type
            self.helps[family.name] = family.documentation
            self.samples += [(s.name, dict(s.labels), s.value) for s in family.samples]

    def of(self, name: str, **labels: str) -> list:
        return [v for n, at, v in self.samples if n == name and at == labels]

    def names(self) -> set:
        return {n for n, _, _ in self.samples}


LINE = re.compile(r'^([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{(.*)\})? (\S+)$')
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\]|\\.)*)"(?:,|$)')


def read(text: str) -> list:
    """Prometheus' text format, as its documentation describes it."""
    out = []
    for line in text.split("\n"):
        if not line or line.startswith("#"):
            continue
        m = LINE.match(line)
        if m is None:
            raise ValueError(line)
        labels = {}
        rest = m.group(2) or ""
        while rest:
            got = LABEL.match(rest)
            if got is None:
                raise ValueError(line)
            labels[got.group(1)] = re.sub(r"\\(.)", lambda e: "\n" if e.group(1) == "n" else e.group(1), got.group(2))
            rest = rest[got.end():]
        out.append((m.group(1), labels, float(m.group(3))))
    return out


class Metered:
    """A meter whose measurements are on the page, for the length of a block."""

    def __init__(self, **resource: str) -> None:
        self.resource = resource

    def __enter__(self) -> "Metered":
        self.reader = PrometheusMetricReader()
        self.provider = MeterProvider(metric_readers=[self.reader], resource=Resource(self.resource), shutdown_on_exit=False)
        self.meter = self.provider.get_meter("t")
        return self

    def __exit__(self, *exc: Any) -> None:
        self.provider.shutdown()


def measured(ctx: Ctx) -> None:
    """Counters, up-down counters and gauges: any amounts under any labels, scraped in between."""
    kind = ctx.pick("kind", ["counter", "updown", "gauge"])
    what = ctx.pick("what", range(max(len(UNITS), len(NASTY))))
    unit, suffix = UNITS[what]
    name, shown = [("docket_tasks_thing", "docket_tasks_thing"), ("docket.tasks.thing", "docket_tasks_thing"), ("docket-things", "docket_things")][what % 3]
    nasty = NASTY[what % len(NASTY)]
    sets: list[tuple[dict, dict]] = [
        ({"docket.name": "d", "docket.task": nasty}, {"docket_name": "d", "docket_task": nasty}),
        ({"docket.name": nasty, "docket.task": "d"}, {"docket_name": nasty, "docket_task": "d"}),
        ({"docket.name": nasty}, {"docket_name": nasty}),
        ({}, {}),
        ({"docket.name": "d", "docket.n": 3}, {"docket_name": "d", "docket_n": "3"}),
    ]
    low = 0 if kind == "counter" else -50
    with Metered() as m:
        make = {"counter": m.meter.create_counter, "updown": m.meter.create_up_down_counter, "gauge": m.meter.create_gauge}[kind]
        other = m.meter.create_counter("docket_others", unit="1", description="other things")
        instrument = make(name, unit=unit, description="things")
        want: dict[int, Any] = {}
        since: set = set()
        pages = 0
        for i in range(ctx.p["n"]):
            k = ctx.pick(f"labels{i}", range(len(sets)) if i < 2 else [2])
            amount = ctx.int(f"amount{i}", low, 50)
            since.add(k)
            if kind == "gauge":
                instrument.set(amount, sets[k][0])
                want[k] = amount
            else:
                instrument.add(amount, sets[k][0])
                want[k] = want.get(k, 0) + amount
            other.add(1, sets[k][0])
            if i == ctx.p["n"] - 1 or ctx.bool(f"scrape{i}"):
                page = Page()
                fresh, since = since, set()
                pages += 1
                shows = 0
                full = shown + suffix + ("_total" if kind == "counter" else "")
                for j, (_, labels) in enumerate(sets):
                    got = page.of(full, **labels)
                    if j not in want:
                        ctx.check(got == [], "labels nothing was measured under are not shown", f"{page.samples}")
                        continue
                    if kind == "gauge" and j not in fresh and not got:
                        continue  # the SDK shows a gauge once each time it is set
                    shows += 1
                    ctx.check(len(got) == 1, "each measured set of labels is shown once", f"{full} {labels}: {page.samples}")
                    ctx.check(got[0] == want[j], "what is shown is what was measured", f"{full} {labels} {want[j]}: {page.samples}")
                mine = [s for s in page.samples if s[0].startswith(shown)]
                ctx.check(len(mine) == shows, "only what was measured is shown", f"{full}: {page.samples}")
                ctx.check(sum(v for n, _, v in page.samples if n == "docket_others_total") == i + 1, "one instrument's measurements are not another's", f"{page.samples}")
                family = full.removesuffix("_total")
                ctx.check(page.types.get(family) == ("counter" if kind == "counter" else "gauge"), "each instrument is shown as what it is", f"{page.types}")
                ctx.check(page.helps.get(family) == "things", "each instrument is described as declared", f"{page.helps}")
        if pages > 1:
            ctx.reach("scraped-again")
        if len(want) > 1:
            ctx.reach("several-labels")
        ctx.reach(kind)


def histogram(ctx: Ctx) -> None:
    """Histograms: any values, counted in every bucket they fall under."""
    unit, suffix = ctx.pick("unit", [("s", "_seconds"), ("1", "")])
    bounds = [0, 5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000]
    with Metered() as m:
        instrument = m.meter.create_histogram("docket_task_thing", unit=unit, description="things")
        values: dict[str, list] = {}
        for i in range(ctx.p["n"]):
            task = ctx.pick(f"task{i}", ["a", "b"]) if i else "a"
            v = ctx.int(f"value{i}", 0, ctx.p["hi"])
            instrument.record(v, {"docket.task": task})
            values.setdefault(task, []).append(v)
            if i < ctx.p["n"] - 1 and not ctx.bool(f"scrape{i}"):
                continue
            page = Page()
            full = "docket_task_thing" + suffix
            for t, vs in values.items():
                ctx.check(page.of(full + "_count", docket_task=t) == [len(vs)], "a histogram's count is the number of values", f"{t} {vs}: {page.samples}")
                got = page.of(full + "_sum", docket_task=t)
                ctx.check(len(got) == 1 and got[0] == sum(vs), "a histogram's sum is the sum of its values", f"{t} {vs}: {page.samples}")
                les = {at["le"]: n for name, at, n in page.samples if name == full + "_bucket" and at.get("docket_task") == t}
                ctx.check({float(x) for x in les} == {float(b) for b in bounds} | {float("inf")}, "every bucket is shown, with its bound", f"{les}")
                for le, n in les.items():
                    if le == "+Inf":
                        ctx.check(n == len(vs), "the last bucket holds every value", f"{t} {vs}: {les}")
                    else:
                        ctx.check(sum(1 for x in vs if x <= int(float(le))) == n, "a bucket holds the values up to its bound", f"{t} {vs} le={le}: {les}")
            ctx.check(page.types.get(full) == "histogram", "each instrument is shown as what it is", f"{page.types}")
        if len(values) > 1:
            ctx.reach("two-tasks")


class Turn:
    """Two threads, one running at a time, changing over at chosen lines of the exporter."""

    def __init__(self, first: list, second: list) -> None:
        self.at = {1: first, 2: second}
        self.lines = {1: 0, 2: 0}
        self.go = {1: threading.Semaphore(0), 2: threading.Semaphore(0)}
        self.done = {1: False, 2: False}
        self.out: dict = {}
        self.blocked = False

    def trace(self, me: int) -> Any:
        def local(frame: Any, event: str, arg: Any) -> Any:
            if event == "line":
                self.lines[me] += 1
                if self.lines[me] in self.at[me]:
                    self.over(me)
            return local

        def glob(frame: Any, event: str, arg: Any) -> Any:
            return local if frame.f_code.co_filename == exporter.__file__ else None

        return glob

    def over(self, me: int) -> None:
        """Let the other run until it hands back, ends, or waits for a lock held here."""
        you = 3 - me
        if self.done[you]:
            return
        self.go[you].release()
        seen = -1
        while not self.go[me].acquire(timeout=0.04):
            if self.lines[you] == seen:
                self.blocked = True
                return
            seen = self.lines[you]

    def thread(self, me: int, what: Any) -> None:
        self.go[me].acquire()
        sys.settrace(self.trace(me))
        try:
            self.out[me] = what()
        except BaseException as e:
            self.out[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.go[3 - me].release()

    def run(self, what: Any) -> dict:
        ts = [threading.Thread(target=self.thread, args=(i, what), daemon=True) for i in (1, 2)]
        for t in ts:
            t.start()
        self.go[1].release()
        for t in ts:
            t.join(30)
        return self.out


def scrapes(ctx: Ctx) -> None:
    """Two scrapes at once, each changing over to the other at any line; each page is complete."""
    with Metered(**{"service.name": "s"}) as m:
        m.meter.create_counter("docket_tasks_a", unit="1").add(3, {"docket.task": "a"})
        m.meter.create_histogram("docket_task_b", unit="s").record(7, {"docket.task": "a"})

        def scrape() -> list:
            return read(generate_latest(REGISTRY).decode())

        alone = Turn([], [])
        alone.done[2] = True
        alone.go[1].release()
        alone.thread(1, scrape)
        if isinstance(alone.out[1], BaseException):
            raise alone.out[1]
        want = sorted((n, tuple(sorted(at.items())), v) for n, at, v in alone.out[1] if n.startswith(("docket_", "target_")))
        lines = alone.lines[1]
        first = ctx.pick("first", range(1, lines + 1, ctx.p["step"]))
        second = ctx.pick("second", [0, *range(1, lines + 1, ctx.p["step2"])])
        turn = Turn([first], [second])
        out = turn.run(scrape)
        for i in (1, 2):
            got = out.get(i)
            ctx.check(isinstance(got, list), "a scrape during another succeeds", f"{first} {second}: {got}")
            mine = sorted((n, tuple(sorted(at.items())), v) for n, at, v in got if n.startswith(("docket_", "target_")))
            ctx.check([x for x in mine if "_created" not in x[0]] == [x for x in want if "_created" not in x[0]], "a scrape during another shows everything, once", f"{first} {second}: {mine}")
        ctx.reach("waited" if turn.blocked else "interleaved")
        again = [x for x in scrape() if x[0] == "docket_tasks_a_total"]
        ctx.check([v for _, _, v in again] == [3], "a scrape after two at once is complete", f"{first} {second}: {again}")


READER: list = []


def tasks(ctx: Ctx) -> None:
    """What a docket does, as the page shows it."""
    if not READER:
        READER.append(PrometheusMetricReader())
        READER.append(MeterProvider(metric_readers=READER[:1], resource=Resource({}), shutdown_on_exit=False))
        metrics.set_meter_provider(READER[1])
    for storage in READER[1]._measurement_consumer._reader_storages.values():
        storage._instrument_view_instrument_matches.clear()  # nothing of another path

    async def main(ctx: Ctx) -> None:
        rec = Rec(ctx)
        before = read(generate_latest(REGISTRY).decode())

        def since(name: str, **labels: str) -> float:
            now = read(generate_latest(REGISTRY).decode())
            return sum(v for n, at, v in now if n == name and labels.items() <= at.items()) - sum(v for n, at, v in before if n == name and labels.items() <= at.items())

        async def one(n: int) -> None:
            rec.start("one")
            if n == fails:
                raise ValueError("no")

        async def two(n: int) -> None:
            rec.start("two")
            await ctx.sleep_us(300 * MS)

        n1, n2 = ctx.pick("ones", [0, 1, 2]), ctx.pick("twos", [0, 1])
        fails = ctx.pick("fails", [0, 1, 9])
        async with ctx.docket() as d:
            d.register(one)
            d.register(two)
            t = serve(d, "w", ctx, concurrency=5)
            await ctx.sleep_us(10 * MS)
            for i in range(n1):
                await d.add(one, key=f"one{i}")(i)
            for i in range(n2):
                await d.add(two, key=f"two{i}")(i)
            at = ctx.int("at", 0, 1500 * MS)
            await ctx.sleep_us(at)
            for name, n in (("one", n1), ("two", n2)):
                ctx.check(since("docket_tasks_added_total", docket_task=name) == n, "the page counts the tasks added", name)
                ctx.check(since("docket_tasks_started_total", docket_task=name, docket_worker="w") == rec.n("start", name), "the page counts the tasks started", f"{name} {rec.events}")
            await ctx.sleep_us(2000 * MS - at)
            failed = 1 if fails < n1 else 0
            for name, n, bad in (("one", n1, failed), ("two", n2, 0)):
                ctx.check(since("docket_tasks_completed_total", docket_task=name) == n, "the page counts the tasks completed", name)
                ctx.check(since("docket_tasks_failed_total", docket_task=name) == bad, "the page counts the tasks that failed", name)
                ctx.check(since("docket_tasks_succeeded_total", docket_task=name) == n - bad, "the page counts the tasks that succeeded", name)
                ctx.check(since("docket_tasks_running", docket_task=name) == 0, "the page shows nothing running once all ended", name)
                ctx.check(since("docket_task_duration_seconds_count", docket_task=name) == n, "the page has every duration", name)
                ctx.check(since("docket_task_punctuality_seconds_count", docket_task=name) == n, "the page has every punctuality", name)
            if failed:
                ctx.reach("failed")
            await stop(t)

    ctx.go(main)


HARNESSES = [
    Harness("measured", measured, "2 (quick) or 3 measurements of any amounts -50..50, 5 sets of labels, 3 kinds of instrument, 10 combinations of 3 names, 10 units and 6 awkward values of labels, scraped after any of them", ["scraped-again", "several-labels", "counter", "updown", "gauge"], quick={"n": 2}, thorough={"n": 3}, budget_quick=120, assumptions=ASSUMPTIONS),
    Harness("histogram", histogram, "2 (quick) or 3 values 0..30 (quick) or 0..12,000 for 2 tasks, scraped after any of them", ["two-tasks"], quick={"n": 2, "hi": 30}, thorough={"n": 3, "hi": 12000}, assumptions=ASSUMPTIONS),
    Harness("scrapes", scrapes, "2 scrapes at once on two real threads, the first giving way at any line of the exporter, the second at every 30th (quick) or any", [], quick={"step": 1, "step2": 30}, thorough={"step": 1, "step2": 1}, budget_quick=120, assumptions=ASSUMPTIONS),
    Harness("tasks", tasks, "up to 2 tasks of one kind and 1 of another, one of which may fail, read at any moment of 1.5 s and after", ["failed"], assumptions=ASSUMPTIONS),
]
