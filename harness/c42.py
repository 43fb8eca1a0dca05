"""C42 Every run is one span, linked to what asked for it."""
from contextlib import contextmanager
from datetime import timedelta
from typing import Any

from opentelemetry import trace
from opentelemetry.trace import SpanContext, SpanKind, StatusCode, TraceFlags, use_span

from docket import Perpetual, Retry
from docket.dependencies import ConcurrencyLimit, RateLimit

from .c10 import serve, stop
from .lib import MS, S, Ctx, Harness, Rec, delay_at, td, tied

FUNCTIONS = ["Worker._execute", "Execution.incoming_span_links", "Execution.schedule", "Execution.from_message", "MessageSetter.set", "MessageGetter.get/keys", "Docket.add/replace/schedule", "Retry.handle_failure", "Perpetual.on_complete", "ConcurrencyLimit.__aenter__", "Execution.specific_labels"]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness", "spans are read where the code hands them to OpenTelemetry's API (a tracer provider that keeps them); the context travels through OpenTelemetry's own propagator", "exporting spans is not covered"]
RES, POLL = 500 * MS, 400 * MS
SPANS: list = []


class Span(trace.Span):
    """A span as the OpenTelemetry SDK keeps it: the first OK is final, nothing changes after the end."""

    def __init__(self, name: str, parent: Any, kind: Any, attributes: Any, links: Any) -> None:
        n = len(SPANS) + 1
        self.name, self.kind, self.attributes, self.links = name, kind, dict(attributes or {}), list(links or ())
        self.parent = parent
        self.context = SpanContext(parent.trace_id if parent and parent.is_valid else 0x1000 + n, n, False, TraceFlags(1))
        self.status: Any = StatusCode.UNSET
        self.exceptions: list = []
        self.began, self.ended = NOW(), None
        SPANS.append(self)

    def get_span_context(self) -> SpanContext:
        return self.context

    def set_attribute(self, key: str, value: Any) -> None:
        if self.is_recording():
            self.attributes[key] = value

    def set_attributes(self, attributes: Any) -> None:
        for k, v in attributes.items():
            self.set_attribute(k, v)

    def add_event(self, *a: Any, **k: Any) -> None: ...

    def update_name(self, name: str) -> None:
        if self.is_recording():
            self.name = name

    def is_recording(self) -> bool:
        return self.ended is None

    def set_status(self, status: Any, description: Any = None) -> None:
        code = getattr(status, "status_code", status)
        if self.is_recording() and self.status is not StatusCode.OK and code is not StatusCode.UNSET:
            self.status = code

    def record_exception(self, exception: BaseException, *a: Any, **k: Any) -> None:
        if self.is_recording():
            self.exceptions.append(exception)

    def end(self, end_time: Any = None) -> None:
        if self.ended is None:
            self.ended = NOW()

    def __repr__(self) -> str:
        return f"<{self.name} {self.context.span_id} {self.attributes.get('docket.key')} {self.status.name} links {[x.context.span_id for x in self.links]}>"


class Tracer(trace.Tracer):
    def start_span(self, name, context=None, kind=SpanKind.INTERNAL, attributes=None, links=None, start_time=None, record_exception=True, set_status_on_exception=True):
        return Span(name, trace.get_current_span(context).get_span_context(), kind, attributes, links)

    @contextmanager
    def start_as_current_span(self, name, context=None, kind=SpanKind.INTERNAL, attributes=None, links=None, start_time=None, record_exception=True, set_status_on_exception=True, end_on_exit=True):
        span = self.start_span(name, context, kind, attributes, links)
        with use_span(span, end_on_exit=end_on_exit, record_exception=record_exception, set_status_on_exception=set_status_on_exception):
            yield span


class Provider(trace.TracerProvider):
    def get_tracer(self, *a: Any, **k: Any) -> Tracer:
        return Tracer()


trace.set_tracer_provider(Provider())
TRACER = Tracer()
NOW: Any = lambda: 0


def begin(ctx: Ctx) -> None:
    global NOW
    SPANS.clear()
    NOW = ctx.now_us


def runs_of(key: str) -> list:
    """The spans of a task's runs, in order."""
    return [s for s in SPANS if s.kind is SpanKind.CONSUMER and s.attributes.get("docket.key") == key]


def asked(key: str) -> list:
    """The spans under which a task was asked for."""
    return [s for s in SPANS if s.kind is not SpanKind.CONSUMER and s.name.startswith("docket.") and s.attributes.get("docket.key") == key]


def linked(ctx: Ctx, span: Span, to: list, why: str) -> None:
    """A run links to the trace of one of these spans, and to nothing else, and has a trace of its own."""
    ids = [x.context.trace_id for x in span.links]
    ctx.check(span.context.trace_id not in ids and not span.parent.is_valid, "a run begins a trace of its own", f"{span}: {why}")
    ctx.check(len(ids) == 1 and ids[0] in [x.context.trace_id for x in to], "a run is linked to what asked for it", f"{span} to {to}: {why}")


def runs(ctx: Ctx) -> None:
    """Tasks that return, fail, are retried, perpetuate themselves, are cancelled or replaced."""

    async def main(ctx: Ctx) -> None:
        begin(ctx)
        rec = Rec(ctx)
        bodies: dict = {}
        fails = ctx.pick("fails", ctx.p["fails"])
        n = {"flaky": 0, "again": 0}

        async def body(tag: str) -> None:
            rec.start(tag)
            own = TRACER.start_span(f"inside {tag}")
            mine = {"own": own, "began": ctx.now_us(), "ended": None}
            bodies.setdefault(tag, []).append(mine)
            try:
                await ctx.sleep_us(300 * MS)
                ctx.check(trace.get_current_span().get_span_context().span_id == own.parent.span_id, "a run's span is current all along", f"{tag} {SPANS}")
            finally:
                mine["ended"] = ctx.now_us()
                own.end()
                rec.end(tag)

        async def plain() -> None:
            await body("plain")

        async def later() -> None:
            await body("later")

        async def flaky(retry: Retry = Retry(attempts=2, delay=timedelta(milliseconds=300))) -> None:
            await body("flaky")
            n["flaky"] += 1
            if n["flaky"] <= fails:
                raise ValueError("no")

        async def again(perpetual: Perpetual = Perpetual(every=timedelta(milliseconds=600))) -> None:
            await body("again")
            n["again"] += 1
            if n["again"] == 3:
                perpetual.cancel()
            if n["again"] == 2:
                raise ValueError("not this time")

        fns = {f.__name__: f for f in (plain, later, flaky, again)}
        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                for f in fns.values():
                    x.register(f)
            t = serve(d, "w", ctx, concurrency=ctx.pick("conc", [1, 5]))
            await ctx.sleep_us(10 * MS)
            user: dict = {}
            for f in fns:
                with TRACER.start_as_current_span(f"user {f}") as user[f]:
                    await c.add(fns[f], key=f, **({"when": ctx.at(ctx.now_us() + 800 * MS)} if f == "later" else {}))()
            what = ctx.pick("what", ["nothing", "cancel", "replace", "duplicate"])
            of_ = ctx.pick("of", ["later", "flaky", "again"]) if what == "cancel" else "later"
            at = ctx.int("at", 0, ctx.p["hi"])
            await ctx.sleep_us(at)
            if await tied(ctx, rec, ctx.now_us()):
                ctx.reach("tied")
                await stop(t)
                return
            before = rec.n("start", "later")
            if what == "cancel":
                await c.cancel(of_)
            elif what in ("replace", "duplicate"):
                with TRACER.start_as_current_span("user again") as u2:
                    when = ctx.at(ctx.now_us() + 400 * MS)
                    r = await (c.replace(later, when, key="later") if what == "replace" else c.add(later, when=when, key="later"))()
            await ctx.sleep_us(ctx.p["settle"])
            for f in fns:
                why = f"{f} {what} {of_} at {at}: {rec.events} {SPANS}"
                rs, bs, qs = runs_of(f), bodies.get(f, []), asked(f)
                ctx.check(len(rs) == len(bs), "each run is one span", why)
                # a run that perpetuates itself asks for the next one
                own_asks = [q for q in qs if any(q.parent.span_id == s.context.span_id for s in rs)]
                asks = [q for q in qs if q not in own_asks and q.name in ("docket.add", "docket.replace")]
                ctx.check(len(asks) == 1 + (f == "later" and what in ("replace", "duplicate")), "each call is one span", why)
                ctx.check(asks[0].parent.span_id == user[f].context.span_id, "a call is part of its caller's trace", why)
                for i, (s, b) in enumerate(zip(rs, bs)):
                    ctx.check(s.name == f and s.attributes.get("docket.task") == f and s.attributes.get("docket.worker") == "w" and s.attributes.get("docket.name") == "d", "a run's span says what ran where", f"{s.attributes} {why}")
                    ctx.check(s.attributes.get("docket.attempt") == (i + 1 if f == "flaky" else 1), "a run's span says which attempt it is", f"{s.attributes} {why}")
                    ctx.check(b["own"].parent.span_id == s.context.span_id and b["own"].parent.trace_id == s.context.trace_id, "what a run does is part of its span", why)
                    ctx.check(s.ended is not None and bool(s.began <= b["began"]) and bool(s.ended >= b["ended"]) and bool(s.began >= b["began"] - MS) and bool(s.ended <= b["ended"] + MS), "a run's span lasts as long as the run", f"{s.began} {s.ended} {b} {why}")
                    bad = (f == "flaky" and i < fails) or (f == "again" and i == 1)
                    cut = what == "cancel" and of_ == f and i == len(rs) - 1 and rec.n("end", f) and bool(b["ended"] < b["began"] + 300 * MS)
                    ctx.check((s.status is StatusCode.ERROR) == (bad and not cut), "a run's span is in error exactly if the run raised", why)
                    if bad and not cut:
                        ctx.check(any(isinstance(x, ValueError) for x in s.exceptions), "a run's span has the exception", why)
                        ctx.reach("error")
                    if cut:
                        ctx.reach("cancelled while it ran")
                    to = asks + rs[:i] if i else asks
                    if f == "later" and what in ("replace", "duplicate"):
                        to = asks[1:] if what == "replace" and (i or not before) or i else asks[:1]
                        if what == "duplicate" and i == 0:
                            to = asks[:1]
                        if what == "replace" and to == asks[1:]:
                            ctx.reach("replaced")
                    linked(ctx, s, to, why)
                    if i and f in ("flaky", "again"):
                        ctx.reach("linked on")
            ctx.check(all(s.ended is not None for s in SPANS if s.kind is SpanKind.CONSUMER or s.name.startswith("docket.") and s.name != "docket.worker"), "no span is left open", f"{SPANS}")
            ctx.reach(what)
            ctx.observe(what, len(runs_of("plain")))
            await stop(t)

    ctx.go(main)


def blocked(ctx: Ctx) -> None:
    """Tasks held back by limits, from several callers, on two workers."""

    async def main(ctx: Ctx) -> None:
        begin(ctx)
        rec = Rec(ctx)
        own: dict = {}

        async def body(i: int) -> None:
            rec.start(i)
            own[i] = TRACER.start_span(f"inside {i}")
            await ctx.sleep_us(400 * MS)
            rec.end(i)

        if ctx.pick("kind", ["slot", "rate"]) == "slot":

            async def job(i: int, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)) -> None:
                await body(i)
        else:

            async def job(i: int, limit: RateLimit = RateLimit(1, per=timedelta(milliseconds=600))) -> None:
                await body(i)

        async with ctx.docket() as d, ctx.docket("b") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job)
            ts = [serve(d, "a", ctx), serve(d2, "b", ctx)]
            await ctx.sleep_us(10 * MS)
            user = []
            for i in range(ctx.p["n"]):
                if i:
                    await ctx.sleep_us(ctx.int(f"gap{i}", 0, ctx.p["gap"]))
                with TRACER.start_as_current_span(f"user {i}") as u:
                    await c.add(job, key=f"k{i}")(i)
                user.append(u)
            await ctx.sleep_us(ctx.p["settle"])
            for i, u in enumerate(user):
                why = f"{i}: {rec.events} {SPANS}"
                rs, asks = runs_of(f"k{i}"), asked(f"k{i}")
                ctx.check(rec.n("start", i) == 1 and len(asks) == 1, "each task runs once", why)
                mine = [s for s in rs if own[i].parent.span_id == s.context.span_id]
                ctx.check(len(mine) == 1 and mine[0] is rs[-1], "what a run does is part of its span", why)
                ctx.check(asks[0].parent.span_id == u.context.span_id, "a call is part of its caller's trace", why)
                for j, s in enumerate(rs):
                    ctx.check(s.status is not StatusCode.ERROR and s.ended is not None, "a task held back by a limit is not in error", why)
                    linked(ctx, s, asks + rs[:j], why)
                ctx.reach("at once" if len(rs) == 1 else "held back")
            ctx.observe(len(user))
            await stop(*ts)

    ctx.go(main)


def redelivered(ctx: Ctx) -> None:
    """The worker dies at any moment, or an operation of its is slow, and another takes over."""

    async def main(ctx: Ctx) -> None:
        begin(ctx)
        rec = Rec(ctx)

        async def job() -> None:
            rec.start("job")
            await ctx.sleep_us(600 * MS)
            rec.end("job")

        async with ctx.docket() as d, ctx.docket("d2") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job)
            t = serve(d, "a", ctx, redelivery_timeout=td(S))
            await ctx.sleep_us(10 * MS)
            with TRACER.start_as_current_span("user") as u:
                await c.add(job, key="k", when=ctx.at(ctx.now_us() + ctx.pick("delay", [0, 400 * MS])))()
            dies = ctx.int("dies", 0, ctx.p["hi"])
            await ctx.sleep_us(dies)
            if await tied(ctx, rec, ctx.now_us()):
                ctx.reach("tied")
                await stop(t)
                return
            ctx.ctl("main").dead = True
            done = rec.n("end")
            began = rec.n("start")
            t2 = serve(d2, "b", ctx, redelivery_timeout=td(S))
            await ctx.sleep_us(ctx.p["settle"])
            why = f"died at {dies}: {rec.events} {SPANS}"
            asks = asked("k")
            ctx.check(len(asks) == 1 and asks[0].parent.span_id == u.context.span_id, "a call is part of its caller's trace", why)
            rs = [s for s in runs_of("k") if s.attributes.get("docket.worker") == "b"]
            ctx.check(len(rs) == (not done), "each run is one span", why)
            for s in runs_of("k"):
                linked(ctx, s, asks, why)
            ctx.reach("redelivered" if began and not done else "delivered once")
            ctx.observe(began, done)
            await stop(t2)

    ctx.go(main)


def untraced(ctx: Ctx) -> None:
    """Tasks asked for outside any trace, slow operations, and clients that trace next to clients that don't."""

    async def main(ctx: Ctx) -> None:
        begin(ctx)
        rec = Rec(ctx)

        async def job(i: int) -> None:
            rec.start(i)
            await ctx.sleep_us(300 * MS)
            rec.end(i)

        async with ctx.docket() as d, ctx.docket("client") as c:
            for x in (d, c):
                x.register(job)
            t = serve(d, "w", ctx, concurrency=ctx.pick("conc", [1, 3]))
            await ctx.sleep_us(10 * MS)
            delay_at(ctx, "main", 1 + ctx.choice("op", ctx.p["ops"]), ctx.int("lag", 0, ctx.p["lag"]), match=lambda op: op.upper() != "XREADGROUP", sent=ctx.bool("sent"))
            user = {}
            for i in range(3):
                if i == 1:
                    with TRACER.start_as_current_span("user") as user[i]:
                        await c.add(job, key=f"k{i}")(i)
                else:
                    await c.add(job, key=f"k{i}")(i)
            await ctx.sleep_us(ctx.p["settle"])
            for i in range(3):
                why = f"{i}: {rec.events} {SPANS}"
                rs, asks = runs_of(f"k{i}"), asked(f"k{i}")
                ctx.check(len(rs) == 1 and rec.n("start", i) == 1, "each run is one span", why)
                ctx.check(len(asks) == 1 and (asks[0].parent.span_id == user[1].context.span_id if i == 1 else not asks[0].parent.is_valid), "a call is part of its caller's trace", why)
                linked(ctx, rs[0], asks, why)
            ctx.check(len({s.context.trace_id for i in range(3) for s in asked(f"k{i}")}) == 3, "each caller has its own trace", f"{SPANS}")
            ctx.reach("traced")
            ctx.observe(3)
            await stop(t)

    ctx.go(main)


HARNESSES = [
    Harness("runs", runs, "a task run at once, one due in 0.8 s, one failing 0 to 2 times of 2 attempts, one perpetuating itself twice; one of them cancelled, replaced or submitted again at any moment of 1.5 s", ["nothing", "cancel", "replace", "duplicate", "error", "cancelled while it ran", "replaced", "linked on"],
            quick={"hi": 1500 * MS, "settle": 5 * S, "fails": [0, 1, 2]}, thorough={"hi": 3 * S}, budget_quick=100),
    Harness("blocked", blocked, "3 tasks (thorough: 4) with gaps up to 0.7 s under a limit of one at once or one per 0.6 s, two workers", ["at once", "held back"],
            quick={"n": 3, "gap": 700 * MS, "settle": 6 * S}, thorough={"n": 4}, budget_quick=60),
    Harness("redelivered", redelivered, "the worker frozen at any moment of 1.5 s of a task of 0.6 s, due at once or in 0.4 s", ["redelivered", "delivered once"],
            quick={"hi": 1500 * MS, "settle": 6 * S}, thorough={"hi": 3 * S}, budget_quick=40),
    Harness("untraced", untraced, "three tasks of which one has a traced caller, one of the worker's operations taking any time up to 1.5 s", ["traced"],
            quick={"ops": 12, "lag": 1500 * MS, "settle": 6 * S}, thorough={"ops": 30, "lag": 3 * S}, budget_quick=40),
]
