"""C19 Waiting for a result never hangs and returns that task's outcome."""
import asyncio

from docket import Retry
from docket.execution import ExecutionCancelled

from .c10 import serve, stop
from .many import many
from .lib import MS, S, Ctx, Harness, delay_at, freeze, td

FUNCTIONS = ["Execution.get_result", "Execution.subscribe", "Execution.sync", "Docket.get_execution", "Worker._execute", "ResultStorage.put/get", "_terminal (Lua)", "_cancel_task (Lua)", "_claim (Lua)"]
ASSUMPTIONS = ["virtual time: Redis operations take no time unless delayed by the harness", "the caller waits while the outcome is retained (execution_ttl)", "the key is not replaced or scheduled again while waiting"]
RES, POLL = 500 * MS, 400 * MS
OUTCOMES = ["value", "none", "raises", "retried", "cancelled pending", "cancelled running", "cleared"]


async def outcome(ctx: Ctx, ex, **kw):
    """(kind, value, when) of one waiting call; "hung" if it is still waiting after 20 s."""
    try:
        r = ("value", await asyncio.wait_for(ex.get_result(**kw), 20))
    except ExecutionCancelled:
        r = ("cancelled", None)
    except asyncio.CancelledError:
        raise
    except TimeoutError as e:
        r = ("timeout", None) if "Timeout waiting" in str(e) else ("hung", None)
    except BaseException as e:
        try:
            text = str(e)
        except Exception:
            text = ""
        r = ("raised", (type(e).__name__, text))
    return (*r, ctx.now_us())


def waits(ctx: Ctx) -> None:
    """(Another task ends at once and must not be taken for this one.) A caller starting at any moment; one of its Redis operations slow."""

    async def main(ctx: Ctx) -> None:
        what = ctx.pick("what", ctx.p["what"])
        via = ctx.pick("via", ["add", "lookup"])
        ended: list = []
        n = [0]

        async def job(i: int, retry: Retry = Retry(attempts=2)) -> object:
            if i == 41:
                return 41
            n[0] += 1
            await ctx.sleep_us(300 * MS if what != "cancelled running" else 3 * S)
            if what == "raises" and n[0] == 2:
                ended.append(ctx.now_us())
            if what == "raises" or what == "retried" and n[0] == 1:
                raise ValueError(f"sorry {i}")
            ended.append(ctx.now_us())
            return None if what == "none" else {"answer": i}

        async with ctx.docket() as d, ctx.docket("client") as c, ctx.docket("other") as o:
            for x in (d, c, o):
                x.register(job)
            due = ctx.now_us() + 200 * MS
            await o.add(job, key="k2")(41)
            ex = await c.add(job, when=ctx.at(due), key="k")(42)
            t = serve(d, "w", ctx)

            async def cancel() -> None:
                at = due + 700 * MS if what == "cancelled running" else due - 100 * MS
                await ctx.sleep_us(at - ctx.now_us())
                await (o.clear() if what == "cleared" else o.cancel("k"))
                ended.append(ctx.now_us())

            other = [asyncio.create_task(cancel())] if what.startswith("c") else []
            start = ctx.pick("start", [0, 250 * MS, 550 * MS, 850 * MS]) if ctx.p["limits"] else ctx.int("start", 0, ctx.p["hi"])
            await ctx.sleep_us(start)
            if via == "lookup":
                ex = await c.get_execution("k")
                assert ex is not None
            kind = ctx.pick("slow", ["server", "subscribe"])
            lag = ctx.pick("lag", [0, 100 * MS]) if ctx.p["limits"] else ctx.int("lag", 0, ctx.p["lag"])
            if kind == "server":
                st = delay_at(ctx, "client", 1 + ctx.choice("op", ctx.p["ops"]), lag)
            else:
                st = delay_at(ctx, "client", 1, lag, match=lambda op: op == "SUBSCRIBE", sent=True)
            began = ctx.now_us()
            kw = {}
            limit = None
            if ctx.p["limits"]:
                how = ctx.pick("limit", ["timeout", "deadline"])
                limit = ctx.int("for", 0, ctx.p["hi"])
                kw = {how: td(limit)} if how == "timeout" else {how: ctx.at(began + limit)}
                ctx.reach(how)
            got, value, when = await outcome(ctx, ex, **kw)
            await asyncio.gather(*other)
            why = f"{what} started {began} ended {ended} returned {when}: {got} {value}"
            ctx.check(got != "hung", "waiting never hangs", why)
            if limit is not None:
                ctx.check(when <= began + limit + lag + 1, "a waiting caller gives up in time", why)
            if got == "timeout":
                ctx.check(limit is not None and when >= began + limit, "a caller gives up only when its time is up", why)
                ctx.reach("gave up")
                ctx.check(not ended or limit == 0 or ended[-1] + 2 * lag + 1 * MS >= began + limit or 2 * lag + 1 * MS >= limit, "an outcome that is there is returned", why)
            else:
                want = {"value": ("value", {"answer": 42}), "none": ("value", None), "raises": ("raised", ("ValueError", "sorry 42")), "retried": ("value", {"answer": 42})}.get(what, ("cancelled", None))
                ctx.check((got, value) == want, "the caller gets the task's own outcome", why)
                ctx.check(bool(ended) and when >= ended[-1], "the caller gets the outcome once there is one", why)
                ctx.check(when <= max(ended[-1], began) + 2 * lag + 60 * MS, "the caller gets the outcome as soon as there is one", why)
                ctx.reach(what)
                ctx.reach("waited" if began < ended[-1] else "already over")
            if st["fired"]:
                ctx.reach("slow " + kind)
            ctx.observe(got, when)
            await stop(t)

    ctx.go(main)


class Awkward(Exception):
    """Cannot be rebuilt from its pickle."""

    def __init__(self, a: int, b: int) -> None:
        super().__init__(f"{a}/{b}")


class Unreadable(Exception):
    def __str__(self) -> str:
        raise RuntimeError("no words")


class Unpicklable:
    def __reduce__(self):
        raise TypeError("cannot pickle this")


class UnpicklableError(Exception):
    def __reduce__(self):
        raise TypeError("cannot pickle this")


class Base(BaseException):
    pass


def awkward(ctx: Ctx) -> None:
    """Outcomes that are hard to store: the waiting caller and the worker survive them."""

    async def main(ctx: Ctx) -> None:
        what = ctx.pick("what", ["unpicklable result", "unpicklable error", "awkward error", "unreadable error", "big", "exception as result"])
        dur = ctx.pick("dur", [0, 200 * MS])
        ttl = ctx.pick("ttl", [500 * MS, S, 60 * S])
        runs: list = []

        async def job() -> object:
            runs.append(ctx.now_us())
            await ctx.sleep_us(dur)
            if what == "unpicklable result":
                return Unpicklable()
            if what == "unpicklable error":
                raise UnpicklableError("why")
            if what == "awkward error":
                raise Awkward(1, 2)
            if what == "unreadable error":
                raise Unreadable()
            return "x" * 5000 if what == "big" else ValueError("returned, not raised")

        async def fine() -> int:
            return 7

        async with ctx.docket(execution_ttl=td(ttl)) as d, ctx.docket("client", execution_ttl=td(ttl)) as c:
            for x in (d, c):
                x.register(job)
                x.register(fine)
            ex = await c.add(job, key="k")()
            t = serve(d, "w", ctx, redelivery_timeout=td(2 * S))
            start = ctx.int("start", 0, ctx.p["hi"])
            await ctx.sleep_us(start)
            if bool(ctx.now_us() >= dur + ttl - 10 * MS):
                t.cancel()
                return  # no longer retained
            got, value, when = await outcome(ctx, ex)
            why = f"{what} {ttl}: {got} {str(value)[:80]} at {when}"
            ctx.check(got != "hung", "waiting never hangs", why)
            if what.endswith("error"):
                ctx.check(got == "raised" and {"unpicklable error": "UnpicklableError: why", "awkward error": "Awkward: 1/2"}.get(what, "Unreadable") in f"{value[0]}: {value[1]}", "a failed task is reported as failed, with its error", why)
            elif what == "big":
                ctx.check((got, value) == ("value", "x" * 5000), "the caller gets the task's own outcome", why)
            elif what == "exception as result":
                ctx.check(got == "value" and str(value) == "returned, not raised", "the caller gets the task's own outcome", why)
            ctx.reach(what)
            other = await c.add(fine, key="k2")()
            got2 = await outcome(ctx, other)
            if True:
                ctx.check(got2[:2] == ("value", 7), "the worker goes on with other tasks", f"{why}: {got2}")
            await ctx.sleep_us(3 * S)
            ctx.check(len(runs) == 1, "the task ran once", f"{why}: {runs}")
            ctx.check(not t.done(), "the worker goes on", why)
            ctx.observe(got, when)
            await stop(t)

    ctx.go(main)


def handed_over(ctx: Ctx) -> None:
    """The task's worker dies; the caller waits on until another worker has finished it."""

    async def main(ctx: Ctx) -> None:
        ended: list = []
        runs: list = []

        async def job(i: int) -> int:
            me = len(runs)
            runs.append(ctx.now_us())
            await ctx.sleep_us(700 * MS)
            if me:
                ended.append(ctx.now_us())
            return i + me

        async with ctx.docket() as d, ctx.docket("d2") as d2, ctx.docket("client") as c:
            for x in (d, d2, c):
                x.register(job)
            ex = await c.add(job, key="k")(10)
            start = ctx.int("start", 0, ctx.p["hi"])
            t = serve(d, "w", ctx, redelivery_timeout=td(900 * MS))
            going = asyncio.create_task(outcome(ctx, ex)) if ctx.bool("before") else None
            await ctx.sleep_us(100 * MS)
            freeze(ctx, "main")
            t2 = serve(d2, "w2", ctx, redelivery_timeout=td(900 * MS))
            if going is None:
                await ctx.sleep_us(start)
                going = asyncio.create_task(outcome(ctx, ex))
                ctx.reach("later")
            else:
                ctx.reach("before")
            got, value, when = await going
            ctx.check((got, value) == ("value", 11), "the caller gets the task's own outcome", f"{got} {value} {runs} {ended} {when}")
            ctx.observe(when)
            t.cancel()
            await stop(t2)

    ctx.go(main)


HARNESSES = [
    Harness("waits", waits, "a task due in 0.2s lasting 0.3s, of 7 outcomes; the caller starts at any moment of [0,1.1s] with one of its first 3 Redis operations (or its subscription) taking up to 0.3s", OUTCOMES + ["waited", "already over", "slow server", "slow subscribe"],
            quick={"hi": 1100 * MS, "lag": 300 * MS, "ops": 3, "what": OUTCOMES, "limits": False}, thorough={"ops": 8, "lag": S}, budget_quick=100),
    Harness("limits", waits, "as waits, with any timeout or deadline up to 1.1s, of 3 outcomes", ["timeout", "deadline", "gave up", "value", "waited", "already over"],
            quick={"hi": 1100 * MS, "lag": 100 * MS, "ops": 3, "what": ["value", "raises", "cancelled running"], "limits": True}, thorough={"ops": 8, "lag": S, "what": OUTCOMES}, budget_quick=100),
    Harness("awkward", awkward, "6 kinds of outcome that are hard to store, 3 retention periods, caller starting at any moment of [0,0.5s]", ["unpicklable result", "unpicklable error", "awkward error", "unreadable error", "big", "exception as result"],
            quick={"hi": 500 * MS}, budget_quick=60),
    Harness("handed_over", handed_over, "the worker dies 0.1s into a run of 0.7s, a second one takes over; caller starting at any moment of [0,4s]", ["before", "later"], quick={"hi": 4 * S}, budget_quick=40),
    many("results", "3 or 20 waiting from the start and as many from any moment of 1.2 s", [3, 20]),
]
