"""C27 Generated identifiers are well formed, unique and ordered by time."""
import copy
import time

import docket._uuid7 as module

from vp import clock
from vp import ctx as ctxmod
from vp.sym import and_

from .lib import Ctx, Harness

FUNCTIONS = ["_vendored_uuid7"]
ASSUMPTIONS = ["the operating system's random bytes are arbitrary; they are taken to differ between identifiers only where uniqueness rests on them", "clock readings between 1970 and 2514 (36-bit seconds)", "at most 16384 identifiers within one 60 ns tick"]
SECOND = 1_000_000_000
TOP = (1 << 36) * SECOND


class RandomBytes(bytes):
    sym: object


def generate(ctx: Ctx, times: list, rands: list, burst: int = 0):
    """Identifiers (as numbers) for each clock reading and random number."""
    state = {k: copy.deepcopy(v) for k, v in vars(module).items() if isinstance(v, (list, dict, int)) and not k.startswith("__")}
    out = []
    try:
        for ns, r in zip(times, rands):
            clock.NS_HOOK = lambda ns=ns: ns

            def rnd(n: int, r=r):
                b = RandomBytes(n)
                b.sym = r
                return b

            ctxmod.URANDOM_HOOK = rnd
            u = module.uuid7()
            for _ in range(burst):
                ctxmod.URANDOM_HOOK = None
                module.uuid7()
            out.append(u.int)
    finally:
        clock.NS_HOOK = None
        ctxmod.URANDOM_HOOK = None
        for k, v in state.items():
            if isinstance(v, (list, dict)):
                cur = getattr(module, k)
                cur.clear()
                cur.extend(v) if isinstance(v, list) else cur.update(v)
            else:
                setattr(module, k, v)
    return out


def layout(ctx: Ctx) -> None:
    """One identifier, of any clock reading and random bytes."""
    sec = ctx.int("sec", 0, (1 << 36) - 1)
    frac = ctx.int("ns", 0, SECOND - 1)
    ns = sec * SECOND + frac
    r = ctx.int("rand", 0, (1 << 48) - 1)
    (u,) = generate(ctx, [ns], [r])
    ctx.check(and_(u >= 0, u < 1 << 128), "an identifier is a 128-bit number", "")
    ctx.check((u // (1 << 76)) % 16 == 7, "the version is 7", f"{u}")
    ctx.check((u // (1 << 62)) % 4 == 2, "the variant is RFC 9562's", f"{u}")
    ctx.check(u // (1 << 92) == sec, "the seconds are those of the clock", f"{u} at {ns}")
    hi12 = (u // (1 << 80)) % (1 << 12)
    lo12 = (u // (1 << 64)) % (1 << 12)
    part = hi12 * 4096 + lo12
    ctx.check(and_(part * SECOND <= frac * (1 << 24), frac * (1 << 24) < (part + 1) * SECOND), "the fraction of a second is that of the clock, to 60 ns", f"{u} at {ns}")
    ctx.check(u % (1 << 48) == r, "the random bits are all used", f"{u}")
    ctx.reach("done")
    ctx.observe(u)


def ordered(ctx: Ctx) -> None:
    """Several identifiers; the clock may stand still, or go back; any random bytes."""
    n = ctx.p["n"]
    base = ctx.int("base", 0, TOP // 2)
    step = [ctx.int(f"step{i}", -ctx.p["back"], ctx.p["ahead"]) for i in range(n - 1)]
    times = [base]
    for s in step:
        times.append(times[-1] + s)
    for t in times:
        ctx.assume(t >= 0)
    rands = [ctx.int(f"rand{i}", 0, (1 << 48) - 1) for i in range(n)]
    ids = generate(ctx, times, rands, burst=ctx.pick("burst", ctx.p["burst"]))
    for i in range(n - 1):
        if bool(step[i] >= 0):
            ctx.check(ids[i] < ids[i + 1], "identifiers are ordered by the time they were generated", f"{times} {rands} {ids}")
            ctx.reach("same instant" if bool(step[i] == 0) else "later")
        elif bool(step[i] <= -60):
            ctx.check(ids[i] > ids[i + 1], "an identifier carries the time of its own generation", f"{times} {ids}")
            ctx.reach("clock went back")
    for i in range(n):
        for j in range(i):
            if all(bool(s >= 0) for s in step[j:i]) or bool(rands[i] != rands[j]):
                ctx.check(ids[i] != ids[j], "identifiers are distinct", f"{times} {rands} {ids}")
    ctx.observe(*ids)


def many(ctx: Ctx) -> None:
    """So many identifiers in one instant that the sequence counter runs out."""
    t = ctx.int("t", 0, TOP // 2)
    n = ctx.pick("already", ctx.p["already"])
    rands = [0] * n + [ctx.int(f"r{i}", 0, (1 << 48) - 1) for i in range(3)]
    clock.NS_HOOK = None
    ids = generate(ctx, [t] * (n + 3), rands)[-3:]
    for i, u in enumerate(ids):
        ctx.check((u // (1 << 76)) % 16 == 7, "the version is 7", f"{n} {u}")
        ctx.check((u // (1 << 62)) % 4 == 2, "the variant is RFC 9562's", f"{n} {u}")
        for j in range(i):
            if n + i < 16384:
                ctx.check(ids[j] < u, "identifiers are ordered by the time they were generated", f"{n} {ids}")
            elif bool(rands[n + i] != rands[n + j]):
                ctx.check(ids[j] != u, "identifiers are distinct", f"{n} {ids}")
    ctx.reach(str(n))
    ctx.observe(*ids)


def burst(ctx: Ctx) -> None:
    """Every identifier of one instant, whatever the random bits make of it."""
    t = ctx.pick("t", [0, 1_700_000_000_123_456_789, TOP - 1])
    n = 16384
    last = ctx.int("last", 0, (1 << 48) - 1)
    ids = generate(ctx, [t] * n, [(1 << 48) - 1 - i for i in range(n - 1)] + [last])
    wrong = [i for i in range(n - 2) if not ids[i] < ids[i + 1]]
    ctx.check(not wrong, "identifiers are ordered by the time they were generated", f"{t} {wrong[:3]}")
    ctx.check(ids[-2] < ids[-1], "identifiers are ordered by the time they were generated", f"{t} {ids[-2:]}")
    ctx.reach("all")
    ctx.observe(ids[0], ids[-1])


HARNESSES = [
    Harness("layout", layout, "any clock reading of 36-bit seconds and any nanosecond; any 48 random bits", ["done"], quick={}, budget_quick=60),
    Harness("ordered", ordered, "3 identifiers, clock readings up to 17 s apart in either direction (or equal), any random bits", ["same instant", "later", "clock went back"],
            quick={"n": 3, "back": 17 * SECOND, "ahead": 17 * SECOND, "burst": [0]}, thorough={"n": 4, "burst": [0, 1]}, budget_quick=80),
    Harness("many", many, "2^k+2 identifiers in one instant for k up to 14, and 16385, the last three with any random bits", ["16382", "16384"],
            quick={"already": [1, 3, 15, 63, 255, 1023, 4095, 8191, 16382, 16384]}, thorough={"already": [0, 1, 2, 3, 7, 15, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191, 16382, 16384]}, budget_quick=80),
    Harness("burst", burst, "all 16384 identifiers of one instant, each with smaller random bits than the one before and the last with any", ["all"], quick={}, budget_quick=80),
]
