"""C22 Server-side scripts receive each value under its own name."""
import docket._lua as module
from docket._lua import Arg, Args, Key, redis_script
from docket._redis import RedisClient

from vp.redis_model import ModelRedis

from .lib import Ctx, Harness

FUNCTIONS = ["redis_script", "_annotation_for", "_decode_for", "_generate_preamble", "_encode_scalar", "_expand_args", "wrapper (AsyncScript EVALSHA/NOSCRIPT)"]
ASSUMPTIONS = ["numbers are within +-2^53, as Lua's are", "the Lua interpreter and EVALSHA/NOSCRIPT are modelled"]
KINDS = {
    "key": Key[str], "bkey": Key[bytes], "str": Arg[str], "bytes": Arg[bytes], "int": Arg[int], "float": Arg[float], "bool": Arg[bool],
    "dict": Args[dict[str, str]], "list": Args[list[str]], "tuple": Args[tuple[str, ...]],
}
VARIADIC = ("dict", "list", "tuple")
TEXTS = ["", "plain", "17", "nil", "it's \"quoted\"\n\\", "ünïcödé ☃", "a\x00b", "-- ]] .. ", "{}%d:*"]
BIG = 2**53


def declare(kinds: list, body: str, redis_at: int = 0):
    """A script function with these parameters, written as a user would."""
    names = [f"p{i}" for i in range(len(kinds))]
    ns = {"RedisClient": RedisClient}
    params = []
    for n, k in zip(names, kinds):
        ns[f"T_{n}"] = KINDS[k]
        params.append(f"{n}: T_{n}")
    src = f'async def script(redis: RedisClient, *, {", ".join(params)}) -> list:\n    """\n' + "\n".join("    " + line for line in body.splitlines()) + '\n    """\n    ...\n'
    exec(src, ns)  # noqa: S102
    return decorate(ns["script"])


def decorate(f):
    """Declarations are read as at import time: with the ordinary int, float and bool
    (they hold no symbolic values; calls are made with the symbolic-aware ones)."""
    own = {k: module.__dict__.pop(k) for k in ("int", "float", "bool") if k in module.__dict__}
    try:
        return redis_script(f)
    finally:
        module.__dict__.update(own)


def returning(kinds: list) -> str:
    """Lua that hands back every parameter as the script sees it."""
    out = ["redis.call('INCRBY', 'ran', 1)", "local out = {}"]
    for i, k in enumerate(kinds):
        n = f"p{i}"
        if k == "bool":
            out.append(f"out[#out + 1] = {n} == true and 1 or ({n} == false and 0 or -1)")
        elif k == "float":
            out.append(f"out[#out + 1] = type({n}) == 'number' and {n} * 4 or 'not a number'")
        elif k == "int":
            out.append(f"out[#out + 1] = type({n}) == 'number' and {n} or 'not a number'")
        elif k in VARIADIC:
            out.append(f"out[#out + 1] = #ARGV - {n}_start + 1")
            out.append(f"for i = {n}_start, #ARGV do out[#out + 1] = ARGV[i] end")
        else:
            out.append(f"out[#out + 1] = {n}")
    out.append("return out")
    return "\n".join(out)


def b(v) -> object:
    return v.encode() if isinstance(v, str) else v


def declarable(kinds: list) -> bool:
    args = [k for k in kinds if k not in ("key", "bkey")]
    return any(k in ("key", "bkey") for k in kinds) and all(k not in VARIADIC for k in args[:-1])


def passes(ctx: Ctx) -> None:
    async def main(ctx: Ctx) -> None:
        n = 1 + ctx.choice("n", ctx.p["n"])
        kinds = [ctx.pick(f"kind{i}", ctx.p["kinds"]) for i in range(n)]
        try:
            script = declare(kinds, returning(kinds))
        except TypeError:
            ctx.check(not declarable(kinds), "a sound declaration is accepted", str(kinds))
            ctx.reach("refused")
            ctx.observe("refused")
            return
        ctx.check(declarable(kinds), "a declaration that would misplace a value is refused", str(kinds))
        text = ctx.pick("text", ctx.p["texts"])
        values: dict = {}
        want: list = []
        for i, k in enumerate(kinds):
            t = f"{text}{i}" if i % 2 else text
            if k in ("key", "str"):
                values[f"p{i}"] = t
                want.append(b(t))
            elif k in ("bkey", "bytes"):
                values[f"p{i}"] = b(t)
                want.append(b(t))
            elif k == "int":
                values[f"p{i}"] = ctx.int(f"v{i}", -BIG, BIG)
                want.append(values[f"p{i}"])
            elif k == "float":
                v = ctx.int(f"v{i}", -BIG // 4, BIG // 4)
                values[f"p{i}"] = v / 4
                want.append(v)
            elif k == "bool":
                values[f"p{i}"] = bool(ctx.bool(f"v{i}"))
                want.append(1 if values[f"p{i}"] else 0)
            else:
                m = ctx.pick("many", ctx.p["many"])
                if k == "dict":
                    d = {f"f{j}{t}": (t + str(j) if j % 2 else ctx.int(f"v{i}_{j}", -BIG, BIG)) for j in range(m)}
                    items = [x for kv in d.items() for x in kv]
                    values[f"p{i}"] = d
                else:
                    items = [(t + str(j) if j % 2 else ctx.int(f"v{i}_{j}", -BIG, BIG)) for j in range(m)]
                    values[f"p{i}"] = tuple(items) if k == "tuple" else items
                want.append(len(items))
                want.extend(b(x) if isinstance(x, str) else b(str(x)) for x in items)
        order = list(values.items())
        if ctx.bool("reversed"):
            order.reverse()
        r = ModelRedis(ctx.store)
        for attempt in range(2):
            got = await script(r, **dict(order))
            ctx.check(len(got) == len(want), "the script receives every value once", f"{kinds} {values}: {got} {want}")
            for g, w in zip(got, want):
                ctx.check(g == w, "the script receives each value under its own name", f"{kinds} {values}: {got} {want}")
            ctx.check(int(await r.get("ran")) == attempt + 1, "the script runs once per call", "")
            ctx.reach("again" if attempt else "first")
        for k in kinds:
            ctx.reach(k)
        ctx.observe(len(got))

    ctx.go(main)


def rejects(ctx: Ctx) -> None:
    """A missing value or one that can't be represented: nothing is executed."""

    async def main(ctx: Ctx) -> None:
        kinds = ["key", ctx.pick("kind", ["str", "int", "bool", "float"]), "int", ctx.pick("last", ["dict", "list", "tuple"])]
        script = declare(kinds, returning(kinds))
        good = {"p0": "k", "p1": "v", "p2": ctx.int("v", -BIG, BIG), "p3": {"f": "1"} if kinds[3] == "dict" else ["1"]}
        which = ctx.pick("which", ["p1", "p2", "p3", "nothing"])
        how = ctx.pick("how", ["missing", "none", "object", "container"])
        bad = {"none": None, "object": object(), "container": ["x"]}.get(how)
        values = dict(good)
        if which != "nothing":
            if how == "missing":
                del values[which]
            elif which == "p3":
                values[which] = {"a": "b", "f": bad} if kinds[3] == "dict" else ["a", bad]
            else:
                values[which] = bad
        r = ModelRedis(ctx.store)
        try:
            await script(r, **values)
            failed = False
        except (TypeError, KeyError):
            failed = True
        ctx.check(failed == (which != "nothing"), "a missing or unrepresentable value is rejected", f"{kinds} {which} {how}")
        ctx.check((await r.get("ran") is None) == failed, "nothing is executed when a value is rejected", f"{kinds} {which} {how}")
        ctx.reach(how if failed else "good")
        ctx.observe(failed)

    ctx.go(main)


def malformed(ctx: Ctx) -> None:
    """Declarations without a script, a client, a key, or with a plain parameter."""
    what = ctx.pick("what", ["no body", "no client", "no key", "plain", "plain type", "fine"])
    x = ctx.int("x", 0, 1)  # noqa: F841
    doc = None if what == "no body" else "return 1"

    async def f(redis, *, a, c): ...

    f.__doc__ = doc
    f.__annotations__ = {"redis": RedisClient, "a": Key[str], "c": Arg[int]}
    if what == "no client":
        f.__annotations__["redis"] = Key[str]
    if what == "no key":
        f.__annotations__["a"] = Arg[str]
    if what == "plain":
        del f.__annotations__["c"]
    if what == "plain type":
        f.__annotations__["c"] = int
    try:
        decorate(f)
        ok = True
    except TypeError:
        ok = False
    ctx.check(ok == (what == "fine"), "an unsound declaration is refused", what)
    ctx.reach(what)
    ctx.observe(ok)


HARNESSES = [
    Harness("passes", passes, "up to 4 parameters of 7 kinds in any order, 2 texts, any integers, fractions and booleans, variadic values of 0 or 3 entries; each script called twice", ["refused", "first", "again", "key", "str", "int", "float", "bool", "dict", "list"],
            quick={"n": 4, "kinds": ["key", "str", "int", "float", "bool", "dict", "list"], "texts": ["it's \"quoted\"\n\\"], "many": [3]}, thorough={"n": 5, "texts": TEXTS, "many": [0, 1, 3]}, budget_quick=150),
    Harness("texts", passes, "up to 2 parameters of all 10 kinds, 9 texts, variadic values of 0, 1 or 3 entries", ["refused", "first", "again"] + list(KINDS),
            quick={"n": 2, "kinds": list(KINDS), "texts": TEXTS, "many": [0, 1, 3]}, thorough={"n": 3}, budget_quick=100),
    Harness("rejects", rejects, "4 parameters, one of them missing or of 3 unrepresentable types", ["missing", "none", "object", "container", "good"], quick={}, budget_quick=20),
    Harness("malformed", malformed, "5 unsound declarations", ["no body", "no client", "no key", "plain", "plain type", "fine"], quick={}, budget_quick=10),
]
