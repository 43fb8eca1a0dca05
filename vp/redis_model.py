"""Redis model: executes commands and Lua scripts over symbolic data.

One ``Store`` is one Redis server.  ``ModelRedis`` is the client object handed
to docket in place of ``burner_redis.BurnerRedis`` (memory:// URLs); several
clients may share one store, and each can be crashed or made to fail at a
chosen operation.
"""

from __future__ import annotations

import asyncio
import functools
import hashlib
import re
from typing import Any

from redis.exceptions import (
    ConnectionError as RedisConnectionError,
    LockError,
    LockNotOwnedError,
    NoScriptError,
    ResponseError,
)

from . import clock, lua, sym
from .sym import SymFloat, SymInt, has_token, is_sym, text_eq


LUA_CALLS = 0


class Status(bytes):
    pass


def enc(v: Any) -> bytes:
    if isinstance(v, bytes):
        return bytes(v)
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, str):
        return v.encode()
    if isinstance(v, bool):
        raise TypeError("Invalid input of type: 'bool'. Convert to a bytes, string, int or float first.")
    if is_sym(v):
        return str(v).encode()
    if isinstance(v, (int, float)):
        return repr(v).encode()
    raise TypeError(f"Invalid input of type: {type(v).__name__!r}.")


def to_num(b: Any) -> Any:
    """Number out of a command argument (bytes or number)."""
    if isinstance(b, (int, float)):
        return b
    v = sym.lift(b)
    if v is not None:
        return v
    if has_token(b):
        b = sym.concretize_text(b)
    try:
        return int(b)
    except ValueError:
        return lua.norm(float(b))


def to_int(b: Any) -> Any:
    try:
        v = to_num(b)
    except ValueError:
        raise ResponseError("value is not an integer or out of range")
    if isinstance(v, SymFloat):
        if v.d == 1:
            return SymInt(v.e, v.n)
        raise ResponseError("value is not an integer or out of range")
    if isinstance(v, float):
        raise ResponseError("value is not an integer or out of range")
    return v


def score_bytes(v: Any) -> bytes:
    if is_sym(v):
        return lua.fmt_num(v)
    if isinstance(v, int):
        return str(v).encode()
    if v == float("inf"):
        return b"inf"
    if v == float("-inf"):
        return b"-inf"
    if float(v).is_integer() and abs(v) < 1e17:
        return str(int(v)).encode()
    return repr(float(v)).encode()


class Dict:
    """bytes -> value mapping whose keys may contain symbolic tokens."""

    __slots__ = ("d", "tok")

    def __init__(self) -> None:
        self.d: dict[bytes, Any] = {}
        self.tok = False

    def find(self, k: bytes) -> bytes | None:
        if k in self.d:
            return k
        if self.tok or has_token(k):
            for kk in list(self.d):
                if (has_token(kk) or has_token(k)) and text_eq(kk, k):
                    return kk
        return None

    def get(self, k: bytes) -> Any:
        f = self.find(k)
        return None if f is None else self.d[f]

    def set(self, k: bytes, v: Any) -> bool:
        f = self.find(k)
        if f is not None:
            self.d[f] = v
            return False
        self.d[k] = v
        if has_token(k):
            self.tok = True
        return True

    def delete(self, k: bytes) -> bool:
        f = self.find(k)
        if f is None:
            return False
        del self.d[f]
        return True

    def __len__(self) -> int:
        return len(self.d)

    def items(self) -> Any:
        return list(self.d.items())


class Stream:
    def __init__(self) -> None:
        self.entries: dict[tuple[int, int], list[bytes]] = {}
        self.last: tuple[int, int] = (0, 0)
        self.groups: dict[bytes, Group] = {}
        self.added = 0


class Pending:
    __slots__ = ("consumer", "time", "count")

    def __init__(self, consumer: bytes, t: Any, count: int) -> None:
        self.consumer, self.time, self.count = consumer, t, count


class Group:
    def __init__(self, last: tuple[int, int]) -> None:
        self.last = last
        self.pel: dict[tuple[int, int], Pending] = {}
        self.consumers: dict[bytes, Any] = {}


def fmt_id(i: tuple[int, int]) -> bytes:
    return b"%d-%d" % i


def parse_id(b: Any, hi: bool = False) -> tuple[int, int]:
    b = enc(b)
    if b == b"-":
        return (0, 0)
    if b == b"+":
        return (1 << 62, 1 << 62)
    a, _, c = b.partition(b"-")
    try:
        return (int(a), int(c) if c else ((1 << 62) if hi else 0))
    except ValueError:
        raise ResponseError("Invalid stream ID specified as stream command argument")


TYPES = {bytes: b"string", Dict: b"hash", Stream: b"stream"}


class ZSet(Dict):
    pass


class RSet(Dict):
    pass


class RList(list):  # type: ignore[type-arg]
    pass


class Store:
    def __init__(self) -> None:
        self.data: dict[bytes, Any] = {}
        self.expiry: dict[bytes, Any] = {}  # key -> ms
        self.scripts: dict[str, str] = {}
        self.subs: list[ModelPubSub] = []
        self.cond_waiters: list[asyncio.Future[None]] = []
        self.published: list[tuple[bytes, bytes]] = []
        self.ops: list[tuple[str, tuple[Any, ...]]] = []
        self.next_id = 1
        self.listeners: list[Any] = []  # fn(cmd, args, client)
        # Idle polls last at least this many seconds instead of being repeated (nothing
        # happens between two of them): for harnesses whose waits are days.
        self.patience: float = 0
        self.tokkeys = False
        self.stats_lua = 0

    # ---- keyspace ----

    def now_ms(self) -> Any:
        return clock.CLOCK.now_us() // 1000

    def _live(self, k: bytes) -> bytes | None:
        if self.tokkeys or has_token(k):
            if k not in self.data:
                for kk in list(self.data):
                    if (has_token(kk) or has_token(k)) and text_eq(kk, k):
                        k = kk
                        break
                else:
                    return None
        if k not in self.data:
            return None
        ex = self.expiry.get(k)
        if ex is not None and bool(self.now_ms() >= ex):
            del self.data[k]
            del self.expiry[k]
            return None
        return k

    def lookup(self, k: bytes, typ: Any = None) -> Any:
        kk = self._live(k)
        if kk is None:
            return None
        v = self.data[kk]
        if typ is not None and type(v) is not typ:
            raise ResponseError("WRONGTYPE Operation against a key holding the wrong kind of value")
        return v

    def obtain(self, k: bytes, typ: Any) -> Any:
        v = self.lookup(k, typ)
        if v is None:
            v = typ()
            self.data[k] = v
            if has_token(k):
                self.tokkeys = True
        return v

    def drop(self, k: bytes) -> bool:
        kk = self._live(k)
        if kk is None:
            return False
        del self.data[kk]
        self.expiry.pop(kk, None)
        return True

    def prune(self, k: bytes) -> None:
        kk = self._live(k)
        if kk is not None and not isinstance(self.data[kk], (bytes, Stream)) and len(self.data[kk]) == 0:
            self.drop(kk)

    # ---- command dispatch ----

    def call(self, name: str, *args: Any) -> Any:
        f = getattr(self, "c_" + name.lower().replace(" ", "_"), None)
        if f is None:
            raise ResponseError(f"unknown command '{name}' (not in the Redis model)")
        if sym.CUR is not None:
            st = sym.CUR.stats
            st.redis_ops += 1
            st.commands[name] = st.commands.get(name, 0) + 1
        for li in self.listeners:
            li(name, args)
        return f(*[a if isinstance(a, bytes) else enc(a) for a in args])

    # generic
    def c_ping(self) -> Any:
        return Status(b"PONG")

    def c_exists(self, *keys: bytes) -> int:
        return sum(1 for k in keys if self._live(k) is not None)

    def c_del(self, *keys: bytes) -> int:
        n = sum(1 for k in keys if self.drop(k))
        if n:
            self.notify()
        return n

    c_unlink = c_del

    def c_type(self, k: bytes) -> Any:
        v = self.lookup(k)
        if v is None:
            return Status(b"none")
        return Status(
            {bytes: b"string", Dict: b"hash", ZSet: b"zset", RSet: b"set", RList: b"list", Stream: b"stream"}[type(v)]
        )

    def _set_expiry(self, k: bytes, at: Any) -> int:
        kk = self._live(k)
        if kk is None:
            return 0
        if bool(at <= self.now_ms()):
            self.drop(kk)
            return 1
        self.expiry[kk] = at
        return 1

    def _exp_opts(self, k: bytes, at: Any, opts: tuple[bytes, ...]) -> int:
        kk = self._live(k)
        if kk is None:
            return 0
        cur = self.expiry.get(kk)
        for o in opts:
            o = o.upper()
            if o == b"NX" and cur is not None:
                return 0
            if o == b"XX" and cur is None:
                return 0
            if o == b"GT" and (cur is None or not bool(at > cur)):
                return 0
            if o == b"LT" and cur is not None and not bool(at < cur):
                return 0
        return self._set_expiry(k, at)

    def c_expire(self, k: bytes, s: bytes, *opts: bytes) -> int:
        return self._exp_opts(k, self.now_ms() + to_int(s) * 1000, opts)

    def c_pexpire(self, k: bytes, ms: bytes, *opts: bytes) -> int:
        return self._exp_opts(k, self.now_ms() + to_int(ms), opts)

    def c_expireat(self, k: bytes, s: bytes, *opts: bytes) -> int:
        return self._exp_opts(k, to_int(s) * 1000, opts)

    def c_pexpireat(self, k: bytes, ms: bytes, *opts: bytes) -> int:
        return self._exp_opts(k, to_int(ms), opts)

    def c_persist(self, k: bytes) -> int:
        kk = self._live(k)
        if kk is None or kk not in self.expiry:
            return 0
        del self.expiry[kk]
        return 1

    def c_pttl(self, k: bytes) -> Any:
        kk = self._live(k)
        if kk is None:
            return -2
        if kk not in self.expiry:
            return -1
        return self.expiry[kk] - self.now_ms()

    def c_ttl(self, k: bytes) -> Any:
        v = self.c_pttl(k)
        if not is_sym(v) and v < 0:
            return v
        return (v + 500) // 1000

    def c_keys(self, pat: bytes) -> list[bytes]:
        return [k for k in list(self.data) if self._live(k) is not None and glob(pat, k)]

    def c_dbsize(self) -> int:
        return len([k for k in list(self.data) if self._live(k) is not None])

    def c_time(self) -> list[bytes]:
        us = clock.CLOCK.now_us()
        return [enc(us // 1_000_000), enc(us % 1_000_000)]

    def c_flushall(self, *a: bytes) -> Any:
        self.data.clear()
        self.expiry.clear()
        return Status(b"OK")

    c_flushdb = c_flushall

    def c_rename(self, a: bytes, b: bytes) -> Any:
        kk = self._live(a)
        if kk is None:
            raise ResponseError("no such key")
        v, ex = self.data.pop(kk), self.expiry.pop(kk, None)
        self.drop(b)
        self.data[b] = v
        if ex is not None:
            self.expiry[b] = ex
        return Status(b"OK")

    def c_publish(self, ch: bytes, msg: bytes) -> int:
        self.published.append((ch, msg))
        n = 0
        for s in list(self.subs):
            n += s._deliver(ch, msg)
        return n

    # strings
    def c_get(self, k: bytes) -> Any:
        return self.lookup(k, bytes)

    def c_set(self, k: bytes, v: bytes, *opts: bytes) -> Any:
        i = 0
        nx = xx = keepttl = get = False
        at: Any = None
        while i < len(opts):
            o = opts[i].upper()
            if o == b"NX":
                nx = True
            elif o == b"XX":
                xx = True
            elif o == b"KEEPTTL":
                keepttl = True
            elif o == b"GET":
                get = True
            elif o in (b"EX", b"PX", b"EXAT", b"PXAT"):
                i += 1
                n = to_int(opts[i])
                if bool(n <= 0):
                    raise ResponseError("invalid expire time in 'set' command")
                at = {b"EX": lambda: self.now_ms() + n * 1000, b"PX": lambda: self.now_ms() + n, b"EXAT": lambda: n * 1000, b"PXAT": lambda: n}[o]()
            else:
                raise ResponseError("syntax error")
            i += 1
        kk = self._live(k)
        old = self.data.get(kk) if kk is not None else None
        if (nx and kk is not None) or (xx and kk is None):
            return old if get else None
        key = kk if kk is not None else k
        self.data[key] = v
        if has_token(key):
            self.tokkeys = True
        if not keepttl:
            self.expiry.pop(key, None)
        if at is not None:
            self.expiry[key] = at
        self.notify()
        return old if get else Status(b"OK")

    def c_setex(self, k: bytes, s: bytes, v: bytes) -> Any:
        return self.c_set(k, v, b"EX", s)

    def c_psetex(self, k: bytes, s: bytes, v: bytes) -> Any:
        return self.c_set(k, v, b"PX", s)

    def c_setnx(self, k: bytes, v: bytes) -> int:
        return 1 if self.c_set(k, v, b"NX") is not None else 0

    def c_getset(self, k: bytes, v: bytes) -> Any:
        return self.c_set(k, v, b"GET")

    def c_getdel(self, k: bytes) -> Any:
        v = self.c_get(k)
        self.drop(k)
        return v

    def c_mget(self, *ks: bytes) -> list[Any]:
        out = []
        for k in ks:
            v = self.lookup(k)
            out.append(v if isinstance(v, bytes) else None)
        return out

    def c_incrby(self, k: bytes, n: bytes) -> Any:
        v = self.lookup(k, bytes)
        new = (to_int(v) if v is not None else 0) + to_int(n)
        kk = self._live(k) or k
        self.data[kk] = enc(new)
        return new

    def c_incr(self, k: bytes) -> Any:
        return self.c_incrby(k, b"1")

    def c_decr(self, k: bytes) -> Any:
        return self.c_incrby(k, b"-1")

    def c_decrby(self, k: bytes, n: bytes) -> Any:
        return self.c_incrby(k, enc(-to_int(n)))

    def c_strlen(self, k: bytes) -> int:
        v = self.lookup(k, bytes)
        return len(v) if v else 0

    # hashes
    def c_hset(self, k: bytes, *fv: bytes) -> int:
        if not fv or len(fv) % 2:
            raise ResponseError("wrong number of arguments for 'hset' command")
        h = self.obtain(k, Dict)
        n = 0
        for i in range(0, len(fv), 2):
            if h.set(fv[i], fv[i + 1]):
                n += 1
        return n

    def c_hmset(self, k: bytes, *fv: bytes) -> Any:
        self.c_hset(k, *fv)
        return Status(b"OK")

    def c_hsetnx(self, k: bytes, f: bytes, v: bytes) -> int:
        h = self.obtain(k, Dict)
        if h.find(f) is not None:
            return 0
        h.set(f, v)
        return 1

    def c_hget(self, k: bytes, f: bytes) -> Any:
        h = self.lookup(k, Dict)
        return None if h is None else h.get(f)

    def c_hmget(self, k: bytes, *fs: bytes) -> list[Any]:
        h = self.lookup(k, Dict)
        return [None if h is None else h.get(f) for f in fs]

    def c_hgetall(self, k: bytes) -> list[bytes]:
        h = self.lookup(k, Dict)
        out: list[bytes] = []
        if h is not None:
            for f, v in h.items():
                out += [f, v]
        return out

    def c_hkeys(self, k: bytes) -> list[bytes]:
        h = self.lookup(k, Dict)
        return [] if h is None else list(h.d)

    def c_hvals(self, k: bytes) -> list[bytes]:
        h = self.lookup(k, Dict)
        return [] if h is None else list(h.d.values())

    def c_hlen(self, k: bytes) -> int:
        h = self.lookup(k, Dict)
        return 0 if h is None else len(h)

    def c_hexists(self, k: bytes, f: bytes) -> int:
        h = self.lookup(k, Dict)
        return 0 if h is None or h.find(f) is None else 1

    def c_hdel(self, k: bytes, *fs: bytes) -> int:
        h = self.lookup(k, Dict)
        if h is None:
            return 0
        n = sum(1 for f in fs if h.delete(f))
        self.prune(k)
        return n

    def c_hincrby(self, k: bytes, f: bytes, by: bytes) -> Any:
        h = self.obtain(k, Dict)
        cur = h.get(f)
        if cur is not None:
            try:
                base = to_int(cur)
            except (ResponseError, ValueError):
                raise ResponseError("hash value is not an integer")
        else:
            base = 0
        new = base + to_int(by)
        h.set(f, enc(new))
        return new

    def c_hincrbyfloat(self, k: bytes, f: bytes, by: bytes) -> Any:
        h = self.obtain(k, Dict)
        cur = h.get(f)
        new = (to_num(cur) if cur is not None else 0) + to_num(by)
        h.set(f, score_bytes(new))
        return score_bytes(new)

    # sets
    def c_sadd(self, k: bytes, *ms: bytes) -> int:
        s = self.obtain(k, RSet)
        return sum(1 for m in ms if s.set(m, True))

    def c_srem(self, k: bytes, *ms: bytes) -> int:
        s = self.lookup(k, RSet)
        if s is None:
            return 0
        n = sum(1 for m in ms if s.delete(m))
        self.prune(k)
        return n

    def c_smembers(self, k: bytes) -> list[bytes]:
        s = self.lookup(k, RSet)
        return [] if s is None else list(s.d)

    def c_scard(self, k: bytes) -> int:
        s = self.lookup(k, RSet)
        return 0 if s is None else len(s)

    def c_sismember(self, k: bytes, m: bytes) -> int:
        s = self.lookup(k, RSet)
        return 0 if s is None or s.find(m) is None else 1

    # zsets
    def _sorted(self, k: bytes) -> list[tuple[bytes, Any]]:
        z = self.lookup(k, ZSet)
        if z is None:
            return []
        out: list[tuple[bytes, Any]] = []
        for m, s in z.items():
            i = len(out)
            while i > 0:
                pm, ps = out[i - 1]
                if bool(s < ps):
                    i -= 1
                elif bool(s == ps) and _mlt(m, pm):
                    i -= 1
                else:
                    break
            out.insert(i, (m, s))
        return out

    def c_zadd(self, k: bytes, *args: bytes) -> Any:
        nx = xx = gt = lt = ch = incr = False
        i = 0
        while i < len(args):
            o = args[i].upper()
            if o == b"NX":
                nx = True
            elif o == b"XX":
                xx = True
            elif o == b"GT":
                gt = True
            elif o == b"LT":
                lt = True
            elif o == b"CH":
                ch = True
            elif o == b"INCR":
                incr = True
            else:
                break
            i += 1
        rest = args[i:]
        if not rest or len(rest) % 2:
            raise ResponseError("syntax error")
        z = self.obtain(k, ZSet)
        added = changed = 0
        result: Any = None
        for j in range(0, len(rest), 2):
            try:
                sc = to_num(rest[j])
            except ValueError:
                raise ResponseError("value is not a valid float")
            m = rest[j + 1]
            f = z.find(m)
            if f is None:
                if xx:
                    continue
                z.set(m, sc)
                added += 1
                result = sc
            else:
                if nx:
                    continue
                old = z.d[f]
                if incr:
                    sc = old + sc
                if gt and not bool(sc > old):
                    continue
                if lt and not bool(sc < old):
                    continue
                z.d[f] = sc
                result = sc
                if ch and bool(sc != old):
                    changed += 1
        self.prune(k)
        if incr:
            return None if result is None else score_bytes(result)
        return added + changed if ch else added

    def c_zincrby(self, k: bytes, by: bytes, m: bytes) -> Any:
        return self.c_zadd(k, b"INCR", by, m)

    def c_zrem(self, k: bytes, *ms: bytes) -> int:
        z = self.lookup(k, ZSet)
        if z is None:
            return 0
        n = sum(1 for m in ms if z.delete(m))
        self.prune(k)
        return n

    def c_zcard(self, k: bytes) -> int:
        z = self.lookup(k, ZSet)
        return 0 if z is None else len(z)

    def c_zscore(self, k: bytes, m: bytes) -> Any:
        z = self.lookup(k, ZSet)
        v = None if z is None else z.get(m)
        return None if v is None else score_bytes(v)

    def c_zmscore(self, k: bytes, *ms: bytes) -> Any:
        return [self.c_zscore(k, m) for m in ms]

    def c_zrank(self, k: bytes, m: bytes) -> Any:
        for i, (mm, _) in enumerate(self._sorted(k)):
            if text_eq(mm, m):
                return i
        return None

    def _bound(self, b: bytes) -> tuple[Any, bool]:
        ex = b.startswith(b"(")
        if ex:
            b = b[1:]
        lo = b.lower()
        if lo in (b"-inf",):
            return float("-inf"), ex
        if lo in (b"+inf", b"inf"):
            return float("inf"), ex
        try:
            return to_num(b), ex
        except ValueError:
            raise ResponseError("min or max is not a float")

    def _in(self, s: Any, mn: bytes, mx: bytes) -> bool:
        lo, exl = self._bound(mn)
        hi, exh = self._bound(mx)
        if exl:
            if not bool(s > lo):
                return False
        elif not bool(s >= lo):
            return False
        if exh:
            return bool(s < hi)
        return bool(s <= hi)

    def _members_in(self, k: bytes, mn: bytes, mx: bytes) -> list[tuple[bytes, Any]]:
        z = self.lookup(k, ZSet)
        if z is None:
            self._bound(mn), self._bound(mx)
            return []
        return [(m, s) for m, s in z.items() if self._in(s, mn, mx)]

    def c_zcount(self, k: bytes, mn: bytes, mx: bytes) -> int:
        return len(self._members_in(k, mn, mx))

    def c_zremrangebyscore(self, k: bytes, mn: bytes, mx: bytes) -> int:
        ms = self._members_in(k, mn, mx)
        z = self.lookup(k, ZSet)
        for m, _ in ms:
            z.delete(m)
        if z is not None:
            self.prune(k)
        return len(ms)

    def c_zremrangebyrank(self, k: bytes, a: bytes, b: bytes) -> int:
        items = _slice(self._sorted(k), to_int(a), to_int(b))
        z = self.lookup(k, ZSet)
        for m, _ in items:
            z.delete(m)
        if z is not None:
            self.prune(k)
        return len(items)

    def _sort_items(self, items: list[tuple[bytes, Any]]) -> list[tuple[bytes, Any]]:
        out: list[tuple[bytes, Any]] = []
        for m, s in items:
            i = len(out)
            while i > 0:
                pm, ps = out[i - 1]
                if bool(s < ps) or (bool(s == ps) and _mlt(m, pm)):
                    i -= 1
                else:
                    break
            out.insert(i, (m, s))
        return out

    def _range_reply(self, items: list[tuple[bytes, Any]], ws: bool) -> list[Any]:
        if not ws:
            return [m for m, _ in items]
        out: list[Any] = []
        for m, s in items:
            out += [m, score_bytes(s)]
        return out

    def c_zrangebyscore(self, k: bytes, mn: bytes, mx: bytes, *opts: bytes, rev: bool = False) -> list[Any]:
        items = self._sort_items(self._members_in(k, mn, mx))
        if rev:
            items.reverse()
        ws = False
        i = 0
        while i < len(opts):
            o = opts[i].upper()
            if o == b"WITHSCORES":
                ws = True
                i += 1
            elif o == b"LIMIT":
                off, cnt = sym.fork_value(to_int(opts[i + 1])), sym.fork_value(to_int(opts[i + 2]))
                items = items[off:] if cnt < 0 else items[off : off + cnt]
                i += 3
            else:
                raise ResponseError("syntax error")
        return self._range_reply(items, ws)

    def c_zrevrangebyscore(self, k: bytes, mx: bytes, mn: bytes, *opts: bytes) -> list[Any]:
        return self.c_zrangebyscore(k, mn, mx, *opts, rev=True)

    def c_zrange(self, k: bytes, a: bytes, b: bytes, *opts: bytes) -> list[Any]:
        up = [o.upper() for o in opts]
        rev = b"REV" in up
        ws = b"WITHSCORES" in up
        if b"BYSCORE" in up:
            rest = [o for o in opts if o.upper() not in (b"BYSCORE", b"REV")]
            return self.c_zrangebyscore(k, b if rev else a, a if rev else b, *rest, rev=rev)
        items = self._sorted(k)
        if rev:
            items = items[::-1]
        return self._range_reply(_slice(items, to_int(a), to_int(b)), ws)

    def c_zrevrange(self, k: bytes, a: bytes, b: bytes, *opts: bytes) -> list[Any]:
        return self.c_zrange(k, a, b, b"REV", *opts)

    def c_zpopmin(self, k: bytes, *n: bytes) -> list[Any]:
        cnt = to_int(n[0]) if n else 1
        items = self._sorted(k)[:cnt]
        z = self.lookup(k, ZSet)
        for m, _ in items:
            z.delete(m)
        self.prune(k)
        return self._range_reply(items, True)

    def c_zpopmax(self, k: bytes, *n: bytes) -> list[Any]:
        cnt = to_int(n[0]) if n else 1
        items = self._sorted(k)[::-1][:cnt]
        z = self.lookup(k, ZSet)
        for m, _ in items:
            z.delete(m)
        self.prune(k)
        return self._range_reply(items, True)

    # lists
    def c_rpush(self, k: bytes, *vs: bytes) -> int:
        li = self.obtain(k, RList)
        li.extend(vs)
        self.notify()
        return len(li)

    def c_lpush(self, k: bytes, *vs: bytes) -> int:
        li = self.obtain(k, RList)
        for v in vs:
            li.insert(0, v)
        self.notify()
        return len(li)

    def c_llen(self, k: bytes) -> int:
        li = self.lookup(k, RList)
        return 0 if li is None else len(li)

    def c_lrange(self, k: bytes, a: bytes, b: bytes) -> list[bytes]:
        li = self.lookup(k, RList)
        return [] if li is None else list(_slice(li, to_int(a), to_int(b)))

    def c_lpop(self, k: bytes, *n: bytes) -> Any:
        li = self.lookup(k, RList)
        if li is None:
            return None
        v = li.pop(0)
        self.prune(k)
        return v

    def c_rpop(self, k: bytes, *n: bytes) -> Any:
        li = self.lookup(k, RList)
        if li is None:
            return None
        v = li.pop()
        self.prune(k)
        return v

    def c_lrem(self, k: bytes, n: bytes, v: bytes) -> int:
        li = self.lookup(k, RList)
        if li is None:
            return 0
        c = 0
        want = to_int(n)
        for x in list(li):
            if text_eq(x, v) and (want == 0 or c < abs(want)):
                li.remove(x)
                c += 1
        self.prune(k)
        return c

    def c_lindex(self, k: bytes, i: bytes) -> Any:
        li = self.lookup(k, RList)
        try:
            return None if li is None else li[to_int(i)]
        except IndexError:
            return None

    # streams
    def c_xadd(self, k: bytes, *args: bytes) -> Any:
        i = 0
        maxlen: Any = None
        nomk = False
        while i < len(args):
            o = args[i].upper()
            if o == b"NOMKSTREAM":
                nomk = True
                i += 1
            elif o in (b"MAXLEN", b"MINID"):
                i += 1
                if args[i] in (b"~", b"="):
                    i += 1
                if o == b"MAXLEN":
                    maxlen = to_int(args[i])
                i += 1
            elif o == b"LIMIT":
                i += 2
            else:
                break
        idb = args[i]
        fv = list(args[i + 1 :])
        if not fv or len(fv) % 2:
            raise ResponseError("wrong number of arguments for 'xadd' command")
        if nomk and self.lookup(k, Stream) is None:
            return None
        s = self.obtain(k, Stream)
        if idb == b"*":
            self.next_id += 1
            nid = (self.next_id, 0)
            if nid <= s.last:
                nid = (s.last[0], s.last[1] + 1)
        else:
            nid = parse_id(idb)
            if nid <= s.last:
                raise ResponseError("The ID specified in XADD is equal or smaller than the target stream top item")
        s.entries[nid] = fv
        s.last = nid
        s.added += 1
        if maxlen is not None:
            while len(s.entries) > maxlen:
                s.entries.pop(next(iter(s.entries)))
        self.notify()
        return fmt_id(nid)

    def c_xlen(self, k: bytes) -> int:
        s = self.lookup(k, Stream)
        return 0 if s is None else len(s.entries)

    def c_xdel(self, k: bytes, *ids: bytes) -> int:
        s = self.lookup(k, Stream)
        n = 0
        for i in ids:
            p = parse_id(i)
            if s is not None and p in s.entries:
                del s.entries[p]
                n += 1
        return n

    def c_xrange(self, k: bytes, a: bytes, b: bytes, *opts: bytes, rev: bool = False) -> list[Any]:
        s = self.lookup(k, Stream)
        if s is None:
            return []
        exa, exb = a.startswith(b"("), b.startswith(b"(")
        lo, hi = parse_id(a.lstrip(b"(")), parse_id(b.lstrip(b"("), True)
        out = []
        for i in sorted(s.entries, reverse=rev):
            if (i < lo) or (exa and i == lo) or (i > hi) or (exb and i == hi):
                continue
            out.append([fmt_id(i), list(s.entries[i])])
        if len(opts) == 2 and opts[0].upper() == b"COUNT":
            c = sym.fork_value(to_int(opts[1]))
            out = [] if c <= 0 else out[:c]
        return out

    def c_xrevrange(self, k: bytes, b: bytes, a: bytes, *opts: bytes) -> list[Any]:
        return self.c_xrange(k, a, b, *opts, rev=True)

    def c_xtrim(self, k: bytes, *args: bytes) -> int:
        s = self.lookup(k, Stream)
        if s is None:
            return 0
        a = [x for x in args if x not in (b"~", b"=")]
        n = 0
        if a[0].upper() == b"MAXLEN":
            m = to_int(a[1])
            while len(s.entries) > m:
                s.entries.pop(next(iter(s.entries)))
                n += 1
        else:
            lo = parse_id(a[1])
            for i in list(s.entries):
                if i < lo:
                    del s.entries[i]
                    n += 1
        return n

    def c_xgroup(self, sub: bytes, k: bytes, g: bytes, *rest: bytes) -> Any:
        sub = sub.upper()
        if sub == b"CREATE":
            mk = any(r.upper() == b"MKSTREAM" for r in rest[1:])
            s = self.lookup(k, Stream)
            if s is None:
                if not mk:
                    raise ResponseError("The XGROUP subcommand requires the key to exist.")
                s = self.obtain(k, Stream)
            if g in s.groups:
                raise ResponseError("BUSYGROUP Consumer Group name already exists")
            s.groups[g] = Group(s.last if rest[0] == b"$" else parse_id(rest[0]))
            return Status(b"OK")
        s = self.lookup(k, Stream)
        if sub == b"DESTROY":
            return 1 if s is not None and s.groups.pop(g, None) is not None else 0
        if sub == b"CREATECONSUMER":
            grp = self._group(k, g)
            new = rest[0] not in grp.consumers
            grp.consumers.setdefault(rest[0], self.now_ms())
            return int(new)
        if sub == b"DELCONSUMER":
            grp = self._group(k, g)
            n = 0
            for i, p in list(grp.pel.items()):
                if p.consumer == rest[0]:
                    del grp.pel[i]
                    n += 1
            grp.consumers.pop(rest[0], None)
            return n
        raise ResponseError("unknown XGROUP subcommand")

    def _group(self, k: bytes, g: bytes) -> Group:
        s = self.lookup(k, Stream)
        if s is None or g not in s.groups:
            raise ResponseError(
                f"NOGROUP No such key '{k.decode()}' or consumer group '{g.decode()}' in XREADGROUP with GROUP option"
            )
        return s.groups[g]

    def readgroup(self, k: bytes, g: bytes, c: bytes, count: Any, noack: bool = False) -> list[Any]:
        grp = self._group(k, g)
        s = self.lookup(k, Stream)
        grp.consumers[c] = self.now_ms()
        out = []
        for i in sorted(s.entries):
            if i <= grp.last:
                continue
            if count is not None and len(out) >= count:
                break
            grp.last = i
            if not noack:
                grp.pel[i] = Pending(c, self.now_ms(), 1)
            out.append([fmt_id(i), list(s.entries[i])])
        return out

    def readpending(self, k: bytes, g: bytes, c: bytes, start: bytes, count: Any) -> list[Any]:
        grp = self._group(k, g)
        s = self.lookup(k, Stream)
        out: list[Any] = []
        for i in sorted(grp.pel):
            if i <= parse_id(start) or grp.pel[i].consumer != c:
                continue
            if count is not None and len(out) >= count:
                break
            out.append([fmt_id(i), list(s.entries[i]) if i in s.entries else []])
        return out

    def c_xack(self, k: bytes, g: bytes, *ids: bytes) -> int:
        s = self.lookup(k, Stream)
        n = 0
        for i in ids:
            p = parse_id(i)
            if s is not None and g in s.groups and s.groups[g].pel.pop(p, None) is not None:
                n += 1
        return n

    def c_xclaim(self, k: bytes, g: bytes, c: bytes, mn: bytes, *args: bytes) -> list[Any]:
        grp = self._group(k, g)
        s = self.lookup(k, Stream)
        ids, idle, justid, force, retry, time_ = [], None, False, False, None, None
        i = 0
        while i < len(args):
            o = args[i].upper()
            if o == b"IDLE":
                idle = to_int(args[i + 1])
                i += 2
            elif o == b"TIME":
                time_ = to_int(args[i + 1])
                i += 2
            elif o == b"RETRYCOUNT":
                retry = to_int(args[i + 1])
                i += 2
            elif o == b"FORCE":
                force = True
                i += 1
            elif o == b"JUSTID":
                justid = True
                i += 1
            else:
                ids.append(parse_id(args[i]))
                i += 1
        now = self.now_ms()
        grp.consumers[c] = now
        out: list[Any] = []
        for x in ids:
            p = grp.pel.get(x)
            if p is None:
                if not force or x not in s.entries:
                    continue
                p = grp.pel[x] = Pending(c, now, 0)
            elif not bool(now - p.time >= to_int(mn)):
                continue
            if x not in s.entries:
                del grp.pel[x]
                continue
            p.consumer = c
            p.time = time_ if time_ is not None else now - (idle or 0)
            if retry is not None:
                p.count = retry
            elif not justid:
                p.count += 1
            out.append(fmt_id(x) if justid else [fmt_id(x), list(s.entries[x])])
        return out

    def c_xautoclaim(self, k: bytes, g: bytes, c: bytes, mn: bytes, start: bytes, *opts: bytes) -> list[Any]:
        grp = self._group(k, g)
        s = self.lookup(k, Stream)
        count, justid = 100, False
        i = 0
        while i < len(opts):
            if opts[i].upper() == b"COUNT":
                count = sym.fork_value(to_int(opts[i + 1]))
                i += 2
            else:
                justid = True
                i += 1
        now = self.now_ms()
        grp.consumers[c] = now
        st = parse_id(start)
        out: list[Any] = []
        deleted: list[bytes] = []
        cursor = b"0-0"
        mnv = to_int(mn)
        attempts = count * 10
        for x in sorted(grp.pel):
            if x < st:
                continue
            if len(out) >= count or attempts <= 0:
                cursor = fmt_id(x)
                break
            attempts -= 1
            p = grp.pel[x]
            if x not in s.entries:
                del grp.pel[x]
                deleted.append(fmt_id(x))
                continue
            if not bool(now - p.time >= mnv):
                continue
            p.consumer = c
            p.time = now
            if not justid:
                p.count += 1
            out.append(fmt_id(x) if justid else [fmt_id(x), list(s.entries[x])])
        return [cursor, out, deleted]

    def c_xpending(self, k: bytes, g: bytes, *args: bytes) -> list[Any]:
        grp = self._group(k, g)
        if not args:
            if not grp.pel:
                return [0, None, None, None]
            ids = sorted(grp.pel)
            cons: dict[bytes, int] = {}
            for p in grp.pel.values():
                cons[p.consumer] = cons.get(p.consumer, 0) + 1
            return [len(ids), fmt_id(ids[0]), fmt_id(ids[-1]), [[c, str(n).encode()] for c, n in cons.items()]]
        a = list(args)
        idle: Any = None
        if a[0].upper() == b"IDLE":
            idle = to_int(a[1])
            a = a[2:]
        lo, hi, count = parse_id(a[0]), parse_id(a[1], True), to_int(a[2])
        consumer = a[3] if len(a) > 3 else None
        now = self.now_ms()
        out: list[Any] = []
        for x in sorted(grp.pel):
            p = grp.pel[x]
            if x < lo or x > hi or (consumer is not None and p.consumer != consumer):
                continue
            if idle is not None and not bool(now - p.time >= idle):
                continue
            if len(out) >= count:
                break
            out.append([fmt_id(x), p.consumer, now - p.time, p.count])
        return out

    def c_xinfo(self, sub: bytes, k: bytes, *rest: bytes) -> Any:
        s = self.lookup(k, Stream)
        if s is None:
            raise ResponseError("no such key")
        sub = sub.upper()
        if sub == b"GROUPS":
            return [
                [b"name", g, b"consumers", len(v.consumers), b"pending", len(v.pel), b"last-delivered-id", fmt_id(v.last)]
                for g, v in s.groups.items()
            ]
        if sub == b"CONSUMERS":
            grp = self._group(k, rest[0])
            return [
                [b"name", c, b"pending", sum(1 for p in grp.pel.values() if p.consumer == c), b"idle", 0]
                for c in grp.consumers
            ]
        return [b"length", len(s.entries), b"last-generated-id", fmt_id(s.last), b"groups", len(s.groups)]

    # scripting
    def script_load(self, src: str) -> str:
        sha = hashlib.sha1(src.encode()).hexdigest()
        self.scripts[sha] = src
        return sha

    def eval(self, src: str, keys: list[bytes], argv: list[bytes]) -> Any:
        global LUA_CALLS
        LUA_CALLS += 1
        if sym.CUR is not None:
            st = sym.CUR.stats
            st.lua_evals += 1
            sha = hashlib.sha1(src.encode()).hexdigest()[:8]
            st.scripts[sha] = st.scripts.get(sha, 0) + 1
        fn = lua.compile_lua(src)
        g = lua.LuaTable()
        g.h.update(lua.base_env())

        def rcall(args: list[Any]) -> list[Any]:
            out = []
            for a in args:
                if isinstance(a, bytes):
                    out.append(a)
                elif lua._isnum(a):
                    out.append(_lua_num_arg(a))
                else:
                    raise ResponseError("Lua redis lib command arguments must be strings or integers")
            return [_to_lua(self.call(out[0].decode().upper(), *out[1:]))]

        def rpcall(args: list[Any]) -> list[Any]:
            try:
                return rcall(args)
            except ResponseError as e:
                t = lua.LuaTable()
                t.h[b"err"] = str(e).encode()
                return [t]

        def err_reply(args: list[Any]) -> list[Any]:
            t = lua.LuaTable()
            t.h[b"err"] = args[0]
            return [t]

        def ok_reply(args: list[Any]) -> list[Any]:
            t = lua.LuaTable()
            t.h[b"ok"] = args[0]
            return [t]

        r = lua.LuaTable()
        r.h.update(
            {
                b"call": rcall, b"pcall": rpcall, b"error_reply": err_reply, b"status_reply": ok_reply,
                b"log": lambda a: [], b"LOG_NOTICE": 2, b"LOG_WARNING": 3, b"LOG_DEBUG": 0, b"LOG_VERBOSE": 1,
                b"sha1hex": lambda a: [hashlib.sha1(a[0]).hexdigest().encode()],
                b"replicate_commands": lambda a: [True],
            }
        )
        g.h[b"redis"] = r
        try:
            res = fn(g, lua.LuaTable.array(keys), lua.LuaTable.array(argv))
        except lua.LuaError as e:
            raise ResponseError(f"Error running script: {e}")
        return _from_lua(res[0] if res else None)

    # blocking support
    def notify(self) -> None:
        ws, self.cond_waiters = self.cond_waiters, []
        for w in ws:
            if not w.done():
                w.set_result(None)


def _lua_num_arg(a: Any) -> bytes:
    if is_sym(a):
        return lua.fmt_num(a)
    if isinstance(a, int):
        return str(a).encode() if abs(a) < 10**17 else (b"%.17g" % a)
    return b"%.17g" % a


def _to_lua(r: Any) -> Any:
    if r is None:
        return False
    if isinstance(r, Status):
        t = lua.LuaTable()
        t.h[b"ok"] = bytes(r)
        return t
    if isinstance(r, list):
        return lua.LuaTable.array([_to_lua(x) for x in r])
    return r


def _from_lua(v: Any) -> Any:
    if v is None or v is False:
        return None
    if v is True:
        return 1
    if isinstance(v, sym.SymBool):
        return 1 if bool(v) else None
    if lua._isnum(v):
        if isinstance(v, SymFloat):
            return v.trunc()
        return v if is_sym(v) else int(v)
    if isinstance(v, lua.LuaTable):
        if b"err" in v.h:
            raise ResponseError(lua.tostring(v.h[b"err"]).decode())
        if b"ok" in v.h:
            return bytes(lua.tostring(v.h[b"ok"]))
        return [_from_lua(x) for x in v.items_array()]
    return v


def _mlt(a: bytes, b: bytes) -> bool:
    if has_token(a) or has_token(b):
        # same frame around one numeric token: order by value is only right
        # for equal digit counts; fall back to concrete text
        return sym.concretize_text(a) < sym.concretize_text(b)
    return a < b


def _slice(items: Any, a: Any, b: Any) -> Any:
    n = len(items)
    a, b = int(sym.fork_value(a)), int(sym.fork_value(b))
    if a < 0:
        a = max(n + a, 0)
    if b < 0:
        b = n + b
    return items[a : b + 1]


@functools.lru_cache(maxsize=None)
def _glob_re(pat: bytes) -> Any:
    """A glob as Redis reads it: * ? [a-c] [^a] and backslash escapes, over bytes."""
    out, i, n = b"", 0, len(pat)
    while i < n:
        c = pat[i : i + 1]
        if c == b"*":
            out += b".*"
        elif c == b"?":
            out += b"."
        elif c == b"\\" and i + 1 < n:
            i += 1
            out += re.escape(pat[i : i + 1])
        elif c == b"[":
            i += 1
            neg = pat[i : i + 1] == b"^"
            i += neg
            part = b""
            while i < n and pat[i : i + 1] != b"]":
                if pat[i : i + 1] == b"\\" and i + 1 < n:
                    i += 1
                    part += re.escape(pat[i : i + 1])
                elif i + 2 < n and pat[i + 1 : i + 2] == b"-":
                    lo, hi = sorted((pat[i : i + 1], pat[i + 2 : i + 3]))
                    part += re.escape(lo) + b"-" + re.escape(hi)
                    i += 2
                else:
                    part += re.escape(pat[i : i + 1])
                i += 1
            out += (b"[" + (b"^" if neg else b"") + part + b"]") if part else (b"." if neg else b"(?!)")
        else:
            out += re.escape(c)
        i += 1
    return re.compile(out + rb"\Z", re.S)


def glob(pat: bytes, k: bytes) -> bool:
    return _glob_re(bytes(pat)).match(bytes(k)) is not None


# ---------------------------------------------------------------------------
# Client
# ---------------------------------------------------------------------------


def _secs(t: Any) -> Any:
    if isinstance(t, clock.timedelta):
        us = clock.td_us(t)
        return us // 1_000_000
    return t


def _msecs(t: Any) -> Any:
    if isinstance(t, clock.timedelta):
        return clock.td_us(t) // 1000
    return t


def pairs(flat: list[bytes]) -> dict[bytes, bytes]:
    return {flat[i]: flat[i + 1] for i in range(0, len(flat), 2)}


class ClientState:
    """Per-client fault controls."""

    def __init__(self) -> None:
        self.dead = False
        self.before: Any = None  # async fn(op) called before each op
        self.after: Any = None  # async fn(op) called after each op
        self.n = 0
        self.losses = 0  # how often the server dropped this client's connections


class _Cmds:
    """Command builders shared by client (async) and pipeline (buffered)."""

    def _x(self, post: Any, name: str, *args: Any) -> Any:
        raise NotImplementedError

    def get(self, name: Any) -> Any:
        return self._x(None, "GET", name)

    def set(self, name: Any, value: Any, ex: Any = None, px: Any = None, nx: bool = False, xx: bool = False,
            keepttl: bool = False, get: bool = False, exat: Any = None, pxat: Any = None) -> Any:
        a: list[Any] = [name, value]
        if ex is not None:
            a += [b"EX", _secs(ex)]
        if px is not None:
            a += [b"PX", _msecs(px)]
        if exat is not None:
            a += [b"EXAT", exat]
        if pxat is not None:
            a += [b"PXAT", pxat]
        if keepttl:
            a.append(b"KEEPTTL")
        if nx:
            a.append(b"NX")
        if xx:
            a.append(b"XX")
        if get:
            a.append(b"GET")
        return self._x((lambda r: r) if get else (lambda r: True if r is not None else None), "SET", *a)

    def setex(self, name: Any, time: Any, value: Any) -> Any:
        return self._x(lambda r: True, "SET", name, value, b"EX", _secs(time))

    def psetex(self, name: Any, time: Any, value: Any) -> Any:
        return self._x(lambda r: True, "SET", name, value, b"PX", _msecs(time))

    def setnx(self, name: Any, value: Any) -> Any:
        return self._x(bool, "SETNX", name, value)

    def incr(self, name: Any, amount: Any = 1) -> Any:
        return self._x(None, "INCRBY", name, amount)

    incrby = incr

    def decr(self, name: Any, amount: Any = 1) -> Any:
        return self._x(None, "DECRBY", name, amount)

    def mget(self, keys: Any, *more: Any) -> Any:
        ks = [keys] if isinstance(keys, (str, bytes)) else list(keys)
        return self._x(None, "MGET", *ks, *more)

    def getdel(self, name: Any) -> Any:
        return self._x(None, "GETDEL", name)

    def exists(self, *names: Any) -> Any:
        return self._x(None, "EXISTS", *names)

    def keys(self, pattern: Any = "*") -> Any:
        return self._x(None, "KEYS", pattern)

    def type(self, name: Any) -> Any:
        return self._x(lambda r: bytes(r), "TYPE", name)

    def ttl(self, name: Any) -> Any:
        return self._x(None, "TTL", name)

    def pttl(self, name: Any) -> Any:
        return self._x(None, "PTTL", name)

    def delete(self, *names: Any) -> Any:
        return self._x(None, "DEL", *names)

    unlink = delete

    def expire(self, name: Any, time: Any, nx: bool = False, xx: bool = False, gt: bool = False, lt: bool = False) -> Any:
        o = [n for f, n in ((nx, b"NX"), (xx, b"XX"), (gt, b"GT"), (lt, b"LT")) if f]
        return self._x(bool, "EXPIRE", name, _secs(time), *o)

    def pexpire(self, name: Any, time: Any, nx: bool = False, xx: bool = False, gt: bool = False, lt: bool = False) -> Any:
        o = [n for f, n in ((nx, b"NX"), (xx, b"XX"), (gt, b"GT"), (lt, b"LT")) if f]
        return self._x(bool, "PEXPIRE", name, _msecs(time), *o)

    def expireat(self, name: Any, when: Any, **k: Any) -> Any:
        if isinstance(when, clock.datetime):
            when = clock.us_of(when) // 1_000_000
        return self._x(bool, "EXPIREAT", name, when)

    def pexpireat(self, name: Any, when: Any, **k: Any) -> Any:
        if isinstance(when, clock.datetime):
            when = clock.us_of(when) // 1000
        return self._x(bool, "PEXPIREAT", name, when)

    def persist(self, name: Any) -> Any:
        return self._x(bool, "PERSIST", name)

    def hset(self, name: Any, key: Any = None, value: Any = None, mapping: Any = None, items: Any = None) -> Any:
        a: list[Any] = []
        if key is not None:
            a += [key, value]
        if mapping:
            for k, v in mapping.items():
                a += [k, v]
        if items:
            a += items
        return self._x(None, "HSET", name, *a)

    def hsetnx(self, name: Any, key: Any, value: Any) -> Any:
        return self._x(None, "HSETNX", name, key, value)

    def hget(self, name: Any, key: Any) -> Any:
        return self._x(None, "HGET", name, key)

    def hmget(self, name: Any, keys: Any, *more: Any) -> Any:
        ks = [keys] if isinstance(keys, (str, bytes)) else list(keys)
        return self._x(None, "HMGET", name, *ks, *more)

    def hgetall(self, name: Any) -> Any:
        return self._x(pairs, "HGETALL", name)

    def hkeys(self, name: Any) -> Any:
        return self._x(None, "HKEYS", name)

    def hlen(self, name: Any) -> Any:
        return self._x(None, "HLEN", name)

    def hexists(self, name: Any, key: Any) -> Any:
        return self._x(bool, "HEXISTS", name, key)

    def hdel(self, name: Any, *keys: Any) -> Any:
        return self._x(None, "HDEL", name, *keys)

    def hincrby(self, name: Any, key: Any, amount: Any = 1) -> Any:
        return self._x(None, "HINCRBY", name, key, amount)

    def sadd(self, name: Any, *values: Any) -> Any:
        return self._x(None, "SADD", name, *values)

    def srem(self, name: Any, *values: Any) -> Any:
        return self._x(None, "SREM", name, *values)

    def smembers(self, name: Any) -> Any:
        return self._x(set, "SMEMBERS", name)

    def scard(self, name: Any) -> Any:
        return self._x(None, "SCARD", name)

    def sismember(self, name: Any, value: Any) -> Any:
        return self._x(None, "SISMEMBER", name, value)

    def zadd(self, name: Any, mapping: Any, nx: bool = False, xx: bool = False, ch: bool = False, incr: bool = False,
             gt: bool = False, lt: bool = False) -> Any:
        a: list[Any] = [n for f, n in ((nx, b"NX"), (xx, b"XX"), (gt, b"GT"), (lt, b"LT"), (ch, b"CH"), (incr, b"INCR")) if f]
        for m, s in mapping.items():
            a += [s, m]
        return self._x(None, "ZADD", name, *a)

    def zincrby(self, name: Any, amount: Any, value: Any) -> Any:
        return self._x(to_num, "ZINCRBY", name, amount, value)

    def zrem(self, name: Any, *values: Any) -> Any:
        return self._x(None, "ZREM", name, *values)

    def zcard(self, name: Any) -> Any:
        return self._x(None, "ZCARD", name)

    def zcount(self, name: Any, min: Any, max: Any) -> Any:
        return self._x(None, "ZCOUNT", name, min, max)

    def zscore(self, name: Any, value: Any) -> Any:
        return self._x(lambda r: None if r is None else clock.FloatFacade(r), "ZSCORE", name, value)

    def zrank(self, name: Any, value: Any) -> Any:
        return self._x(None, "ZRANK", name, value)

    def _zpost(self, ws: bool) -> Any:
        if not ws:
            return None
        return lambda r: [(r[i], clock.FloatFacade(r[i + 1])) for i in range(0, len(r), 2)]

    def zrange(self, name: Any, start: Any, end: Any, desc: bool = False, withscores: bool = False,
               score_cast_func: Any = float, byscore: bool = False, bylex: bool = False, offset: Any = None, num: Any = None) -> Any:
        o: list[Any] = []
        if byscore:
            o.append(b"BYSCORE")
        if desc:
            o.append(b"REV")
        if offset is not None:
            o += [b"LIMIT", offset, num]
        if withscores:
            o.append(b"WITHSCORES")
        return self._x(self._zpost(withscores), "ZRANGE", name, start, end, *o)

    def zrevrange(self, name: Any, start: Any, end: Any, withscores: bool = False, score_cast_func: Any = float) -> Any:
        return self.zrange(name, start, end, True, withscores)

    def zrangebyscore(self, name: Any, min: Any, max: Any, start: Any = None, num: Any = None, withscores: bool = False,
                      score_cast_func: Any = float) -> Any:
        o: list[Any] = []
        if withscores:
            o.append(b"WITHSCORES")
        if start is not None:
            o += [b"LIMIT", start, num]
        return self._x(self._zpost(withscores), "ZRANGEBYSCORE", name, min, max, *o)

    def zremrangebyscore(self, name: Any, min: Any, max: Any) -> Any:
        return self._x(None, "ZREMRANGEBYSCORE", name, min, max)

    def zremrangebyrank(self, name: Any, min: Any, max: Any) -> Any:
        return self._x(None, "ZREMRANGEBYRANK", name, min, max)

    def zpopmin(self, name: Any, count: Any = None) -> Any:
        return self._x(self._zpost(True), "ZPOPMIN", name, *([count] if count else []))

    def lpush(self, name: Any, *values: Any) -> Any:
        return self._x(None, "LPUSH", name, *values)

    def rpush(self, name: Any, *values: Any) -> Any:
        return self._x(None, "RPUSH", name, *values)

    def llen(self, name: Any) -> Any:
        return self._x(None, "LLEN", name)

    def lrange(self, name: Any, start: Any, end: Any) -> Any:
        return self._x(None, "LRANGE", name, start, end)

    def lpop(self, name: Any, count: Any = None) -> Any:
        return self._x(None, "LPOP", name)

    def rpop(self, name: Any, count: Any = None) -> Any:
        return self._x(None, "RPOP", name)

    def lrem(self, name: Any, count: Any, value: Any) -> Any:
        return self._x(None, "LREM", name, count, value)

    def xadd(self, name: Any, fields: Any, id: Any = "*", maxlen: Any = None, approximate: bool = True,
             nomkstream: bool = False, minid: Any = None, limit: Any = None) -> Any:
        a: list[Any] = [name]
        if nomkstream:
            a.append(b"NOMKSTREAM")
        if maxlen is not None:
            a += [b"MAXLEN", b"~" if approximate else b"=", maxlen]
        a.append(id)
        for k, v in fields.items():
            a += [k, v]
        return self._x(None, "XADD", *a)

    def xack(self, name: Any, groupname: Any, *ids: Any) -> Any:
        return self._x(None, "XACK", name, groupname, *ids)

    def xdel(self, name: Any, *ids: Any) -> Any:
        return self._x(None, "XDEL", name, *ids)

    def xlen(self, name: Any) -> Any:
        return self._x(None, "XLEN", name)

    def xrange(self, name: Any, min: Any = "-", max: Any = "+", count: Any = None) -> Any:
        return self._x(_entries, "XRANGE", name, min, max, *([b"COUNT", count] if count is not None else []))

    def xrevrange(self, name: Any, max: Any = "+", min: Any = "-", count: Any = None) -> Any:
        return self._x(_entries, "XREVRANGE", name, max, min, *([b"COUNT", count] if count is not None else []))

    def xtrim(self, name: Any, maxlen: Any = None, approximate: bool = True, minid: Any = None, limit: Any = None) -> Any:
        if maxlen is not None:
            return self._x(None, "XTRIM", name, b"MAXLEN", b"=", maxlen)
        return self._x(None, "XTRIM", name, b"MINID", b"=", minid)

    def xclaim(self, name: Any, groupname: Any, consumername: Any, min_idle_time: Any, message_ids: Any, idle: Any = None,
               time: Any = None, retrycount: Any = None, force: bool = False, justid: bool = False) -> Any:
        a: list[Any] = list(message_ids)
        if idle is not None:
            a += [b"IDLE", idle]
        if time is not None:
            a += [b"TIME", time]
        if retrycount is not None:
            a += [b"RETRYCOUNT", retrycount]
        if force:
            a.append(b"FORCE")
        if justid:
            a.append(b"JUSTID")
        return self._x(None if justid else _entries, "XCLAIM", name, groupname, consumername, min_idle_time, *a)

    def xautoclaim(self, name: Any, groupname: Any, consumername: Any, min_idle_time: Any, start_id: Any = "0-0",
                   count: Any = None, justid: bool = False) -> Any:
        a: list[Any] = []
        if count is not None:
            a += [b"COUNT", count]
        if justid:
            a.append(b"JUSTID")
        return self._x(
            lambda r: (r[0], r[1] if justid else _entries(r[1]), r[2]),
            "XAUTOCLAIM", name, groupname, consumername, min_idle_time, start_id, *a,
        )

    def xpending(self, name: Any, groupname: Any) -> Any:
        return self._x(
            lambda r: {
                "pending": r[0], "min": r[1], "max": r[2],
                "consumers": [{"name": c, "pending": int(n)} for c, n in (r[3] or [])],
            },
            "XPENDING", name, groupname,
        )

    def _store(self) -> Any:
        return self.client.store if hasattr(self, "client") else self.store  # type: ignore[attr-defined]

    def xpending_range(self, name: Any, groupname: Any, min: Any, max: Any, count: Any, consumername: Any = None,
                       idle: Any = None) -> Any:
        a: list[Any] = []
        if idle is not None:
            a += [b"IDLE", idle]
        a += [min, max, count]
        if consumername is not None:
            a.append(consumername)
        # the in-memory backend (burner_redis) names the fields in bytes
        f = (lambda n: n.encode()) if getattr(self._store(), "burner", False) else (lambda n: n)
        return self._x(
            lambda r: [
                {f("message_id"): x[0], f("consumer"): x[1], f("time_since_delivered"): x[2], f("times_delivered"): x[3]} for x in r
            ],
            "XPENDING", name, groupname, *a,
        )

    def xgroup_create(self, name: Any, groupname: Any, id: Any = "$", mkstream: bool = False, entries_read: Any = None) -> Any:
        return self._x(lambda r: True, "XGROUP", b"CREATE", name, groupname, id, *([b"MKSTREAM"] if mkstream else []))

    def xgroup_destroy(self, name: Any, groupname: Any) -> Any:
        return self._x(None, "XGROUP", b"DESTROY", name, groupname)

    def xinfo_groups(self, name: Any) -> Any:
        def post(r: list[Any]) -> Any:
            out = []
            for g in r:
                d = {g[i].decode(): g[i + 1] for i in range(0, len(g), 2)}
                out.append(d)
            return out

        return self._x(post, "XINFO", b"GROUPS", name)

    def xinfo_consumers(self, name: Any, groupname: Any) -> Any:
        def post(r: list[Any]) -> Any:
            return [{g[i].decode(): g[i + 1] for i in range(0, len(g), 2)} for g in r]

        return self._x(post, "XINFO", b"CONSUMERS", name, groupname)

    def xinfo_stream(self, name: Any) -> Any:
        return self._x(lambda g: {g[i].decode(): g[i + 1] for i in range(0, len(g), 2)}, "XINFO", b"STREAM", name)

    def publish(self, channel: Any, message: Any) -> Any:
        return self._x(None, "PUBLISH", channel, message)

    def evalsha(self, sha: Any, numkeys: Any, *keys_and_args: Any) -> Any:
        if isinstance(sha, bytes):
            sha = sha.decode()
        ka = [enc(a) for a in keys_and_args]
        return self._x(None, "__evalsha__", sha, int(numkeys), ka)

    def eval(self, script: Any, numkeys: Any, *keys_and_args: Any) -> Any:
        if isinstance(script, bytes):
            script = script.decode()
        ka = [enc(a) for a in keys_and_args]
        return self._x(None, "__eval__", script, int(numkeys), ka)

    def flushall(self, *a: Any, **k: Any) -> Any:
        return self._x(lambda r: True, "FLUSHALL")

    flushdb = flushall

    def ping(self) -> Any:
        return self._x(lambda r: True, "PING")

    def time(self) -> Any:
        return self._x(lambda r: (to_num(r[0]), to_num(r[1])), "TIME")

    def dbsize(self) -> Any:
        return self._x(None, "DBSIZE")


def _entries(r: Any) -> list[Any]:
    return [(i, pairs(fv)) for i, fv in r]


class _Encoder:
    def encode(self, v: Any) -> bytes:
        return enc(v)


class ModelRedis(_Cmds):
    """Stands in for BurnerRedis."""

    def __init__(self, store: Store | None = None) -> None:
        self.store = store if store is not None else SHARED()
        self.ctl = ClientState()
        hook = NEW_CLIENT_HOOK
        if hook is not None:
            hook(self)

    def get_encoder(self) -> Any:
        return _Encoder()

    # -- execution --

    async def _enter(self, op: str, args: tuple[Any, ...]) -> Any:
        ctl = self.ctl
        ctl.n += 1
        if ctl.dead:
            await _never()
        way = None
        if ctl.before is not None:
            way = await ctl.before(op, args)
            if ctl.dead:
                await _never()
        else:
            await asyncio.sleep(0)
        return way

    async def _leave(self, op: str, args: tuple[Any, ...]) -> None:
        ctl = self.ctl
        if ctl.after is not None:
            await ctl.after(op, args)
        if ctl.dead:
            await _never()

    def _do(self, name: str, args: tuple[Any, ...]) -> Any:
        if name == "__evalsha__":
            sha, n, ka = args
            src = self.store.scripts.get(sha)
            if src is None:
                raise NoScriptError("No matching script. Please use EVAL.")
            return self.store.eval(src, ka[:n], ka[n:])
        if name == "__eval__":
            src, n, ka = args
            return self.store.eval(src, ka[:n], ka[n:])
        return self.store.call(name, *args)

    def _x(self, post: Any, name: str, *args: Any) -> Any:
        return self._run(post, name, args)

    async def _run(self, post: Any, name: str, args: tuple[Any, ...]) -> Any:
        way = await self._enter(name, args)
        if way is not None:
            # already sent, this many seconds under way: happens whatever becomes of the caller
            loop = asyncio.get_running_loop()
            done: asyncio.Future[Any] = loop.create_future()

            def arrive() -> None:
                try:
                    r = self._do(name, args)
                except Exception as e:
                    if not done.done():
                        done.set_exception(e)
                else:
                    if not done.done():
                        done.set_result(r)

            loop.call_later(way, arrive)
            r = await done
        else:
            r = self._do(name, args)
        await self._leave(name, args)
        return post(r) if post is not None else r

    async def script_load(self, script: Any) -> str:
        await self._enter("SCRIPT LOAD", ())
        if isinstance(script, bytes):
            raise TypeError("argument 'script': 'bytes' object cannot be converted to 'PyString'")
        r = self.store.script_load(script)
        await self._leave("SCRIPT LOAD", ())
        return r

    async def script_exists(self, *shas: str) -> list[bool]:
        return [s in self.store.scripts for s in shas]

    def register_script(self, script: Any) -> Any:
        from redis.commands.core import AsyncScript

        return AsyncScript(self, script)  # type: ignore[arg-type]

    async def info(self, section: Any = None) -> dict[str, Any]:
        return {"redis_version": "7.0.0"}

    async def aclose(self, *a: Any) -> None:
        return None

    close = aclose

    async def __aenter__(self) -> Any:
        return self

    async def __aexit__(self, *a: Any) -> None:
        return None

    def scan_iter(self, match: Any = None, count: Any = None, _type: Any = None) -> Any:
        async def gen() -> Any:
            for k in await self.keys(match or "*"):
                yield k

        return gen()

    async def _wait_change(self, timeout_ms: Any) -> bool:
        loop = asyncio.get_running_loop()
        fut: asyncio.Future[None] = loop.create_future()
        self.store.cond_waiters.append(fut)
        h = None
        if timeout_ms is not None:
            h = loop.call_later(timeout_ms / 1000, lambda: fut.done() or fut.cancel())
        try:
            await fut
            return True
        except asyncio.CancelledError:
            if asyncio.current_task().cancelling():  # type: ignore[union-attr]
                raise
            return False
        finally:
            if h is not None:
                h.cancel()
            if fut in self.store.cond_waiters:
                self.store.cond_waiters.remove(fut)

    def disconnect(self) -> None:
        """The server drops this client's connections: blocked reads fail, and so
        do subscriptions, which end."""
        self.ctl.losses += 1
        for ps in [x for x in self.store.subs if x.client is self]:
            self.store.subs.remove(ps)
            ps.channels.clear()
            ps.patterns.clear()
            ps._push({"type": "lost"})
        self.store.notify()

    async def _blocking(self, op: str, args: tuple[Any, ...], attempt: Any, block: Any) -> Any:
        await self._enter(op, args)
        r = attempt()
        if not r and block is not None:
            loop = asyncio.get_running_loop()
            deadline = None if (not is_sym(block) and block == 0) else loop.time() + block / 1000
            losses = self.ctl.losses
            while not r:
                if deadline is None:
                    ok = await self._wait_change(None)
                else:
                    left = deadline - loop.time()
                    if not bool(left > 0):
                        break
                    ok = await self._wait_change(left * 1000)
                if self.ctl.dead:
                    await _never()
                if self.ctl.losses != losses:
                    raise connection_error()
                if self.ctl.before is not None and ok:
                    await self.ctl.before(op + ":wake", args)
                r = attempt()
                if not ok:
                    break
        await self._leave(op, args)
        return r

    async def xreadgroup(self, groupname: Any, consumername: Any, streams: Any, count: Any = None, block: Any = None,
                         noack: bool = False, claim_min_idle_time: Any = None) -> Any:
        def attempt() -> list[Any]:
            st = sym.CUR.stats if sym.CUR else None
            if st:
                st.redis_ops += 1
                st.commands["XREADGROUP"] = st.commands.get("XREADGROUP", 0) + 1
            out = []
            for name, sid in streams.items():
                n, g, c = enc(name), enc(groupname), enc(consumername)
                if enc(sid) == b">":
                    es = self.store.readgroup(n, g, c, count, noack)
                else:
                    es = self.store.readpending(n, g, c, enc(sid), count)
                if es:
                    out.append([n, _entries(es)])
            return out

        return await self._blocking("XREADGROUP", (streams,), attempt, block)

    async def xread(self, streams: Any, count: Any = None, block: Any = None) -> Any:
        fixed = {}
        for name, sid in streams.items():
            n = enc(name)
            if enc(sid) == b"$":
                s = self.store.lookup(n, Stream)
                sid = fmt_id(s.last) if s is not None else b"0-0"
            fixed[n] = enc(sid)

        def attempt() -> list[Any]:
            out = []
            for n, sid in fixed.items():
                es = self.store.c_xrange(n, b"(" + sid, b"+", *([b"COUNT", enc(count)] if count is not None else []))
                if es:
                    out.append([n, _entries(es)])
            return out

        if block and not is_sym(block) and block < self.store.patience * 1000:
            block = self.store.patience * 1000
        return await self._blocking("XREAD", (streams,), attempt, block)

    def pubsub(self, **kwargs: Any) -> "ModelPubSub":
        return ModelPubSub(self)

    def pipeline(self, transaction: bool = True, shard_hint: Any = None) -> "ModelPipeline":
        return ModelPipeline(self)

    def lock(self, name: Any, timeout: Any = None, sleep: Any = 0.1, blocking: bool = True, blocking_timeout: Any = None,
             **k: Any) -> "ModelLock":
        return ModelLock(self, enc(name), timeout, sleep, blocking, blocking_timeout)


async def _never() -> None:
    await asyncio.get_running_loop().create_future()


class ModelPipeline(_Cmds):
    def __init__(self, client: ModelRedis) -> None:
        self.client = client
        self.queue: list[tuple[Any, str, tuple[Any, ...]]] = []

    def _x(self, post: Any, name: str, *args: Any) -> Any:
        self.queue.append((post, name, args))
        return self

    def xread(self, streams: Any, count: Any = None, block: Any = None) -> Any:
        assert block is None
        for name, sid in streams.items():
            n = enc(name)
            opts = (b"COUNT", enc(count)) if count is not None else ()
            self._x(lambda r, n=n: [[n, _entries(r)]] if r else [], "XRANGE", n, b"(" + enc(sid), b"+", *opts)
        assert len(streams) == 1
        return self

    def __len__(self) -> int:
        return len(self.queue)

    def __bool__(self) -> bool:
        return True

    async def execute(self, raise_on_error: bool = True) -> list[Any]:
        q, self.queue = self.queue, []
        await self.client._enter("PIPELINE", tuple(n for _, n, _ in q))
        out: list[Any] = []
        err: Exception | None = None
        for post, name, args in q:
            try:
                r = self.client._do(name, args)
                out.append(post(r) if post is not None else r)
            except ResponseError as e:
                err = err or e
                out.append(e)
        await self.client._leave("PIPELINE", tuple(n for _, n, _ in q))
        if err is not None and raise_on_error:
            raise err
        return out

    async def reset(self) -> None:
        self.queue = []

    async def __aenter__(self) -> "ModelPipeline":
        return self

    async def __aexit__(self, *a: Any) -> None:
        self.queue = []


class ModelLock:
    def __init__(self, client: ModelRedis, name: bytes, timeout: Any, sleep: Any, blocking: bool, blocking_timeout: Any) -> None:
        self.client, self.name, self.timeout = client, name, timeout
        self.sleep, self.blocking, self.blocking_timeout = sleep, blocking, blocking_timeout
        self.token: bytes | None = None

    async def acquire(self, blocking: bool | None = None, blocking_timeout: Any = None, token: Any = None) -> bool:
        st = self.client.store
        st.next_id += 1
        tok = b"lock-%d" % st.next_id
        loop = asyncio.get_running_loop()
        blocking = self.blocking if blocking is None else blocking
        bt = self.blocking_timeout if blocking_timeout is None else blocking_timeout
        stop = None if bt is None else loop.time() + bt
        while True:
            args: list[Any] = [self.name, tok, b"NX"]
            if self.timeout is not None:
                args += [b"PX", int(self.timeout * 1000)]
            if await self.client._run(None, "SET", tuple(args)) is not None:
                self.token = tok
                return True
            if not blocking:
                return False
            if stop is not None and loop.time() + self.sleep > stop:
                return False
            await asyncio.sleep(self.sleep)

    async def release(self) -> None:
        if self.token is None:
            raise LockError("Cannot release an unlocked lock")
        tok, self.token = self.token, None
        cur = await self.client._run(None, "GET", (self.name,))
        if cur != tok:
            raise LockNotOwnedError("Cannot release a lock that's no longer owned")
        self.client.store.call("DEL", self.name)

    async def locked(self) -> bool:
        return await self.client._run(None, "GET", (self.name,)) is not None

    async def owned(self) -> bool:
        return self.token is not None and await self.client._run(None, "GET", (self.name,)) == self.token

    async def __aenter__(self) -> "ModelLock":
        if await self.acquire():
            return self
        raise LockError("Unable to acquire lock within the time specified")

    async def __aexit__(self, *a: Any) -> None:
        await self.release()


class ModelPubSub:
    def __init__(self, client: ModelRedis) -> None:
        self.client = client
        self.channels: set[bytes] = set()
        self.patterns: set[bytes] = set()
        self.q: list[dict[str, Any]] = []
        self.wait: list[asyncio.Future[None]] = []
        self.closed = False

    def _push(self, m: dict[str, Any]) -> None:
        self.q.append(m)
        ws, self.wait = self.wait, []
        for w in ws:
            if not w.done():
                w.set_result(None)

    def _deliver(self, ch: bytes, msg: bytes) -> int:
        if self.client.ctl.dead:
            return 0
        n = 0
        if ch in self.channels:
            self._push({"type": "message", "pattern": None, "channel": ch, "data": msg})
            n += 1
        for p in self.patterns:
            if glob(p, ch):
                self._push({"type": "pmessage", "pattern": p, "channel": ch, "data": msg})
                n += 1
        return n

    async def _sub(self, kind: str, target: set[bytes], names: tuple[Any, ...]) -> None:
        # The command is only sent here; the server's acknowledgements arrive as messages.
        way = await self.client._enter(kind.upper(), names)

        def arrive() -> None:
            if self.closed or self.client.ctl.dead:
                return
            for c in names:
                b = enc(c)
                target.add(b)
                self._push({"type": kind, "pattern": None, "channel": b, "data": len(self.channels) + len(self.patterns)})
            if self not in self.client.store.subs:
                self.client.store.subs.append(self)

        if way is None:
            arrive()
        else:
            asyncio.get_running_loop().call_later(way, arrive)
        await self.client._leave(kind.upper(), names)

    async def subscribe(self, *names: Any) -> None:
        await self._sub("subscribe", self.channels, names)

    async def psubscribe(self, *names: Any) -> None:
        await self._sub("psubscribe", self.patterns, names)

    async def unsubscribe(self, *names: Any) -> None:
        for c in names or list(self.channels):
            self.channels.discard(enc(c))

    async def punsubscribe(self, *names: Any) -> None:
        for c in names or list(self.patterns):
            self.patterns.discard(enc(c))

    async def _next(self, timeout: Any) -> dict[str, Any] | None:
        loop = asyncio.get_running_loop()
        deadline = None if timeout is None else loop.time() + timeout
        while not self.q:
            if self.closed:
                return None
            fut: asyncio.Future[None] = loop.create_future()
            self.wait.append(fut)
            h = None
            timed_out = False
            if deadline is not None:
                left = deadline - loop.time()
                if not bool(left > 0):
                    return None

                def fire() -> None:
                    nonlocal timed_out
                    timed_out = True
                    if not fut.done():
                        fut.set_result(None)

                h = loop.call_later(left, fire)
            try:
                await fut
            finally:
                if h is not None:
                    h.cancel()
                if fut in self.wait:
                    self.wait.remove(fut)
            if self.client.ctl.dead:
                await _never()
            if timed_out and not self.q:
                return None
        m = self.q.pop(0)
        if m["type"] == "lost":
            raise connection_error()
        return m

    async def get_message(self, ignore_subscribe_messages: bool = False, timeout: Any = 0.0) -> dict[str, Any] | None:
        await self.client._enter("GET_MESSAGE", ())
        if timeout and not is_sym(timeout) and timeout < self.client.store.patience:
            timeout = self.client.store.patience
        m = await self._next(timeout)
        if m is not None and ignore_subscribe_messages and m["type"] in ("subscribe", "psubscribe", "unsubscribe", "punsubscribe"):
            return None
        return m

    async def listen(self) -> Any:
        while not self.closed:
            m = await self._next(None)
            if m is not None:
                yield m

    async def aclose(self) -> None:
        self.closed = True
        if self in self.client.store.subs:
            self.client.store.subs.remove(self)

    close = aclose

    async def __aenter__(self) -> "ModelPubSub":
        return self

    async def __aexit__(self, *a: Any) -> None:
        await self.aclose()


# Store used by clients built through the fake ``burner_redis`` module.
_shared: Store | None = None
NEW_CLIENT_HOOK: Any = None


def SHARED() -> Store:
    global _shared
    if _shared is None:
        _shared = Store()
    return _shared


def reset_shared() -> Store:
    global _shared
    _shared = Store()
    return _shared


def connection_error(msg: str = "injected") -> Exception:
    return RedisConnectionError(msg)


class _FakeBurnerModule:
    __name__ = "burner_redis"

    def __init__(self) -> None:
        self.BurnerRedis = ModelRedis
        self.__spec__ = None


def install_fake_burner() -> None:
    import sys
    import types

    m = types.ModuleType("burner_redis")
    m.BurnerRedis = ModelRedis  # type: ignore[attr-defined]
    sys.modules["burner_redis"] = m
