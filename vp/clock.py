"""Clock / randomness stand-ins patched into every docket.* module.

``datetime.now``, ``time.time``, ``time.monotonic`` ... read CLOCK, which a
harness drives (symbolically or concretely).  Arithmetic and comparisons on
the returned values are the real class's, extended to symbolic operands.
"""

from __future__ import annotations

import builtins
import datetime as _dt
import importlib as _importlib
import json as _json
import random as _random
import re
import sys
import time as _time
from fractions import Fraction
from typing import Any

from . import sym
from .sym import SymBool, SymFloat, SymInt, arith, compare, is_sym, lift

datetime = _dt.datetime
timedelta = _dt.timedelta
timezone = _dt.timezone
UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)

BASE_US = 1_700_000_000_000_000


class Clock:
    """Wall clock in integer microseconds since the epoch."""

    def __init__(self) -> None:
        self.us: Any = BASE_US
        self.loop: Any = None
        self.real = False  # follow the machine's clock (translator validation)

    def now_us(self) -> Any:
        if self.real:
            return _time.time_ns() // 1000
        if self.loop is not None:
            return self.us + self.loop.vus
        return self.us

    def advance_us(self, d: Any) -> None:
        self.us = self.us + d


CLOCK = Clock()


def us_of(d: Any) -> Any:
    """Microseconds since epoch of an aware datetime."""
    if isinstance(d, SymDatetime):
        return d.us
    if d.tzinfo is None:
        d = d.astimezone(UTC)
    delta = d - EPOCH
    return (delta.days * 86400 + delta.seconds) * 1_000_000 + delta.microseconds


def td_us(t: Any) -> Any:
    if isinstance(t, SymTimedelta):
        return t.us
    return (t.days * 86400 + t.seconds) * 1_000_000 + t.microseconds


SYMBOLIC = False  # this process executes symbolically (set by patch_modules)


def mk_datetime(us: Any, tz: Any = UTC) -> Any:
    # Always the subclass when executing symbolically: the C datetime's own
    # `+` would drop a symbolic timedelta on its right.
    if SYMBOLIC or is_sym(us):
        return SymDatetime._make(us, tz or UTC)
    d = EPOCH + timedelta(microseconds=us)
    return d if tz is UTC or tz is None else d.astimezone(tz)


def mk_timedelta(us: Any) -> Any:
    if isinstance(us, SymFloat):
        us = round(us)
    if is_sym(us):
        return SymTimedelta._make(us)
    return timedelta(microseconds=us)


_real_td_new = timedelta.__new__


class SymTimedelta(timedelta):
    us: Any

    @classmethod
    def _make(cls, us: Any) -> Any:
        c = sym.concrete_of(us)
        self = _real_td_new(cls, 0, 0, int(c))
        self.us = us
        return self

    @classmethod
    def _of(cls, t: Any) -> Any:
        if isinstance(t, SymTimedelta):
            return t
        self = _real_td_new(cls, t.days, t.seconds, t.microseconds)
        self.us = td_us(t)
        return self

    def real(self) -> timedelta:
        return timedelta(microseconds=int(sym.concrete_of(self.us)))

    def total_seconds(self) -> Any:
        return self.us / 1_000_000

    def __add__(self, o: Any) -> Any:
        if isinstance(o, timedelta):
            return mk_timedelta(self.us + td_us(o))
        if isinstance(o, datetime):
            return mk_datetime(us_of(o) + self.us, o.tzinfo)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o: Any) -> Any:
        if isinstance(o, timedelta):
            return mk_timedelta(self.us - td_us(o))
        return NotImplemented

    def __rsub__(self, o: Any) -> Any:
        if isinstance(o, timedelta):
            return mk_timedelta(td_us(o) - self.us)
        if isinstance(o, datetime):
            return mk_datetime(us_of(o) - self.us, o.tzinfo)
        return NotImplemented

    def __mul__(self, o: Any) -> Any:
        if isinstance(o, (int, float)):
            v = arith("mul", self.us, o)
            return mk_timedelta(round(v) if isinstance(v, float) else v)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o: Any) -> Any:
        if isinstance(o, timedelta):
            return self.us / td_us(o)
        v = self.us / o
        return mk_timedelta(round(v))

    def __rtruediv__(self, o: Any) -> Any:
        return td_us(o) / self.us

    def __floordiv__(self, o: Any) -> Any:
        if isinstance(o, timedelta):
            return self.us // td_us(o)
        return mk_timedelta(self.us // o)

    def __mod__(self, o: Any) -> Any:
        return mk_timedelta(self.us % td_us(o))

    def __neg__(self) -> Any:
        return mk_timedelta(-self.us)

    def __pos__(self) -> Any:
        return self

    def __abs__(self) -> Any:
        return mk_timedelta(abs(self.us))

    def __bool__(self) -> bool:
        return bool(self.us != 0)

    def _cmp(self, op: str, o: Any) -> Any:
        if not isinstance(o, timedelta):
            return NotImplemented
        a, b = self.us, td_us(o)
        return compare(op, a, b)

    def __lt__(self, o: Any) -> Any:
        return self._cmp("lt", o)

    def __le__(self, o: Any) -> Any:
        return self._cmp("le", o)

    def __gt__(self, o: Any) -> Any:
        return self._cmp("gt", o)

    def __ge__(self, o: Any) -> Any:
        return self._cmp("ge", o)

    def __eq__(self, o: Any) -> Any:
        return self._cmp("eq", o)

    def __ne__(self, o: Any) -> Any:
        return self._cmp("ne", o)

    def __hash__(self) -> int:
        return hash(sym.fork_value(self.us))

    def __reduce_ex__(self, p: Any) -> Any:
        return (mk_timedelta, (self.us,))

    __reduce__ = None  # type: ignore[assignment]

    def __copy__(self) -> Any:
        return self

    def __deepcopy__(self, memo: Any) -> Any:
        return self


_real_dt_new = datetime.__new__


class _IsoVal:
    """Token payload for an ISO timestamp."""

    def __init__(self, us: Any) -> None:
        self.us = us
        self.e = us.e
        self.d = 1

    def real(self) -> datetime:
        return EPOCH + timedelta(microseconds=int(sym.concrete_of(self.us)))


class SymDatetime(datetime):
    us: Any

    @classmethod
    def _make(cls, us: Any, tz: Any) -> Any:
        if isinstance(us, SymFloat):
            us = us.__floor__()
        r = EPOCH + timedelta(microseconds=int(sym.concrete_of(us)))
        if tz is not UTC:
            r = r.astimezone(tz)
        self = _real_dt_new(
            cls, r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo, fold=r.fold
        )
        self.us = us
        self.tzv = tz
        return self

    def real(self) -> datetime:
        d = EPOCH + timedelta(microseconds=int(sym.concrete_of(self.us)))
        return d if self.tzv is UTC else d.astimezone(self.tzv)

    def timestamp(self) -> Any:
        return self.us / 1_000_000

    def isoformat(self, *a: Any, **k: Any) -> Any:
        if not is_sym(self.us):
            return self.real().isoformat(*a, **k)
        return sym.current().token("iso", _IsoVal(self.us))

    def astimezone(self, tz: Any = None) -> Any:
        return mk_datetime(self.us, tz or UTC)

    def __add__(self, o: Any) -> Any:
        if isinstance(o, timedelta):
            return mk_datetime(self.us + td_us(o), self.tzv)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o: Any) -> Any:
        if isinstance(o, timedelta):
            return mk_datetime(self.us - td_us(o), self.tzv)
        if isinstance(o, datetime):
            return mk_timedelta(self.us - us_of(o))
        return NotImplemented

    def __rsub__(self, o: Any) -> Any:
        if isinstance(o, datetime):
            return mk_timedelta(us_of(o) - self.us)
        return NotImplemented

    def _cmp(self, op: str, o: Any) -> Any:
        if not isinstance(o, datetime):
            return NotImplemented
        return compare(op, self.us, us_of(o))

    def __lt__(self, o: Any) -> Any:
        return self._cmp("lt", o)

    def __le__(self, o: Any) -> Any:
        return self._cmp("le", o)

    def __gt__(self, o: Any) -> Any:
        return self._cmp("gt", o)

    def __ge__(self, o: Any) -> Any:
        return self._cmp("ge", o)

    def __eq__(self, o: Any) -> Any:
        return self._cmp("eq", o)

    def __ne__(self, o: Any) -> Any:
        return self._cmp("ne", o)

    def __hash__(self) -> int:
        if not is_sym(self.us):
            return hash(self.real())
        return hash(sym.fork_value(self.us))

    def __reduce_ex__(self, p: Any) -> Any:
        if not is_sym(self.us):
            return self.real().__reduce_ex__(p)
        return (mk_datetime, (self.us,))

    def __str__(self) -> str:
        return self.isoformat()

    def __format__(self, spec: str) -> str:
        if spec:
            return format(self.real(), spec)
        return self.isoformat()

    def replace(self, *a: Any, **k: Any) -> Any:
        if not is_sym(self.us):
            r = self.real().replace(*a, **k)
            return r if r.tzinfo is None else mk_datetime(us_of(r), r.tzinfo)
        if not a and set(k) <= {"tzinfo"} and k.get("tzinfo") in (None, UTC):
            return self
        sym.pin_value(self.us)
        return self.real().replace(*a, **k)

    def strftime(self, f: str) -> str:
        return self.real().strftime(f)

    def __copy__(self) -> Any:
        return self

    def __deepcopy__(self, memo: Any) -> Any:
        return self


# ---- class facades --------------------------------------------------------


class _DTMeta(type):
    def __instancecheck__(cls, o: Any) -> bool:
        return isinstance(o, datetime)

    def __subclasscheck__(cls, o: Any) -> bool:
        return issubclass(o, datetime)

    def __call__(cls, *a: Any, **k: Any) -> Any:
        return datetime(*a, **k)

    def __getattr__(cls, name: str) -> Any:
        return getattr(datetime, name)

    def __or__(cls, o: Any) -> Any:
        return datetime | o

    def __ror__(cls, o: Any) -> Any:
        return o | datetime

    def __eq__(cls, o: Any) -> bool:
        return o is cls or o is datetime

    def __hash__(cls) -> int:
        return hash(datetime)


class DatetimeFacade(metaclass=_DTMeta):
    @staticmethod
    def now(tz: Any = None) -> Any:
        d = mk_datetime(CLOCK.now_us(), tz or UTC)
        return d if tz is not None else d.replace(tzinfo=None)

    @staticmethod
    def utcnow() -> Any:
        return mk_datetime(CLOCK.now_us()).replace(tzinfo=None)

    @staticmethod
    def fromtimestamp(ts: Any, tz: Any = None) -> Any:
        if is_sym(ts):
            us = ts * 1_000_000
            if isinstance(us, SymFloat):
                us = round(us) if us.d != 1 else SymInt(us.e, us.n)
            return mk_datetime(us, tz)
        d = datetime.fromtimestamp(ts, tz)
        return mk_datetime(us_of(d), tz) if tz is not None else d

    @staticmethod
    def fromisoformat(s: Any) -> Any:
        k = sym.lift_kind(s)
        if k is not None and k[0] == "iso":
            return mk_datetime(k[1].us)
        d = datetime.fromisoformat(s)
        return mk_datetime(us_of(d), d.tzinfo) if SYMBOLIC and d.tzinfo is not None else d


class _TDMeta(type):
    def __instancecheck__(cls, o: Any) -> bool:
        return isinstance(o, timedelta)

    def __subclasscheck__(cls, o: Any) -> bool:
        return issubclass(o, timedelta)

    def __call__(cls, *a: Any, **k: Any) -> Any:
        names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
        args = dict(zip(names, a))
        args.update(k)
        if any(is_sym(v) for v in args.values()):
            mult = {
                "days": 86_400_000_000, "seconds": 1_000_000, "microseconds": 1,
                "milliseconds": 1000, "minutes": 60_000_000, "hours": 3_600_000_000,
                "weeks": 7 * 86_400_000_000,
            }
            us: Any = 0
            for n, v in args.items():
                us = us + arith("mul", v, mult[n]) if is_sym(v) else us + Fraction(repr(float(v)) if isinstance(v, float) else v) * mult[n] if isinstance(v, float) else us + v * mult[n]
            if isinstance(us, SymFloat):
                us = round(us)
            return mk_timedelta(us)
        return timedelta(*a, **k)

    def __getattr__(cls, name: str) -> Any:
        return getattr(timedelta, name)

    def __or__(cls, o: Any) -> Any:
        return timedelta | o

    def __ror__(cls, o: Any) -> Any:
        return o | timedelta

    def __eq__(cls, o: Any) -> bool:
        return o is cls or o is timedelta

    def __hash__(cls) -> int:
        return hash(timedelta)


class TimedeltaFacade(metaclass=_TDMeta):
    pass


def _time_time() -> Any:
    us = CLOCK.now_us()
    return us / 1_000_000


NS_HOOK: Any = None


def _time_ns() -> Any:
    if NS_HOOK is not None:
        return NS_HOOK()
    return CLOCK.now_us() * 1000


def _mono() -> Any:
    us = CLOCK.now_us() - BASE_US + 1_000_000_000
    return us / 1_000_000


def _mono_ns() -> Any:
    return (CLOCK.now_us() - BASE_US + 1_000_000_000) * 1000


class _ModFacade:
    def __init__(self, real: Any, over: dict[str, Any]) -> None:
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name: str) -> Any:
        return getattr(self.__dict__["_real"], name)


_TIME_FNS = {
    "time": _time_time,
    "time_ns": _time_ns,
    "monotonic": _mono,
    "monotonic_ns": _mono_ns,
    "perf_counter": _mono,
    "perf_counter_ns": _mono_ns,
}
TIME = _ModFacade(_time, dict(_TIME_FNS))
DATETIME_MOD = _ModFacade(_dt, {"datetime": DatetimeFacade, "timedelta": TimedeltaFacade})


# ---- int / float builtins --------------------------------------------------


class _IntMeta(type):
    def __instancecheck__(cls, o: Any) -> bool:
        return builtins.isinstance(o, builtins.int)

    def __subclasscheck__(cls, o: Any) -> bool:
        return builtins.issubclass(o, builtins.int)

    def __call__(cls, *a: Any, **k: Any) -> Any:
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymFloat):
                return x.trunc()
            if isinstance(x, (str, bytes)):
                v = lift(x)
                if v is not None:
                    if isinstance(v, SymInt):
                        return v
                    raise ValueError(f"invalid literal for int(): {x!r}")
                t = x.encode() if isinstance(x, str) else x
                if b"<~" in t:
                    x = sym.concretize_text(t)
                return builtins.int(x)
            if isinstance(x, SymBool):
                return builtins.int(bool(x))
        return builtins.int(*a, **k)

    def from_bytes(cls, b: Any, *a: Any, **k: Any) -> Any:
        v = getattr(b, "sym", None)  # random bytes standing for any number
        return v if v is not None else builtins.int.from_bytes(b, *a, **k)

    def __getattr__(cls, name: str) -> Any:
        return getattr(builtins.int, name)

    def __or__(cls, o: Any) -> Any:
        return builtins.int | o

    def __ror__(cls, o: Any) -> Any:
        return o | builtins.int

    def __eq__(cls, o: Any) -> bool:
        return o is cls or o is builtins.int

    def __hash__(cls) -> int:
        return hash(builtins.int)


class IntFacade(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, o: Any) -> bool:
        return builtins.isinstance(o, builtins.float)

    def __subclasscheck__(cls, o: Any) -> bool:
        return builtins.issubclass(o, builtins.float)

    def __call__(cls, *a: Any, **k: Any) -> Any:
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymFloat):
                return x
            if isinstance(x, SymInt):
                return SymFloat(x.e, 1, x.concrete)
            if isinstance(x, (str, bytes)):
                v = lift(x)
                if v is not None:
                    return float_facade_call(v)
                t = x.encode() if isinstance(x, str) else x
                if b"<~" in t:
                    x = sym.concretize_text(t)
                return builtins.float(x)
        return builtins.float(*a, **k)

    def __getattr__(cls, name: str) -> Any:
        return getattr(builtins.float, name)

    def __or__(cls, o: Any) -> Any:
        return builtins.float | o

    def __ror__(cls, o: Any) -> Any:
        return o | builtins.float

    def __eq__(cls, o: Any) -> bool:
        return o is cls or o is builtins.float

    def __hash__(cls) -> int:
        return hash(builtins.float)


class FloatFacade(metaclass=_FloatMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, o: Any) -> bool:
        return builtins.isinstance(o, (builtins.bool, SymBool))

    def __subclasscheck__(cls, o: Any) -> bool:
        return builtins.issubclass(o, builtins.bool)

    def __call__(cls, *a: Any) -> Any:
        return builtins.bool(*a)

    def __getattr__(cls, name: str) -> Any:
        return getattr(builtins.bool, name)

    def __or__(cls, o: Any) -> Any:
        return builtins.bool | o

    def __ror__(cls, o: Any) -> Any:
        return o | builtins.bool

    def __eq__(cls, o: Any) -> bool:
        return o is cls or o is builtins.bool

    def __hash__(cls) -> int:
        return hash(builtins.bool)


class BoolFacade(metaclass=_BoolMeta):
    pass


def float_facade_call(v: Any) -> Any:
    if isinstance(v, SymInt):
        return SymFloat(v.e, 1, v.concrete)
    return v


# ---- randomness -------------------------------------------------------------

RANDOM_HOOK: Any = None


def _rand_uniform(a: Any, b: Any) -> Any:
    if RANDOM_HOOK is not None:
        return a + (b - a) * RANDOM_HOOK()
    return a + (b - a) * 0.5


def _rand_random() -> Any:
    if RANDOM_HOOK is not None:
        return RANDOM_HOOK()
    return 0.5


RANDOM = _ModFacade(_random, {"uniform": _rand_uniform, "random": _rand_random})

# ---- json --------------------------------------------------------------------
# The C encoder would write a symbolic number's concrete value; write its token
# instead, and read tokens back as the numbers they stand for.

_JSON_PART = re.compile(r'"(?:[^"\\]|\\.)*"|<~\d+~>')
_JSON_MARK = "\x01sym:"


def _json_mark(o: Any) -> Any:
    if isinstance(o, (SymInt, SymFloat)):
        return _JSON_MARK + str(o)
    if isinstance(o, dict):
        return {k: _json_mark(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_json_mark(v) for v in o]
    return o


def _json_unmark(o: Any) -> Any:
    if isinstance(o, str) and o.startswith(_JSON_MARK):
        return lift(o[len(_JSON_MARK) :])
    if isinstance(o, dict):
        return {k: _json_unmark(v) for k, v in o.items()}
    if isinstance(o, list):
        return [_json_unmark(v) for v in o]
    return o


def _json_dumps(o: Any, **kw: Any) -> str:
    text = _json.dumps(_json_mark(o), **kw)
    head = _json.dumps(_JSON_MARK)[:-1]
    return re.sub(re.escape(head) + r'(<~\d+~>)"', r"\1", text) if head in text else text


def _json_loads(text: Any, **kw: Any) -> Any:
    t = text.decode() if isinstance(text, (bytes, bytearray)) else text
    if "<~" not in t:
        return _json.loads(text, **kw)
    quoted = _JSON_PART.sub(lambda m: m.group(0) if m.group(0)[0] == '"' else _json.dumps(_JSON_MARK + m.group(0)), t)
    return _json_unmark(_json.loads(quoted, **kw))


JSON = _ModFacade(_json, {"dumps": _json_dumps, "loads": _json_loads})

# A module imported by its name is the one the importing code would have seen
# had it named its members outright.

BUILTINS_MOD = _ModFacade(builtins, {"int": IntFacade, "float": FloatFacade, "bool": BoolFacade})


def _import_module(name: str, package: Any = None) -> Any:
    return {"builtins": BUILTINS_MOD, "datetime": DATETIME_MOD}.get(name) or _importlib.import_module(name, package)


IMPORTLIB = _ModFacade(_importlib, {"import_module": _import_module})

_PATCHED: list[tuple[Any, str, Any]] = []


def patch_modules(clock_only: bool = False) -> None:
    """Replace clock/random/number builtins in every docket.* module."""
    ident: dict[int, Any] = {
        id(datetime): DatetimeFacade,
        id(_time): TIME,
        id(_dt): DATETIME_MOD,
        id(_random): RANDOM,
        id(_random.uniform): _rand_uniform,
        id(_random.random): _rand_random,
    }
    for n, f in _TIME_FNS.items():
        ident[id(getattr(_time, n))] = f
    global SYMBOLIC
    SYMBOLIC = not clock_only
    if not clock_only:
        from . import cron

        ident[id(timedelta)] = TimedeltaFacade
        ident[id(_json)] = JSON
        ident[id(_importlib)] = IMPORTLIB
        ident[id(cron.RealCronSim)] = cron.SymCronSim
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "docket" or name.startswith("docket.")):
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            r = ident.get(id(v))
            if r is not None:
                g[k] = r
        if not clock_only:
            g.setdefault("int", IntFacade)
            g.setdefault("float", FloatFacade)
            g.setdefault("bool", BoolFacade)
