"""CronSim on symbolic times.

CronSim is a third-party step function of the starting instant.  The stand-in
walks the real CronSim's instants from the least value the start can have on
this path and branches, at each, on whether the start comes before it; every
step of the function is thus its own path."""

from __future__ import annotations

from typing import Any

from cronsim import CronSim as RealCronSim

from . import clock, sym
from .sym import is_sym


class SymCronSim:
    def __init__(self, expr: str, dt: Any, reverse: bool = False) -> None:
        if not (isinstance(dt, clock.SymDatetime) and is_sym(dt.us)):
            self._real: Any = RealCronSim(expr, dt.real() if isinstance(dt, clock.SymDatetime) else dt, reverse)
            return
        assert not reverse
        lo, _ = sym.current().range_of(dt.us.e)
        start = clock.EPOCH + clock.timedelta(microseconds=lo)
        if dt.tzv is not clock.UTC:
            start = start.astimezone(dt.tzv)
        while True:
            nxt = next(RealCronSim(expr, start))
            if dt.us < clock.us_of(nxt):
                break
            start = nxt
        self._real = RealCronSim(expr, start)

    def __iter__(self) -> Any:
        return self

    def __next__(self) -> Any:
        return next(self._real)

    def explain(self) -> str:
        return self._real.explain()
