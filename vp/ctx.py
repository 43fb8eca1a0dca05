"""What a harness gets: symbolic inputs, a docket/worker factory on the virtual
loop and the Redis model, crash/fault/interleaving control, and check()."""

from __future__ import annotations

import asyncio
import contextlib
import contextvars
import importlib.util
import os
import sys
import traceback
from dataclasses import dataclass, field
from datetime import timedelta
from typing import Any, Callable

from . import clock, redis_model, sym, vloop
from .sym import Run

HARNESS_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
VP_DIR = os.path.dirname(os.path.abspath(__file__))
DOCKET_DIR = os.path.dirname(str(importlib.util.find_spec("docket").origin))  # type: ignore[union-attr]


@dataclass
class Harness:
    name: str
    fn: Callable[["Ctx"], Any]
    bounds: str
    reach: list[str] = field(default_factory=list)
    quick: dict[str, Any] = field(default_factory=dict)
    thorough: dict[str, Any] | None = None
    budget_quick: float = 60.0  # CPU seconds over all processes
    budget_thorough: float = 1200.0
    assumptions: list[str] = field(default_factory=list)
    max_vus: int = 24 * 3600 * 1_000_000
    max_steps: int = 60_000
    backend: str = "model"  # replay backend: "model" or "burner"
    tiers: tuple[str, ...] = ("quick", "thorough")


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, run: Run, h: Harness, params: dict[str, Any], store: Any) -> None:
        self.run = run
        self.h = h
        self.p = params
        self.store = store
        self.clients: dict[str, Any] = {}
        self.symbolic = run.symbolic
        self._n = 0

    # ---- symbolic inputs ----
    def int(self, name: str, lo: int, hi: int, default: int | None = None) -> Any:
        return self.run.int(name, lo, hi, default)

    def bool(self, name: str, default: bool = False) -> Any:
        return self.run.bool(name, default)

    def choice(self, name: str, n: int) -> int:
        return int(self.run.choice(name, n))

    def pick(self, name: str, opts: Any) -> Any:
        return opts[self.choice(name, len(opts))]

    def us(self, name: str, lo: int, hi: int) -> Any:
        """A symbolic duration as a timedelta of [lo, hi] microseconds."""
        return clock.mk_timedelta(self.run.int(name, lo, hi))

    def assume(self, c: Any) -> None:
        self.run.assume(c)

    def check(self, c: Any, label: str, detail: str = "") -> None:
        self.run.check(c, label, detail)

    def fail(self, label: str, detail: str = "") -> None:
        self.run.check(False, label, detail)

    def reach(self, label: str) -> None:
        self.run.reach(label)

    def observe(self, *vals: Any) -> None:
        self.run.observations.append(vals)

    # ---- time ----
    def now_us(self) -> Any:
        return clock.CLOCK.now_us() - clock.BASE_US

    def now(self) -> Any:
        return clock.mk_datetime(clock.CLOCK.now_us())

    def at(self, us: Any) -> Any:
        return clock.mk_datetime(clock.BASE_US + us)

    def advance(self, us: Any) -> None:
        """Move the wall clock directly (harnesses with no running loop timers)."""
        clock.CLOCK.advance_us(us)

    async def sleep_us(self, us: Any) -> None:
        await asyncio.sleep(us / 1_000_000)

    # ---- docket ----
    def go(self, coro_fn: Any, *args: Any) -> Any:
        return vloop.run_virtual(coro_fn, self, *args, max_steps=self.h.max_steps, max_vus=self.h.max_vus)

    def client(self, name: str) -> Any:
        """The client behind memory://name (created on first connection)."""
        return self.clients[name]

    def ctl(self, name: str) -> Any:
        return self.clients[name].ctl

    @contextlib.asynccontextmanager
    async def docket(self, client: str = "main", name: str = "d", **kw: Any) -> Any:
        from docket import Docket

        d = Docket(name=name, url=f"memory://{client}", **kw)
        self._pending_client = client
        await d.__aenter__()
        try:
            yield d
        finally:
            with contextlib.suppress(Exception):
                await d.__aexit__(None, None, None)

    def crash(self, client: str) -> None:
        self.clients[client].ctl.dead = True


def _client_hook(ctx: Ctx) -> Any:
    def hook(client: Any) -> None:
        name = getattr(ctx, "_pending_client", None) or "main"
        base = name
        i = 2
        while name in ctx.clients:
            name = f"{base}#{i}"
            i += 1
        ctx.clients[name] = client

    return hook


_ids = {"n": 0}


URANDOM_HOOK: Any = None


def _det_urandom(n: int) -> bytes:
    if URANDOM_HOOK is not None:
        return URANDOM_HOOK(n)  # type: ignore[no-any-return]
    _ids["n"] += 1
    return (_ids["n"].to_bytes(8, "big") * (n // 8 + 1))[:n]


def patch_ids() -> None:
    """Deterministic ids: opaque to the properties, but re-execution needs them."""
    import uuid

    def uuid4() -> Any:
        return uuid.UUID(bytes=_det_urandom(16), version=4)

    uuid.uuid4 = uuid4
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "docket" or name.startswith("docket.")):
            continue
        g = mod.__dict__
        if g.get("uuid4") is not None:
            g["uuid4"] = uuid4
        if "urandom" in g:
            g["urandom"] = _det_urandom
    os.urandom = _det_urandom  # type: ignore[assignment]
    import secrets

    secrets.token_bytes = lambda n=32: _det_urandom(n)  # type: ignore[assignment]
    secrets.token_hex = lambda n=16: _det_urandom(n).hex()  # type: ignore[assignment]
    secrets.randbits = lambda k: int.from_bytes(_det_urandom((k + 7) // 8), "big") >> (-k % 8)  # type: ignore[assignment]


def classify_exc(e: BaseException) -> tuple[str, str]:
    """('code' | 'harness', where) by the innermost frame that is ours."""
    where, kind = "", "harness"
    for fr in traceback.extract_tb(e.__traceback__):
        if fr.filename.startswith(DOCKET_DIR):
            kind, where = "code", f"{os.path.relpath(fr.filename, DOCKET_DIR)}:{fr.name}"
        elif fr.filename.startswith(HARNESS_DIR):
            kind, where = "harness", f"{os.path.basename(fr.filename)}:{fr.lineno}"
        elif fr.filename.startswith(VP_DIR) and kind == "harness":
            where = f"{os.path.basename(fr.filename)}:{fr.lineno}"
    if "not in the Redis model" in str(e):
        kind = "harness"
    return kind, where


_CACHES: list[dict[Any, Any]] = []


def _clear_caches() -> None:
    """Signature/annotation caches keyed by function: harness functions are made
    anew on every path, so the caches would only grow."""
    if not _CACHES:
        for name, mod in list(sys.modules.items()):
            if mod is None or not name.startswith(("docket.", "uncalled_for.")):
                continue
            for k, v in list(mod.__dict__.items()):
                if k.endswith("_cache") and isinstance(v, dict):
                    _CACHES.append(v)
                elif isinstance(v, type) and isinstance(v.__dict__.get("_cache"), dict):
                    _CACHES.append(v.__dict__["_cache"])
    for c in _CACHES:
        c.clear()


_IDENTIFIERS: dict[str, Any] = {}


def _reset_identifiers() -> None:
    """The identifier generator's memory, as it was when it was imported."""
    import docket._uuid7 as module

    if not _IDENTIFIERS:
        for k, v in vars(module).items():
            if isinstance(v, (list, dict, int)) and not k.startswith("__"):
                _IDENTIFIERS[k] = type(v)(v)
    for k, v in _IDENTIFIERS.items():
        now = getattr(module, k, None)
        if isinstance(v, list) and isinstance(now, list):
            now[:] = v
        elif isinstance(v, dict) and isinstance(now, dict):
            now.clear()
            now.update(v)
        else:
            setattr(module, k, v)


def run_path(
    h: Harness,
    params: dict[str, Any],
    assignment: dict[str, int],
    prefix: list[bool],
    stats: Any,
    symbolic: bool,
    backend: str = "model",
) -> tuple[Run, str | None]:
    """Execute one path.  Returns the run and an error text for machinery errors."""
    sym.set_current(None)
    store = redis_model.reset_shared()
    clock.CLOCK.us = clock.BASE_US
    clock.CLOCK.loop = None
    clock.RANDOM_HOOK = None
    _ids["n"] = 0
    _clear_caches()
    _reset_identifiers()
    run = Run(assignment, prefix, stats, symbolic=symbolic)
    ctx = Ctx(run, h, params, store)
    redis_model.NEW_CLIENT_HOOK = _client_hook(ctx)
    sym.set_current(run)
    err: str | None = None
    stats.paths += 1
    try:
        contextvars.Context().run(h.fn, ctx)
    except sym.Divergence as e:
        err = None
        run.pending.clear()
        run.violations.clear()
        run.ctxdata["diverged"] = str(e)
    except sym.PathAbort:
        pass
    except (vloop.Deadlock, vloop.Stuck) as e:
        run.violations.append(
            {"label": f"no-progress:{type(e).__name__}", "detail": str(e), "assignment": run.full_assignment()}
        )
    except Exception as e:
        kind, where = classify_exc(e)
        if kind == "code":
            run.violations.append(
                {
                    "label": f"exception:{type(e).__name__}@{where}",
                    "detail": "".join(traceback.format_exception(e))[-1500:],
                    "assignment": run.full_assignment(),
                }
            )
        else:
            err = "".join(traceback.format_exception(e))[-3000:]
    finally:
        if run.aborted is None:
            run.aborted = sym.PathEnd.__new__(sym.PathEnd)
        sym.set_current(None)
        redis_model.NEW_CLIENT_HOOK = None
    return run, err
