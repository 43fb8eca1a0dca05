"""Parallel path exploration: re-execute from solver-produced assignments until
no unexplored branch side is left (or the budget is spent)."""

from __future__ import annotations

import gc
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import sys
import time
from typing import Any

from . import ctx as ctxmod
from .ctx import Harness, run_path
from .sym import Stats, concrete_of

NPROC = int(os.environ.get("VP_PROCS", "0")) or min(8, os.cpu_count() or 1)
SLICE_S = 0.25
VALIDATE_EVERY = 23


def quiet() -> None:
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    sys.unraisablehook = lambda *_: None


def _conc(x: Any) -> Any:
    if isinstance(x, (list, tuple)):
        return [_conc(y) for y in x]
    if isinstance(x, dict):
        return {str(k): _conc(v) for k, v in x.items()}
    if hasattr(x, "us") and not isinstance(x, (int, float)):
        return _conc(x.us)
    if hasattr(x, "real") and callable(getattr(x, "real", None)):
        return repr(x.real())
    v = concrete_of(x)
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v).decode("latin1")
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return repr(v)


def worker_main(conn: Any, harnesses: list[tuple[Harness, dict[str, Any]]], seed: int) -> None:
    quiet()
    gc.disable()
    rng = random.Random(seed)
    npaths = 0
    while True:
        msg = conn.recv()
        if msg is None:
            return
        hidx, items = msg
        h, params = harnesses[hidx]
        stats = Stats()
        viol: list[Any] = []
        errors: list[str] = []
        samples: list[Any] = []
        t0 = time.monotonic()
        local = items
        while local:
            prefix, assignment = local.pop(_pick(local, rng))
            run, err = run_path(h, params, assignment, prefix, stats, True)
            npaths += 1
            if err:
                errors.append(err)
                break
            for v in run.violations:
                viol.append(v)
            if "diverged" in run.ctxdata and len(samples) < 4:
                samples.append({"harness": h.name, "DIVERGED": run.ctxdata["diverged"], "prefix": len(prefix), "at": len(run.decisions), "inputs": assignment})
            local.extend(run.pending)
            obs = _conc(run.observations)
            complete = not run.violations and "diverged" not in run.ctxdata
            if len(samples) < 2 and complete:
                samples.append({"harness": h.name, "inputs": run.full_assignment(), "branches": len(run.decisions), "observed": obs[:12]})
            if complete and (npaths % VALIDATE_EVERY == 1) and run.pinned == 0:
                cstats = Stats()
                crun, cerr = run_path(h, params, run.full_assignment(), [], cstats, False)
                stats.replayed += 1
                if cerr or crun.violations or _conc(crun.observations) != obs:
                    stats.replay_mismatch += 1
                    if len(samples) < 4:
                        samples.append({"harness": h.name, "MISMATCH": run.full_assignment(), "sym": obs, "conc": _conc(crun.observations), "err": cerr, "viol": crun.violations[:1]})
            if npaths % 20 == 0:
                gc.collect()
            if time.monotonic() - t0 > SLICE_S:
                break
        for v in viol:
            v["harness"] = h.name
        conn.send((hidx, local, stats, viol[:20], len(viol), errors, samples, time.monotonic() - t0))


def _pick(queue: list[Any], rng: random.Random) -> int:
    """Half of the time a random pending path, half of the time a shallow one
    (so that early choices are all taken up before deep variations of one)."""
    n = len(queue)
    if n == 1:
        return 0
    if rng.random() < 0.5:
        return rng.randrange(n)
    return min((rng.randrange(n) for _ in range(16)), key=lambda i: len(queue[i][0]))


class Result:
    def __init__(self, h: Harness) -> None:
        self.h = h
        self.stats = Stats()
        self.viol: list[dict[str, Any]] = []
        self.errors: list[str] = []
        self.samples: list[Any] = []
        self.cpu = 0.0
        self.queue: list[Any] = [([], {})]
        self.inflight = 0
        self.unexplored = 0
        self.stopped = False

    @property
    def exhaustive(self) -> bool:
        s = self.stats
        return self.unexplored == 0 and s.truncated == 0 and s.pins == 0 and s.divergences == 0 and s.unknown == 0


def explore(harnesses: list[tuple[Harness, dict[str, Any], float]], seed: int, wall_cap: float) -> list[Result]:
    res = [Result(h) for h, _, _ in harnesses]
    budgets = [b for _, _, b in harnesses]
    hp = [(h, p) for h, p, _ in harnesses]
    ctx = mp.get_context("fork")
    procs, conns = [], []
    for i in range(NPROC):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker_main, args=(b, hp, seed * 1000 + i), daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    rng = random.Random(seed)
    idle = list(conns)
    busy: dict[Any, int] = {}
    t0 = time.monotonic()

    def want() -> int | None:
        best, bi = None, None
        for i, r in enumerate(res):
            if not r.queue or r.stopped:
                continue
            # keep every harness progressing: least cpu share of its budget first
            key = (r.cpu + r.inflight * SLICE_S) / budgets[i]
            if best is None or key < best:
                best, bi = key, i
        return bi

    try:
        while True:
            over = time.monotonic() - t0 > wall_cap
            for i, r in enumerate(res):
                # a slower machine gets more, as long as something has yet to be reached
                limit = budgets[i] * (1 if all(x in r.stats.reached for x in r.h.reach) else 3)
                if over or r.cpu > limit or r.errors or len(r.viol) >= 200:
                    r.stopped = True
            while idle:
                i = want()
                if i is None:
                    break
                r = res[i]
                n = max(1, min(64, len(r.queue) // (2 * NPROC)))
                batch = []
                for _ in range(n):
                    k = _pick(r.queue, rng)
                    r.queue[k], r.queue[-1] = r.queue[-1], r.queue[k]
                    batch.append(r.queue.pop())
                c = idle.pop()
                c.send((i, batch))
                busy[c] = i
                r.inflight += 1
            if not busy:
                break
            for c in mp.connection.wait(list(busy), timeout=5.0):
                i = busy.pop(c)  # type: ignore[arg-type]
                idle.append(c)
                r = res[i]
                r.inflight -= 1
                try:
                    hidx, left, st, viol, nv, errs, samples, dt = c.recv()  # type: ignore[union-attr]
                except EOFError:
                    r.errors.append("worker process died")
                    r.stopped = True
                    idle.remove(c)
                    continue
                r.queue.extend(left)
                r.stats.merge(st)
                r.viol.extend(viol)
                r.errors.extend(errs)
                for s in samples:
                    if "MISMATCH" in s or "DIVERGED" in s or len(r.samples) < 3:
                        r.samples.append(s)
                r.cpu += dt
    finally:
        for c in conns:
            try:
                c.send(None)
            except OSError:
                pass
        for p in procs:
            p.join(2)
            if p.is_alive():
                p.kill()
    for r in res:
        r.unexplored = len(r.queue)
    return res
