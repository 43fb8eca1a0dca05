"""Concolic core: symbolic proxies over z3 integers and the path explorer's
per-run state.

Every symbolic value carries the z3 term *and* the concrete value it has under
the current run's assignment, so C code that only sees the concrete value
cannot crash.  Branching on a symbolic boolean records the branch in the path
condition and asks the solver for an assignment that takes the other side; the
explorer (explore.py) re-executes from there until no unexplored side is left.

Numbers: Python ints are mathematical z3 integers.  Python floats (timestamps,
seconds) are fixed-point rationals: an integer numerator term over a constant
positive denominator, read in decimal (0.1 is 1/10).  Floating-point rounding
is therefore outside the encoding; every violation is replayed with real
floats before it is reported.
"""

from __future__ import annotations

import re
import sys
from fractions import Fraction
from math import gcd
from typing import Any

_Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # pragma: no cover
    sys.path.append(_Z3_SITE)
    try:
        import z3
    finally:
        sys.path.remove(_Z3_SITE)


class PathAbort(BaseException):
    """Stops the current path (BaseException so code under test can't eat it)."""

    def __init__(self, *a: Any) -> None:
        super().__init__(*a)
        if CUR is not None and CUR.aborted is None:
            CUR.aborted = self


class Infeasible(PathAbort):
    pass


class Divergence(PathAbort):
    pass


class PathEnd(PathAbort):
    pass


class BudgetExceeded(PathAbort):
    pass


CUR: "Run | None" = None


def current() -> "Run":
    assert CUR is not None
    return CUR


def set_current(run: "Run | None") -> None:
    global CUR
    CUR = run


class Stats:
    FIELDS = (
        "paths", "queries", "sat", "unsat", "unknown", "branches", "checks",
        "check_queries", "pins", "divergences", "infeasible", "truncated",
        "redis_ops", "lua_evals", "replayed", "replay_mismatch",
    )

    def __init__(self) -> None:
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.reached: dict[str, int] = {}
        self.check_labels: dict[str, int] = {}
        self.scripts: dict[str, int] = {}
        self.commands: dict[str, int] = {}
        self.functions: dict[str, int] = {}

    def merge(self, other: "Stats") -> None:
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(other, f))
        self.solver_s += other.solver_s
        for d in ("reached", "check_labels", "scripts", "commands", "functions"):
            mine = getattr(self, d)
            for k, v in getattr(other, d).items():
                mine[k] = mine.get(k, 0) + v


import time as _time

_perf = _time.perf_counter

import operator as _op

_CMP = {"lt": _op.lt, "le": _op.le, "gt": _op.gt, "ge": _op.ge, "eq": _op.eq, "ne": _op.ne}


# ---------------------------------------------------------------------------
# Terms
#
# An integer term is a linear form over atoms (declared symbols and floor-division
# results).  A condition is a tuple:
#   ("ge", t, c)  sum(t) >= c      ("le", t, c)  sum(t) <= c
#   ("eq", t, c)  sum(t) == c      ("ne", t, c)  sum(t) != c
#   ("and", (n, ...))              ("or", (n, ...))
# with t a normalised (gcd 1, first coefficient positive) tuple of (atom, coeff).
# Conditions that the path's bounds already settle never reach the solver; every
# other condition does.
# ---------------------------------------------------------------------------


class Lin:
    __slots__ = ("t", "k")

    def __init__(self, t: tuple[tuple[int, int], ...], k: int) -> None:
        self.t = t
        self.k = k

    @property
    def key(self) -> Any:
        return (self.t, self.k)


def lin_const(k: int) -> Lin:
    return Lin((), k)


def lin_scale(a: Lin, m: int) -> Lin:
    if m == 1:
        return a
    if m == 0:
        return Lin((), 0)
    return Lin(tuple([(i, c * m) for i, c in a.t]), a.k * m)


def lin_add(a: Lin, b: Lin) -> Lin:
    if not b.t:
        return Lin(a.t, a.k + b.k) if b.k else a
    if not a.t:
        return Lin(b.t, a.k + b.k) if a.k else b
    d = dict(a.t)
    for i, c in b.t:
        n = d.get(i, 0) + c
        if n:
            d[i] = n
        else:
            del d[i]
    return Lin(tuple(sorted(d.items())), a.k + b.k)


def lin_sub(a: Lin, b: Lin) -> Lin:
    return lin_add(a, lin_scale(b, -1))


NEG = {"ge": "le", "le": "ge"}


def negate(n: Any) -> Any:
    op = n[0]
    if op == "ge":
        return ("le", n[1], n[2] - 1)
    if op == "le":
        return ("ge", n[1], n[2] + 1)
    if op == "eq":
        return ("ne", n[1], n[2])
    if op == "ne":
        return ("eq", n[1], n[2])
    if op == "and":
        return ("or", tuple([negate(x) for x in n[1]]))
    return ("and", tuple([negate(x) for x in n[1]]))


def cond(op: str, a: Lin) -> Any:
    """Node (or bool) for ``a op 0`` with op in ge, gt, le, lt, eq, ne."""
    t, k = a.t, a.k
    if not t:
        return {"ge": k >= 0, "gt": k > 0, "le": k <= 0, "lt": k < 0, "eq": k == 0, "ne": k != 0}[op]
    # sum(t) op c
    c = -k
    if op == "gt":
        op, c = "ge", c + 1
    elif op == "lt":
        op, c = "le", c - 1
    g = 0
    for _, x in t:
        g = gcd(g, x)
    if t[0][1] < 0:
        t = tuple([(i, -x // g) for i, x in t])
        c = -c
        op = NEG.get(op, op)
    elif g != 1:
        t = tuple([(i, x // g) for i, x in t])
    if g != 1:
        if op == "ge":
            c = -((-c) // g)
        elif op == "le":
            c = c // g
        else:
            if c % g:
                return op == "ne"
            c //= g
    return (op, t, c)


class Run:
    """One execution: symbolic (concolic) when ``symbolic``; otherwise concrete."""

    def __init__(
        self,
        assignment: dict[str, int],
        prefix: list[Any],
        stats: Stats,
        symbolic: bool = True,
        max_branches: int = 4000,
        solver_timeout_ms: int = 10000,
    ) -> None:
        self.assignment = dict(assignment)
        self.prefix = prefix
        self.stats = stats
        self.symbolic = symbolic
        self.decisions: list[Any] = []
        self.pending: list[tuple[list[Any], dict[str, int]]] = []
        self.known: set[Any] = set()  # composite / ne conditions that hold
        self.decls: dict[str, Any] = {}
        self.values: dict[str, int] = {}
        self.tokens: list[Any] = []
        self.token_ids: dict[tuple[str, Any, int], str] = {}
        self.violations: list[dict[str, Any]] = []
        self.observations: list[Any] = []
        self.max_branches = max_branches
        self.pinned = 0
        self.ctxdata: dict[str, Any] = {}
        self.aborted: BaseException | None = None
        self.solver_timeout_ms = solver_timeout_ms
        self._solver: Any = None
        self.todo: list[Any] = []
        self.atoms: list[Any] = []  # z3 constants
        self.alo: list[int] = []
        self.ahi: list[int] = []
        self.divs: dict[Any, int] = {}
        self.dirs: dict[Any, list[Any]] = {}  # t -> [lo | None, hi | None]
        self.zterms: dict[Any, Any] = {}

    # ---- declarations ------------------------------------------------

    def int(self, name: str, lo: int, hi: int, default: int | None = None) -> Any:
        if name in self.decls or name in self.values:
            raise RuntimeError(f"symbol {name} declared twice")
        v = self.assignment.get(name)
        if v is None:
            v = lo if default is None else default
        v = min(max(v, lo), hi)
        self.values[name] = v
        if not self.symbolic or lo == hi:
            return v
        i = self._atom(name, lo, hi)
        self.decls[name] = self.atoms[i]
        return SymInt(Lin(((i, 1),), 0), v)

    def _atom(self, name: str, lo: int, hi: int) -> int:
        i = len(self.atoms)
        self.atoms.append(z3.Int(name))
        self.alo.append(lo)
        self.ahi.append(hi)
        self.todo.append(("ge", ((i, 1),), lo))
        self.todo.append(("le", ((i, 1),), hi))
        return i

    def bool(self, name: str, default: bool = False) -> Any:
        v = self.int(name, 0, 1, 1 if default else 0)
        if isinstance(v, SymInt):
            return v == 1
        return v == 1

    def choice(self, name: str, n: int) -> int:
        """A symbolic index in [0, n), forked to a concrete value."""
        v = self.int(name, 0, n - 1)
        return fork_value(v)

    # ---- terms -------------------------------------------------------

    def interval(self, t: Any) -> tuple[int, int]:
        """Bounds of sum(t) implied by the path's recorded bounds."""
        if len(t) == 1 and t[0][1] == 1:
            i = t[0][0]
            return self.alo[i], self.ahi[i]
        lo = hi = 0
        alo, ahi = self.alo, self.ahi
        for i, c in t:
            if c > 0:
                lo += c * alo[i]
                hi += c * ahi[i]
            else:
                lo += c * ahi[i]
                hi += c * alo[i]
        b = self.dirs.get(t)
        if b is not None:
            if b[0] is not None and b[0] > lo:
                lo = b[0]
            if b[1] is not None and b[1] < hi:
                hi = b[1]
        return lo, hi

    def range_of(self, a: Lin) -> tuple[int, int]:
        t, k = a.t, a.k
        if not t:
            return k, k
        g = 0
        for _, x in t:
            g = gcd(g, x)
        if t[0][1] < 0:
            g = -g
        if g != 1:
            t = tuple([(i, x // g) for i, x in t])
        lo, hi = self.interval(t)
        return (lo * g + k, hi * g + k) if g > 0 else (hi * g + k, lo * g + k)

    def decide(self, n: Any) -> bool | None:
        op = n[0]
        if op == "and":
            res: Any = True
            for x in n[1]:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            if res is None and self.known and n in self.known:
                return True
            return res
        if op == "or":
            res = False
            for x in n[1]:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            if res is None and self.known and n in self.known:
                return True
            return res
        lo, hi = self.interval(n[1])
        c = n[2]
        if op == "ge":
            return True if lo >= c else (False if hi < c else None)
        if op == "le":
            return True if hi <= c else (False if lo > c else None)
        if lo > c or hi < c:
            return op == "ne"
        if lo == hi:
            return op == "eq"
        if self.known and ("ne", n[1], c) in self.known:
            return op == "ne"
        return None

    def learn(self, n: Any, solver: bool = True) -> None:
        """The condition holds on this path."""
        if solver:
            self.todo.append(n)
        op = n[0]
        if op == "and":
            for x in n[1]:
                self.learn(x, False)
            self.known.add(n)
            return
        if op == "or":
            self.known.add(n)
            return
        t, c = n[1], n[2]
        if op == "ne":
            self.known.add(n)
            lo, hi = self.interval(t)
            if lo == c:
                op, c = "ge", c + 1
            elif hi == c:
                op, c = "le", c - 1
            else:
                return
        if len(t) == 1 and t[0][1] == 1:
            i = t[0][0]
            if op != "le" and c > self.alo[i]:
                self.alo[i] = c
            if op != "ge" and c < self.ahi[i]:
                self.ahi[i] = c
            return
        b = self.dirs.get(t)
        if b is None:
            b = self.dirs[t] = [None, None]
        if op != "le" and (b[0] is None or c > b[0]):
            b[0] = c
        if op != "ge" and (b[1] is None or c < b[1]):
            b[1] = c

    def floordiv(self, a: Lin, den: int) -> Lin:
        """floor(a / den), den > 0."""
        if den == 1:
            return a
        m = Lin(tuple([(i, c // den) for i, c in a.t if c % den == 0]), a.k // den)
        r = tuple([(i, c) for i, c in a.t if c % den])
        k = a.k % den
        if not r:
            return m
        rest = Lin(r, k)
        lo, hi = self.range_of(rest)
        ql, qh = lo // den, hi // den
        if ql == qh:
            return Lin(m.t, m.k + ql)
        key = (r, k, den)
        q = self.divs.get(key)
        if q is None:
            q = self._atom(f"!q{len(self.divs)}", ql, qh)
            self.divs[key] = q
            # 0 <= rest - den*q <= den-1
            diff = lin_add(rest, Lin(((q, -den),), 0))
            self.learn(cond("ge", diff))
            self.learn(cond("le", Lin(diff.t, diff.k - (den - 1))))
        return lin_add(m, Lin(((q, 1),), 0))

    def z(self, n: Any) -> Any:
        op = n[0]
        if op == "and":
            return z3.And([self.z(x) for x in n[1]])
        if op == "or":
            return z3.Or([self.z(x) for x in n[1]])
        t, c = n[1], n[2]
        e = self.zterms.get(t)
        if e is None:
            parts = [self.atoms[i] if x == 1 else x * self.atoms[i] for i, x in t]
            e = parts[0] if len(parts) == 1 else z3.Sum(parts)
            self.zterms[t] = e
        if op == "ge":
            return e >= c
        if op == "le":
            return e <= c
        if op == "eq":
            return e == c
        return e != c

    # ---- solver ------------------------------------------------------

    def _model(self) -> dict[str, int]:
        m = self._solver.model()
        out = dict(self.assignment)
        for name, x in self.decls.items():
            val = m[x]
            out[name] = val.as_long() if val is not None else self.values[name]
        return out

    def _query(self, n: Any) -> str:
        t = _perf()
        s = self._solver
        if s is None:
            s = self._solver = z3.SimpleSolver()
            s.set("timeout", self.solver_timeout_ms)
        if self.todo:
            for x in self.todo:
                s.add(self.z(x))
            self.todo.clear()
        r = s.check(self.z(n))
        self.stats.solver_s += _perf() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            return "sat"
        if r == z3.unsat:
            self.stats.unsat += 1
            return "unsat"
        self.stats.unknown += 1
        return "unknown"

    def branch(self, n: Any, concrete: bool) -> bool:
        if self.aborted is not None:
            raise self.aborted
        r = self.decide(n)
        if r is not None:
            return r
        idx = len(self.decisions)
        if idx >= self.max_branches:
            self.stats.truncated += 1
            raise BudgetExceeded()
        self.stats.branches += 1
        if idx < len(self.prefix):
            if self.prefix[idx] is not concrete:
                self.stats.divergences += 1
                raise Divergence(f"branch {idx}: {n}")
        elif self._query(negate(n) if concrete else n) == "sat":
            self.pending.append((self.decisions + [not concrete], self._model()))
        self.decisions.append(concrete)
        self.learn(n if concrete else negate(n))
        return concrete

    def fork(self, a: Lin, c: int) -> int:
        """Fix an integer term to its concrete value; every other feasible value
        becomes a path of its own.  Decisions are ("=", v) or ("!", excluded)."""
        if self.aborted is not None:
            raise self.aborted
        eq = cond("eq", Lin(a.t, a.k - c))
        r = eq if isinstance(eq, bool) else self.decide(eq)
        if r is True:
            return c
        if r is False:
            self.stats.divergences += 1
            raise Divergence(f"fork: {a.key} = {c} is impossible here")
        idx = len(self.decisions)
        if idx >= self.max_branches:
            self.stats.truncated += 1
            raise BudgetExceeded()
        self.stats.branches += 1
        excl: tuple[int, ...] = ()
        explore = True
        if idx < len(self.prefix):
            d = self.prefix[idx]
            if not isinstance(d, tuple) or (d[0] == "=" and d[1] != c) or (d[0] == "!" and c in d[1]):
                self.stats.divergences += 1
                raise Divergence(f"fork {idx}: {a.key} = {c} vs {d}")
            if d[0] == "!":
                excl = d[1]
            else:
                explore = False
        if explore:
            excl = excl + (c,)
            conds = [cond("ne", Lin(a.t, a.k - x)) for x in excl]
            conds = [x for x in conds if not isinstance(x, bool)]
            if self._query(("and", tuple(conds))) == "sat":
                self.pending.append((self.decisions + [("!", excl)], self._model()))
        self.decisions.append(("=", c))
        self.learn(eq)
        return c

    def pin(self, n: Any) -> None:
        """Constrain without exploring the alternative (counted: incomplete)."""
        if isinstance(n, bool) or self.decide(n) is True:
            return
        self.pinned += 1
        self.stats.pins += 1
        self.learn(n)

    def assume(self, c: Any) -> None:
        if isinstance(c, SymBool):
            r = self.decide(c.e)
            if r is True:
                return
            if c.c:
                self.learn(c.e)
                return
            # current assignment breaks the assumption: ask for another one
            if r is None and self._query(c.e) == "sat":
                self.pending.append((list(self.decisions), self._model()))
            self.stats.infeasible += 1
            raise Infeasible()
        if not c:
            self.stats.infeasible += 1
            raise Infeasible()

    def check(self, c: Any, label: str, detail: str = "") -> None:
        st = self.stats
        st.checks += 1
        st.check_labels[label] = st.check_labels.get(label, 0) + 1
        if isinstance(c, SymBool):
            n = c.e
            if len(self.decisions) < len(self.prefix):
                # an ancestor path already discharged this query
                if c.c:
                    self.learn(n)
                    return
            st.check_queries += 1
            if not c.c:
                self.violations.append(
                    {"label": label, "detail": detail, "assignment": self.full_assignment()}
                )
                raise PathEnd()
            if self._query(negate(n)) == "sat":
                self.violations.append(
                    {"label": label, "detail": detail, "assignment": self._model()}
                )
            self.learn(n)
            return
        if not c:
            self.violations.append(
                {"label": label, "detail": detail, "assignment": self.full_assignment()}
            )
            raise PathEnd()

    def full_assignment(self) -> dict[str, int]:
        out = dict(self.assignment)
        out.update(self.values)
        return out

    def reach(self, label: str) -> None:
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    # ---- tokens ------------------------------------------------------

    def token(self, kind: str, value: Any) -> str:
        key = (kind, value.e.key, getattr(value, "d", 1))
        got = self.token_ids.get(key)
        if got is None:
            got = f"<~{len(self.tokens)}~>"
            self.tokens.append((kind, value))
            self.token_ids[key] = got
        return got


# ---------------------------------------------------------------------------
# Proxies
# ---------------------------------------------------------------------------


def mk_bool(n: Any, c: bool) -> Any:
    return n if isinstance(n, bool) else SymBool(n, c)


class SymBool:
    __slots__ = ("e", "c")

    def __init__(self, e: Any, c: bool) -> None:
        self.e = e
        self.c = c

    def __bool__(self) -> bool:
        return current().branch(self.e, self.c)

    def __and__(self, o: Any) -> Any:
        if isinstance(o, SymBool):
            return SymBool(("and", (self.e, o.e)), self.c and o.c)
        return self if o else False

    __rand__ = __and__

    def __or__(self, o: Any) -> Any:
        if isinstance(o, SymBool):
            return SymBool(("or", (self.e, o.e)), self.c or o.c)
        return True if o else self

    __ror__ = __or__

    def __invert__(self) -> Any:
        return SymBool(negate(self.e), not self.c)

    def __eq__(self, o: Any) -> Any:
        if isinstance(o, SymBool):
            return (self & o) | (~self & ~o)
        if isinstance(o, bool):
            return self if o else ~self
        return NotImplemented

    def __ne__(self, o: Any) -> Any:
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self) -> int:
        return hash(bool(self))

    def __repr__(self) -> str:
        return f"SymBool({self.c})"


def not_(x: Any) -> Any:
    return ~x if isinstance(x, SymBool) else (not x)


def and_(*xs: Any) -> Any:
    acc: Any = True
    for x in xs:
        if isinstance(x, SymBool):
            acc = x & acc if acc is not False else False
        elif not x:
            return False
    return acc


def or_(*xs: Any) -> Any:
    acc: Any = False
    for x in xs:
        if isinstance(x, SymBool):
            acc = x | acc if acc is not True else True
        elif x:
            return True
    return acc


def implies(a: Any, b: Any) -> Any:
    return or_(not_(a), b)


def iff(a: Any, b: Any) -> Any:
    return or_(and_(a, b), and_(not_(a), not_(b)))


def _frac(v: Any) -> Fraction | None:
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(int.__int__(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(float.__repr__(v))
    if isinstance(v, Fraction):
        return v
    return None


_FC: dict[float, tuple[int, int]] = {}


def num_parts(v: Any) -> tuple[Lin, int, int] | None:
    """(numerator term, denominator, concrete numerator) for any number."""
    ty = type(v)
    if ty is int:
        return Lin((), v), 1, v
    if ty is SymInt:
        return v.e, 1, int.__int__(v)
    if ty is SymFloat:
        return v.e, v.d, v.n
    if ty is float:
        got = _FC.get(v)
        if got is None:
            f = _frac(v)
            if f is None:
                return None
            if len(_FC) > 5000:
                _FC.clear()
            got = _FC[v] = (f.numerator, f.denominator)
        return Lin((), got[0]), got[1], got[0]
    f = _frac(v)
    if f is None:
        return None
    return Lin((), f.numerator), f.denominator, f.numerator


def is_sym(v: Any) -> bool:
    ty = type(v)
    return ty is SymInt or ty is SymFloat


def mk_num(e: Any, d: int, n: int, want_int: bool) -> Any:
    if not e.t:
        if want_int:
            return e.k // d
        return float(Fraction(e.k, d)) if d != 1 else float(e.k)
    if want_int:
        assert d == 1
        return SymInt(e, n)
    return SymFloat(e, d, n)


def _lcm(a: int, b: int) -> int:
    return a // gcd(a, b) * b


_scale = lin_scale
_INF = float("inf")


def arith(op: str, a: Any, b: Any) -> Any:
    # infinities
    for x in (a, b):
        if type(x) is float and (x != x or x == _INF or x == -_INF):
            other = b if x is a else a
            sgn = 1.0
            if op == "mul" and bool(other < 0):
                sgn = -1.0
            if op == "sub" and x is b:
                sgn = -1.0
            if op == "div" and x is b:
                return 0.0
            return x * sgn
    pa, pb = num_parts(a), num_parts(b)
    if pa is None or pb is None:
        return NotImplemented
    ea, da, na = pa
    eb, db, nb = pb
    want_int = isinstance(a, int) and isinstance(b, int)
    if op == "add" or op == "sub":
        if da == db:
            d = da
        else:
            d = _lcm(da, db)
            ma, mb = d // da, d // db
            ea, na = lin_scale(ea, ma), na * ma
            eb, nb = lin_scale(eb, mb), nb * mb
        if op == "add":
            return mk_num(lin_add(ea, eb), d, na + nb, want_int)
        return mk_num(lin_sub(ea, eb), d, na - nb, want_int)
    if op == "mul":
        if is_sym(a) and is_sym(b):
            b = fork_value(b)
            return arith("mul", a, b)
        if is_sym(b):
            ea, da, na, db, nb = eb, db, nb, da, na
        # (ea/da) * (nb/db)
        d = da * db
        g = gcd(nb, d) or 1
        k = nb // g
        return mk_num(lin_scale(ea, k), d // g, na * k, want_int)
    if op == "div":
        if is_sym(b):
            return a / fork_value(b)
        if nb == 0:
            raise ZeroDivisionError("division by zero")
        if nb < 0:
            nb, db = -nb, -db
        d = da * nb
        g = gcd(db, d) or 1
        k = db // g
        return mk_num(lin_scale(ea, k), d // g, na * k, False)
    if op == "floordiv" or op == "mod":
        if is_sym(b):
            b = fork_value(b)
            return a // b if op == "floordiv" else a % b
        if nb == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        # a/b = (ea * db) / (da * nb)
        num, den, nn = _scale(ea, db), da * nb, na * db
        if den < 0:
            num, den, nn = _scale(num, -1), -den, -nn
        q = current().floordiv(num, den)
        fq = nn // den
        if op == "floordiv":
            return mk_num(q, 1, fq, want_int)
        return arith("sub", a, arith("mul", SymInt(q, fq), b))
    raise AssertionError(op)


def compare(op: str, a: Any, b: Any) -> Any:
    for x, y, flip in ((a, b, False), (b, a, True)):
        if type(y) is float:
            if y != y:
                return op == "ne"
            if y == _INF or y == -_INF:
                big = y > 0
                o = op
                if flip:
                    o = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op)
                return {"lt": big, "le": big, "gt": not big, "ge": not big, "eq": False, "ne": True}[o]
    pa, pb = num_parts(a), num_parts(b)
    if pa is None or pb is None:
        return NotImplemented
    ea, da, na = pa
    eb, db, nb = pb
    if da != db:
        d = _lcm(da, db)
        ma, mb = d // da, d // db
        ea, na = lin_scale(ea, ma), na * ma
        eb, nb = lin_scale(eb, mb), nb * mb
    diff = lin_sub(ea, eb)
    if not diff.t:
        return _CMP[op](diff.k, 0)
    n = cond(op, diff)
    return n if isinstance(n, bool) else SymBool(n, _CMP[op](na, nb))


class _NumMixin:
    def __add__(self, o: Any) -> Any:
        return arith("add", self, o)

    def __radd__(self, o: Any) -> Any:
        return arith("add", o, self)

    def __sub__(self, o: Any) -> Any:
        return arith("sub", self, o)

    def __rsub__(self, o: Any) -> Any:
        return arith("sub", o, self)

    def __mul__(self, o: Any) -> Any:
        from .clock import SymTimedelta, timedelta

        if isinstance(o, timedelta):
            return SymTimedelta._of(o) * self
        return arith("mul", self, o)

    def __rmul__(self, o: Any) -> Any:
        return arith("mul", o, self)

    def __truediv__(self, o: Any) -> Any:
        return arith("div", self, o)

    def __rtruediv__(self, o: Any) -> Any:
        return arith("div", o, self)

    def __floordiv__(self, o: Any) -> Any:
        return arith("floordiv", self, o)

    def __rfloordiv__(self, o: Any) -> Any:
        return arith("floordiv", o, self)

    def __mod__(self, o: Any) -> Any:
        return arith("mod", self, o)

    def __rmod__(self, o: Any) -> Any:
        return arith("mod", o, self)

    def __divmod__(self, o: Any) -> Any:
        return self // o, self % o

    def __pow__(self, o: Any, m: Any = None) -> Any:
        return fork_value(self) ** fork_value(o)

    def __rpow__(self, o: Any, m: Any = None) -> Any:
        return fork_value(o) ** fork_value(self)

    def __neg__(self) -> Any:
        return arith("sub", 0, self)

    def __pos__(self) -> Any:
        return self

    def __abs__(self) -> Any:
        return self if self >= 0 else -self  # type: ignore[operator]

    def __lt__(self, o: Any) -> Any:
        return compare("lt", self, o)

    def __le__(self, o: Any) -> Any:
        return compare("le", self, o)

    def __gt__(self, o: Any) -> Any:
        return compare("gt", self, o)

    def __ge__(self, o: Any) -> Any:
        return compare("ge", self, o)

    def __eq__(self, o: Any) -> Any:
        return compare("eq", self, o)

    def __ne__(self, o: Any) -> Any:
        return compare("ne", self, o)

    def __bool__(self) -> bool:
        return bool(compare("ne", self, 0))

    def __hash__(self) -> int:
        return hash(fork_value(self))

    def __format__(self, spec: str) -> str:
        if spec == "":
            return str(self)
        return format(self.concrete, spec)  # type: ignore[attr-defined]

    def __repr__(self) -> str:
        return str(self)

    def __copy__(self) -> Any:
        return self

    def __deepcopy__(self, memo: Any) -> Any:
        return self

    def __reduce_ex__(self, protocol: Any) -> Any:
        tok = str(self)
        return (_unpickle, (tok,))


def _unpickle(tok: str) -> Any:
    return lift(tok)


class SymInt(_NumMixin, int):
    def __new__(cls, e: Any, v: int) -> Any:
        if not e.t:
            return e.k
        self = int.__new__(cls, v)
        self.e = e
        return self

    __hash__ = _NumMixin.__hash__
    __reduce_ex__ = _NumMixin.__reduce_ex__

    @property
    def concrete(self) -> int:
        return int.__int__(self)

    def __str__(self) -> str:
        return current().token("int", self)

    def __int__(self) -> int:
        return int.__int__(self)

    def __round__(self, n: Any = None) -> Any:
        return self

    def __floor__(self) -> Any:
        return self

    def __ceil__(self) -> Any:
        return self

    def __trunc__(self) -> Any:
        return self

    def __lshift__(self, o: Any) -> Any:
        return self * (1 << fork_value(o))

    def __rlshift__(self, o: Any) -> Any:
        return o << fork_value(self)

    def __rshift__(self, o: Any) -> Any:
        return self // (1 << fork_value(o))

    def __rrshift__(self, o: Any) -> Any:
        return o >> fork_value(self)

    def __and__(self, o: Any) -> Any:
        if not is_sym(o) and o >= 0:
            # sum over the runs of ones in o (exact for negative numbers too)
            out: Any = 0
            lo = 0
            while o >> lo:
                if not (o >> lo) & 1:
                    lo += 1
                    continue
                n = 0
                while (o >> (lo + n)) & 1:
                    n += 1
                out = out + ((self // (1 << lo)) % (1 << n)) * (1 << lo)
                lo += n
            return out
        return fork_value(self) & fork_value(o)

    __rand__ = __and__

    def __or__(self, o: Any) -> Any:
        if not is_sym(o) and o >= 0:
            return self + o - (self & o)
        return fork_value(self) | fork_value(o)

    __ror__ = __or__

    def __xor__(self, o: Any) -> Any:
        return fork_value(self) ^ fork_value(o)

    __rxor__ = __xor__

    def is_integer(self) -> bool:
        return True


class SymFloat(_NumMixin, float):
    """e / d, concretely n / d."""

    def __new__(cls, e: Any, d: int, n: Any) -> Any:
        if type(n) is Fraction:
            n = n.numerator * (d // n.denominator)
        self = float.__new__(cls, n / d)
        self.e = e
        self.d = d
        self.n = n
        return self

    __hash__ = _NumMixin.__hash__
    __reduce_ex__ = _NumMixin.__reduce_ex__

    @property
    def f(self) -> Fraction:
        return Fraction(self.n, self.d)

    @property
    def concrete(self) -> float:
        return self.n / self.d

    def __str__(self) -> str:
        return current().token("float", self)

    def trunc(self) -> Any:
        if self.d == 1:
            return SymInt(self.e, self.n)
        run = current()
        if self >= 0:
            return SymInt(run.floordiv(self.e, self.d), self.n // self.d)
        return SymInt(lin_scale(run.floordiv(lin_scale(self.e, -1), self.d), -1), -(-self.n // self.d))

    __trunc__ = trunc

    def __int__(self) -> int:
        return int(self.f)

    def __float__(self) -> float:
        return self.n / self.d

    def __floor__(self) -> Any:
        return SymInt(current().floordiv(self.e, self.d), self.n // self.d)

    def __ceil__(self) -> Any:
        return -((-self).__floor__())

    def __round__(self, n: Any = None) -> Any:
        if n is None:
            r = (self + Fraction(1, 2)).__floor__()
            if self.d % 2 == 0 and bool(compare("eq", (self - r) * 2, -1)) and bool(compare("eq", r % 2, 1)):
                r = r - 1  # a tie goes to the even side
            return r
        k = 10**n
        return (self * k).__round__() / k

    def is_integer(self) -> Any:
        if self.d == 1:
            return True
        return compare("eq", self % 1, 0)


def fork_value(v: Any, limit: int = 64) -> Any:
    """Enumerate the values of a symbolic number through solver-driven forks."""
    if isinstance(v, SymInt):
        return current().fork(v.e, int.__int__(v))
    if isinstance(v, SymFloat):
        current().fork(v.e, v.n)
        return v.n / v.d
    if isinstance(v, SymBool):
        return bool(v)
    return v


def concrete_of(v: Any) -> Any:
    if isinstance(v, SymInt):
        return int.__int__(v)
    if isinstance(v, SymFloat):
        return v.n / v.d
    if isinstance(v, SymBool):
        return v.c
    return v


# ---------------------------------------------------------------------------
# Token text
# ---------------------------------------------------------------------------

TOK = re.compile(r"<~(\d+)~>")
TOKB = re.compile(rb"<~(\d+)~>")


def lift(text: Any) -> Any:
    """The symbolic value a token text stands for, or None if not one token."""
    if isinstance(text, (bytes, bytearray)):
        m = TOKB.fullmatch(bytes(text))
    elif isinstance(text, str):
        m = TOK.fullmatch(text)
    else:
        return None
    if not m or CUR is None:
        return None
    idx = int(m.group(1))
    if idx >= len(CUR.tokens):
        return None
    return CUR.tokens[idx][1]


def lift_kind(text: Any) -> tuple[str, Any] | None:
    if isinstance(text, (bytes, bytearray)):
        m = TOKB.fullmatch(bytes(text))
    elif isinstance(text, str):
        m = TOK.fullmatch(text)
    else:
        return None
    if not m or CUR is None:
        return None
    idx = int(m.group(1))
    return CUR.tokens[idx] if idx < len(CUR.tokens) else None


def has_token(text: bytes) -> bool:
    return b"<~" in text


def pin_value(v: Any) -> Any:
    run = current()
    if isinstance(v, SymInt):
        run.pin(cond("eq", Lin(v.e.t, v.e.k - int.__int__(v))))
    elif isinstance(v, SymFloat):
        run.pin(cond("eq", Lin(v.e.t, v.e.k - v.n)))
    return concrete_of(v)


def token_text(kind: str, v: Any) -> str:
    if kind == "iso":
        return v.real().isoformat()
    c = concrete_of(v)
    return str(c)


def concretize_text(text: bytes) -> bytes:
    """Replace tokens by their concrete text, pinning the values."""

    def sub(m: Any) -> bytes:
        kind, v = current().tokens[int(m.group(1))]
        if kind == "iso":
            pin_value(v.us)
        else:
            pin_value(v)
        return token_text(kind, v).encode()

    return TOKB.sub(sub, text)


def text_eq(a: bytes, b: bytes) -> bool:
    """Equality of two byte strings that may contain tokens (forks)."""
    if a == b:
        return True
    ta, tb = b"<~" in a, b"<~" in b
    if not ta and not tb:
        return False
    sa, sb = TOKB.split(a), TOKB.split(b)
    run = current()
    if sa[::2] == sb[::2] and len(sa) > 1:
        conds = []
        for i, j in zip(sa[1::2], sb[1::2]):
            if i == j:
                continue
            (k1, v1), (k2, v2) = run.tokens[int(i)], run.tokens[int(j)]
            x = v1.us if k1 == "iso" else v1
            y = v2.us if k2 == "iso" else v2
            if k1 != k2:
                break
            conds.append(x == y)
        else:
            return bool(and_(*conds))
    # literal vs single int token in same frame
    if ta and not tb:
        a, b, sa, sb, ta, tb = b, a, sb, sa, tb, ta
    if tb and not ta and len(sb) == 3:
        pre, suf = sb[0], sb[2]
        if a.startswith(pre) and a.endswith(suf) and len(a) > len(pre) + len(suf) - 1:
            mid = a[len(pre) : len(a) - len(suf)] if suf else a[len(pre) :]
            kind, v = run.tokens[int(sb[1])]
            if kind == "int":
                if re.fullmatch(rb"-?(0|[1-9]\d*)", mid):
                    return bool(v == int(mid))
                return False
        else:
            return False
    return concretize_text(a) == concretize_text(b)
