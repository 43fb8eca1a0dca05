"""Lua 5.1 subset: parsed and translated to Python closures at run time.

The text translated is the one the code under test hands to Redis
(SCRIPT LOAD / EVAL), so the encoding always follows /repo's current source.
Values: nil=None, booleans, numbers (Python or symbolic), byte strings,
LuaTable, Python callables returning a list of results.
"""

from __future__ import annotations

import re
from fractions import Fraction
from typing import Any

from . import sym
from .sym import SymBool, SymFloat, SymInt, is_sym, lift, text_eq


class LuaError(Exception):
    def __init__(self, value: Any) -> None:
        self.value = value
        super().__init__(value.decode(errors="replace") if isinstance(value, bytes) else str(value))


class LuaTable:
    __slots__ = ("h", "n")

    def __init__(self) -> None:
        self.h: dict[Any, Any] = {}
        self.n = 0

    @staticmethod
    def array(items: Any) -> "LuaTable":
        t = LuaTable()
        for i, v in enumerate(items, 1):
            t.h[i] = v
        t.n = len(t.h)
        return t

    def get(self, k: Any) -> Any:
        k = _key(k)
        if isinstance(k, bytes) and (b"<~" in k or self._has_tok()):
            for kk, v in self.h.items():
                if isinstance(kk, bytes) and text_eq(kk, k):
                    return v
            return None
        return self.h.get(k)

    def _has_tok(self) -> bool:
        return any(isinstance(k, bytes) and b"<~" in k for k in self.h)

    def set(self, k: Any, v: Any) -> None:
        if k is None:
            raise LuaError(b"table index is nil")
        k = _key(k)
        if isinstance(k, bytes) and (b"<~" in k or self._has_tok()):
            for kk in list(self.h):
                if isinstance(kk, bytes) and text_eq(kk, k):
                    k = kk
                    break
        if v is None:
            self.h.pop(k, None)
        else:
            self.h[k] = v

    def length(self) -> int:
        n = len(self.h)
        h = self.h
        if n and n in h and (n + 1) not in h:
            return n
        i = 0
        while (i + 1) in h:
            i += 1
        return i

    def items_array(self) -> list[Any]:
        return [self.h[i] for i in range(1, self.length() + 1)]


def _key(k: Any) -> Any:
    if isinstance(k, (SymInt, SymFloat)):
        k = sym.fork_value(k)
    if isinstance(k, float) and k.is_integer():
        return int(k)
    return k


# ---------------------------------------------------------------------------
# Lexer
# ---------------------------------------------------------------------------

_KEYWORDS = {
    "and", "break", "do", "else", "elseif", "end", "false", "for", "function",
    "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true",
    "until", "while",
}
_TOKEN_RE = re.compile(
    r"""
    (?P<ws>\s+)
  | (?P<lcomment>--\[(?P<eq1>=*)\[.*?\](?P=eq1)\])
  | (?P<comment>--[^\n]*)
  | (?P<lstr>\[(?P<eq2>=*)\[(?P<lbody>.*?)\](?P=eq2)\])
  | (?P<num>0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)
  | (?P<name>[A-Za-z_]\w*)
  | (?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')
  | (?P<op>\.\.\.|\.\.|==|~=|<=|>=|[-+*/%^\#<>=(){}\[\];:,.])
    """,
    re.X | re.S,
)


def _unescape(body: str) -> bytes:
    out = bytearray()
    i = 0
    simple = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, '"': 34, "'": 39, "\n": 10}
    while i < len(body):
        c = body[i]
        if c != "\\":
            out += c.encode()
            i += 1
            continue
        i += 1
        c = body[i]
        if c.isdigit():
            j = i
            while j < len(body) and j < i + 3 and body[j].isdigit():
                j += 1
            out.append(int(body[i:j]))
            i = j
        elif c == "x":
            out.append(int(body[i + 1 : i + 3], 16))
            i += 3
        else:
            if c in simple:
                out.append(simple[c])
            else:
                out += c.encode()
            i += 1
    return bytes(out)


def tokenize(src: str) -> list[tuple[str, Any]]:
    toks: list[tuple[str, Any]] = []
    i = 0
    while i < len(src):
        m = _TOKEN_RE.match(src, i)
        if not m:
            raise LuaError(f"lex error near {src[i:i+20]!r}".encode())
        i = m.end()
        k = m.lastgroup
        if m.group("ws") is not None or m.group("lcomment") is not None or m.group("comment") is not None:
            continue
        if m.group("lstr") is not None:
            b = m.group("lbody")
            toks.append(("str", (b[1:] if b.startswith("\n") else b).encode()))
        elif m.group("num") is not None:
            t = m.group("num")
            toks.append(("num", int(t, 0) if re.fullmatch(r"0[xX].*|\d+", t) and not re.fullmatch(r"0\d+", t) else float(t)))
        elif m.group("name") is not None:
            t = m.group("name")
            toks.append(("kw", t) if t in _KEYWORDS else ("name", t))
        elif m.group("str") is not None:
            toks.append(("str", _unescape(m.group("str")[1:-1])))
        else:
            toks.append(("op", m.group("op")))
        _ = k
    toks.append(("eof", None))
    return toks


# ---------------------------------------------------------------------------
# Translator: recursive descent straight to Python source
# ---------------------------------------------------------------------------


class _Fn:
    def __init__(self, parent: "_Fn | None") -> None:
        self.parent = parent
        self.locals: set[str] = set()
        self.nonlocals: set[str] = set()


class Translator:
    BIN = {
        "or": (1, 1), "and": (2, 2),
        "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "==": (3, 3),
        "..": (5, 4), "+": (6, 6), "-": (6, 6), "*": (7, 7), "/": (7, 7), "%": (7, 7), "^": (10, 9),
    }
    UNARY = 8

    def __init__(self, src: str) -> None:
        self.t = tokenize(src)
        self.p = 0
        self.out: list[str] = []
        self.ind = 1
        self.scopes: list[dict[str, str]] = [{}]
        self.uid = 0
        self.fn = _Fn(None)
        self.consts: list[Any] = []

    # helpers
    def peek(self) -> tuple[str, Any]:
        return self.t[self.p]

    def next(self) -> tuple[str, Any]:
        t = self.t[self.p]
        self.p += 1
        return t

    def at(self, v: str) -> bool:
        k, x = self.t[self.p]
        return k in ("kw", "op") and x == v

    def accept(self, v: str) -> bool:
        if self.at(v):
            self.p += 1
            return True
        return False

    def expect(self, v: str) -> None:
        if not self.accept(v):
            raise LuaError(f"syntax error: expected {v!r} near {self.t[self.p:self.p+4]}".encode())

    def name(self) -> str:
        k, v = self.next()
        if k != "name":
            raise LuaError(f"syntax error: name expected near {v!r}".encode())
        return v

    def emit(self, line: str) -> None:
        self.out.append("    " * self.ind + line)

    def tmp(self) -> str:
        self.uid += 1
        v = f"_t{self.uid}"
        self.fn.locals.add(v)
        return v

    def declare(self, n: str) -> str:
        self.uid += 1
        v = f"L{self.uid}_{n}"
        self.scopes[-1][n] = v
        self.fn.locals.add(v)
        return v

    def lookup(self, n: str) -> str | None:
        for s in reversed(self.scopes):
            if n in s:
                v = s[n]
                return v
        return None

    def mark_assign(self, v: str) -> None:
        if v not in self.fn.locals:
            self.fn.nonlocals.add(v)

    def const(self, v: Any) -> str:
        self.consts.append(v)
        return f"_K[{len(self.consts) - 1}]"

    # blocks
    def block(self) -> None:
        self.scopes.append({})
        start = len(self.out)
        while not (self.peek()[0] == "eof" or (self.peek()[0] == "kw" and self.peek()[1] in ("end", "else", "elseif", "until"))):
            if self.statement():
                break
        if len(self.out) == start:
            self.emit("pass")
        self.scopes.pop()

    def statement(self) -> bool:
        if self.accept(";"):
            return False
        k, v = self.peek()
        if k == "kw":
            if v == "local":
                self.next()
                if self.accept("function"):
                    n = self.name()
                    pv = self.declare(n)
                    self.funcbody(pv)
                    return False
                names = [self.name()]
                while self.accept(","):
                    names.append(self.name())
                if self.accept("="):
                    exprs = self.exprlist()
                    if len(names) == 1 and len(exprs) == 1:
                        e = self.single(exprs[0])
                        pv = self.declare(names[0])
                        self.emit(f"{pv} = {e}")
                    else:
                        vals = self.adjust(exprs, len(names))
                        pvs = [self.declare(n) for n in names]
                        self.emit(f"{', '.join(pvs)}{',' if len(pvs) == 1 else ''} = {vals}")
                else:
                    for n in names:
                        self.emit(f"{self.declare(n)} = None")
                return False
            if v == "if":
                self.next()
                cond = self.expr()
                self.expect("then")
                self.emit(f"if _truthy({self.single(cond)}):")
                self.ind += 1
                self.block()
                self.ind -= 1
                depth = 0
                while True:
                    if self.accept("elseif"):
                        self.emit("else:")
                        self.ind += 1
                        depth += 1
                        cond = self.expr()
                        self.expect("then")
                        self.emit(f"if _truthy({self.single(cond)}):")
                        self.ind += 1
                        self.block()
                        self.ind -= 1
                    elif self.accept("else"):
                        self.emit("else:")
                        self.ind += 1
                        self.block()
                        self.ind -= 1
                        self.expect("end")
                        break
                    else:
                        self.expect("end")
                        break
                self.ind -= depth
                return False
            if v == "while":
                self.next()
                self.emit("while True:")
                self.ind += 1
                cond = self.expr()
                self.expect("do")
                self.emit(f"if not _truthy({self.single(cond)}): break")
                self.block()
                self.ind -= 1
                self.expect("end")
                return False
            if v == "repeat":
                self.next()
                self.emit("while True:")
                self.ind += 1
                self.scopes.append({})
                while not self.at("until"):
                    if self.statement():
                        break
                self.expect("until")
                cond = self.expr()
                self.emit(f"if _truthy({self.single(cond)}): break")
                self.scopes.pop()
                self.ind -= 1
                return False
            if v == "for":
                self.next()
                names = [self.name()]
                if self.accept("="):
                    a = self.single(self.expr())
                    self.expect(",")
                    b = self.single(self.expr())
                    c = "1"
                    if self.accept(","):
                        c = self.single(self.expr())
                    self.expect("do")
                    self.scopes.append({})
                    pv = self.declare(names[0])
                    self.emit(f"for {pv} in _range({a}, {b}, {c}):")
                else:
                    while self.accept(","):
                        names.append(self.name())
                    self.expect("in")
                    exprs = self.exprlist()
                    vals = self.adjust(exprs, 3)
                    self.expect("do")
                    self.scopes.append({})
                    pvs = [self.declare(n) for n in names]
                    self.emit(f"for {', '.join(pvs)}{',' if len(pvs) == 1 else ''} in _iter({vals}, {len(pvs)}):")
                self.ind += 1
                self.block()
                self.ind -= 1
                self.scopes.pop()
                self.expect("end")
                return False
            if v == "do":
                self.next()
                self.emit("if True:")
                self.ind += 1
                self.block()
                self.ind -= 1
                self.expect("end")
                return False
            if v == "function":
                self.next()
                n = self.name()
                target = self.lookup(n)
                if target is None:
                    t = self.tmp()
                    self.funcbody(t)
                    self.emit(f"_G.set({n.encode()!r}, {t})")
                else:
                    self.mark_assign(target)
                    self.funcbody(target)
                return False
            if v == "return":
                self.next()
                if self.peek()[0] == "eof" or (self.peek()[0] == "kw" and self.peek()[1] in ("end", "else", "elseif", "until")) or self.at(";"):
                    self.accept(";")
                    self.emit("return []")
                else:
                    exprs = self.exprlist()
                    self.accept(";")
                    self.emit(f"return {self.multi(exprs)}")
                return True
            if v == "break":
                self.next()
                self.accept(";")
                self.emit("break")
                return True
        # assignment or call
        e = self.suffixed()
        if self.at("=") or self.at(","):
            targets = [e]
            while self.accept(","):
                targets.append(self.suffixed())
            self.expect("=")
            exprs = self.exprlist()
            if len(targets) == 1 and len(exprs) == 1:
                self.assign(targets[0], self.single(exprs[0]))
            else:
                vals = self.adjust(exprs, len(targets))
                ts = [self.tmp() for _ in targets]
                self.emit(f"{', '.join(ts)}{',' if len(ts) == 1 else ''} = {vals}")
                for tg, tv in zip(targets, ts):
                    self.assign(tg, tv)
            return False
        if e[0] != "call":
            raise LuaError(b"syntax error: expression statement")
        self.emit(e[1])
        return False

    def assign(self, target: tuple[Any, ...], val: str) -> None:
        if target[0] == "var":
            self.mark_assign(target[1])
            self.emit(f"{target[1]} = {val}")
        elif target[0] == "global":
            self.emit(f"_setglobal(_G, {target[1]!r}, {val})")
        elif target[0] == "index":
            self.emit(f"_setindex({target[2]}, {target[3]}, {val})")
        else:
            raise LuaError(b"cannot assign")

    # expressions return tuples: (kind, python_source, ...)
    def exprlist(self) -> list[tuple[Any, ...]]:
        es = [self.expr()]
        while self.accept(","):
            es.append(self.expr())
        return es

    def single(self, e: tuple[Any, ...]) -> str:
        if e[0] == "call":
            return f"_first({e[1]})"
        if e[0] == "vararg":
            return "_first(_va)"
        return e[1]

    def multi(self, es: list[tuple[Any, ...]]) -> str:
        """Python list source of all values."""
        if not es:
            return "[]"
        parts = [self.single(e) for e in es[:-1]]
        last = es[-1]
        if last[0] == "call":
            if not parts:
                return last[1]
            parts.append("*" + last[1])
        elif last[0] == "vararg":
            parts.append("*_va")
        else:
            parts.append(last[1])
        return "[" + ", ".join(parts) + "]"

    def adjust(self, es: list[tuple[Any, ...]], n: int) -> str:
        return f"_adjust({self.multi(es)}, {n})"

    def expr(self, limit: int = 0) -> tuple[Any, ...]:
        k, v = self.peek()
        if (k == "kw" and v == "not") or (k == "op" and v in ("-", "#")):
            self.next()
            e = self.single(self.expr(self.UNARY))
            if v == "not":
                left: tuple[Any, ...] = ("e", f"(not _truthy({e}))")
            elif v == "-":
                left = ("e", f"_neg({e})")
            else:
                left = ("e", f"_len({e})")
        else:
            left = self.simple()
        while True:
            k, v = self.peek()
            if k not in ("op", "kw") or v not in self.BIN:
                break
            lp, rp = self.BIN[v]
            if lp <= limit:
                break
            self.next()
            a = self.single(left)
            right = self.single(self.expr(rp))
            if v == "and":
                t = self.tmp()
                left = ("e", f"({right} if _truthy({t} := {a}) else {t})")
            elif v == "or":
                t = self.tmp()
                left = ("e", f"({t} if _truthy({t} := {a}) else {right})")
            else:
                f = {
                    "<": "_lt({a}, {b})", ">": "_lt({b}, {a})", "<=": "_le({a}, {b})", ">=": "_le({b}, {a})",
                    "==": "_eq({a}, {b})", "~=": "(not _eq({a}, {b}))", "..": "_concat({a}, {b})",
                    "+": "_ar('add', {a}, {b})", "-": "_ar('sub', {a}, {b})", "*": "_ar('mul', {a}, {b})",
                    "/": "_ar('div', {a}, {b})", "%": "_ar('mod', {a}, {b})", "^": "_ar('pow', {a}, {b})",
                }[v]
                left = ("e", f.format(a=a, b=right))
        return left

    def simple(self) -> tuple[Any, ...]:
        k, v = self.peek()
        if k == "num":
            self.next()
            return ("e", repr(v))
        if k == "str":
            self.next()
            return ("e", repr(v))
        if k == "kw":
            if v == "nil":
                self.next()
                return ("e", "None")
            if v == "true":
                self.next()
                return ("e", "True")
            if v == "false":
                self.next()
                return ("e", "False")
            if v == "function":
                self.next()
                t = self.tmp()
                self.funcbody(t)
                return ("e", t)
        if k == "op" and v == "...":
            self.next()
            return ("vararg", "_va")
        if k == "op" and v == "{":
            return self.table()
        return self.suffixed()

    def table(self) -> tuple[Any, ...]:
        self.expect("{")
        pos: list[tuple[Any, ...]] = []
        named: list[tuple[str, str]] = []
        while not self.at("}"):
            if self.accept("["):
                kx = self.single(self.expr())
                self.expect("]")
                self.expect("=")
                named.append((kx, self.single(self.expr())))
            elif self.peek()[0] == "name" and self.t[self.p + 1] == ("op", "="):
                n = self.name()
                self.expect("=")
                named.append((repr(n.encode()), self.single(self.expr())))
            else:
                pos.append(self.expr())
            if not (self.accept(",") or self.accept(";")):
                break
        self.expect("}")
        nm = "[" + ", ".join(f"({a}, {b})" for a, b in named) + "]"
        return ("e", f"_table({self.multi(pos)}, {nm})")

    def suffixed(self) -> tuple[Any, ...]:
        k, v = self.peek()
        if k == "name":
            self.next()
            pv = self.lookup(v)
            e: tuple[Any, ...] = ("var", pv) if pv else ("global", v.encode())
            if e[0] == "global":
                e = ("global", e[1])
        elif self.accept("("):
            inner = self.single(self.expr())
            self.expect(")")
            e = ("e", f"({inner})")
        else:
            raise LuaError(f"syntax error near {v!r}".encode())
        while True:
            if self.accept("."):
                n = self.name()
                b = self.value(e)
                e = ("index", f"_index({b}, {n.encode()!r})", b, repr(n.encode()))
            elif self.at("["):
                self.next()
                kx = self.single(self.expr())
                self.expect("]")
                b = self.value(e)
                e = ("index", f"_index({b}, {kx})", b, kx)
            elif self.accept(":"):
                n = self.name()
                b = self.value(e)
                args = self.callargs()
                e = ("call", f"_method({b}, {n.encode()!r}, {args})")
            elif self.at("(") or self.at("{") or self.peek()[0] == "str":
                b = self.value(e)
                args = self.callargs()
                e = ("call", f"_call({b}, {args})")
            else:
                break
        if e[0] == "global":
            return ("global", e[1]) if self.at("=") or self.at(",") else ("e", f"_getglobal(_G, {e[1]!r})")
        return e

    def value(self, e: tuple[Any, ...]) -> str:
        if e[0] == "global":
            return f"_getglobal(_G, {e[1]!r})"
        return self.single(e)

    def callargs(self) -> str:
        k, v = self.peek()
        if k == "str":
            self.next()
            return f"[{v!r}]"
        if self.at("{"):
            return f"[{self.table()[1]}]"
        self.expect("(")
        if self.accept(")"):
            return "[]"
        es = self.exprlist()
        self.expect(")")
        return self.multi(es)

    def funcbody(self, target: str) -> None:
        self.expect("(")
        params: list[str] = []
        vararg = False
        while not self.at(")"):
            if self.accept("..."):
                vararg = True
                break
            params.append(self.name())
            if not self.accept(","):
                break
        self.expect(")")
        self.uid += 1
        fname = f"_f{self.uid}"
        saved_out, saved_ind = self.out, self.ind
        self.out = []
        self.ind = saved_ind + 1
        fn = _Fn(self.fn)
        self.fn = fn
        self.scopes.append({})
        pvs = [self.declare(p) for p in params]
        self.block()
        self.expect("end")
        self.scopes.pop()
        body = self.out
        self.out, self.ind = saved_out, saved_ind
        self.fn = fn.parent  # type: ignore[assignment]
        self.emit(f"def {fname}(_va):")
        self.ind += 1
        nl = fn.nonlocals - fn.locals
        if nl:
            self.emit("nonlocal " + ", ".join(sorted(nl)))
            for v in nl:
                if v not in self.fn.locals:
                    self.fn.nonlocals.add(v)
        if pvs:
            self.emit(f"{', '.join(pvs)}{',' if len(pvs) == 1 else ''} = _adjust(_va, {len(pvs)})")
        if vararg:
            self.emit(f"_va = _va[{len(pvs)}:]")
        self.out.extend(body)
        self.emit("return []")
        self.ind -= 1
        self.emit(f"{target} = {fname}")

    def translate(self) -> str:
        self.block()
        if self.peek()[0] != "eof":
            raise LuaError(f"syntax error near {self.peek()!r}".encode())
        return "def _main(_G, KEYS, ARGV, _va=[]):\n" + "\n".join(self.out) + "\n    return []\n"


# ---------------------------------------------------------------------------
# Runtime
# ---------------------------------------------------------------------------


def _truthy(v: Any) -> bool:
    if isinstance(v, SymBool):
        return bool(v)
    return v is not None and v is not False


def _first(vals: list[Any]) -> Any:
    return vals[0] if vals else None


def _adjust(vals: list[Any], n: int) -> list[Any]:
    if len(vals) < n:
        return list(vals) + [None] * (n - len(vals))
    return vals[:n]


def _isnum(v: Any) -> bool:
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def norm(v: Any) -> Any:
    if isinstance(v, float) and not isinstance(v, SymFloat) and v == v and v not in (float("inf"), float("-inf")) and v.is_integer() and abs(v) < 1e15:
        return int(v)
    return v


_NUM = re.compile(rb"\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|0[xX][0-9a-fA-F]+|inf|nan)\s*")


def tonumber(v: Any, base: Any = None) -> Any:
    if _isnum(v):
        return v
    if isinstance(v, bytes):
        t = lift(v)
        if t is not None:
            if _isnum(t):
                return t
            return None
        if b"<~" in v:
            v = sym.concretize_text(v)
        if base is not None and base != 10:
            try:
                return int(v, base)
            except ValueError:
                return None
        if not _NUM.fullmatch(v):
            return None
        s = v.strip()
        try:
            if s[:2].lower() == b"0x":
                return int(s, 16)
            if re.fullmatch(rb"[-+]?\d+", s):
                return int(s)
            return norm(float(s))
        except ValueError:
            return None
    return None


def fmt_num(v: Any) -> bytes:
    if isinstance(v, SymInt):
        return str(v).encode()
    if isinstance(v, SymFloat):
        if v.d == 1:
            return str(SymInt(v.e, v.n)).encode()
        return str(v).encode()
    if isinstance(v, int):
        if abs(v) >= 10**15:
            return ("%.14g" % v).encode()
        return str(v).encode()
    if v == float("inf"):
        return b"inf"
    if v == float("-inf"):
        return b"-inf"
    return ("%.14g" % v).encode()


def tostring(v: Any) -> bytes:
    if v is None:
        return b"nil"
    if isinstance(v, SymBool):
        v = bool(v)
    if v is True:
        return b"true"
    if v is False:
        return b"false"
    if _isnum(v):
        return fmt_num(v)
    if isinstance(v, bytes):
        return v
    return f"table: {id(v)}".encode()


def typename(v: Any) -> str:
    if v is None:
        return "nil"
    if isinstance(v, (bool, SymBool)):
        return "boolean"
    if _isnum(v):
        return "number"
    if isinstance(v, bytes):
        return "string"
    if isinstance(v, LuaTable):
        return "table"
    return "function"


def _eq(a: Any, b: Any) -> bool:
    if _isnum(a) and _isnum(b):
        return bool(a == b)
    if isinstance(a, bytes) and isinstance(b, bytes):
        return text_eq(a, b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return bool(a) == bool(b)
    if a is None or b is None:
        return a is b
    return a is b


def _lt(a: Any, b: Any) -> bool:
    if _isnum(a) and _isnum(b):
        return bool(a < b)
    if isinstance(a, bytes) and isinstance(b, bytes):
        if b"<~" in a or b"<~" in b:
            a, b = sym.concretize_text(a), sym.concretize_text(b)
        return a < b
    raise LuaError(f"attempt to compare {typename(a)} with {typename(b)}".encode())


def _le(a: Any, b: Any) -> bool:
    if _isnum(a) and _isnum(b):
        return bool(a <= b)
    if isinstance(a, bytes) and isinstance(b, bytes):
        if b"<~" in a or b"<~" in b:
            a, b = sym.concretize_text(a), sym.concretize_text(b)
        return a <= b
    raise LuaError(f"attempt to compare {typename(a)} with {typename(b)}".encode())


def _ar(op: str, a: Any, b: Any) -> Any:
    x, y = tonumber(a), tonumber(b)
    if x is None or y is None:
        bad = a if x is None else b
        raise LuaError(f"attempt to perform arithmetic on a {typename(bad)} value".encode())
    if op == "add":
        return norm(x + y)
    if op == "sub":
        return norm(x - y)
    if op == "mul":
        return norm(x * y)
    if op == "div":
        if not is_sym(y) and y == 0:
            return float("inf") if x > 0 else float("-inf") if x < 0 else float("nan")
        return norm(x / y)
    if op == "mod":
        return norm(x % y)
    return norm(x**y)


def _neg(a: Any) -> Any:
    x = tonumber(a)
    if x is None:
        raise LuaError(f"attempt to perform arithmetic on a {typename(a)} value".encode())
    return -x


def _len(v: Any) -> int:
    if isinstance(v, bytes):
        if b"<~" in v:
            v = sym.concretize_text(v)
        return len(v)
    if isinstance(v, LuaTable):
        return v.length()
    raise LuaError(f"attempt to get length of a {typename(v)} value".encode())


def _concat(a: Any, b: Any) -> bytes:
    for x in (a, b):
        if not (isinstance(x, bytes) or _isnum(x)):
            raise LuaError(f"attempt to concatenate a {typename(x)} value".encode())
    return tostring(a) + tostring(b)


def _index(t: Any, k: Any) -> Any:
    if isinstance(t, LuaTable):
        return t.get(k)
    if isinstance(t, bytes):
        return STRING.get(k)
    raise LuaError(f"attempt to index a {typename(t)} value".encode())


def _setindex(t: Any, k: Any, v: Any) -> None:
    if not isinstance(t, LuaTable):
        raise LuaError(f"attempt to index a {typename(t)} value".encode())
    t.set(k, v)


def _getglobal(g: LuaTable, n: bytes) -> Any:
    if n not in g.h:
        raise LuaError(b"Script attempted to access nonexistent global variable '" + n + b"'")
    return g.h[n]


def _setglobal(g: LuaTable, n: bytes, v: Any) -> None:
    raise LuaError(b"Script attempted to create global variable '" + n + b"'")


def _call(f: Any, args: list[Any]) -> list[Any]:
    if not callable(f):
        raise LuaError(f"attempt to call a {typename(f)} value".encode())
    return f(args)


def _method(o: Any, n: bytes, args: list[Any]) -> list[Any]:
    return _call(_index(o, n), [o, *args])


def _table(pos: list[Any], named: list[tuple[Any, Any]]) -> LuaTable:
    t = LuaTable()
    for i, v in enumerate(pos, 1):
        if v is not None:
            t.h[i] = v
    for k, v in named:
        t.set(k, v)
    return t


def _range(a: Any, b: Any, c: Any) -> Any:
    a, b, c = tonumber(a), tonumber(b), tonumber(c)
    if is_sym(c):
        c = sym.fork_value(c)
    i = a
    if c > 0:
        while i <= b:
            yield i
            i = i + c
    else:
        while i >= b:
            yield i
            i = i + c


def _iter(vals: list[Any], n: int) -> Any:
    f, s, ctl = vals
    if isinstance(f, _Next):
        for k, v in list(s.h.items()):
            yield [k, v][:n] if n <= 2 else [k, v] + [None] * (n - 2)
        return
    while True:
        r = _adjust(_call(f, [s, ctl]), n)
        if r[0] is None:
            return
        ctl = r[0]
        yield r


class _Next:
    def __call__(self, args: list[Any]) -> list[Any]:
        t, k = _adjust(args, 2)
        keys = list(t.h)
        i = 0 if k is None else keys.index(_key(k)) + 1
        if i >= len(keys):
            return [None]
        return [keys[i], t.h[keys[i]]]


_NEXT = _Next()


def _ipairs_step(args: list[Any]) -> list[Any]:
    t, i = args
    v = t.get(i + 1)
    return [None] if v is None else [i + 1, v]


# ---- Lua patterns -> re -----------------------------------------------------

_CLS = {
    "a": "A-Za-z", "d": "0-9", "l": "a-z", "u": "A-Z", "s": r"\s", "w": "A-Za-z0-9",
    "p": r"!-/:-@\[-`{-~", "x": "0-9A-Fa-f", "c": r"\x00-\x1f\x7f",
}


def pattern(p: bytes) -> "re.Pattern[bytes]":
    s = p.decode("latin-1")
    out = ""
    i = 0
    if s.startswith("^"):
        out += "^"
        i = 1

    def cls(c: str, inset: bool) -> str:
        lo = c.lower()
        if lo in _CLS:
            if c.isupper():
                return f"[^{_CLS[lo]}]"
            return _CLS[lo] if inset else f"[{_CLS[lo]}]"
        return re.escape(c)

    while i < len(s):
        c = s[i]
        if c == "%":
            i += 1
            item = cls(s[i], False)
            i += 1
        elif c == "[":
            j = i + 1
            item = "["
            if s[j] == "^":
                item += "^"
                j += 1
            first = True
            while s[j] != "]" or first:
                first = False
                if s[j] == "%":
                    j += 1
                    item += cls(s[j], True)
                elif j + 2 < len(s) and s[j + 1] == "-" and s[j + 2] != "]":
                    item += re.escape(s[j]) + "-" + re.escape(s[j + 2])
                    j += 2
                else:
                    item += re.escape(s[j])
                j += 1
            item += "]"
            i = j + 1
        elif c == ".":
            item = "(?s:.)"
            i += 1
        elif c in "()":
            out += c
            i += 1
            continue
        elif c == "$" and i == len(s) - 1:
            out += r"\Z"
            i += 1
            continue
        else:
            item = re.escape(c)
            i += 1
        if i < len(s) and s[i] in "*+?-":
            item += "*?" if s[i] == "-" else s[i]
            i += 1
        out += item
    return re.compile(out.encode("latin-1"))


def _gsub(args: list[Any]) -> list[Any]:
    s, p, r = args[0], args[1], args[2]
    n = args[3] if len(args) > 3 and args[3] is not None else 0
    s = tostring(s)
    rx = pattern(p)
    count = 0

    def rep(m: Any) -> bytes:
        nonlocal count
        count += 1
        whole = m.group(1) if m.re.groups else m.group(0)
        if isinstance(r, bytes) or _isnum(r):
            rr = tostring(r)
            return re.sub(rb"%(.)", lambda k: m.group(0) if k.group(1) == b"0" else (m.group(int(k.group(1))) if m.re.groups else m.group(0)) if k.group(1).isdigit() else k.group(1), rr, flags=re.S)
        if isinstance(r, LuaTable):
            v = r.get(whole)
        else:
            v = _first(_call(r, list(m.groups()) if m.re.groups else [m.group(0)]))
        return m.group(0) if v is None or v is False else tostring(v)

    return [rx.sub(rep, s, count=n), count]


def _idx(i: Any, n: int) -> int:
    i = int(sym.fork_value(i))
    return i if i >= 0 else max(n + i + 1, 0)


def _sub(args: list[Any]) -> list[Any]:
    s = tostring(args[0])
    if b"<~" in s:
        s = sym.concretize_text(s)
    n = len(s)
    i = _idx(args[1] if len(args) > 1 else 1, n)
    j = _idx(args[2] if len(args) > 2 and args[2] is not None else -1, n)
    return [s[max(i, 1) - 1 : min(j, n)]]


def _find(args: list[Any]) -> list[Any]:
    s, p = tostring(args[0]), tostring(args[1])
    init = args[2] if len(args) > 2 and args[2] is not None else 1
    plain = len(args) > 3 and _truthy(args[3])
    if b"<~" in s:
        s = sym.concretize_text(s)
    st = max(_idx(init, len(s)), 1) - 1
    if plain:
        k = s.find(p, st)
        return [None] if k < 0 else [k + 1, k + len(p)]
    m = pattern(p).search(s, st)
    return [None] if not m else [m.start() + 1, m.end(), *m.groups()]


def _match(args: list[Any]) -> list[Any]:
    s, p = tostring(args[0]), tostring(args[1])
    if b"<~" in s and b"<~" not in p:
        s = sym.concretize_text(s)
    m = pattern(p).search(s)
    if not m:
        return [None]
    return list(m.groups()) if m.re.groups else [m.group(0)]


def _gmatch(args: list[Any]) -> list[Any]:
    s, p = tostring(args[0]), tostring(args[1])
    it = pattern(p).finditer(s)

    def step(_a: list[Any]) -> list[Any]:
        for m in it:
            return list(m.groups()) if m.re.groups else [m.group(0)]
        return [None]

    return [step]


def _format(args: list[Any]) -> list[Any]:
    f = args[0].decode("latin-1")
    vals = list(args[1:])
    out = b""
    for m in re.finditer(r"%(%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])|([^%]+)", f, re.S):
        if m.group(2) is not None:
            out += m.group(2).encode("latin-1")
        elif m.group(1) == "%":
            out += b"%"
        else:
            spec = m.group(1)
            v = vals.pop(0)
            if spec[-1] in "sq":
                out += tostring(v)
            elif spec[-1] in "di":
                x = tonumber(v)
                if spec == "d" and is_sym(x):
                    out += fmt_num(x.trunc() if isinstance(x, SymFloat) else x)
                else:
                    out += ("%" + spec % ()).encode() % int(sym.fork_value(x)) if False else (("%" + spec) % int(sym.fork_value(x))).encode()
            else:
                x = tonumber(v)
                if is_sym(x) and spec in ("f", ".17g", ".6f", "g", ".0f"):
                    out += fmt_num(x)
                else:
                    out += (("%" + spec) % sym.fork_value(x)).encode()
    return [out]


def _mk(d: dict[str, Any]) -> LuaTable:
    t = LuaTable()
    for k, v in d.items():
        t.h[k.encode()] = v
    return t


STRING = _mk(
    {
        "gsub": _gsub, "sub": _sub, "find": _find, "match": _match, "gmatch": _gmatch, "format": _format,
        "len": lambda a: [_len(a[0])],
        "lower": lambda a: [tostring(a[0]).lower()],
        "upper": lambda a: [tostring(a[0]).upper()],
        "rep": lambda a: [tostring(a[0]) * int(sym.fork_value(a[1]))],
        "reverse": lambda a: [tostring(a[0])[::-1]],
        "byte": lambda a: [tostring(a[0])[(_idx(a[1] if len(a) > 1 else 1, 0)) - 1]],
        "char": lambda a: [bytes(int(x) for x in a)],
    }
)


def _t_insert(a: list[Any]) -> list[Any]:
    t = a[0]
    if len(a) == 2:
        t.set(t.length() + 1, a[1])
    else:
        n = t.length()
        pos = int(sym.fork_value(a[1]))
        for i in range(n, pos - 1, -1):
            t.h[i + 1] = t.h[i]
        t.set(pos, a[2])
    return []


def _t_remove(a: list[Any]) -> list[Any]:
    t = a[0]
    n = t.length()
    if n == 0:
        return [None]
    pos = int(sym.fork_value(a[1])) if len(a) > 1 and a[1] is not None else n
    v = t.h.get(pos)
    for i in range(pos, n):
        t.h[i] = t.h[i + 1]
    t.h.pop(n, None)
    return [v]


def _t_concat(a: list[Any]) -> list[Any]:
    sep = a[1] if len(a) > 1 and a[1] is not None else b""
    return [tostring(sep).join(tostring(x) for x in a[0].items_array())]


def _t_sort(a: list[Any]) -> list[Any]:
    import functools

    t = a[0]
    f = a[1] if len(a) > 1 else None

    def cmp(x: Any, y: Any) -> int:
        lt = (lambda p, q: _truthy(_first(_call(f, [p, q])))) if f else _lt
        return -1 if lt(x, y) else (1 if lt(y, x) else 0)

    items = sorted(t.items_array(), key=functools.cmp_to_key(cmp))
    for i, v in enumerate(items, 1):
        t.h[i] = v
    return []


def _unpack(a: list[Any]) -> list[Any]:
    t = a[0]
    i = int(sym.fork_value(a[1])) if len(a) > 1 and a[1] is not None else 1
    j = int(sym.fork_value(a[2])) if len(a) > 2 and a[2] is not None else t.length()
    return [t.h.get(k) for k in range(i, j + 1)]


def _floor(v: Any) -> Any:
    import math

    x = tonumber(v)
    if isinstance(x, SymFloat):
        return x.__floor__()
    return math.floor(x) if not is_sym(x) else x


def _ceil(v: Any) -> Any:
    import math

    x = tonumber(v)
    if isinstance(x, SymFloat):
        return x.__ceil__()
    return math.ceil(x) if not is_sym(x) else x


def _minmax(pick: Any) -> Any:
    def f(a: list[Any]) -> list[Any]:
        best = a[0]
        for x in a[1:]:
            if pick(x, best):
                best = x
        return [best]

    return f


def _select(a: list[Any]) -> list[Any]:
    if a[0] == b"#":
        return [len(a) - 1]
    return a[int(a[0]) :]


def _error(a: list[Any]) -> list[Any]:
    raise LuaError(a[0] if a else b"nil")


def _pcall(a: list[Any]) -> list[Any]:
    try:
        return [True, *_call(a[0], a[1:])]
    except LuaError as e:
        return [False, e.value if isinstance(e.value, (bytes, LuaTable)) else str(e).encode()]


def _assert(a: list[Any]) -> list[Any]:
    if not _truthy(a[0] if a else None):
        raise LuaError(a[1] if len(a) > 1 else b"assertion failed!")
    return a


def base_env() -> dict[bytes, Any]:
    e: dict[bytes, Any] = {}
    e[b"tonumber"] = lambda a: [tonumber(*a)]
    e[b"tostring"] = lambda a: [tostring(a[0])]
    e[b"type"] = lambda a: [typename(a[0]).encode()]
    e[b"ipairs"] = lambda a: [_ipairs_step, a[0], 0]
    e[b"pairs"] = lambda a: [_NEXT, a[0], None]
    e[b"next"] = _NEXT
    e[b"unpack"] = _unpack
    e[b"select"] = _select
    e[b"error"] = _error
    e[b"pcall"] = _pcall
    e[b"assert"] = _assert
    e[b"string"] = STRING
    e[b"table"] = _mk(
        {
            "insert": _t_insert, "remove": _t_remove, "concat": _t_concat, "sort": _t_sort,
            "getn": lambda a: [a[0].length()], "unpack": _unpack,
            "maxn": lambda a: [a[0].length()],
        }
    )
    e[b"math"] = _mk(
        {
            "floor": lambda a: [_floor(a[0])],
            "ceil": lambda a: [_ceil(a[0])],
            "max": _minmax(lambda x, y: _lt(y, x)),
            "min": _minmax(lambda x, y: _lt(x, y)),
            "abs": lambda a: [abs(tonumber(a[0]))],
            "huge": float("inf"),
            "pow": lambda a: [_ar("pow", a[0], a[1])],
            "fmod": lambda a: [_ar("mod", a[0], a[1])],
        }
    )
    return e


_CACHE: dict[str, Any] = {}


def compile_lua(src: str) -> Any:
    fn = _CACHE.get(src)
    if fn is None:
        tr = Translator(src)
        # KEYS / ARGV are predefined locals of the chunk
        tr.scopes[0].update({"KEYS": "KEYS", "ARGV": "ARGV"})
        code = tr.translate()
        ns = dict(globals())
        ns["_K"] = tr.consts
        exec(compile(code, "<lua>", "exec"), ns)
        fn = ns["_main"]
        _CACHE[src] = fn
    return fn
