"""Stand-ins for builtins / math / numpy, injected into the ecoengine modules' globals
for the symbolic run only (never for a replay).  With plain numbers each behaves
exactly like the original."""
from __future__ import annotations

import builtins
import math
import sys

import numpy as np
import z3

from . import core
from .core import Sym, SymBool, SymInt, SymNum, SymReal, SymSeq, has_sym, is_inf, is_nan, is_num, wrap

_isinstance = builtins.isinstance


def _ite_pick(vals, want_max):
    """max/min of numbers, some symbolic, as an ITE term."""
    fin = []
    for v in vals:
        if is_nan(v):
            fin.append(v)
            continue
        if is_inf(v):
            if (v > 0) == want_max:
                return v
            continue
        fin.append(v)
    if not fin:
        return vals[0]
    # fold the concrete ones first
    conc = [v for v in fin if not _isinstance(v, Sym)]
    syms = [v for v in fin if _isinstance(v, Sym)]
    acc = None
    if conc:
        acc = (builtins.max if want_max else builtins.min)(conc)
    for s in syms:
        if acc is None:
            acc = s
            continue
        x, y = core._coerce(acc), core._coerce(s)
        x, y, _ = core._both(x, y)
        p = q = None
        if core.CUR is not None:
            ap, aq = core.aff_of(acc), core.aff_of(s)
            iv = core.aff_iv(core.aff_lin(ap, aq, -1))
            if iv is not None and (iv[0] > 0 or iv[1] < 0):     # one always wins
                core.CUR.st.settled += 1
                acc = acc if (iv[0] > 0) == want_max else s
                continue
            p, q = core.aff_iv(ap), core.aff_iv(aq)
            if core.CUR.eng.fork_minmax:
                first = core.CUR.decide(x >= y if want_max else x <= y)
                if iv is not None:
                    core.CUR.tighten(core.aff_lin(ap, aq, -1), ">=" if want_max else "<=", first)
                acc = acc if first else s
                continue
        acc = wrap(z3.If(x >= y, x, y) if want_max else z3.If(x <= y, x, y))
        if p and q:
            pick = builtins.max if want_max else builtins.min
            acc.a = core.aff_atom(acc.e, pick(p[0], q[0]), pick(p[1], q[1]))
    return acc


def _maxmin(want_max):
    orig = builtins.max if want_max else builtins.min

    def f(*args, **kw):
        if "key" in kw:
            return orig(*args, **kw)
        if len(args) == 1:
            seq = args[0]
            vals = list(seq)
            if not vals:
                return orig(vals, **kw)
        else:
            vals = list(args)
        if any(_isinstance(v, Sym) for v in vals) and all(_isinstance(v, Sym) or is_num(v) for v in vals):
            return _ite_pick(vals, want_max)
        return orig(vals, **({} if "default" not in kw else kw)) if vals else orig(vals, **kw)

    return f


sh_max = _maxmin(True)
sh_min = _maxmin(False)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, float) or _isinstance(x, SymReal)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)


class sh_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        x = getattr(x, "_symval", x)
        if _isinstance(x, SymNum):
            return SymReal(core._real(x.e), x.a)
        if _isinstance(x, SymBool):
            return SymReal(core._real(x._int().e))
        if _isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.reshape(-1)[0])
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, int) or _isinstance(x, SymInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)


class sh_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        x = getattr(x, "_symval", x)
        if _isinstance(x, SymNum):
            return SymInt(core.trunc_expr(x.e))
        if _isinstance(x, SymBool):
            return x._int()
        return builtins.int(x, *a)


def sh_bool(x=False):
    if _isinstance(x, Sym):
        return builtins.bool(x)
    return builtins.bool(x)


def _unshim(t):
    if _isinstance(t, tuple):
        return tuple(_unshim(x) for x in t)
    if t is sh_float:
        return builtins.float
    if t is sh_int:
        return builtins.int
    if t is sh_bool:
        return builtins.bool
    return t


def sh_isinstance(x, t):
    t = _unshim(t)
    if _isinstance(x, SymReal):
        return _isinstance(1.5, t)
    if _isinstance(x, SymInt):
        return _isinstance(3, t)
    if _isinstance(x, SymBool):
        return _isinstance(True, t)
    if _isinstance(x, SymSeq):
        return _isinstance([], t)
    return _isinstance(x, t)


def sh_abs(x):
    return builtins.abs(x)


def sh_round(x, n=None):
    if _isinstance(x, SymNum):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def sh_sum(it, start=0):
    acc = start
    for v in it:
        acc = acc + v
    return acc


class MathShim:
    def __getattr__(self, n):
        return getattr(math, n)

    @staticmethod
    def isnan(x):
        return False if _isinstance(x, Sym) else math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if _isinstance(x, Sym) else math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if _isinstance(x, Sym) else math.isfinite(x)

    @staticmethod
    def sqrt(x):
        return core.sym_sqrt(x) if _isinstance(x, SymNum) else math.sqrt(x)

    @staticmethod
    def fabs(x):
        return abs(x) if _isinstance(x, SymNum) else math.fabs(x)

    @staticmethod
    def floor(x):
        return x.__floor__() if _isinstance(x, SymNum) else math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if _isinstance(x, SymNum) else math.ceil(x)

    @staticmethod
    def trunc(x):
        return x.__trunc__() if _isinstance(x, SymNum) else math.trunc(x)

    @staticmethod
    def fsum(it):
        it = list(it)
        return sh_sum(it) if has_sym(it) else math.fsum(it)

    @staticmethod
    def exp(x):
        return core.CUR.opaque("exp", x) if _isinstance(x, SymNum) else math.exp(x)

    @staticmethod
    def log(x, *a):
        return core.CUR.opaque("log", x, *a) if _isinstance(x, SymNum) else math.log(x, *a)

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if _isinstance(a, Sym) or _isinstance(b, Sym):
            d = abs(a - b)
            m = sh_max(abs(a), abs(b))
            return (d <= m * rel_tol) | (d <= abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def fmod(x, y):
        if _isinstance(x, Sym) or _isinstance(y, Sym):
            return x % y
        return math.fmod(x, y)


MATH = MathShim()


def _objarr(v):
    if _isinstance(v, SymSeq):
        v = list(v)
    a = np.empty(len(v), dtype=object)
    if v and all(_isinstance(x, (list, tuple, np.ndarray, SymSeq)) for x in v):
        rows = [_objarr(x) for x in v]
        return np.array([list(r) for r in rows], dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a


class NpShim:
    """numpy, with object arrays of symbolic numbers allowed where they matter."""

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def array(v, dtype=None, **kw):
        if _isinstance(v, (list, tuple, SymSeq)) and has_sym(v):
            return _objarr(v)
        if _isinstance(v, np.ndarray) and v.dtype == object and has_sym(list(v.flat)):
            return v.copy()
        if _isinstance(v, Sym):
            a = np.empty((), dtype=object)
            a[()] = v
            return a
        if _unshim(dtype) is not dtype:
            dtype = _unshim(dtype)
        return np.array(v, dtype=dtype, **kw)

    @staticmethod
    def asarray(v, dtype=None, **kw):
        if _isinstance(v, np.ndarray) and v.dtype == object:
            return v
        return NpShim.array(v, dtype=dtype, **kw)

    @staticmethod
    def _zeros_like_py(shape, val, dtype):
        a = np.empty(shape, dtype=object)
        a[...] = val
        return a

    @staticmethod
    def zeros(shape, dtype=float, **kw):
        # object dtype so that symbolic values may be stored
        if _unshim(dtype) in (builtins.float, np.float64):
            return NpShim._zeros_like_py(shape, 0.0, dtype)
        return np.zeros(shape, dtype=_unshim(dtype), **kw)

    @staticmethod
    def ones(shape, dtype=float, **kw):
        if _unshim(dtype) in (builtins.float, np.float64):
            return NpShim._zeros_like_py(shape, 1.0, dtype)
        return np.ones(shape, dtype=_unshim(dtype), **kw)

    @staticmethod
    def full(shape, v, dtype=None, **kw):
        if _isinstance(v, Sym) or dtype is None:
            return NpShim._zeros_like_py(shape, v, dtype)
        return np.full(shape, v, dtype=_unshim(dtype), **kw)

    @staticmethod
    def _vals(a):
        return list(a.flat) if _isinstance(a, np.ndarray) else list(a)

    @staticmethod
    def max(a, axis=None, **kw):
        if axis is None and not _isinstance(a, Sym) and has_sym(a):
            return sh_max(NpShim._vals(a))
        return np.max(a, axis=axis, **kw)

    amax = max

    @staticmethod
    def min(a, axis=None, **kw):
        if axis is None and not _isinstance(a, Sym) and has_sym(a):
            return sh_min(NpShim._vals(a))
        return np.min(a, axis=axis, **kw)

    amin = min

    @staticmethod
    def sum(a, axis=None, **kw):
        if axis is None and has_sym(a):
            return sh_sum(NpShim._vals(a))
        return np.sum(a, axis=axis, **kw)

    @staticmethod
    def mean(a, axis=None, **kw):
        if axis is None and has_sym(a):
            v = NpShim._vals(a)
            return sh_sum(v) / len(v)
        return np.mean(a, axis=axis, **kw)

    average = mean

    @staticmethod
    def cumsum(a, **kw):
        if has_sym(a):
            out, acc = [], 0
            for v in NpShim._vals(a):
                acc = acc + v
                out.append(acc)
            return _objarr(out)
        return np.cumsum(a, **kw)

    @staticmethod
    def maximum(a, b):
        return NpShim._elt(a, b, sh_max, np.maximum)

    @staticmethod
    def minimum(a, b):
        return NpShim._elt(a, b, sh_min, np.minimum)

    @staticmethod
    def _elt(a, b, f, orig):
        if not (has_sym(a) or has_sym(b)):
            return orig(a, b)
        aa = a if not _isinstance(a, (list, tuple)) else _objarr(a)
        bb = b if not _isinstance(b, (list, tuple)) else _objarr(b)
        if not _isinstance(aa, np.ndarray) and not _isinstance(bb, np.ndarray):
            return f(aa, bb)
        n = len(aa) if _isinstance(aa, np.ndarray) else len(bb)
        ga = list(aa) if _isinstance(aa, np.ndarray) else [aa] * n
        gb = list(bb) if _isinstance(bb, np.ndarray) else [bb] * n
        return _objarr([f(x, y) for x, y in zip(ga, gb)])

    @staticmethod
    def clip(a, lo, hi):
        if has_sym(a) or has_sym(lo) or has_sym(hi):
            return NpShim.minimum(NpShim.maximum(a, lo), hi)
        return np.clip(a, lo, hi)

    @staticmethod
    def abs(a):
        return abs(a)

    @staticmethod
    def where(c, *ab):
        if ab and (has_sym(c) or has_sym(ab[0]) or has_sym(ab[1])):
            n = None
            for q in (c,) + ab:
                if _isinstance(q, (np.ndarray, list, tuple)):
                    n = len(q)
            g = [list(q) if _isinstance(q, (np.ndarray, list, tuple)) else [q] * n for q in (c,) + ab]
            return _objarr([x if k else y for k, x, y in zip(*g)])
        return np.where(c, *ab)

    @staticmethod
    def isnan(a):
        if _isinstance(a, Sym):
            return False
        if has_sym(a):
            return np.array([False if _isinstance(x, Sym) else math.isnan(x) for x in NpShim._vals(a)])
        return np.isnan(a)

    @staticmethod
    def isclose(a, b, rtol=1e-5, atol=1e-8):
        if _isinstance(a, Sym) or _isinstance(b, Sym):
            return abs(a - b) <= atol + rtol * abs(b)
        return np.isclose(a, b, rtol=rtol, atol=atol)

    @staticmethod
    def interp(x, xp, fp, **kw):
        if _isinstance(x, Sym) or has_sym(xp) or has_sym(fp):
            xp, fp = list(xp), list(fp)
            if x <= xp[0]:
                return fp[0]
            for i in range(1, len(xp)):
                if x <= xp[i]:
                    return fp[i - 1] + (fp[i] - fp[i - 1]) * (x - xp[i - 1]) / (xp[i] - xp[i - 1])
            return fp[-1]
        return np.interp(x, xp, fp, **kw)

    @staticmethod
    def floor(x):
        return sh_float(x.__floor__()) if _isinstance(x, SymNum) else np.floor(x)

    @staticmethod
    def ceil(x):
        return sh_float(x.__ceil__()) if _isinstance(x, SymNum) else np.ceil(x)

    @staticmethod
    def percentile(a, q, **kw):
        return np.percentile(np.array(a, dtype=float), q, **kw)


NP = NpShim()

def _range_for(short):
    """range() with the harness's loop-unrolling bound for that module (long concrete loops only)."""

    def sh_range(*a):
        r = builtins.range(*a)
        p = core.CUR
        if p is not None and p.eng.range_cap:
            cap = p.eng.range_cap.get(short)
            if cap is not None and len(r) > 25:
                p.st.loops_unrolled_to_cap += 1
                return r[:cap]
        return r

    return sh_range


_NAMES = {
    "max": sh_max, "min": sh_min, "float": sh_float, "int": sh_int,
    "isinstance": sh_isinstance, "round": sh_round, "sum": sh_sum, "abs": sh_abs,
}


def install(prefix="ecoengine"):
    """Inject the shims into every loaded module of the package (in-memory only)."""
    done = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + ".")):
            continue
        if ".tests" in name:
            continue
        d = mod.__dict__
        for k, v in _NAMES.items():
            d.setdefault(k, v)
        d.setdefault("range", _range_for(name.rsplit(".", 1)[-1]))
        for k, v in list(d.items()):
            if v is math:
                d[k] = MATH
            elif v is np:
                d[k] = NP
            elif not k.startswith("__") and getattr(v, "__module__", None) == "math" and hasattr(MathShim, getattr(v, "__name__", "")):
                d[k] = getattr(MATH, v.__name__)
        done.append(name)
    return done
