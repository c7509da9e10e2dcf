"""Symbolic execution of the real Python code with z3.

The implementation's functions are imported from /repo/src and *run*; the numbers
they compute with are proxy objects (`SymReal`, `SymInt`, `SymBool`) that build z3
terms.  Whenever the code asks for the truth value of a symbolic condition the
path forks: the engine asks the solver which outcomes are feasible, follows one
and queues the other (exhaustive, by re-execution with a decision prefix).  At a
claim the engine asks the solver whether path-condition AND NOT claim is
satisfiable.  `unsat` on every path = the claim holds for every value within the
bounds; a model = a counterexample which the caller replays on the unpatched code.
"""
from __future__ import annotations

import math
import os
import sys
import time
from fractions import Fraction

import numpy as _np
import z3

z3.set_param("model.completion", True)

_builtin = {
    "max": max, "min": min, "abs": abs, "float": float, "int": int, "round": round,
    "isinstance": isinstance, "sum": sum, "bool": bool, "type": type,
}


class PathCut(BaseException):
    """Path abandoned (infeasible assumption, or a bound was hit)."""


class Infeasible(PathCut):
    pass


CUR = None  # current Path


def cur():
    return CUR


def set_cur(p):
    global CUR
    CUR = p


# --------------------------------------------------------------------- values

def frac(v):
    """Exact rational a float *denotes in decimal* (8.353535 -> 8353535/10**6)."""
    if _builtin["isinstance"](v, Fraction):
        return v
    if _builtin["isinstance"](v, (bool, _np.bool_)):
        return Fraction(int(v))
    if _builtin["isinstance"](v, (int, _np.integer)):
        return Fraction(int(v))
    v = float(v)
    return Fraction(repr(v))


def is_inf(v):
    return _builtin["isinstance"](v, (float, _np.floating)) and math.isinf(v)


def is_nan(v):
    return _builtin["isinstance"](v, (float, _np.floating)) and math.isnan(v)


def rv(v):
    f = frac(v)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def is_num(v):
    return _builtin["isinstance"](v, (int, float, _np.integer, _np.floating, bool, _np.bool_, Fraction))


def _real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


# ------------------------------------------------------ affine interval bounds
#
# Every numeric proxy carries, next to its z3 term, an affine enclosure
# c + sum k_i*x_i +- r over atoms x_i with known bounds (inputs, and non-linear
# sub-terms).  A comparison the enclosure settles for *all* values in the bounds
# needs no fork and no query.  Arithmetic is in floats, r bounds the rounding.

_EPS = 2.0 ** -50
AUDIT = bool(os.environ.get("SYMX_AUDIT"))
_MAXK = 10


class Aff:
    __slots__ = ("c", "k", "r")

    def __init__(self, c, k, r):
        self.c, self.k, self.r = c, k, r


def aff_const(v):
    try:
        c = float(v)
    except (OverflowError, ValueError):
        return None
    if not (-1e200 < c < 1e200):
        return None
    return Aff(c, {}, 0.0 if c == int(c) and abs(c) < 2 ** 52 else abs(c) * _EPS)


def aff_of(o):
    if _builtin["isinstance"](o, SymNum):
        return o.a
    if is_num(o):
        return aff_const(o)
    return None


def aff_lin(x, y, sign):
    """x + sign*y"""
    if x is None or y is None:
        return None
    c = x.c + sign * y.c
    r = x.r + y.r + (abs(x.c) + abs(y.c)) * _EPS
    if not y.k:
        k = x.k
    else:
        k = dict(x.k)
        for a, v in y.k.items():
            w = k.get(a, 0.0)
            n = w + sign * v
            if w:
                lo, hi = CUR.bounds[a]
                r += (abs(w) + abs(v)) * _EPS * _builtin["max"](abs(lo), abs(hi))
            if n:
                k[a] = n
            else:
                k.pop(a, None)
    return Aff(c, k, r * (1 + _EPS))


def aff_scale(x, f):
    """x times an Aff constant"""
    c = x.c * f.c
    r = x.r * abs(f.c) + abs(x.c) * f.r + x.r * f.r + abs(c) * _EPS
    k = {}
    for a, v in x.k.items():
        k[a] = v * f.c
        lo, hi = CUR.bounds[a]
        r += abs(v) * (abs(f.c) * _EPS + f.r) * _builtin["max"](abs(lo), abs(hi))
    return Aff(c, k, r * (1 + _EPS))


def aff_iv(x):
    """-> (lo, hi) enclosing x, or None"""
    if x is None:
        return None
    lo = hi = x.c
    g = abs(x.c)
    for a, v in x.k.items():
        l, h = CUR.bounds[a]
        p, q = (v * l, v * h) if v >= 0 else (v * h, v * l)
        lo += p
        hi += q
        g += _builtin["max"](abs(p), abs(q))
    m = x.r + g * _EPS * 4
    if not (m < 1e250):
        return None
    return lo - m, hi + m


def aff_atom(e, lo, hi):
    """Aff of a term with known bounds only."""
    t = CUR.atom_terms.get(e.get_id())
    if t is None:
        n = len(CUR.bounds)
        CUR.bounds[n] = (lo - abs(lo) * _EPS, hi + abs(hi) * _EPS)
        t = CUR.atom_terms[e.get_id()] = (e, Aff(0.0, {n: 1.0}, 0.0))
    return t[1]


def aff_mul(x, y, e):
    if x is None or y is None:
        return None
    if not y.k and y.r <= abs(y.c) * 1e-9:
        return aff_scale(x, y)
    if not x.k and x.r <= abs(x.c) * 1e-9:
        return aff_scale(y, x)
    a, b = aff_iv(x), aff_iv(y)
    if a is None or b is None:
        return None
    ps = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return aff_atom(e, _builtin["min"](ps), _builtin["max"](ps))


def aff_div(x, y, e):
    b = aff_iv(y)
    if x is None or b is None or b[0] <= 0 <= b[1]:
        return None
    if not y.k and y.r <= abs(y.c) * 1e-9:
        c = 1 / y.c
        return aff_scale(x, Aff(c, {}, abs(c) * (2 * y.r / abs(y.c) + _EPS)))
    if not x.k:
        q = (1 / b[0], 1 / b[1])
        ps = [x.c * v for v in q]
        m = x.r * _builtin["max"](abs(v) for v in q)
        return aff_atom(e, _builtin["min"](ps) - m, _builtin["max"](ps) + m)
    a = aff_iv(x)
    if a is None:
        return None
    ps = [u / v for u in a for v in b]
    return aff_atom(e, _builtin["min"](ps), _builtin["max"](ps))


def aff_done(r, a):
    """attach the enclosure to a result proxy"""
    if a is not None and len(a.k) > _MAXK:
        iv = aff_iv(a)
        a = aff_atom(r.e, *iv) if iv else None
    r.a = a
    return r


# values printed into text: when a list is set here, formatting leaves a numbered token instead of digits
PRINTED = None


class Sym:
    # e: z3 term; a: enclosure; q: (numerator, denominator) of the same value, denominator positive on this path
    __slots__ = ("e", "a", "q")

    def __init__(self, e, a=None):
        self.e = e
        self.a = a
        self.q = None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        if PRINTED is None:
            return "<sym>"
        PRINTED.append(self)
        return f"\u27e8{len(PRINTED) - 1}\u27e9"


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        # self.a: (enclosure of left-right, relation) for a comparison
        if self.a is not None:
            d, rel = self.a
            iv = aff_iv(d)
            if iv is not None:
                v = _settled(iv, rel)
                if v is not None:
                    CUR.st.settled += 1
                    if AUDIT:       # cross-check the enclosure with the solver
                        r, _ = CUR.check(z3.Not(self.e) if v else self.e)
                        if r == "sat":
                            print("AUDIT enclosure disagrees with the solver:", self.e, iv, rel, file=sys.stderr, flush=True)
                            os._exit(3)
                    return v
            v = CUR.decide(self.e)
            CUR.tighten(d, rel, v)
            return v
        return CUR.decide(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, bexpr(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if _builtin["isinstance"](o, (bool, _np.bool_, SymBool)):
            return SymBool(self.e == bexpr(o))
        if _builtin["isinstance"](o, (SymNum,)) or is_num(o):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.e))

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()


def _settled(iv, rel):
    lo, hi = iv
    if rel == "<":
        return True if hi < 0 else False if lo > 0 else None
    if rel == "<=":
        return True if hi < 0 else False if lo > 0 else None
    if rel == ">":
        return True if lo > 0 else False if hi < 0 else None
    if rel == ">=":
        return True if lo > 0 else False if hi < 0 else None
    if lo > 0 or hi < 0:
        return rel == "!="
    return None


def bexpr(o):
    if _builtin["isinstance"](o, SymBool):
        return o.e
    if _builtin["isinstance"](o, SymNum):
        return o.e != 0
    return z3.BoolVal(bool(o))


def _coerce(o):
    """-> z3 arith expr, or None when not numeric."""
    if _builtin["isinstance"](o, SymNum):
        return o.e
    if _builtin["isinstance"](o, SymBool):
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if _builtin["isinstance"](o, (bool, _np.bool_)):
        return z3.IntVal(int(o))
    if _builtin["isinstance"](o, (int, _np.integer)):
        return z3.IntVal(int(o))
    if _builtin["isinstance"](o, (float, _np.floating, Fraction)):
        return rv(o)
    return None


def wrap(e):
    if z3.is_bool(e):
        return SymBool(e)
    return SymInt(e) if z3.is_int(e) else SymReal(e)


def _both(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b, True
    return _real(a), _real(b), False


def quot(o, e):
    """(numerator, denominator or None) of an operand with term e"""
    q = o.q if _builtin["isinstance"](o, SymNum) else None
    return q if q is not None else (e, None)


def quot_lin(x, y, f):
    (n, d), (m, k) = x, y
    if d is None:
        return f(n * k, m), k
    if k is None:
        return f(n, m * d), d
    if d.eq(k):
        return f(n, m), d
    return (f(n * k, m * d), d * k) if CUR.eng.quot > 1 else None


def quot_mul(x, y):
    (n, d), (m, k) = x, y
    if d is not None and m.eq(d):
        return n, k
    if k is not None and n.eq(k):
        return m, d
    if d is not None and k is not None:
        return (n * m, d * k) if CUR.eng.quot > 1 else None
    return n * m, (k if d is None else d)


class SymNum(Sym):
    __slots__ = ()

    # ---- arithmetic
    def _bin(self, o, f, rev=False, op=None):
        if is_inf(o) or is_nan(o):
            return NotImplemented
        b = _coerce(o)
        if b is None:
            return NotImplemented
        x, y, _ = _both(self.e, b)
        if rev:
            x, y = y, x
        r = wrap(f(x, y))
        if self.q is not None or (_builtin["isinstance"](o, SymNum) and o.q is not None):
            u, v = quot(self, _real(self.e)), quot(o, _real(b))
            if rev:
                u, v = v, u
            w = quot_lin(u, v, f) if op != "*" else quot_mul(u, v)
            if w is not None:
                if w[1] is None:
                    r = SymReal(w[0])
                else:
                    r.q = w
        if CUR is not None:
            p, q = self.a, aff_of(o)
            if p is not None and q is not None:
                if rev:
                    p, q = q, p
                aff_done(r, aff_lin(p, q, 1) if op == "+" else aff_lin(p, q, -1) if op == "-" else aff_mul(p, q, r.e))
        return r

    def _nonfin(self, o):
        return is_inf(o) or is_nan(o)

    def __add__(self, o):
        if self._nonfin(o):
            return float(o)
        if is_num(o) and o == 0 and _builtin["isinstance"](o, (int, self._pytype)):
            return self
        return self._bin(o, lambda x, y: x + y, op="+")

    def __radd__(self, o):
        if self._nonfin(o):
            return float(o)
        if is_num(o) and o == 0 and _builtin["isinstance"](o, (int, self._pytype)):
            return self
        return self._bin(o, lambda x, y: x + y, True, "+")

    def __sub__(self, o):
        if self._nonfin(o):
            return -float(o)
        if is_num(o) and o == 0 and _builtin["isinstance"](o, (int, self._pytype)):
            return self
        return self._bin(o, lambda x, y: x - y, op="-")

    def __rsub__(self, o):
        if self._nonfin(o):
            return float(o)
        return self._bin(o, lambda x, y: x - y, True, "-")

    def __mul__(self, o):
        if self._nonfin(o):
            if is_nan(o):
                return float("nan")
            return float(o) * (1.0 if bool(self > 0) else (-1.0 if bool(self < 0) else 0.0))
        if is_num(o):
            if o == 0:
                return 0 if _builtin["isinstance"](o, int) and self._pytype is int else 0.0
            if o == 1 and _builtin["isinstance"](o, (int, self._pytype)):
                return self
        return self._bin(o, lambda x, y: x * y, op="*")

    def __rmul__(self, o):
        return self.__mul__(o)

    def _div(self, x, y, ax=None, ay=None, qx=None, qy=None):
        # x, y z3 reals
        iv = aff_iv(ay)
        if iv is not None and (iv[0] > 0 or iv[1] < 0):
            r = SymReal(x / y)
            (n, d), (m, k) = qx or (x, None), qy or (y, None)
            if not z3.is_rational_value(y):
                # n/d / (m/k) = n*k / (d*m), signs so that the denominator is positive
                if iv[1] < 0:
                    n, m = -n, -m
                if CUR.eng.quot > (1 if d is not None and k is not None else 0):
                    r.q = ((n if k is None else n * k), (m if d is None else d * m))
            elif d is not None:
                r.q = (n / m, d)
            return aff_done(r, aff_div(ax, ay, r.e))
        s = z3.simplify(y)
        if z3.is_rational_value(s):
            if s.numerator_as_long() == 0:
                raise ZeroDivisionError("float division by zero")
        elif CUR.decide(y == 0):
            raise ZeroDivisionError("float division by zero")
        return SymReal(x / y)

    def __truediv__(self, o):
        if is_inf(o):
            return 0.0
        if is_nan(o):
            return float("nan")
        b = _coerce(o)
        if b is None:
            return NotImplemented
        if is_num(o) and o == 1:
            r = SymReal(_real(self.e), self.a)
            r.q = self.q
            return r
        return self._div(_real(self.e), _real(b), self.a, aff_of(o), self.q, o.q if _builtin["isinstance"](o, SymNum) else None)

    def __rtruediv__(self, o):
        if is_nan(o):
            return float("nan")
        if is_inf(o):
            return o * (1.0 if bool(self > 0) else -1.0)
        b = _coerce(o)
        if b is None:
            return NotImplemented
        return self._div(_real(b), _real(self.e), aff_of(o), self.a, o.q if _builtin["isinstance"](o, SymNum) else None, self.q)

    def _floordiv(self, a, b):
        # python floor semantics
        x, y, ints = _both(a, b)
        s = z3.simplify(y)
        if (z3.is_rational_value(s) or z3.is_int_value(s)):
            if s.as_fraction() == 0 if z3.is_rational_value(s) else s.as_long() == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        elif CUR.decide(y == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if ints:
            pos = None
            if z3.is_int_value(s):
                pos = s.as_long() > 0
            else:
                pos = CUR.decide(y > 0)
            q = (x / y) if pos else ((-x) / (-y))
            return q, ints
        return z3.ToReal(z3.ToInt(x / y)), ints

    def __floordiv__(self, o):
        b = _coerce(o)
        if b is None:
            return NotImplemented
        q, _ = self._floordiv(self.e, b)
        return wrap(q)

    def __rfloordiv__(self, o):
        b = _coerce(o)
        if b is None:
            return NotImplemented
        q, _ = self._floordiv(b, self.e)
        return wrap(q)

    def __mod__(self, o):
        b = _coerce(o)
        if b is None:
            return NotImplemented
        q, _ = self._floordiv(self.e, b)
        x, y, _ = _both(self.e, b)
        if z3.is_int(q):
            return wrap(x - q * y)
        return wrap(x - q * y)

    def __rmod__(self, o):
        b = _coerce(o)
        if b is None:
            return NotImplemented
        q, _ = self._floordiv(b, self.e)
        x, y, _ = _both(b, self.e)
        return wrap(x - q * y)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        if is_num(o):
            f = frac(o)
            if f.denominator == 1:
                n = int(f)
                if n == 0:
                    return 1 if z3.is_int(self.e) else 1.0
                r = self
                for _ in range(abs(n) - 1):
                    r = r * self
                return r if n > 0 else 1 / r
            if f == Fraction(1, 2):
                return sym_sqrt(self)
        return CUR.opaque("pow", self, o)

    def __rpow__(self, o):
        return CUR.opaque("rpow", self, o)

    def __neg__(self):
        r = wrap(-self.e)
        if self.a is not None:
            r.a = Aff(-self.a.c, {a: -v for a, v in self.a.k.items()}, self.a.r)
        if self.q is not None:
            r.q = (-self.q[0], self.q[1])
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    # ---- comparison
    def _cmp(self, o, f, infres, rel=None):
        if is_nan(o):
            return False
        if is_inf(o):
            return infres(o > 0)
        b = _coerce(o)
        if b is None:
            return NotImplemented
        x, y, _ = _both(self.e, b)
        if self.q is not None or (_builtin["isinstance"](o, SymNum) and o.q is not None):
            (n, d), (m, k) = quot(self, x), quot(o, y)
            if d is None or k is None or (CUR.eng.quot > 1 and not d.eq(k)):
                x, y = (n if k is None else n * k), (m if d is None else m * d)
            elif d.eq(k):
                x, y = n, m
        r = SymBool(f(x, y))
        if self.a is not None and CUR is not None:
            d = aff_lin(self.a, aff_of(o), -1)
            if d is not None:
                r.a = (d, rel)
        return r

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y, lambda p: p, "<")

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y, lambda p: p, "<=")

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y, lambda p: not p, ">")

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y, lambda p: not p, ">=")

    def __eq__(self, o):
        r = self._cmp(o, lambda x, y: x == y, lambda p: False, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if is_nan(o):
            return True
        r = self._cmp(o, lambda x, y: x != y, lambda p: True, "!=")
        return True if r is NotImplemented else r

    # ---- conversions
    def __bool__(self):
        return CUR.decide(self.e != 0)

    def __float__(self):
        return float(CUR.concretize(self.e))

    def __int__(self):
        return CUR.enum_int(trunc_expr(self.e))

    def __floor__(self):
        return SymInt(self.e if z3.is_int(self.e) else z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(self.e if z3.is_int(self.e) else -z3.ToInt(-self.e))

    def __trunc__(self):
        return SymInt(trunc_expr(self.e))

    def __round__(self, n=None):
        if z3.is_int(self.e) and (n is None or n >= 0):
            return self
        x = _real(self.e)
        if n is None:
            return SymInt(z3.ToInt(x + rv(0.5)))
        k = 10 ** n if n >= 0 else Fraction(1, 10 ** (-n))
        if n >= 6:  # rounding below every tolerance used in claims
            return SymReal(x)
        return SymReal(z3.ToReal(z3.ToInt(x * rv(k) + rv(0.5))) / rv(k))

    def is_integer(self):
        return SymBool(z3.BoolVal(True) if z3.is_int(self.e) else z3.IsInt(self.e))

    def item(self):
        return self

    def sqrt(self):
        return sym_sqrt(self)

    # numpy object ufunc hooks
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


def trunc_expr(e):
    if z3.is_int(e):
        return e
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


class SymReal(SymNum):
    __slots__ = ()
    _pytype = float

    def __hash__(self):
        return hash(float(CUR.enum_real(self.e)))


class SymInt(SymNum):
    __slots__ = ()
    _pytype = int

    def __index__(self):
        return CUR.enum_int(self.e)

    def __hash__(self):
        return hash(CUR.enum_int(self.e))

    def bit_length(self):
        return CUR.enum_int(self.e).bit_length()


def sym_sqrt(x):
    e = _real(x.e)
    if CUR.decide(e < 0):
        raise ValueError("math domain error")
    r = CUR.fresh_real("sqrt")
    CUR.add(z3.And(r >= 0, r * r == e))
    return SymReal(r)


class SymSeq:
    """A sequence of n arbitrary reals, read through an uninterpreted function."""

    def __init__(self, name, n, lo, hi, path, fn=None, off=0, stride=1):
        self.name, self.n, self.lo, self.hi = name, n, lo, hi
        self.fn = fn if fn is not None else z3.Function(name, z3.IntSort(), z3.RealSort())
        self.path = path

    def __len__(self):
        return self.n

    def _get(self, ie):
        v = self.fn(ie)
        self.path.seq_access(self, ie, v)
        return SymReal(v, aff_atom(v, float(self.lo), float(self.hi)))

    def __getitem__(self, i):
        if _builtin["isinstance"](i, slice):
            return [self[j] for j in range(*i.indices(self.n))]
        if _builtin["isinstance"](i, SymBool):
            i = i._int()
        if _builtin["isinstance"](i, SymNum):
            if not z3.is_int(i.e):
                raise TypeError("list indices must be integers or slices, not float")
            e = i.e
            if CUR.decide(z3.Or(e >= self.n, e < -self.n)):
                raise IndexError("list index out of range")
            if CUR.decide(e < 0):
                e = e + self.n
            return self._get(e)
        if _builtin["isinstance"](i, (float, _np.floating)):
            raise TypeError("list indices must be integers or slices, not float")
        i = int(i)
        if i >= self.n or i < -self.n:
            raise IndexError("list index out of range")
        return self._get(z3.IntVal(i % self.n))

    def __iter__(self):
        for j in range(self.n):
            yield self[j]

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self

    def tolist(self):
        return list(self)

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n


def has_sym(v):
    if _builtin["isinstance"](v, Sym):
        return True
    if _builtin["isinstance"](v, SymSeq):
        return True
    if _builtin["isinstance"](v, _np.ndarray):
        return v.dtype == object
    if _builtin["isinstance"](v, (list, tuple)):
        return any(has_sym(x) for x in v)
    return False


# ----------------------------------------------------------------- statistics

class Stats:
    def __init__(self):
        self.paths = 0
        self.paths_cut = 0
        self.decisions = 0
        self.settled = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.claims_checked = 0
        self.claims_unsat = 0
        self.claims_const = 0
        self.concretised = 0
        self.truncated_forks = 0
        self.opaque = 0
        self.loops_unrolled_to_cap = 0
        self.unexplored = 0
        self.exceptions_ok = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d["solver_s"] = round(d["solver_s"], 3)
        return d


# ----------------------------------------------------------------------- path

class Path:
    def __init__(self, engine, prefix):
        self.eng = engine
        self.st = engine.stats
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", engine.branch_ms)
        self.asserted = []
        self.model = None
        self.inputs = {}      # name -> (kind, expr)
        self.seqs = {}        # name -> (SymSeq, [index exprs])
        self.nfresh = 0
        self.site_forks = {}
        self.has_int = False
        self.has_uf = False
        self.feasible_known = False
        self.memo = {}
        self.bounds = {}      # atom -> (lo, hi)
        self.atom_terms = {}  # term id -> (term, enclosure)

    # ---- constraints
    def add(self, e):
        self.asserted.append(e)
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def tighten(self, d, rel, v):
        """A one-atom comparison was decided: narrow the atom's bounds on this path."""
        if len(d.k) != 1:
            return
        if not v:
            rel = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[rel]
        if rel in ("==", "!="):
            return
        (a, k), = d.k.items()
        lo, hi = self.bounds[a]
        x = -d.c / k
        m = (d.r + abs(d.c) * _EPS * 4) / abs(k) + abs(x) * _EPS
        if not (abs(x) + m < 1e200):
            return
        if (rel in ("<", "<=")) == (k > 0):
            hi = _builtin["min"](hi, x + m)
        else:
            lo = _builtin["max"](lo, x - m)
        if lo <= hi:
            self.bounds[a] = (lo, hi)

    def fresh_real(self, tag):
        self.nfresh += 1
        return z3.Real(f"!{tag}{self.nfresh}")

    def fresh_int(self, tag):
        self.nfresh += 1
        self.has_int = True
        return z3.Int(f"!{tag}{self.nfresh}")

    def opaque(self, tag, *args):
        self.st.opaque += 1
        key = (tag,) + tuple(str(a.e) if isinstance(a, Sym) else repr(a) for a in args)
        if key not in self.memo:
            self.memo[key] = SymReal(self.fresh_real(tag))
        return self.memo[key]

    def seq_access(self, seq, ie, v):
        _, idx = self.seqs.setdefault(seq.name, (seq, []))
        key = ("seq", seq.name, ie.sexpr())
        if key in self.memo:
            return
        self.memo[key] = True
        idx.append(ie)
        self.has_uf = True
        self.add(z3.And(v >= rv(seq.lo), v <= rv(seq.hi)))

    # ---- solver
    def check(self, *extra, timeout=None, want_model=True):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        t0 = time.time()
        self.st.queries += 1
        s = self.solver
        if timeout:
            s.set("timeout", timeout)
        s.push()
        try:
            for x in extra:
                s.add(x)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            m = s.model() if r == z3.sat else None
        finally:
            s.pop()
            if timeout:
                s.set("timeout", self.eng.branch_ms)
        if r == z3.unknown:
            r, m = self._fallback(extra, timeout or self.eng.branch_ms)
        self.st.solver_s += time.time() - t0
        if r == z3.sat:
            return "sat", m
        if r == z3.unsat:
            return "unsat", None
        self.st.unknown += 1
        return "unknown", None

    def _fallback(self, extra, ms):
        for mk in self.eng.fallbacks(self):
            try:
                s = mk()
                s.set("timeout", int(ms))
                s.add(*self.asserted)
                s.add(*extra)
                r = s.check()
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                continue
        return z3.unknown, None

    def ensure_model(self):
        if self.model is None:
            r, m = self.check()
            if r == "unsat":
                raise Infeasible()
            self.model = m
        return self.model

    # ---- forking
    def _site(self):
        f = sys._getframe(2)
        while f is not None:
            fn = f.f_code.co_filename
            if "/symx/" not in fn and not fn.endswith("fractions.py"):
                return (fn, f.f_lineno)
            f = f.f_back
        return ("?", 0)

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = ("dec", e.get_id())
        if k not in self.memo:
            self.memo[k] = (e, self._decide(e))
        return self.memo[k][1]

    def _decide(self, e):
        i = len(self.trace)
        self.st.decisions += 1
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            self.trace.append((kind, val))
            if kind == "b":     # real fork
                self.add(e if val else z3.Not(e))
                s = self._site()
                self.site_forks[s] = self.site_forks.get(s, 0) + 1
            elif kind == "t":   # truncated fork (one side followed)
                self.add(e if val else z3.Not(e))
            return val
        if len(self.trace) >= self.eng.max_depth or time.time() > self.eng.deadline:
            self.st.truncated_forks += 1
            raise PathCut()
        # which sides are feasible?
        m = self.model
        side = None
        if m is not None:
            try:
                v = m.eval(e, model_completion=True)
                if z3.is_true(v):
                    side = True
                elif z3.is_false(v):
                    side = False
            except z3.Z3Exception:
                side = None
        if side is None:
            r, mm = self.check(e)
            if r == "sat":
                side, self.model = True, mm
            elif r == "unsat":
                # only False can be feasible
                self.trace.append(("f", False))
                return False
            else:
                side = True   # unknown: treat as feasible
                self.model = None
        r, mm = self.check(z3.Not(e) if side else e)
        if r == "unsat":
            self.trace.append(("f", side))
            return side
        s = self._site()
        n = self.site_forks.get(s, 0)
        if n >= self.eng.site_bound:
            self.st.truncated_forks += 1
            self.trace.append(("t", side))
            self.add(e if side else z3.Not(e))
            return side
        self.site_forks[s] = n + 1
        self.eng.push(self.trace + [("b", not side)])
        self.trace.append(("b", side))
        keep = self.model
        self.asserted.append(e if side else z3.Not(e))
        self.solver.add(e if side else z3.Not(e))
        self.model = keep
        return side

    def _pinned(self, e, fn):
        k = ("pin", e.get_id())
        if k not in self.memo:
            v = fn(e)
            self.memo[k] = (e, v)   # keeps e alive so the id stays unique
        return self.memo[k][1]

    def enum_int(self, e):
        return self._pinned(z3.simplify(e), self._enum_int)

    def enum_real(self, e):
        return self._pinned(z3.simplify(_real(e)), self._enum_real)

    def concretize(self, e):
        return self._pinned(z3.simplify(_real(e)), self._concretize)

    def _enum_int(self, e):
        """Fork over every feasible integer value of e."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                kind, val = self.prefix[i]
                self.trace.append((kind, val))
                if kind == "i":
                    self.add(e == val)
                    return val
                if kind == "n":
                    self.add(e != val)
                    continue
                raise PathCut()
            if len(self.trace) >= self.eng.max_depth or time.time() > self.eng.deadline:
                self.st.truncated_forks += 1
                raise PathCut()
            m = self.ensure_model()
            if m is None:
                raise PathCut()
            v = m.eval(e, model_completion=True)
            if not z3.is_int_value(v):
                raise PathCut()
            v = v.as_long()
            r, _ = self.check(e != v)
            if r != "unsat":
                self.eng.push(self.trace + [("n", v)])
            self.trace.append(("i", v))
            self.add(e == v)
            return v

    def _enum_real(self, e):
        """Fork over the values of a real known to be discrete (built from floor); otherwise concretise."""
        e = z3.simplify(_real(e))
        if not _has_floor(e):
            return self._concretize(e)
        for _ in range(400):
            i = len(self.trace)
            if i < len(self.prefix):
                kind, val = self.prefix[i]
                self.trace.append((kind, val))
                if kind == "i":
                    self.add(e == rv(val))
                    return val
                self.add(e != rv(val))
                continue
            if len(self.trace) >= self.eng.max_depth or time.time() > self.eng.deadline:
                break
            m = self.ensure_model()
            if m is None:
                break
            v = model_num(m, e)
            r, _ = self.check(e != rv(v))
            if r != "unsat":
                self.eng.push(self.trace + [("n", v)])
            self.trace.append(("i", v))
            self.add(e == rv(v))
            return v
        self.st.truncated_forks += 1
        raise PathCut()

    def _concretize(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return e.as_fraction()
        if z3.is_int_value(e):
            return Fraction(e.as_long())
        i = len(self.trace)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            self.trace.append((kind, val))
            self.add(_real(e) == rv(val))
            return val
        m = self.ensure_model()
        if m is None:
            raise PathCut()
        v = model_num(m, e)
        r, _ = self.check(_real(e) != rv(v))
        if r != "unsat":
            self.st.concretised += 1
        self.trace.append(("c", v))
        self.add(_real(e) == rv(v))
        return v


def _has_floor(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV):
            return True
        st.extend(x.children())
    return False


def model_num(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(25)
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)


# --------------------------------------------------------------------- engine

class Engine:
    def __init__(self, branch_ms=2000, claim_ms=20000, max_depth=4000, site_bound=200,
                 max_paths=20000, time_s=120.0, max_ce=2, fork_minmax=False, range_cap=None, quot=0):
        self.stats = Stats()
        self.branch_ms, self.claim_ms = branch_ms, claim_ms
        self.max_depth, self.site_bound = max_depth, site_bound
        self.max_paths, self.time_s = max_paths, time_s
        self.max_ce = max_ce
        self.fork_minmax = fork_minmax
        self.quot = quot  # 0: quotients as they are, 1: one denominator, 2: cross-multiplied
        self.range_cap = range_cap
        self.work = [[]]
        self.deadline = time.time() + time_s

    def fallbacks(self, path):
        if path.has_uf or path.has_int:
            return [lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()]
        return [lambda: z3.SolverFor("QF_NRA")]

    def push(self, prefix):
        self.work.append(prefix)

    def explore(self, run):
        """run(path) executes the harness once; exceptions are handled by run."""
        self.deadline = time.time() + self.time_s
        while self.work:
            if self.stats.paths >= self.max_paths or time.time() > self.deadline:
                self.stats.unexplored = len(self.work)
                break
            prefix = self.work.pop()
            p = Path(self, prefix)
            set_cur(p)
            self.stats.paths += 1
            try:
                run(p)
            except PathCut:
                self.stats.paths_cut += 1
            except z3.Z3Exception as ex:
                self.stats.paths_cut += 1
                self.stats.unknown += 1
                self.last_z3_error = str(ex)
            finally:
                set_cur(None)
        return self.stats
