"""Harness context in two modes with one API:

* SymH   - inputs are symbolic, claims are solver queries;
* ConcH  - inputs are the floats of a counterexample, claims are evaluated on the
           unpatched real code (replay).
"""
from __future__ import annotations

import builtins
import contextlib
import io
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import (Infeasible, PathCut, Sym, SymBool, SymInt, SymNum, SymReal, SymSeq, bexpr, is_inf, is_nan,
                   is_num, model_num, rv, wrap)
from . import shims


class Skip(BaseException):
    """Concrete replay left the harness's assumptions."""


class StopHarness(BaseException):
    """A reproduced violation was found; stop exploring this harness."""


class _Common:
    def claim_group(self, *a):
        pass


def _num(v):
    return isinstance(v, Sym) or is_num(v)


class SymH(_Common):
    symbolic = True

    def __init__(self, path, sink):
        self.p = path
        self.sink = sink      # callable(candidate) -> True when confirmed
        self.reached = 0
        self.exc_ok = False

    # ---------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.p.inputs[name] = ("real", v)
        if lo is not None:
            self.p.add(v >= rv(lo))
        if hi is not None:
            self.p.add(v <= rv(hi))
        if lo is not None and hi is not None:
            return SymReal(v, core.aff_atom(v, float(lo), float(hi)))
        return SymReal(v)

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.p.has_int = True
        self.p.inputs[name] = ("int", v)
        self.p.add(z3.And(v >= lo, v <= hi))
        return SymInt(v, core.aff_atom(v, float(lo), float(hi)))

    def bool(self, name):
        v = z3.Bool(name)
        self.p.inputs[name] = ("bool", v)
        return SymBool(v)

    def pick(self, name, options):
        """Fork over a finite list of concrete alternatives."""
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def flag(self, name):
        return builtins.bool(self.bool(name))

    def seq(self, name, n, lo, hi):
        return SymSeq(name, n, lo, hi, self.p)

    def reals(self, name, n, lo, hi):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def assume(self, c):
        if isinstance(c, (builtins.bool, np.bool_)):
            if not c:
                raise Infeasible()
            return
        e = z3.simplify(bexpr(c))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.p.add(e)

    def feasible(self):
        """Cut the path here unless the solver shows it feasible."""
        r, m = self.p.check()
        if r == "unsat":
            raise Infeasible()
        if m is not None:
            self.p.model = m

    # ------------------------------------------------------------------ ops
    @staticmethod
    def max(*a):
        return shims.sh_max(*a)

    @staticmethod
    def min(*a):
        return shims.sh_min(*a)

    @staticmethod
    def ite(c, a, b):
        if isinstance(c, SymBool):
            x, y = core._coerce(a), core._coerce(b)
            x, y, _ = core._both(x, y)
            return wrap(z3.If(c.e, x, y))
        return a if c else b

    @staticmethod
    def And(*a):
        return SymBool(z3.And(*[bexpr(x) for x in a]))

    @staticmethod
    def Or(*a):
        return SymBool(z3.Or(*[bexpr(x) for x in a]))

    @staticmethod
    def Not(a):
        return SymBool(z3.Not(bexpr(a)))

    @staticmethod
    def Implies(a, b):
        return SymBool(z3.Implies(bexpr(a), bexpr(b)))

    @staticmethod
    def floor(x):
        return shims.MATH.floor(x)

    @staticmethod
    def total(it):
        return shims.sh_sum(it)

    # --------------------------------------------------------------- claims
    def _violation(self, msg, negs, hold):
        """negs: z3 formulas, strongest first.  hold: formula assumed afterwards."""
        p = self.p
        self.reached += 1
        p.st.claims_checked += 1
        weakest = z3.simplify(negs[-1]) if not builtins.isinstance(negs[-1], builtins.bool) else z3.BoolVal(negs[-1])
        if z3.is_false(weakest):
            p.st.claims_unsat += 1
            p.st.claims_const += 1
            return
        r, m = p.check(weakest, timeout=p.eng.claim_ms)
        if r == "unsat":
            p.st.claims_unsat += 1
            return
        if r == "unknown":
            self.sink({"kind": "unknown", "claim": msg})
            # probe for a counterexample anyway with a bigger margin
        tried = 0
        if r == "sat" and len(negs) == 1:
            if self._candidate(msg, m):
                raise StopHarness()
            tried += 1
        for n in negs[:-1] if len(negs) > 1 else []:
            rr, mm = p.check(n, timeout=p.eng.claim_ms)
            if rr == "sat":
                tried += 1
                if self._candidate(msg, mm):
                    raise StopHarness()
        if r == "sat" and len(negs) > 1:
            if self._candidate(msg, m):
                raise StopHarness()
        # did not reproduce: try a few different models
        if r == "sat":
            block = []
            for k in range(p.eng.max_ce):
                vals = [v for kind, v in p.inputs.values() if kind == "real"]
                if not vals:
                    break
                v = vals[k % len(vals)]
                mv = model_num(m, v)
                block.append(z3.Or(v > rv(mv) + rv(abs(mv) / 50 + Fraction(1, 100)),
                                   v < rv(mv) - rv(abs(mv) / 50 + Fraction(1, 100))))
                rr, mm = p.check(weakest, *block, timeout=p.eng.claim_ms)
                if rr != "sat":
                    break
                m = mm
                if self._candidate(msg, mm):
                    raise StopHarness()
        # continue under the assumption that it held
        p.add(hold)
        rr, mm = p.check()
        if rr == "unsat":
            raise Infeasible()
        p.model = mm

    def _candidate(self, msg, m):
        p = self.p
        inp = {}
        for n, (kind, v) in p.inputs.items():
            if kind == "bool":
                inp[n] = z3.is_true(m.eval(v, model_completion=True))
            elif kind == "int":
                inp[n] = int(model_num(m, v))
            else:
                inp[n] = float(model_num(m, v))
        seqs = {}
        for n, (seq, idx) in p.seqs.items():
            d = {}
            for ie in idx:
                d[str(int(model_num(m, ie)))] = float(model_num(m, seq.fn(ie)))
            seqs[n] = d
        return self.sink({"kind": "ce", "claim": msg, "inputs": inp, "seqs": seqs})

    def ok(self, cond, msg):
        if isinstance(cond, (builtins.bool, np.bool_)):
            if cond:
                st = self.p.st
                self.reached += 1
                st.claims_checked += 1
                st.claims_unsat += 1
                st.claims_const += 1
                return
            e = z3.BoolVal(builtins.bool(cond))
        else:
            e = bexpr(cond)
        self._violation(msg, [z3.Not(e)], e)

    def _nonfinite(self, a, b):
        return not (_num(a) and _num(b)) or is_nan(a) or is_nan(b) or is_inf(a) or is_inf(b)

    @staticmethod
    def _diff(a, b, tol):
        """a - b and the tolerance, both multiplied by the (positive) denominator when the values are quotients"""
        x, y = core._real(core._coerce(a)), core._real(core._coerce(b))
        u, v = core.quot(a, x), core.quot(b, y)
        if u[1] is None and v[1] is None:
            return x - y, rv(tol)
        w = core.quot_lin(u, v, lambda p, q: p - q)
        return (w[0], rv(tol) * w[1]) if w is not None else (x - y, rv(tol))

    def le(self, a, b, msg, tol=1e-6):
        if self._nonfinite(a, b):
            try:
                c = builtins.bool(a <= b)
            except TypeError:
                c = False
            return self.ok(c, msg)
        d, t = self._diff(a, b, tol)
        self._violation(msg, [d > 1000 * t, d > 30 * t, d > 2 * t], d <= 2 * t)

    def ge(self, a, b, msg, tol=1e-6):
        self.le(b, a, msg, tol)

    def eq(self, a, b, msg, tol=1e-6):
        if self._nonfinite(a, b):
            c = (a is b) or (is_num(a) and is_num(b) and (a == b or (is_nan(a) and is_nan(b))))
            return self.ok(builtins.bool(c), msg)
        if a is b or (isinstance(a, Sym) and isinstance(b, Sym) and a.e.eq(b.e)):
            st = self.p.st      # syntactically equal terms
            self.reached += 1
            st.claims_checked += 1
            st.claims_unsat += 1
            st.claims_const += 1
            return
        d, t = self._diff(a, b, tol)
        self._violation(msg, [z3.Or(d > k * t, d < -k * t) for k in (1000, 30, 2)],
                        z3.And(d <= 2 * t, d >= -2 * t))

    def is_max(self, x, items, msg_lo, msg_hi, tol=1e-6):
        """x is the largest of the items: one disjunctive query and one conjunctive query."""
        xe = core._real(core._coerce(x))
        seen, es = set(), []
        for it in items:
            e = z3.simplify(core._real(core._coerce(it)))
            if e.get_id() not in seen:
                seen.add(e.get_id())
                es.append(e)
        t = rv(tol)
        self._violation(msg_lo, [z3.Or(*[e - xe > k * t for e in es]) for k in (1000, 30, 2)],
                        z3.And(*[e - xe <= 2 * t for e in es]))
        self._violation(msg_hi, [z3.And(*[xe - e > k * t for e in es]) for k in (1000, 30, 2)],
                        z3.Or(*[xe - e <= 2 * t for e in es]))

    def same(self, a, b, msg):
        """Exact identity of values (None / str / bool / numbers)."""
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            if not (_num(a) and _num(b)):
                return self.ok(False, msg)
            return self.eq(a, b, msg, tol=0) if z3.is_int(core._coerce(a)) and z3.is_int(core._coerce(b)) \
                else self.eq(a, b, msg)
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return self.ok(SymBool(bexpr(a) == bexpr(b)), msg)
        if is_num(a) and is_num(b):
            return self.eq(a, b, msg)
        return self.ok(type(a) is type(b) and a == b, msg)

    def reach(self):
        self.reached += 1


class ConcH(_Common):
    symbolic = False

    def __init__(self, inputs, seqs):
        self.inputs, self.seqs_in = inputs, seqs
        self.failed = []
        self.reached = 0

    def real(self, name, lo=None, hi=None):
        v = float(self.inputs.get(name, lo if lo is not None else 0.0))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def pick(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def flag(self, name):
        return self.bool(name)

    def seq(self, name, n, lo, hi):
        d = self.seqs_in.get(name, {})
        out = [float(lo)] * n
        for k, v in d.items():
            out[int(k)] = min(max(float(v), lo), hi)
        return out

    def reals(self, name, n, lo, hi):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def assume(self, c):
        if not c:
            raise Skip()

    def feasible(self):
        pass

    max = staticmethod(builtins.max)
    min = staticmethod(builtins.min)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def And(*a):
        return all(a)

    @staticmethod
    def Or(*a):
        return any(a)

    @staticmethod
    def Not(a):
        return not a

    @staticmethod
    def Implies(a, b):
        return (not a) or builtins.bool(b)

    @staticmethod
    def floor(x):
        import math
        return math.floor(x)

    @staticmethod
    def total(it):
        return sum(it)

    def _rec(self, c, msg, info=""):
        self.reached += 1
        if not c:
            self.failed.append({"claim": msg, "info": info})

    def ok(self, cond, msg):
        self._rec(builtins.bool(cond), msg)

    def le(self, a, b, msg, tol=1e-6):
        try:
            self._rec(builtins.bool(a <= b + tol), msg, f"{a!r} <= {b!r}")
        except TypeError:
            self._rec(False, msg, f"{a!r} <= {b!r}")

    def ge(self, a, b, msg, tol=1e-6):
        self.le(b, a, msg, tol)

    def eq(self, a, b, msg, tol=1e-6):
        c = (a is b) or (is_num(a) and is_num(b) and (a == b or (is_nan(a) and is_nan(b)) or
                                                      (not is_nan(a) and not is_nan(b) and abs(a - b) <= tol)))
        self._rec(builtins.bool(c), msg, f"{a!r} == {b!r}")

    def is_max(self, x, items, msg_lo, msg_hi, tol=1e-6):
        m = builtins.max(items)
        self.ge(x, m, msg_lo, tol)
        self.le(x, m, msg_hi, tol)

    def same(self, a, b, msg):
        if is_num(a) and is_num(b):
            return self.eq(a, b, msg)
        self._rec(type(a) is type(b) and a == b, msg, f"{a!r} == {b!r}")

    def reach(self):
        self.reached += 1


def innermost_file(ex):
    tb = ex.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last or ""


def in_repo(ex):
    """True when the exception passed through /repo code (not raised by the harness itself)."""
    tb = ex.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    # last harness/repo frame decides
    for f in reversed(files):
        if "/ecoengine/" in f:
            return True
        if "/verif/" in f and "/symx/" not in f:
            return False
    return False


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
