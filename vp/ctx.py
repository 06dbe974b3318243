"""Harness contexts: symbolic (solver decides) and concrete (replay)."""
from __future__ import annotations

import math
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd
from . import engine as E  # first: puts z3 on the path
import z3

from . import ratio
from .engine import PathAbort, SymBool, SymNum, SymStr


class CheckFailed(Exception):
    """A harness assertion is false on concrete inputs."""


class AssumeFailed(BaseException):
    """Concrete inputs fall outside the harness assumptions."""


def _isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def _isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


class BaseCtx:
    symbolic = False

    # ---- inputs
    def reals(self, name, n, lo=-100, hi=100):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def ints(self, name, n, lo=-100, hi=100, relaxed=False):
        return [self.int("%s%d" % (name, i), lo, hi, relaxed) for i in range(n)]

    def bools(self, name, n):
        return [self.bool("%s%d" % (name, i)) for i in range(n)]

    # ---- helpers usable in both modes
    def sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def spread(self, xs, eps=Fraction(1, 1000)):
        """assume values are pairwise equal or at least eps apart"""
        for i in range(len(xs)):
            for j in range(i):
                self.assume(
                    self.any(
                        [xs[i] == xs[j], xs[i] - xs[j] >= eps, xs[j] - xs[i] >= eps]
                    )
                )

    def isnan(self, x):
        return _isnan(x)

    def integral(self, x):
        return x.is_integer() if hasattr(x, "is_integer") else x == int(x)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng, harness_name):
        self.eng = eng
        self.hname = harness_name
        self.checks = 0
        self.discharged = 0
        self.identities = 0
        self.inconclusive = []
        self.failures = []  # (check name, [assignments])
        self.obs = []
        self.labels = []

    # ---- inputs
    def real(self, name, lo=-100, hi=100):
        v = z3.Real(name)
        self.eng.inputs[name] = ("real", v)
        if lo is not None:
            self.eng.add(v >= z3.RealVal(str(lo)))
        if hi is not None:
            self.eng.add(v <= z3.RealVal(str(hi)))
        self._touch()
        if lo is not None and lo >= 0:
            self.eng.nn_ids.add(v.get_id())
            return SymNum(v, False, True)
        return SymNum(v)

    def int(self, name, lo=-100, hi=100, relaxed=False):
        """relaxed: explored over the reals (superset), integrality imposed on violations only"""
        if relaxed:
            v = z3.Real(name)
            self.eng.inputs[name] = ("rint", v)
            self.eng.relaxed.append(z3.IsInt(v))
            self.eng.relaxed_ids.add(v.get_id())
            self.eng.add(z3.And(v >= lo, v <= hi))
            self._touch()
            if lo >= 0:
                self.eng.nn_ids.add(v.get_id())
            return SymNum(v, True, lo >= 0)
        v = z3.Int(name)
        self.eng.inputs[name] = ("int", v)
        if lo is not None:
            self.eng.add(v >= lo)
        if hi is not None:
            self.eng.add(v <= hi)
        self._touch()
        return SymNum(z3.ToReal(v), True, lo is not None and lo >= 0)

    def bool(self, name):
        v = z3.Bool(name)
        self.eng.inputs[name] = ("bool", v)
        return SymBool(v)

    def choose(self, name, k):
        """symbolic choice in range(k); forks into a concrete index"""
        v = z3.Int(name)
        self.eng.inputs[name] = ("int", v)
        self.eng.add(z3.And(v >= 0, v < k))
        self._touch()
        for i in range(k - 1):
            if self.eng.branch(v == i):
                return i
        return k - 1

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def _touch(self):
        # a model that does not satisfy the new bounds is useless
        m = self.eng.model
        if m is not None and self.eng.pc:
            try:
                if not z3.is_true(m.eval(self.eng.pc[-1], model_completion=True)):
                    self.eng.model = None
            except z3.Z3Exception:
                self.eng.model = None

    def assume(self, c):
        c = self._c(c)
        if c is True:
            return
        if c is False:
            raise PathAbort("assume")
        self.eng.add(c)
        mv = self.eng.eval_bool(c)
        if mv is not True:
            r, m = self.eng.raw_check([])
            if r == "unsat":
                raise PathAbort("assume")
            self.eng.model = m

    def spread(self, xs, eps=Fraction(1, 1000)):
        """values pairwise equal or eps apart: imposed on violations only (paths cover more)"""
        e = z3.RealVal(str(Fraction(eps)))
        for i in range(len(xs)):
            for j in range(i):
                a, b = E.to_term(xs[i]), E.to_term(xs[j])
                self.eng.relaxed.append(z3.Or(a == b, a - b >= e, b - a >= e))

    # ---- logic without forking
    def _c(self, x):
        if isinstance(x, SymBool):
            return x.c
        if isinstance(x, SymNum):
            return x.t != 0
        if isinstance(x, z3.BoolRef):
            return x
        return bool(x)

    def _b(self, c):
        c = z3.simplify(c) if isinstance(c, z3.ExprRef) else c
        if c is True or c is False:
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return SymBool(c)

    def all(self, xs):
        return self._b(z3.And([self._z(x) for x in xs] + [z3.BoolVal(True)]))

    def any(self, xs):
        return self._b(z3.Or([self._z(x) for x in xs] + [z3.BoolVal(False)]))

    def _z(self, x):
        c = self._c(x)
        return z3.BoolVal(c) if isinstance(c, bool) else c

    def not_(self, x):
        return self._b(z3.Not(self._z(x)))

    def implies(self, a, b):
        return self._b(z3.Implies(self._z(a), self._z(b)))

    def iff(self, a, b):
        return self._b(self._z(a) == self._z(b))

    def ite(self, c, a, b):
        c = self._c(c)
        if isinstance(c, bool):
            return a if c else b
        return SymNum(z3.simplify(z3.If(c, E.to_term(a), E.to_term(b))))

    def min(self, xs):
        r = E.to_term(xs[0])
        for x in xs[1:]:
            t = E.to_term(x)
            r = z3.If(t < r, t, r)
        return SymNum(z3.simplify(r))

    def max(self, xs):
        r = E.to_term(xs[0])
        for x in xs[1:]:
            t = E.to_term(x)
            r = z3.If(t > r, t, r)
        return SymNum(z3.simplify(r))

    def count(self, bs):
        r = z3.RealVal(0)
        for b in bs:
            c = self._c(b)
            if isinstance(c, bool):
                r = r + (1 if c else 0)
            else:
                r = r + z3.If(c, z3.RealVal(1), z3.RealVal(0))
        return SymNum(z3.simplify(r), True)

    def sqrt(self, x):
        return x.sqrt() if isinstance(x, SymNum) else np.sqrt(x)

    def abs(self, x):
        return abs(x)

    # ---- data
    def series(self, vals, text=False, index=None, name=None):
        if text:
            vals = [
                SymStr(v, "#%d#" % i) if isinstance(v, SymNum) else v
                for i, v in enumerate(vals)
            ]
        arr = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            arr[i] = v
        return pd.Series(arr, index=index, dtype=object, name=name)

    def cell(self, v):
        return SymStr(v, "#v#") if isinstance(v, SymNum) else v

    def text_of_len(self, n):
        return E.SymText(n)

    def array(self, vals, dtype=None):
        return E_array(vals)

    # ---- assertions
    def observe(self, name, value):
        self.obs.append((name, value))

    def check(self, name, cond):
        self.checks += 1
        c = self._c(cond)
        if c is True:
            self.discharged += 1
            return
        neg = True if c is False else z3.simplify(z3.Not(c))
        self._decide(name, neg, [])

    def check_eq(self, name, a, b):
        """a equals b; exact over the reals, nan equals nan."""
        self._cmp(name, a, b)

    def check_close(self, name, a, b):
        self._cmp(name, a, b)

    def _cmp(self, name, a, b):
        self.obs.append((name, a))
        if isinstance(a, SymStr):
            a = a.num
        if isinstance(b, SymStr):
            b = b.num
        if not E.is_sym(a) and not E.is_sym(b):
            self.checks += 1
            ok = conc_close(a, b)
            if ok:
                self.discharged += 1
            else:
                self._decide(name, True, [])
            return
        ta, tb = _term(a), _term(b)
        self.checks += 1
        if ta is None or tb is None:
            # one side is nan/inf/None while the other is a finite number
            self._decide(name, True, [])
            return
        diff = E.drop_tiny(E.normal(ta - tb))
        c = E.const_of(diff)
        if c is not None and c == 0:
            self.discharged += 1
            return
        if c is not None and abs(c) < Fraction(1, 10**9):
            self.discharged += 1
            return
        if ratio.is_zero(ta - tb):
            self.discharged += 1
            self.identities += 1
            return
        marg = z3.Or(diff > z3.RealVal("1/100"), diff < z3.RealVal("-1/100"))
        self._decide(name, diff != 0, [marg])

    def check_le(self, name, a, b):
        """a <= b"""
        if not E.is_sym(a) and not E.is_sym(b):
            self.checks += 1
            if conc_le(a, b):
                self.discharged += 1
            else:
                self._decide(name, True, [])
            return
        ta, tb = _term(a), _term(b)
        self.checks += 1
        if ta is None or tb is None:
            self._decide(name, True, [])
            return
        self._decide(name, ta > tb, [ta > tb + z3.RealVal("1/100")])

    def fail(self, name):
        self.checks += 1
        self._decide(name, True, [])

    def _decide(self, name, neg, margins):
        """neg: negated assertion (True = definitely violated on this path)"""
        eng = self.eng
        extra = [] if neg is True else [neg]
        if self.failures and any(f[0] == name for f in self.failures):
            return
        r, m = eng.raw_check(extra)
        if r == "unsat":
            self.discharged += 1
            return
        if eng.relaxed:
            extra = extra + eng.relaxed
            r, m = eng.raw_check(extra)
            if r == "unsat":
                self.discharged += 1
                return
        if r == "unknown":
            self.inconclusive.append(name)
        cands = []
        nice = self._nice()
        for cs in [extra + margins + nice, extra + margins, extra + nice]:
            r2, m2 = eng.raw_check(cs, timeout=min(eng.qtimeout, 4000))
            if r2 == "sat":
                cands.append(self.assignment(m2))
        if r == "sat":
            cands.append(self.assignment(m))
        if r == "unknown" and not cands:
            # undecided: inputs of the path are still run on the real code
            for cs in (nice, eng.relaxed):
                r2, m2 = eng.raw_check(cs, timeout=1000)
                if r2 == "sat":
                    cands.append(self.assignment(m2))
        if cands:
            self.failures.append((name, cands))

    def _nice(self):
        out = []
        for n, (k, v) in self.eng.inputs.items():
            if k == "real":
                out.append(z3.IsInt(v * 4))
            elif k == "rint":
                out.append(z3.IsInt(v))
        return out

    def assignment(self, model):
        out = {}
        for n, (k, v) in self.eng.inputs.items():
            if k == "bool":
                out[n] = bool(z3.is_true(model.eval(v, model_completion=True)))
            else:
                f = E.model_value(model, v)
                out[n] = int(f) if k in ("int", "rint") else [f.numerator, f.denominator]
        return out


def E_array(vals):
    if vals and all(isinstance(v, (list, tuple)) for v in vals):
        arr = np.empty((len(vals), len(vals[0])), dtype=object)
        for i, row in enumerate(vals):
            for j, v in enumerate(row):
                arr[i, j] = v
        return arr
    arr = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        arr[i] = v
    return arr


def _term(x):
    if x is None:
        return None
    t = E.to_term(x)
    return None if t is NotImplemented else t


RTOL = 1e-6
ATOL = 1e-6


def conc_close(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return a == b
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return bool(a == b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ATOL + RTOL * max(abs(a), abs(b))


def conc_le(a, b):
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    return a <= b + ATOL + RTOL * max(abs(a), abs(b))


class ConcCtx(BaseCtx):
    """Runs a harness on concrete inputs against the unpatched code."""

    symbolic = False

    def __init__(self, values):
        self.values = values
        self.obs = []
        self.checks = 0

    def _get(self, name, default):
        return self.values.get(name, default)

    def real(self, name, lo=-100, hi=100):
        v = self._get(name, 0)
        f = Fraction(v[0], v[1]) if isinstance(v, (list, tuple)) else Fraction(v)
        x = float(f)
        if (lo is not None and x < float(lo)) or (hi is not None and x > float(hi)):
            x = min(max(x, float(lo)), float(hi))
        return x

    def int(self, name, lo=-100, hi=100, relaxed=False):
        return int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, k):
        v = int(self._get(name, 0))
        if not 0 <= v < k:
            raise AssumeFailed(name)
        return v

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed("assume")

    def all(self, xs):
        return all(bool(x) for x in list(xs))

    def any(self, xs):
        return any(bool(x) for x in list(xs))

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def min(self, xs):
        return min(xs)

    def max(self, xs):
        return max(xs)

    def count(self, bs):
        return sum(1 for b in bs if b)

    def sqrt(self, x):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return float(np.sqrt(x))

    def abs(self, x):
        return abs(x)

    def series(self, vals, text=False, index=None, name=None):
        return pd.Series([self.cell(v) for v in vals], index=index, dtype=object, name=name)

    def cell(self, v):
        if isinstance(v, (bool, np.bool_)):
            return str(v)
        if isinstance(v, (float, np.floating)):
            return repr(float(v))
        if isinstance(v, (int, np.integer)):
            return str(int(v))
        return v

    def text_of_len(self, n):
        return "a" * int(n)

    def array(self, vals, dtype=None):
        return np.array(vals, dtype=dtype)

    def observe(self, name, value):
        self.obs.append((name, value))

    def check(self, name, cond):
        self.checks += 1
        if not bool(cond):
            raise CheckFailed(name)

    def check_eq(self, name, a, b):
        self.checks += 1
        self.obs.append((name, a))
        if not conc_close(a, b):
            raise CheckFailed("%s: got %r, expected %r" % (name, a, b))

    check_close = check_eq

    def check_le(self, name, a, b):
        self.checks += 1
        if not conc_le(a, b):
            raise CheckFailed("%s: %r <= %r is false" % (name, a, b))

    def fail(self, name):
        raise CheckFailed(name)
