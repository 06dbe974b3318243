"""Dynamic symbolic executor: runs the real Python code on z3-backed values.

A harness is an ordinary function h(ctx, **params).  It is executed over and
over; every truth test of a symbolic condition asks the solver which outcomes
are feasible under the current path condition, one outcome is followed and the
other is queued.  When the harness asserts something, the solver is asked for
an input satisfying the path condition and the *negated* assertion: unsat means
the assertion holds for every input that follows this path.
"""
from __future__ import annotations

import math
import os
import numbers
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # at the END: only z3 is taken from there
import numpy as np  # noqa: E402
import z3  # noqa: E402


class PathAbort(BaseException):
    """Ends the current path (infeasible assumption or budget)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why
        if ENG is not None:
            ENG.aborted = why  # survives code that swallows BaseException


class Unsupported(Exception):
    """An operation the encoding cannot express."""


def near(c):
    """the simple fraction a coefficient with rounded root factors stands for"""
    if c.denominator < 10**9:
        return c
    if abs(c) < Fraction(1, 10**12):
        return Fraction(0)
    s = c.limit_denominator(10**6)
    return s if abs(s - c) <= abs(c) / 10**12 else c


class Engine:
    def __init__(self, qtimeout=3000, seed=1):
        self.qtimeout = qtimeout
        self.seed = seed
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.nl_queries = 0
        self.deadline = None
        self.max_branches = 4000
        self.reset([], None)

    # ---- path life cycle
    def reset(self, prefix, model):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.solver = None
        self.model = model
        self.alts = []
        self.fresh_n = 0
        self.inputs = {}
        self.sample_names = {}
        self.notes = []
        self.concretized = 0
        self.maybe_infeasible = False
        self.sqrt_cache = {}
        self.root_keys = {}
        self.kept = []
        self.pending_roots = {}
        self.nl = False
        self.aborted = None
        self.relaxed = []
        self.relaxed_ids = set()
        self.nn_ids = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.qtimeout)
        self.solver.set("random_seed", self.seed)

    def add(self, c):
        if c is True or z3.is_true(c):
            return
        self.use_roots(c)
        self.pc.append(c)
        self.solver.add(c)

    def use_roots(self, c):
        """bring in the definitions of the root variables that c mentions"""
        if not self.pending_roots:
            return False
        ids = free_ids(c)
        hit = False
        for rid in [r for r in self.pending_roots if r in ids]:
            d = self.pending_roots.pop(rid, None)
            if d is not None:
                hit = True
                self.model = None
                self.add(d)
        return hit

    def root_of(self, t):
        """a variable r >= 0 with r*r == t; its definition is used only when needed"""
        key = z3.simplify(t, som=True, som_blowup=100000)
        hit = self.sqrt_cache.get(key.get_id())
        if hit is not None:
            return hit[1]
        canon = self._canon(t)
        if canon is not None:
            ck, scale = canon
            if scale != 1:
                # proportional radicands share one root: sqrt(c*p) = sqrt(c)*sqrt(p)
                inner = z3.simplify(t * z3.RealVal(str(1 / scale)), som=True, som_blowup=100000)
                return z3.simplify(self.const_root(scale) * self.root_of(inner))
            hit = self.root_keys.get(ck)
            if hit is not None:
                return hit
        r = self.fresh("sqrt")
        self.sqrt_cache[key.get_id()] = (key, r)
        if canon is not None:
            self.root_keys[ck] = r
        self.pending_roots[r.get_id()] = z3.And(r >= 0, r * r == t)
        self.nl = True
        return r

    def const_root(self, c):
        """root of a positive constant: a rational times a variable per odd prime factor"""
        n, f = c.numerator * c.denominator, Fraction(1, c.denominator)
        out, p = None, 2
        while p * p <= n and p < 1000:
            while n % (p * p) == 0:
                n //= p * p
                f *= p
            if n % p == 0:
                n //= p
                out = self._int_root(p) if out is None else out * self._int_root(p)
            p += 1
        r = math.isqrt(n)
        if r * r == n:
            f *= r
        elif n < 10**6:
            out = self._int_root(n) if out is None else out * self._int_root(n)
        else:
            return z3.RealVal(str(snap(math.sqrt(c))))
        return z3.RealVal(str(f)) if out is None else z3.RealVal(str(f)) * out

    def _int_root(self, n):
        key = z3.RealVal(n)
        hit = self.sqrt_cache.get(key.get_id())
        if hit is not None:
            return hit[1]
        r = self.fresh("sqrt")
        self.sqrt_cache[key.get_id()] = (key, r)
        lo = Fraction(math.isqrt(n * 10**16), 10**8)
        self.pending_roots[r.get_id()] = z3.And(
            r >= z3.RealVal(str(lo)), r <= z3.RealVal(str(lo + Fraction(1, 10**8))), r * r == n)
        self.nl = True
        return r

    def _canon(self, t):
        """(monic form, positive scale) of a polynomial term, None if it is not one"""
        from . import ratio

        try:
            nm = ratio.Norm()
            n, d = nm.go(t)
        except (ratio.TooBig, RecursionError):
            return None
        if d or not n.d:
            return None
        self.kept.append(nm)  # keeps the atoms, and so their ids, alive
        k, lc = n.key()
        k = tuple((m, near(c)) for m, c in k)
        return (tuple(x for x in k if x[1]), lc > 0), abs(near(lc))

    def eval_num(self, model, term):
        """value of term; roots not constrained by the model are computed"""
        if self.sqrt_cache:
            sub = []
            for rad, r in self.sqrt_cache.values():
                v = model_value(model, z3.substitute(rad, *sub) if sub else rad)
                v = Fraction(math.sqrt(v)) if v > 0 else Fraction(0)
                sub.append((r, z3.RealVal(str(v))))
            term = z3.substitute(term, *sub)
        return model_value(model, term)

    def fresh(self, name, sort="real"):
        self.fresh_n += 1
        n = "%s!%d" % (name, self.fresh_n)
        return z3.Real(n) if sort == "real" else z3.Int(n)

    def raw_check(self, extra, timeout=None, want_model=True):
        """check pc & extra -> ('sat'|'unsat'|'unknown', model)"""
        self.queries += 1
        for c in extra:
            self.use_roots(c)
        t = time.time()
        to = timeout or self.qtimeout
        try:
            self.solver.set("timeout", int(to))
            r = self.solver.check(*extra)
            if r == z3.sat:
                return "sat", self.solver.model() if want_model else None
            if r == z3.unsat:
                return "unsat", None
            # second opinion: one-shot nlsat / default tactic
            self.nl_queries += 1
            s = z3.SolverFor("QF_NRA")
            s.set("timeout", int(to))
            s.add(*self.pc)
            s.add(*extra)
            r = s.check()
            if r == z3.sat:
                return "sat", s.model() if want_model else None
            if r == z3.unsat:
                return "unsat", None
            self.unknown += 1
            return "unknown", None
        except z3.Z3Exception:
            self.unknown += 1
            return "unknown", None
        finally:
            self.solver_s += time.time() - t

    def eval_bool(self, cond):
        if self.pending_roots:
            self.use_roots(cond)
        if self.model is None:
            return None
        try:
            v = self.model.eval(cond, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        """Decide a symbolic condition on the current path."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.aborted:
            raise PathAbort(self.aborted)
        if self.deadline and time.time() > self.deadline:
            raise PathAbort("deadline")
        i = len(self.trace)
        if i > self.max_branches:
            raise PathAbort("branch bound")
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(cond if d else z3.Not(cond))
            return d
        neg = z3.simplify(z3.Not(cond))
        mv = self.eval_bool(cond)
        if mv is None:
            r1, m1 = self.raw_check([cond])
            if r1 == "sat":
                self.model, mv = m1, True
            elif r1 == "unsat":
                r2, m2 = self.raw_check([neg])
                if r2 == "unsat":
                    raise PathAbort("infeasible")
                self.model = m2
                self.trace.append(False)
                self.add(neg)
                return False
            else:
                self.model = None
                mv = True
                self.maybe_infeasible = True
        # model satisfies `cond` iff mv; query the other side
        other = neg if mv else cond
        r, m = self.raw_check([other])
        if r != "unsat":
            self.alts.append((self.trace + [not mv], m))
        self.trace.append(mv)
        self.add(cond if mv else neg)
        return mv

    def value_of(self, term):
        """A Fraction for `term` in some model of the path."""
        if self.model is None:
            r, m = self.raw_check([])
            if r != "sat":
                raise PathAbort("no model to concretise")
            self.model = m
        return model_value(self.model, term)

    def concretize(self, term, why):
        v = self.value_of(term)
        self.concretized += 1
        if len(self.notes) < 20:
            self.notes.append(why)
        self.add(term == z3.RealVal(str(v)) if z3.is_real(term) else term == int(v))
        return v


_FREE = {}


def free_ids(t):
    """ids of the uninterpreted constants in t"""
    key = t.get_id()
    hit = _FREE.get(key)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        ch = x.children()
        if ch:
            st.extend(ch)
        elif z3.is_const(x):
            out.add(i)
    if len(_FREE) > 20000:
        _FREE.clear()
    _FREE[key] = (t, out)
    return out


def has_uf(t):
    """contains an uninterpreted function (its model value means nothing)"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
        st.extend(x.children())
    return False


def model_value(model, term):
    v = model.eval(term, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    # contains uninterpreted leftovers
    return Fraction(0)


ENG: Engine | None = None


def set_engine(e):
    global ENG
    ENG = e


# ------------------------------------------------------------------ values
def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def has_sym(x, depth=0):
    if isinstance(x, (SymNum, SymBool, SymStr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(
            isinstance(v, (SymNum, SymBool, SymStr)) for v in x.flat
        )
    if depth < 3 and isinstance(x, (list, tuple)):
        return any(has_sym(v, depth + 1) for v in x)
    vals = getattr(x, "_values", None)
    if vals is not None and isinstance(vals, np.ndarray):
        return has_sym(vals)
    return False


def snap(f):
    """The rational a machine float stands for: constants such as 4/3 or 0.1 are
    read as the small rational they round, everything else exactly."""
    e = Fraction(f)
    r = e.limit_denominator(100000)
    if r != e and abs(r - e) <= abs(e) * Fraction(1, 10**15):
        return r
    return e


def poly(t):
    """{monomial: coefficient} of a som-simplified polynomial, or None."""
    out = {}

    def mono(u):
        c = Fraction(1)
        atoms = []
        st = [u]
        while st:
            x = st.pop()
            k = const_of(x)
            if k is not None:
                c *= k
            elif z3.is_mul(x):
                st.extend(x.children())
            elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
                c = -c
                st.append(x.arg(0))
            elif z3.is_app_of(x, z3.Z3_OP_POWER):
                e = const_of(x.arg(1))
                if e is None or e.denominator != 1 or e < 0:
                    atoms.append(x)
                else:
                    st.extend([x.arg(0)] * int(e))
            else:
                atoms.append(x)
        return c, tuple(sorted(atoms, key=lambda a: a.get_id()))

    st = [(t, 1)]
    while st:
        x, sg = st.pop()
        if z3.is_add(x):
            st.extend((c, sg) for c in x.children())
        elif z3.is_sub(x):
            ch = x.children()
            st.append((ch[0], sg))
            st.extend((c, -sg) for c in ch[1:])
        else:
            c, m = mono(x)
            key = tuple(a.get_id() for a in m)
            old = out.get(key)
            out[key] = (c * sg + (old[0] if old else 0), m)
    return out


def normal(t):
    """polynomial normal form; squares of root variables are replaced by their radicand"""
    t = z3.simplify(t, som=True, som_blowup=100000)
    roots = {r.get_id(): rad for rad, r in ENG.sqrt_cache.values()}
    if not roots:
        return t
    for _ in range(6):
        p = poly(t)
        hit = False
        terms = []
        for c, m in p.values():
            if c == 0:
                continue
            u = z3.RealVal(str(c))
            i = 0
            while i < len(m):
                a = m[i]
                if a.get_id() in roots and i + 1 < len(m) and m[i + 1].get_id() == a.get_id():
                    u = u * roots[a.get_id()]
                    hit = True
                    i += 2
                else:
                    u = u * a
                    i += 1
            terms.append(u)
        if not hit:
            return t
        t = z3.simplify(z3.Sum(terms + [z3.RealVal(0)]), som=True, som_blowup=100000)
    return t


def drop_tiny(t, rel=Fraction(1, 10**12), scale=None):
    """Remove monomials whose coefficient is rounding noise of constants."""
    p = poly(t)
    if not p:
        return t
    ref = scale or Fraction(1)
    keep = [(c, m) for c, m in p.values() if abs(c) > rel * ref]
    if len(keep) == len(p):
        return t
    s = z3.RealVal(0)
    for c, m in keep:
        u = z3.RealVal(str(c))
        for a in m:
            u = u * a
        s = s + u
    return z3.simplify(s)


def to_term(x):
    """z3 arithmetic term for a finite number (or None if not representable)."""
    if isinstance(x, SymNum):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.c, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, SymStr):
        return x.num.t
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            return None
        return z3.RealVal(str(snap(f)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_term(x.item())
    return NotImplemented


def integral(t):
    """term is integer-valued by construction"""
    c = const_of(t)
    if c is not None:
        return c.denominator == 1
    if z3.is_int(t) or z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return True
    if ENG is not None and t.get_id() in ENG.relaxed_ids:
        return True
    if z3.is_add(t) or z3.is_mul(t) or z3.is_sub(t) or z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return all(integral(x) for x in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return integral(t.arg(1)) and integral(t.arg(2))
    return False


def nonneg(x):
    if isinstance(x, SymNum):
        return x.nn
    if isinstance(x, SymBool):
        return True
    try:
        return bool(x >= 0)
    except Exception:
        return False


def _special(x):
    """float nan/inf value or None"""
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            return f
    return None


def const_of(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def mk(t, isint=False):
    return SymNum(t, isint)


def _coerce_pair(a, b):
    if z3.is_int(a):
        a = z3.ToReal(a)
    if z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


TINY = Fraction(1, 10**9)


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ENG.branch(self.c)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.c, o.c))
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.c, o.c))
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.c))

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Xor(self.c, o.c))
        return SymBool(z3.Not(self.c)) if o else self

    def num(self):
        return SymNum(z3.If(self.c, z3.RealVal(1), z3.RealVal(0)), True)

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.c == o.c)
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return 0

    def __repr__(self):
        return "<symbool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


FORMATTED: list = []


def read_back(text):
    for v in FORMATTED:
        if text == "<sym:%d>" % id(v):
            return v
    return None


class SymNum:
    """A symbolic real (or integral) number standing for one Python number.

    isint: the value is known to be integral (a Python int / count).
    Division by zero follows numpy (nan/inf) as the values come from arrays.
    """

    __slots__ = ("t", "isint", "nn", "pw")

    def __init__(self, t, isint=False, nn=False, pw=None):
        self.pw = pw
        self.t = t
        self.isint = isint
        self.nn = nn  # known to be >= 0 by construction (squares and sums of them)

    # -- arithmetic
    def _bin(self, o, f, special, isint_keep=True, swap=False, nn=None):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if hasattr(o, "_values") and hasattr(o, "index"):
            return NotImplemented
        s = _special(o)
        if s is not None:
            return special(s)
        b = to_term(o)
        if b is NotImplemented:
            return NotImplemented
        oi = isinstance(o, (int, np.integer, bool, np.bool_, SymBool)) or (
            isinstance(o, SymNum) and o.isint
        )
        same = b is self.t or b.eq(self.t)
        a, b = (b, self.t) if swap else (self.t, b)
        r = z3.simplify(f(a, b))
        n = False
        if nn is not None:
            n = (nn == "*" and same) or (self.nn and nonneg(o))
        return SymNum(r, self.isint and oi and isint_keep, n)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda s: np.float64(s), nn="+")

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda s: np.float64(-s))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda s: np.float64(s), swap=True)

    def _mulspecial(self, s):
        if math.isnan(s):
            return np.float64("nan")
        if ENG.branch(self.t == 0):
            return np.float64("nan")
        return np.float64(s if ENG.branch(self.t > 0) else -s)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return self.__index__() * o
        return self._bin(o, lambda a, b: a * b, self._mulspecial, nn="*")

    def __rmul__(self, o):
        return self.__mul__(o)

    def _div(self, a, b, nn=False):
        """a/b for z3 terms; zero denominators forked, numpy semantics"""
        cb = const_of(b)
        if cb is not None:
            zero = cb == 0
        else:
            zero = ENG.branch(b == 0)
        if zero:
            if ENG.branch(a == 0):
                return np.float64("nan")
            return np.float64("inf") if ENG.branch(a > 0) else np.float64("-inf")
        return SymNum(z3.simplify(a / b), False, nn)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if hasattr(o, "_values") and hasattr(o, "index"):
            return NotImplemented
        s = _special(o)
        if s is not None:
            return np.float64("nan") if math.isnan(s) else np.float64(0.0)
        b = to_term(o)
        if b is NotImplemented:
            return NotImplemented
        return self._div(self.t, b, self.nn and nonneg(o))

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        s = _special(o)
        if s is not None:
            return self._mulspecial(s)
        a = to_term(o)
        if a is NotImplemented:
            return NotImplemented
        return self._div(a, self.t, self.nn and nonneg(o))

    def __floordiv__(self, o):
        q = self.__truediv__(o)
        return q.floor() if isinstance(q, SymNum) else q

    def __rfloordiv__(self, o):
        q = self.__rtruediv__(o)
        return q.floor() if isinstance(q, SymNum) else q

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymNum(z3.simplify(-self.t), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.nn:
            return self
        return SymNum(z3.If(self.t >= 0, self.t, -self.t), self.isint, True)

    def __pow__(self, e, mod=None):
        if isinstance(e, SymNum):
            c = const_of(z3.simplify(e.t))
            if c is None:
                c = ENG.concretize(e.t, "pow: symbolic exponent")
            e = c
        elif isinstance(e, (np.integer, np.floating, int, float, Fraction)):
            s = _special(e)
            if s is not None:
                return np.float64(float("nan"))
            e = Fraction(float(e)) if not isinstance(e, (int, Fraction)) else Fraction(e)
        else:
            return NotImplemented
        if e.denominator == 1:
            n = int(e)
            if n >= 0:
                r = z3.RealVal(1)
                for _ in range(n):
                    r = r * self.t
                return SymNum(z3.simplify(r), self.isint, n % 2 == 0 or self.nn,
                              (self, n) if n > 1 else None)
            return 1 / (self ** (-n))
        if e.denominator == 2:
            r = self.sqrt()
            if not isinstance(r, SymNum):
                return r
            return r ** int(e.numerator)
        if e.denominator == 3:
            r = ENG.fresh("cbrt")
            if ENG.branch(self.t < 0):
                return np.float64("nan")
            ENG.add(z3.And(r >= 0, r * r * r == self.t))
            ENG.nl = True
            return SymNum(r) ** int(e.numerator)
        # other exponent: opaque function of the base
        f = z3.Function("pow_%s" % str(e).replace("/", "_"), z3.RealSort(), z3.RealSort())
        if ENG.branch(self.t < 0):
            return np.float64("nan")
        if ENG.branch(self.t == 0):
            return np.float64(0.0) if e > 0 else np.float64("inf")
        ENG.add(f(self.t) > 0)
        ENG.notes.append("pow %s uninterpreted" % e)
        return SymNum(f(self.t))

    def __rpow__(self, o):
        c = const_of(z3.simplify(self.t))
        if c is None:
            c = ENG.concretize(self.t, "pow: symbolic exponent")
        return o ** (int(c) if c.denominator == 1 else float(c))

    # -- methods numpy's object loops call
    def sqrt(self):
        c = const_of(self.t)
        if c is not None:
            if c < 0:
                return np.float64("nan")
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return SymNum(z3.RealVal(str(Fraction(rn, rd))))
        if self.pw is not None:
            base, e = self.pw
            if e % 2 and base.nn:
                return (base ** (e // 2)) * base.sqrt()
            if e % 2 == 0:
                return abs(base) ** (e // 2)
        if c is None and not self.nn and ENG.branch(self.t < 0):
            return np.float64("nan")
        if c is None:
            m = self._mono_sqrt()
            if m is not None:
                return m
        return SymNum(ENG.root_of(self.t), False, True)

    def _mono_sqrt(self):
        """sqrt(c * a^2k * b^2l ...) = sqrt(c) * a^k * b^l for atoms known to be >= 0"""
        p = poly(z3.simplify(self.t, som=True))
        p = {k: v for k, v in p.items() if v[0] != 0}
        if len(p) != 1:
            return None
        ((c, m),) = p.values()
        if c <= 0 or len(m) % 2 or not m:
            return None
        half = []
        for i in range(0, len(m), 2):
            if m[i].get_id() != m[i + 1].get_id() or m[i].get_id() not in ENG.nn_ids:
                return None
            half.append(m[i])
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn == c.numerator and rd * rd == c.denominator:
            r = z3.RealVal(str(Fraction(rn, rd)))
        else:
            r = z3.RealVal(str(snap(float(np.sqrt(float(c))))))
        for a in half:
            r = r * a
        return SymNum(z3.simplify(r), False, True)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def _opaque(self, name, pos=None):
        f = z3.Function(name, z3.RealSort(), z3.RealSort())
        ENG.notes.append(name + " uninterpreted")
        ENG.model = None
        return SymNum(f(self.t))

    def log(self):
        c = const_of(self.t)
        if c is not None:
            return np.log(float(c))
        if ENG.branch(self.t <= 0):
            return np.float64("-inf") if ENG.branch(self.t == 0) else np.float64("nan")
        r = self._opaque("ln")
        ENG.add((r.t > 0) == (self.t > 1))
        ENG.add((r.t == 0) == (self.t == 1))
        return r

    def log2(self):
        r = self.log()
        return r / math.log(2)

    def log10(self):
        r = self.log()
        return r / math.log(10)

    def log1p(self):
        return (self + 1).log()

    def exp(self):
        r = self._opaque("exp")
        ENG.add(r.t > 0)
        return r

    def floor(self):
        if self.isint or integral(self.t):
            return SymNum(self.t, True, self.nn)
        return SymNum(z3.ToReal(z3.ToInt(self.t)), True)

    def ceil(self):
        if self.isint or integral(self.t):
            return SymNum(self.t, True, self.nn)
        return SymNum(-z3.ToReal(z3.ToInt(-self.t)), True)

    def trunc(self):
        if self.isint or integral(self.t):
            return SymNum(self.t, True, self.nn)
        return SymNum(
            z3.If(
                self.t >= 0, z3.ToReal(z3.ToInt(self.t)), -z3.ToReal(z3.ToInt(-self.t))
            ),
            True,
        )

    def rint(self):
        if self.isint or integral(self.t):
            return SymNum(self.t, True, self.nn)
        # ties to even
        f = z3.ToReal(z3.ToInt(self.t))
        d = self.t - f
        even = z3.ToInt(self.t) % 2 == 0
        half = z3.RealVal("1/2")
        return SymNum(
            z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(even, f, f + 1))), True
        )

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __round__(self, n=None):
        if n is None or n == 0:
            return self.rint()
        return (self * 10**n).rint() / 10**n

    def item(self):
        return self

    def is_integer(self):
        if self.isint or integral(self.t):
            return True
        return SymBool(z3.IsInt(self.t))

    # -- comparisons
    def _cmp(self, o, f, nanv, infv):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if hasattr(o, "_values") and hasattr(o, "index"):
            return NotImplemented
        s = _special(o)
        if s is not None:
            return nanv if math.isnan(s) else infv(s)
        b = to_term(o)
        if b is NotImplemented or b is None:
            return NotImplemented
        cb = const_of(b)
        if cb is not None and 0 < abs(cb) <= TINY:
            # noise thresholds of the float code are read as zero in exact arithmetic
            less = f(0, 1) and not f(1, 0)
            more = f(1, 0) and not f(0, 1)
            if less:
                f = (lambda x, y: x <= y) if cb > 0 else (lambda x, y: x < y)
            elif more:
                f = (lambda x, y: x > y) if cb > 0 else (lambda x, y: x >= y)
            if less or more:
                b = z3.RealVal(0)
                cb = Fraction(0)
        if self.nn and cb == 0:
            # t >= 0 is known: only the zero test is open
            k = (f(1, 0), f(0, 0))
            if k == (True, True) or k == (False, False):
                return k[0]
            if k == (False, True):
                f = lambda x, y: x == y  # noqa: E731
            elif k == (True, False):
                f = lambda x, y: x != y  # noqa: E731
        c = z3.simplify(f(self.t, b))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return SymBool(c)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, False, lambda s: s > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, False, lambda s: s > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, lambda s: s < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, lambda s: s < 0)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, lambda s: False)
        return False if r is NotImplemented and not hasattr(o, "__len__") else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, True, lambda s: True)
        return True if r is NotImplemented and not hasattr(o, "__len__") else r

    def __hash__(self):
        return 0

    def __bool__(self):
        return ENG.branch(self.t != 0)

    # -- coercions that leave the symbolic world
    def __index__(self):
        t = z3.simplify(self.t)
        c = const_of(t)
        if c is not None:
            if c.denominator != 1:
                raise TypeError("non-integral index")
            return int(c)
        if ENG.relaxed and (self.isint or integral(t)):
            ENG.add(z3.IsInt(t))
            ENG.model = None
        for _ in range(400):
            v = ENG.value_of(t)
            if v.denominator != 1:
                v = Fraction(math.floor(v))
            if ENG.branch(t == z3.RealVal(str(v))):
                return int(v)
        raise PathAbort("index domain too large")

    def __int__(self):
        x = self if self.isint else self.trunc()
        return x.__index__()

    def __float__(self):
        c = const_of(z3.simplify(self.t))
        if c is not None:
            return float(c)
        return float(ENG.concretize(self.t, "float() of a symbolic value"))

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        return "<sym>"

    def __format__(self, spec):
        # a number formatted to some digits can be read back (rounding is not modelled)
        FORMATTED[:] = FORMATTED[-99:] + [self]
        return "<sym:%d>" % id(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


class SymStr(str):
    """A cell holding the decimal text of a symbolic number."""

    num: SymNum

    def __new__(cls, num, text="0"):
        s = super().__new__(cls, text)
        s.num = num
        return s

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return bool(self.num == o.num)
        if isinstance(o, str):
            try:
                v = float(o)
            except ValueError:
                return False
            return bool(self.num == v)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        raise Unsupported("lexicographic order of a symbolic text")

    __gt__ = __le__ = __ge__ = __lt__

    def __hash__(self):
        return 0

    def __str__(self):
        return self

    def __float__(self):
        return float(self.num)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymText(str):
    """An opaque text whose length is a symbolic integer."""

    n: SymNum

    def __new__(cls, n):
        s = super().__new__(cls, "a")
        s.n = n
        return s

    def __str__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


numbers.Number.register(SymNum)
