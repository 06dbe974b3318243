"""Environment model: lets the unmodified code run on symbolic values.

Applied only inside symbolic worker processes; replays run unpatched code.
* every dataprofiler module gets a numpy facade as its `np` (most functions pass
  straight through; those whose C loops only accept machine floats have a
  reference implementation over object arrays)
* float/int are shadowed by subclasses that pass symbolic numbers through
* a few pandas Series methods accept object columns holding symbolic numbers
"""
from __future__ import annotations

import builtins
import math
import sys
import types

import numpy as np
import pandas as pd
import z3

from . import engine as E
from .engine import SymBool, SymNum, SymStr, has_sym

_real = {}


class SymArray(np.ndarray):
    def astype(self, dtype, *a, **k):
        if self.dtype == object and has_sym(np.asarray(self)):
            out = np.empty(self.shape, dtype=object)
            isint = _is_int_dtype(dtype)
            for i in np.ndindex(*self.shape):
                v = self[i]
                if isinstance(v, SymStr):
                    v = v.num
                if isinstance(v, SymBool):
                    v = v.num()
                if isinstance(v, SymNum) and isint:
                    v = v.trunc()
                out[i] = v
            return out.view(SymArray)
        return np.asarray(self).astype(_real_dtype(dtype), *a, **k)

    def tolist(self):
        return np.asarray(self).tolist()

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return f_var(np.asarray(self), ddof=ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return f_sqrt(f_var(np.asarray(self), ddof=ddof))


def obj(vals, shape=None):
    vals = list(vals)
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    if shape is not None:
        a = a.reshape(shape)
    return a.view(SymArray)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SymNum) and not x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_FloatMeta):
    """float() that lets symbolic numbers through"""

    def __new__(cls, x=0.0):
        if isinstance(x, SymNum):
            return SymNum(x.t, False)
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, SymStr):
            return SymNum(x.num.t, False)
        if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
            return cls(x.item())
        if type(x) is str and x.startswith("<sym:"):
            v = E.read_back(x)
            if v is not None:
                return SymNum(v.t, False)
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SymNum) and x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(int)


class SymInt(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymStr):
            x = x.num
        if isinstance(x, SymNum):
            return x.trunc()
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
            return cls(x.item())
        return int(x, *a)

    from_bytes = int.from_bytes


class _NpFMeta(type):
    real = np.float64

    def __instancecheck__(cls, x):
        return isinstance(x, cls.real) or isinstance(x, SymNum)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)


class NpFloat64(metaclass=_NpFMeta):
    def __new__(cls, x=0.0):
        if E.is_sym(x) or isinstance(x, SymStr):
            return SymFloat(x)
        return np.float64(x)


class _NpIMeta(_NpFMeta):
    real = np.int64

    def __instancecheck__(cls, x):
        return isinstance(x, np.int64) or (isinstance(x, SymNum) and x.isint)


class NpInt64(metaclass=_NpIMeta):
    def __new__(cls, x=0):
        if E.is_sym(x) or isinstance(x, SymStr):
            return SymInt(x)
        return np.int64(x)


def _real_dtype(d):
    if d is SymFloat or d is NpFloat64:
        return float
    if d is SymInt or d is NpInt64:
        return int
    return d


def _is_int_dtype(d):
    try:
        return np.issubdtype(np.dtype(_real_dtype(d)), np.integer)
    except TypeError:
        return False


def _flat(x):
    if hasattr(x, "_values"):
        x = x._values
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out.extend(_flat(v) if isinstance(v, (list, tuple, np.ndarray)) else [v])
        return out
    return [x]


def _elementwise(fn):
    def f(x, *a, **k):
        if isinstance(x, np.ndarray) and x.ndim:
            return obj([fn(v) for v in x.ravel()], x.shape)
        if isinstance(x, (list, tuple)):
            return obj([fn(v) for v in x])
        if hasattr(x, "_values") and hasattr(x, "index"):
            return pd.Series(obj([fn(v) for v in x._values]), index=x.index)
        return fn(x)

    return f


def _boolwise(fn):
    def f(x, *a, **k):
        if isinstance(x, np.ndarray) and x.ndim:
            return np.array([bool(fn(v)) for v in x.ravel()], dtype=bool).reshape(x.shape)
        if isinstance(x, (list, tuple)):
            return np.array([bool(fn(v)) for v in x], dtype=bool)
        if hasattr(x, "_values") and hasattr(x, "index"):
            return pd.Series([bool(fn(v)) for v in x._values], index=x.index)
        return fn(x)

    return f


def _sisnan(v):
    if E.is_sym(v) or isinstance(v, SymStr):
        return False
    return np.isnan(float(v)) if not isinstance(v, (np.ndarray,)) else np.isnan(v)


def _sisinf(v):
    if E.is_sym(v) or isinstance(v, SymStr):
        return False
    return np.isinf(float(v))


def _sisfinite(v):
    if E.is_sym(v) or isinstance(v, SymStr):
        return True
    return np.isfinite(float(v))


def _wm(name, fallback):
    """scalar function: call the method on symbolic values, numpy otherwise"""

    def g(v):
        if isinstance(v, SymStr):
            v = v.num
        if isinstance(v, SymBool):
            v = v.num()
        if isinstance(v, SymNum):
            return getattr(v, name)()
        if isinstance(v, E.Fraction):
            v = float(v)
        return fallback(v)

    return g


f_sqrt = _elementwise(_wm("sqrt", np.sqrt))


def f_var(a, axis=None, ddof=0, **k):
    xs = [x.num if isinstance(x, SymStr) else x for x in _flat(a)]
    n = len(xs)
    if n - ddof <= 0:
        return np.float64("nan")
    m = sum(xs[1:], xs[0]) / n
    d = [(x - m) * (x - m) for x in xs]
    return sum(d[1:], d[0]) / (n - ddof)


def f_mean(a, axis=None, **k):
    if axis is not None and isinstance(a, np.ndarray) and a.ndim > 1:
        return np.mean(a, axis=axis)
    xs = _flat(a)
    if not xs:
        return np.float64("nan")
    return sum(xs[1:], xs[0]) / len(xs)


def s_min(xs):
    xs = list(xs)
    for x in xs:
        if isinstance(x, (float, np.floating)) and math.isnan(x):
            return np.float64("nan")
    if any(isinstance(x, (float, np.floating)) and math.isinf(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            if x < r:
                r = x
        return r
    r = E.to_term(xs[0])
    allint = _isint(xs[0])
    for x in xs[1:]:
        t = E.to_term(x)
        allint = allint and _isint(x)
        r = z3.If(t < r, t, r)
    return SymNum(z3.simplify(r), allint)


def s_max(xs):
    xs = list(xs)
    for x in xs:
        if isinstance(x, (float, np.floating)) and math.isnan(x):
            return np.float64("nan")
    if any(isinstance(x, (float, np.floating)) and math.isinf(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            if x > r:
                r = x
        return r
    r = E.to_term(xs[0])
    allint = _isint(xs[0])
    for x in xs[1:]:
        t = E.to_term(x)
        allint = allint and _isint(x)
        r = z3.If(t > r, t, r)
    return SymNum(z3.simplify(r), allint)


def _isint(x):
    return isinstance(x, (int, np.integer)) or (isinstance(x, SymNum) and x.isint)


def f_min(a, axis=None, **k):
    if axis is not None and getattr(a, "ndim", 1) > 1:
        return np.min(a, axis=axis)
    return s_min(_flat(a))


def f_max(a, axis=None, **k):
    if axis is not None and getattr(a, "ndim", 1) > 1:
        return np.max(a, axis=axis)
    return s_max(_flat(a))


def f_sum(a, axis=None, **k):
    if axis is not None and getattr(a, "ndim", 1) > 1:
        return np.sum(a, axis=axis)
    xs = _flat(a)
    r = 0
    for x in xs:
        r = r + x
    return r


def f_digitize(x, bins, right=False):
    bins = _flat(bins)
    n = len(bins)
    up = True
    for i in range(n - 1):
        if not (bins[i] <= bins[i + 1]):
            up = False
            break
    if not up:
        for i in range(n - 1):
            if not (bins[i] >= bins[i + 1]):
                raise ValueError("bins must be monotonically increasing or decreasing")

    def one(v):
        k = 0
        if up:
            for b in bins:
                if (v > b) if right else (v >= b):
                    k += 1
                else:
                    break
        else:
            for b in bins:
                if (v <= b) if right else (v < b):
                    k += 1
                else:
                    break
        return k

    if isinstance(x, (np.ndarray, list, tuple)) or hasattr(x, "_values"):
        return np.array([one(v) for v in _flat(x)], dtype=int)
    return one(x)


def f_interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = _flat(xp), _flat(fp)

    def one(v):
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[-1]:
            return fp[-1] if right is None else right
        # numpy: j such that xp[j] <= v < xp[j+1]
        j = 0
        for i in range(len(xp)):
            if xp[i] <= v:
                j = i
            else:
                break
        if j == len(xp) - 1:
            return fp[j]
        if xp[j] == v:
            return fp[j]
        s = (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j])
        return s * (v - xp[j]) + fp[j]

    if isinstance(x, (np.ndarray, list, tuple)):
        return obj([one(v) for v in _flat(x)])
    return one(x)


def f_linspace(start, stop, num=50, endpoint=True, **k):
    num = int(num)
    div = (num - 1) if endpoint else num
    out = []
    for i in range(num):
        if i == num - 1 and endpoint and num > 1:
            out.append(stop)
        elif i == 0:
            out.append(start)
        else:
            out.append(start + (stop - start) * i / div)
    return obj(out)


def f_histogram(a, bins=10, range=None, weights=None, density=None):
    xs = _flat(a)
    if isinstance(bins, (int, np.integer, SymNum)):
        nb = int(bins)
        if range is None:
            lo, hi = s_min(xs), s_max(xs)
        else:
            lo, hi = range
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        edges = list(f_linspace(lo, hi, nb + 1))
    else:
        edges = _flat(bins)
        nb = len(edges) - 1
    counts = [0] * nb
    ws = _flat(weights) if weights is not None else [1] * len(xs)
    for v, w in zip(xs, ws):
        if v < edges[0] or v > edges[-1]:
            continue
        k = nb - 1
        for i in builtins.range(nb - 1):
            if v < edges[i + 1]:
                k = i
                break
        counts[k] = counts[k] + w
    if all(isinstance(c, int) for c in counts):
        return np.array(counts), obj(edges)
    return obj(counts), obj(edges)


def f_unique(a, return_counts=False, return_inverse=False, return_index=False, **k):
    xs = _flat(a)
    uniq, cnt, inv, idx = [], [], [], []
    for n, v in enumerate(xs):
        for i, u in enumerate(uniq):
            if u == v:
                cnt[i] += 1
                inv.append(i)
                break
        else:
            uniq.append(v)
            cnt.append(1)
            idx.append(n)
            inv.append(len(uniq) - 1)
    order = sorted(builtins.range(len(uniq)), key=_Key(uniq))
    out = [obj([uniq[i] for i in order])]
    if return_index:
        out.append(np.array([idx[i] for i in order]))
    if return_inverse:
        pos = {o: p for p, o in enumerate(order)}
        out.append(np.array([pos[i] for i in inv]))
    if return_counts:
        out.append(np.array([cnt[i] for i in order]))
    return tuple(out) if len(out) > 1 else out[0]


def _Key(vals):
    class K:
        __slots__ = ("i",)

        def __init__(self, i):
            self.i = i

        def __lt__(self, o):
            return bool(vals[self.i] < vals[o.i])

    return K


def f_average(a, axis=None, weights=None, **k):
    xs = _flat(a)
    if weights is None:
        return f_mean(a)
    ws = _flat(weights)
    return f_sum([x * w for x, w in zip(xs, ws)]) / f_sum(ws)


def f_array_equal(a, b, equal_nan=False):
    x, y = _flat(a), _flat(b)
    if len(x) != len(y):
        return False
    for u, v in zip(x, y):
        if not (u == v):
            return False
    return True


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x, y = _flat(a), _flat(b)
    if len(y) == 1 and len(x) > 1:
        y = y * len(x)
    for u, v in zip(x, y):
        if not (abs(u - v) <= atol + rtol * abs(v)):
            return False
    return True


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not isinstance(a, (np.ndarray, list)) and not isinstance(b, (np.ndarray, list)):
        return abs(a - b) <= atol + rtol * abs(b)
    x, y = _flat(a), _flat(b)
    if len(y) == 1 and len(x) > 1:
        y = y * len(x)
    return np.array([bool(abs(u - v) <= atol + rtol * abs(v)) for u, v in zip(x, y)])


def f_power(a, b):
    if isinstance(a, np.ndarray) and a.ndim:
        return obj([v**b for v in a.ravel()], a.shape)
    if hasattr(a, "_values") and hasattr(a, "index"):
        return pd.Series(obj([v**b for v in a._values]), index=a.index)
    return a**b


def f_bincount(x, weights=None, minlength=0):
    xs = [int(v) for v in _flat(x)]
    n = max(max(xs, default=-1) + 1, minlength)
    out = [0] * n
    ws = _flat(weights) if weights is not None else [1] * len(xs)
    for v, w in zip(xs, ws):
        out[v] = out[v] + w
    return obj(out)


def f_argmax(a, axis=None, **k):
    if isinstance(a, np.ndarray) and a.ndim > 1 and axis is not None:
        return np.apply_along_axis(lambda r: f_argmax(r), axis, a)
    xs = _flat(a)
    b = 0
    for i in range(1, len(xs)):
        if xs[i] > xs[b]:
            b = i
    return b


def f_argmin(a, axis=None, **k):
    xs = _flat(a)
    b = 0
    for i in range(1, len(xs)):
        if xs[i] < xs[b]:
            b = i
    return b


def f_ptp(a, **k):
    return f_max(a) - f_min(a)


def f_count_nonzero(a, **k):
    n = 0
    for v in _flat(a):
        if v:
            n += 1
    return n


def f_where(c, *rest):
    if not rest:
        c = np.array([bool(v) for v in _flat(c)])
        return np.where(c)
    c = np.array([bool(v) for v in _flat(c)]).reshape(np.shape(c))
    return np.where(c, *rest)


def f_std(a, axis=None, ddof=0, **k):
    return f_sqrt(f_var(a, ddof=ddof))


def f_corrcoef(x, y=None, rowvar=True, **k):
    a = np.asarray(x._values if hasattr(x, "_values") else x, dtype=object)
    if not rowvar:
        a = a.T
    m, n = a.shape
    cov = np.empty((m, m), dtype=object)
    ms = [sum(list(r)[1:], r[0]) / n for r in a]
    d = [[v - ms[i] for v in r] for i, r in enumerate(a)]
    for i in range(m):
        for j in range(m):
            p = [u * v for u, v in zip(d[i], d[j])]
            cov[i, j] = sum(p[1:], p[0]) / (n - 1) if n > 1 else np.float64("nan")
    out = np.empty((m, m), dtype=object)
    sd = [f_sqrt(cov[i, i]) for i in range(m)]
    for i in range(m):
        for j in range(m):
            out[i, j] = cov[i, j] / sd[i] / sd[j]
    return out.view(SymArray)


OVERRIDES = {
    "isnan": _boolwise(_sisnan),
    "isinf": _boolwise(_sisinf),
    "isfinite": _boolwise(_sisfinite),
    "sqrt": f_sqrt,
    "log": _elementwise(_wm("log", np.log)),
    "log2": _elementwise(_wm("log2", np.log2)),
    "log10": _elementwise(_wm("log10", np.log10)),
    "log1p": _elementwise(_wm("log1p", np.log1p)),
    "exp": _elementwise(_wm("exp", np.exp)),
    "ceil": _elementwise(_wm("ceil", np.ceil)),
    "floor": _elementwise(_wm("floor", np.floor)),
    "rint": _elementwise(_wm("rint", np.rint)),
    "round": lambda a, decimals=0, **k: _elementwise(lambda v: round(v, decimals))(a),
    "var": f_var,
    "nanvar": f_var,
    "std": f_std,
    "mean": f_mean,
    "nanmean": f_mean,
    "average": f_average,
    "min": f_min,
    "amin": f_min,
    "nanmin": f_min,
    "max": f_max,
    "amax": f_max,
    "nanmax": f_max,
    "sum": f_sum,
    "nansum": f_sum,
    "digitize": f_digitize,
    "interp": f_interp,
    "linspace": f_linspace,
    "histogram": f_histogram,
    "unique": f_unique,
    "array_equal": f_array_equal,
    "allclose": f_allclose,
    "isclose": f_isclose,
    "power": f_power,
    "float_power": f_power,
    "square": lambda a: a * a,
    "bincount": f_bincount,
    "argmax": f_argmax,
    "argmin": f_argmin,
    "ptp": f_ptp,
    "count_nonzero": f_count_nonzero,
    "where": f_where,
    "corrcoef": f_corrcoef,
}


def f_zeros(shape, dtype=float, **k):
    if _real_dtype(dtype) in (float, np.float64, int, np.int64):
        a = np.empty(shape, dtype=object)
        one = np.float64(0.0) if _real_dtype(dtype) in (float, np.float64) else 0
        a[...] = one
        for i in np.ndindex(*a.shape):
            a[i] = one
        return a.view(SymArray)
    return np.zeros(shape, dtype=dtype, **k)


def f_ones(shape, dtype=float, **k):
    a = f_zeros(shape, dtype)
    return a + 1


def f_full(shape, fill_value, dtype=None, **k):
    if E.is_sym(fill_value) or (isinstance(fill_value, (float, int, np.number))
                                and not isinstance(fill_value, bool)):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = fill_value
        return a.view(SymArray)
    return np.full(shape, fill_value, dtype=dtype, **k)


def f_array(x, dtype=None, *a, **k):
    dtype = _real_dtype(dtype)
    if has_sym(x):
        r = np.array(x if not hasattr(x, "_values") else x._values, dtype=object)
        return r.view(SymArray)
    return np.array(x, dtype=dtype, *a, **k)


def f_asarray(x, dtype=None, *a, **k):
    dtype = _real_dtype(dtype)
    if isinstance(x, SymArray):
        return x
    if has_sym(x):
        return np.asarray(
            x if not hasattr(x, "_values") else x._values, dtype=object
        ).view(SymArray)
    return np.asarray(x, dtype=dtype, *a, **k)


ALWAYS = {
    "zeros": f_zeros,
    "ones": f_ones,
    "full": f_full,
    "array": f_array,
    "asarray": f_asarray,
    "float64": NpFloat64,
    "int64": NpInt64,
}


def _defloat(x):
    """object array without symbolic content -> machine array"""
    if isinstance(x, np.ndarray) and x.dtype == object and x.size:
        if all(isinstance(v, (int, float, np.number, bool, np.bool_)) for v in x.flat):
            y = np.array(np.asarray(x).tolist())
            return y if y.dtype != object else x
    if isinstance(x, SymArray):
        return np.asarray(x)
    if isinstance(x, list):
        return [_defloat(v) for v in x] if any(isinstance(v, np.ndarray) for v in x) else x
    if isinstance(x, tuple) and any(isinstance(v, np.ndarray) for v in x):
        return tuple(_defloat(v) for v in x)
    return x


def _concretize_arg(x):
    if isinstance(x, SymNum):
        return float(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymStr):
        return float(x.num)
    if isinstance(x, np.ndarray) and x.dtype == object:
        y = [_concretize_arg(v) for v in x.ravel()]
        return np.array(y).reshape(x.shape)
    if hasattr(x, "_values") and hasattr(x, "index") and has_sym(x):
        return pd.Series(_concretize_arg(np.asarray(x._values)), index=x.index)
    if isinstance(x, (list, tuple)):
        return type(x)(_concretize_arg(v) for v in x)
    return x


def _wrap(name, realf):
    ov = OVERRIDES.get(name)

    def f(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if ov is not None:
                return ov(*a, **k)
            if "dtype" in k:
                k["dtype"] = object
            try:
                r = realf(*a, **k)
            except TypeError:
                E.ENG.notes.append("np.%s concretised" % name)
                return realf(*[_concretize_arg(x) for x in a],
                             **{q: _concretize_arg(x) for q, x in k.items()})
            if isinstance(r, np.ndarray) and r.dtype == object and r.ndim:
                return r.view(SymArray)
            return r
        a = [_defloat(x) for x in a]
        k = {q: _real_dtype(_defloat(x)) for q, x in k.items()}
        return realf(*a, **k)

    f.__name__ = name
    return f


class UfuncFacade:
    """wrapped ufunc keeping .reduce etc."""

    def __init__(self, name, u):
        self._u = u
        self._f = _wrap(name, u)

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __getattr__(self, n):
        return getattr(self._u, n)


class NPFacade(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        if name in ALWAYS:
            v = ALWAYS[name]
        else:
            v = getattr(np, name)
            if isinstance(v, np.ufunc):
                v = UfuncFacade(name, v)
            elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or (
                callable(v) and not isinstance(v, type) and name in OVERRIDES
            ) or type(v).__name__ == "_ArrayFunctionDispatcher":
                v = _wrap(name, v)
        c[name] = v
        return v


NPF = NPFacade()


# ------------------------------------------------------------- pandas layer
def _patch_pandas():
    S = pd.Series
    orig = {n: getattr(S, n) for n in (
        "astype", "min", "max", "sum", "mean", "var", "std", "replace", "isin",
        "nunique", "between", "to_numpy", "dropna", "unique", "round")}
    _real["series"] = orig

    def symser(s):
        v = s._values
        return isinstance(v, np.ndarray) and v.dtype == object and has_sym(v)

    def keep(s, vals):
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return S(a, index=s.index, name=s.name, dtype=object)

    def astype(self, dtype, *a, **k):
        dtype = _real_dtype(dtype)
        if symser(self):
            if dtype in (float, "float", "float64", np.float64, "float32", np.float32):
                return keep(self, [SymFloat(v) for v in self._values])
            if dtype in (int, "int", "int64", np.int64):
                return keep(self, [SymInt(v) for v in self._values])
            if dtype in (object, "object"):
                return self
            if dtype in (str, "str"):
                return keep(self, [
                    v if isinstance(v, str) else
                    SymStr(v, "#s#") if isinstance(v, SymNum) else str(v)
                    for v in self._values])
        return orig["astype"](self, dtype, *a, **k)

    def vals(self):
        return [v.num if isinstance(v, SymStr) else v for v in self._values
                if not (isinstance(v, float) and math.isnan(v)) and v is not None]

    def mk(name, fn):
        o = orig[name]

        def m(self, *a, **k):
            if symser(self):
                return fn(self, *a, **k)
            return o(self, *a, **k)

        m.__name__ = name
        return m

    S.astype = astype
    S.min = mk("min", lambda s, *a, **k: s_min(vals(s)))
    S.max = mk("max", lambda s, *a, **k: s_max(vals(s)))
    S.sum = mk("sum", lambda s, *a, **k: f_sum(vals(s)))
    S.mean = mk("mean", lambda s, *a, **k: f_mean(vals(s)))
    S.var = mk("var", lambda s, axis=None, skipna=True, ddof=1, *a, **k: f_var(vals(s), ddof=ddof))
    S.std = mk("std", lambda s, axis=None, skipna=True, ddof=1, *a, **k: f_std(vals(s), ddof=ddof))

    def replace(self, to_replace=None, value=None, *a, **k):
        # symbolic cells are finite numbers: only literal cells can match
        tr = to_replace if isinstance(to_replace, (list, tuple)) else [to_replace]
        out = []
        for v in self._values:
            if not (E.is_sym(v) or isinstance(v, SymStr)):
                for t in tr:
                    try:
                        if v == t:
                            v = value
                            break
                    except Exception:
                        pass
            out.append(v)
        return keep(self, out)

    S.replace = mk("replace", replace)
    S.round = mk("round", lambda s, d=0, *a, **k: keep(s, [round(v, d) for v in s._values]))


    o_vc = S.value_counts

    def value_counts(self, normalize=False, sort=True, ascending=False, bins=None, dropna=True):
        if not (normalize is False and bins is None and symser(self)):
            return o_vc(self, normalize, sort, ascending, bins, dropna)
        keys, n = [], []
        for v in self._values:
            for i, k in enumerate(keys):
                if k is v or bool(k == v):
                    n[i] += 1
                    break
            else:
                keys.append(v)
                n.append(1)
        order = list(range(len(keys)))
        if sort:
            order.sort(key=lambda i: n[i], reverse=not ascending)
        ix = np.empty(len(keys), dtype=object)
        for j, i in enumerate(order):
            ix[j] = keys[i]
        return S([n[i] for i in order], index=pd.Index(ix, dtype=object), name="count",
                 dtype="int64")

    S.value_counts = value_counts
    o_dfsum = pd.DataFrame.sum

    def df_sum(self, *a, **k):
        r = o_dfsum(self, *a, **k)
        if isinstance(r, S) and r.dtype.kind in "fO":
            r = keep(r, list(r._values))  # stays open for symbolic additions
        return r

    pd.DataFrame.sum = df_sum

    # comparisons with a number give a column of symbolic booleans (no fork until used as a mask)
    def mkcmp(name):
        o = getattr(S, name)

        def m(self, other):
            if isinstance(other, (int, float, np.number, SymNum)) and symser(self) and all(
                isinstance(v, (SymNum, int, float, np.number)) and not isinstance(v, bool)
                for v in self._values
            ):
                out = []
                for v in self._values:
                    r = getattr(v, name)(other) if isinstance(v, SymNum) else _cmp_op(
                        name, v, other)
                    out.append(r if isinstance(r, SymBool) else SymBool(z3.BoolVal(bool(r))))
                return keep(self, out)
            return o(self, other)

        m.__name__ = name
        setattr(S, name, m)

    for n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        mkcmp(n)

    def boolmask(k):
        if isinstance(k, S):
            v = k._values
            if isinstance(v, np.ndarray) and v.dtype == object and len(v) and any(
                isinstance(x, SymBool) for x in v
            ):
                return S(np.array([bool(x) for x in v], dtype=bool), index=k.index, name=k.name)
        elif isinstance(k, np.ndarray) and k.dtype == object and k.size and any(
            isinstance(x, SymBool) for x in k.flat
        ):
            return np.array([bool(x) for x in k.ravel()], dtype=bool).reshape(k.shape)
        elif isinstance(k, list) and any(isinstance(x, SymBool) for x in k):
            return [bool(x) for x in k]
        return k

    o_get = S.__getitem__
    S.__getitem__ = lambda self, k: o_get(self, boolmask(k))
    from pandas.core.indexing import _LocIndexer

    o_loc = _LocIndexer.__getitem__

    def loc_get(self, k):
        if isinstance(k, tuple):
            k = tuple(boolmask(x) for x in k)
        else:
            k = boolmask(k)
        return o_loc(self, k)

    _LocIndexer.__getitem__ = loc_get
    o_any, o_all = S.any, S.all

    def s_any(self, *a, **k):
        return o_any(boolmask(self), *a, **k)

    def s_all(self, *a, **k):
        return o_all(boolmask(self), *a, **k)

    S.any, S.all = s_any, s_all

    o_num = pd.to_numeric

    def to_numeric(arg, errors="raise", **k):
        if isinstance(arg, S) and symser(arg):
            return keep(arg, [
                v.num if isinstance(v, SymStr) else v if isinstance(v, SymNum)
                else o_num(v, errors=errors) for v in arg._values])
        return o_num(arg, errors=errors, **k)

    pd.to_numeric = to_numeric

    from pandas.core.strings.accessor import StringMethods

    o_len = StringMethods.len

    def str_len(self):
        data = self._data
        vals = getattr(data, "_values", None)
        if isinstance(vals, np.ndarray) and vals.dtype == object and any(
            isinstance(v, E.SymText) for v in vals
        ):
            out = [v.n if isinstance(v, E.SymText) else len(v) for v in vals]
            return keep(data, out)
        return o_len(self)

    StringMethods.len = str_len

    o_replace = S.replace

    def replace(self, *a, **k):
        v = self._values
        if isinstance(v, np.ndarray) and v.dtype == object and any(
            isinstance(x, E.SymText) for x in v
        ):
            # opaque texts contain nothing that is to be replaced
            return keep(self, [x if isinstance(x, E.SymText) else
                               o_replace(S([x], dtype=object), *a, **k).iloc[0] for x in v])
        return o_replace(self, *a, **k)

    S.replace = replace


def _cmp_op(name, a, b):
    import operator

    return getattr(operator, name)(a, b)


def sym_len(x):
    return x.n if isinstance(x, E.SymText) else len(x)


def _patch_math():
    for n, v in (("isnan", False), ("isinf", False), ("isfinite", True)):
        o = getattr(math, n)
        setattr(math, n, (lambda o, v: lambda x: v if E.is_sym(x) else o(x))(o, v))
    for n in ("sqrt", "log", "exp", "log2", "log10", "log1p"):
        o = getattr(math, n)

        def g(x, *a, _o=o, _n=n):
            if isinstance(x, SymNum):
                return getattr(x, _n)()
            return _o(x, *a)

        setattr(math, n, g)
    for n in ("isnan", "isinf", "isfinite"):
        o = getattr(np, n)
        _real[n] = o
        setattr(np, n, UfuncFacade2(n, o))


class UfuncFacade2(UfuncFacade):
    def __init__(self, name, u):
        self._u = u
        self._ov = OVERRIDES[name]

    def __call__(self, *a, **k):
        if a and has_sym(a[0]):
            return self._ov(*a)
        return self._u(*a, **k)


_done = False


def install():
    """Patch this process (symbolic worker) once."""
    global _done
    if _done:
        return
    _done = True
    global _sisnan
    _patch_math()
    _patch_pandas()
    for name, mod in list(sys.modules.items()):
        if not name.startswith("dataprofiler.") or mod is None:
            continue
        if ".tests" in name:
            continue
        d = mod.__dict__
        if d.get("np") is np:
            d["np"] = NPF
        d["float"] = SymFloat
        d["int"] = SymInt
        d["len"] = sym_len
