"""Symbolic columns for pandas: an extension array whose cells are SymReals.

The real pandas code of the post processor runs on it: group-by, merge, sort,
shift and concatenation act on ordinary keys, and every comparison, sum or
quotient of cells goes through the solver (numbers) or is decided by the path
(conditions).  Only the container is ours, the computation is the code's.
"""
from __future__ import annotations

import contextlib
import math
import operator

import numpy as np
import pandas as pd
from pandas.api.extensions import ExtensionArray, ExtensionDtype, register_extension_dtype, take as pd_take
from pandas.api.indexers import check_array_indexer
from pandas.core.arraylike import OpsMixin

from . import num
from .num import SymBool, SymReal, Unsupported, norm

NAN = math.nan


def cell(v):
    if isinstance(v, SymReal):
        return v
    if isinstance(v, SymBool):
        return v._num()
    if v is None or v is pd.NA or v is pd.NaT:
        return NAN
    n = norm(v)
    if n is None:
        if isinstance(v, (float, np.floating)) and v != v:
            return NAN
        raise Unsupported(f"cell {v!r}")
    return SymReal({}, n)


def isnan(v):
    return not isinstance(v, SymReal)


@register_extension_dtype
class SymDtype(ExtensionDtype):
    type = SymReal
    name = "sym"
    na_value = NAN
    kind = "O"
    _is_numeric = True

    @classmethod
    def construct_array_type(cls):
        return SymArray

    def _get_common_dtype(self, dtypes):
        for d in dtypes:
            if isinstance(d, SymDtype):
                continue
            if isinstance(d, np.dtype) and d.kind in "iuf":
                continue
            return None
        return self


class SymArray(OpsMixin, ExtensionArray):
    __array_priority__ = 2000

    def __init__(self, values):
        a = np.empty(len(values), dtype=object)
        for i, v in enumerate(values):
            a[i] = cell(v)
        self._data = a

    dtype = property(lambda self: SymDtype())

    @classmethod
    def _from_sequence(cls, scalars, *, dtype=None, copy=False):
        return cls(list(scalars))

    @classmethod
    def _from_factorized(cls, values, original):
        return cls(list(values))

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter(self._data)

    def __getitem__(self, item):
        if isinstance(item, (int, np.integer)):
            return self._data[item]
        item = check_array_indexer(self, item)
        return SymArray(self._data[item])

    def __setitem__(self, key, value):
        key = check_array_indexer(self, key)
        if isinstance(value, (SymArray, list, tuple, np.ndarray, pd.Series)):
            vals = [cell(v) for v in value]
            tmp = np.empty(len(vals), dtype=object)
            tmp[:] = vals
            self._data[key] = tmp
        else:
            v = cell(value)
            idx = np.arange(len(self))[key]
            for i in np.atleast_1d(idx):
                self._data[i] = v

    def isna(self):
        return np.array([isnan(v) for v in self._data], dtype=bool)

    def copy(self):
        return SymArray(self._data)

    def view(self, dtype=None):
        return self

    def take(self, indices, *, allow_fill=False, fill_value=None):
        if allow_fill and fill_value is None:
            fill_value = NAN
        return SymArray(pd_take(self._data, np.asarray(indices, dtype=np.intp), allow_fill=allow_fill, fill_value=fill_value))

    @classmethod
    def _concat_same_type(cls, to_concat):
        out = []
        for x in to_concat:
            out.extend(x._data)
        return cls(out)

    nbytes = property(lambda self: 8 * len(self))

    def astype(self, dtype, copy=True):
        dtype = pd.api.types.pandas_dtype(dtype)
        if isinstance(dtype, SymDtype):
            return self.copy() if copy else self
        if dtype == object:
            return self._data.copy()
        if isinstance(dtype, np.dtype) and dtype.kind in "fiu":
            if all(isnan(v) or v.is_const() for v in self._data):
                return np.array([NAN if isnan(v) else float(v) for v in self._data], dtype=dtype)
            raise Unsupported(f"symbolic column to {dtype}")
        return super().astype(dtype, copy=copy)

    def __array__(self, dtype=None, copy=None):
        if dtype is not None and np.dtype(dtype).kind in "fiu":
            return self.astype(dtype)
        return self._data.copy()

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        return self.__array__(dtype)

    # -- order ----------------------------------------------------------
    def _order(self):
        """stable ascending order; the path decides each comparison"""
        idx = [i for i, v in enumerate(self._data) if not isnan(v)]
        nas = [i for i, v in enumerate(self._data) if isnan(v)]
        idx.sort(key=lambda i: self._data[i])
        return idx, nas

    def argsort(self, *, ascending=True, kind="quicksort", na_position="last", **kwargs):
        idx, nas = self._order()
        if not ascending:
            out = []
            for g in reversed(self._groups(idx)):
                out.extend(g)
            idx = out
        return np.array(idx + nas if na_position == "last" else nas + idx, dtype=np.intp)

    def _groups(self, idx):
        out = []
        for i in idx:
            if out and bool(self._data[out[-1][-1]] == self._data[i]):
                out[-1].append(i)
            else:
                out.append([i])
        return out

    def factorize(self, use_na_sentinel=True):
        idx, nas = self._order()
        groups = self._groups(idx)
        groups = [sorted(g) for g in groups]
        if nas and not use_na_sentinel:
            groups.append(nas)
        groups.sort(key=lambda g: g[0])
        codes = np.full(len(self), -1, dtype=np.intp)
        for c, g in enumerate(groups):
            codes[g] = c
        return codes, SymArray([self._data[g[0]] for g in groups])

    def unique(self):
        return self.factorize(use_na_sentinel=False)[1]

    def duplicated(self, keep="first"):
        codes, _ = self.factorize(use_na_sentinel=False)
        return pd.Series(codes).duplicated(keep=keep).to_numpy()

    def _values_for_factorize(self):
        raise Unsupported("hashing a symbolic column")

    # -- element-wise ---------------------------------------------------
    def _other(self, other):
        if isinstance(other, (list, np.ndarray, ExtensionArray, pd.Series, pd.Index)):
            if getattr(other, "ndim", 1) == 0:
                return [other.item()] * len(self)
            if len(other) != len(self):
                raise ValueError("Lengths must match")
            return list(other)
        return [other] * len(self)

    def _cmp_method(self, other, op):
        out = []
        for a, b in zip(self._data, self._other(other)):
            if isinstance(b, str) or b is None:
                out.append(op is operator.ne)
                continue
            b = cell(b)
            if isnan(a) or isnan(b):
                out.append(op is operator.ne)
            else:
                out.append(bool(op(a, b)))
        return np.array(out, dtype=bool)

    _logical_method = _cmp_method

    def _arith_method(self, other, op):
        out = []
        for a, b in zip(self._data, self._other(other)):
            b = cell(b)
            if isnan(a) or isnan(b):
                out.append(NAN)
                continue
            if op in (operator.truediv,):
                out.append(div(a, b))
            elif getattr(op, "__name__", "") == "rtruediv":
                out.append(div(b, a))
            else:
                out.append(op(a, b))
        return SymArray(out)

    def __neg__(self):
        return SymArray([v if isnan(v) else -v for v in self._data])

    def __abs__(self):
        return SymArray([v if isnan(v) else abs(v) for v in self._data])

    def round(self, decimals=0, *a, **k):
        raise Unsupported("rounding a symbolic column")

    def _accumulate(self, name, *, skipna=True, **kwargs):
        out, acc = [], None
        for v in self._data:
            if isnan(v):
                out.append(v)
                continue
            acc = v if acc is None else _step(name[3:], acc, v)
            out.append(acc)
        return SymArray(out)

    # -- reductions -----------------------------------------------------
    def _reduce(self, name, *, skipna=True, keepdims=False, **kwargs):
        vals = [v for v in self._data if not isnan(v)]
        r = reduce_(name, vals) if skipna or len(vals) == len(self) else NAN
        return SymArray([r]) if keepdims else r

    def _groupby_op(self, *, how, has_dropped_na, min_count, ngroups, ids, **kwargs):
        if how in ("cumsum", "cummin", "cummax"):
            acc, out = {}, []
            for v, g in zip(self._data, ids):
                if g < 0 or isnan(v):
                    out.append(NAN)
                    continue
                acc[g] = v if g not in acc else _step(how[3:], acc[g], v)
                out.append(acc[g])
            return SymArray(out)
        groups = [[] for _ in range(ngroups)]
        for v, g in zip(self._data, ids):
            if g >= 0 and not isnan(v):
                groups[g].append(v)
        out = []
        for g in groups:
            if len(g) < max(min_count, 0):
                out.append(NAN)
            else:
                out.append(reduce_(how, g))
        return SymArray(out)

    def fillna(self, value=None, method=None, limit=None, copy=True):
        if method is not None or limit is not None:
            raise Unsupported("fillna method")
        other = self._other(value)
        return SymArray([b if isnan(a) else a for a, b in zip(self._data, other)])

    def _formatter(self, boxed=False):
        return repr

    def value_counts(self, dropna=True):
        raise Unsupported("value_counts of a symbolic column")


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv"):
    pass  # provided by OpsMixin through _arith_method


def div(a, b):
    """a / b with pandas' semantics for zero"""
    if bool(b == 0):
        if bool(a == 0):
            return NAN
        raise Unsupported("infinite cell")
    return a / b


def _step(name, a, b):
    if name == "sum":
        return a + b
    if name == "min":
        return b if bool(b < a) else a
    if name == "max":
        return b if bool(a < b) else a
    raise Unsupported(name)


def reduce_(name, vals):
    if name == "sum":
        t = SymReal({}, 0)
        for v in vals:
            t = t + v
        return t
    if name == "count":
        return len(vals)
    if not vals:
        return NAN
    if name == "mean":
        return reduce_("sum", vals) / len(vals)
    if name in ("min", "max"):
        r = vals[0]
        for v in vals[1:]:
            r = _step(name, r, v)
        return r
    if name == "median":
        out = []
        for v in vals:  # insertion, branching on the order
            k = len(out)
            while k and bool(v < out[k - 1]):
                k -= 1
            out.insert(k, v)
        h = len(out) // 2
        return out[h] if len(out) % 2 else (out[h - 1] + out[h]) / 2
    if name == "nunique":
        out = []
        for v in vals:
            if not any(bool(v == w) for w in out):
                out.append(v)
        return len(out)
    if name == "first":
        return vals[0]
    if name == "last":
        return vals[-1]
    if name in ("var", "std"):
        raise Unsupported(name)
    raise Unsupported("reduction " + name)


def ranks(k):
    """dense ranks of a symbolic column (missing cells stay missing)"""
    vals = k.array if hasattr(k, "array") else k
    idx, nas = vals._order()
    out = np.full(len(vals), np.nan)
    for r, g in enumerate(vals._groups(idx)):
        out[g] = r
    return out


def _lexsort_indexer(keys, *a, **kw):
    """pandas sorts by the ranks of a symbolic column"""
    return _real_lexsort([ranks(k) if isinstance(getattr(k, "dtype", None), SymDtype) else k for k in keys], *a, **kw)


_real_lexsort = pd.core.frame.lexsort_indexer
pd.core.frame.lexsort_indexer = _lexsort_indexer


# ----------------------------------------------------------------------
@contextlib.contextmanager
def patched(ctx):
    """symbolic mode only: date times are not computed, KPI objects keep symbols"""
    if not ctx.symbolic:
        yield
        return
    from prodsys.models import performance_indicators as pi

    real_dt = pd.to_datetime
    real_init = pi.KPI.__init__

    def to_datetime(x, *a, **k):
        if isinstance(getattr(x, "dtype", None), SymDtype):
            return pd.Series([0.0] * len(x), index=x.index)
        return real_dt(x, *a, **k)

    def init(self, **data):
        sym = {k: v for k, v in data.items() if isinstance(v, SymReal)}
        real_init(self, **{k: (0.0 if k in sym else v) for k, v in data.items()})
        self.__dict__.update(sym)

    pd.to_datetime = to_datetime
    pi.KPI.__init__ = init
    try:
        yield
    finally:
        pd.to_datetime = real_dt
        pi.KPI.__init__ = real_init


def column(ctx, df, name="Time"):
    """the column as the solver (or the replay) sees it"""
    df = df.copy()
    vals = list(df[name])
    df[name] = pd.Series(SymArray(vals), index=df.index) if ctx.symbolic else pd.Series([float(v) for v in vals], index=df.index)
    return df
