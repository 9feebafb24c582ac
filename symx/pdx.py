"""pandas under symbolic execution: an extension array holding symbolic numbers,
so that column arithmetic, groupby, pivot tables and reductions keep symbols."""
import functools

import numpy as np
import pandas as pd
from pandas.api.extensions import ExtensionArray, ExtensionDtype, register_extension_dtype
from pandas.core import ops  # noqa
from pandas.core.dtypes.generic import ABCDataFrame, ABCIndex, ABCSeries

from . import core
from .core import SymNum, SymBool, is_sym, sym_max, sym_min, Unsupported
from .nparr import SymArray, elementwise, _CMP, _ELEM, plain, tidy_bool, reduce_axis, _clip1, _round


@register_extension_dtype
class SymDtype(ExtensionDtype):
    name = "sym"
    type = SymNum
    kind = "f"
    na_value = np.nan
    _is_numeric = True

    @classmethod
    def construct_array_type(cls):
        return SymEA

    @classmethod
    def construct_from_string(cls, s):
        if s == "sym":
            return cls()
        raise TypeError("no")

    def _get_common_dtype(self, dtypes):
        if all(isinstance(d, SymDtype) or (isinstance(d, np.dtype) and d.kind in "fiub") for d in dtypes):
            return SymDtype()
        return None


def _isna1(v):
    return v is None or (isinstance(v, float) and v != v) or v is pd.NA


class SymEA(ExtensionArray):
    __array_priority__ = 3000
    ndim = 1

    def __init__(self, values, dtype=None, copy=False):
        v = np.empty(len(values), dtype=object)
        for i, x in enumerate(values):
            v[i] = x
        self._v = v

    @classmethod
    def _from_sequence(cls, scalars, dtype=None, copy=False):
        return cls(list(scalars))

    @classmethod
    def _from_factorized(cls, values, original):
        return cls(values)

    def __getitem__(self, item):
        if isinstance(item, (int, np.integer)):
            return self._v[item]
        item = pd.api.indexers.check_array_indexer(self, item)
        r = self._v[item]
        return type(self)(r) if isinstance(r, np.ndarray) else r

    def __setitem__(self, key, value):
        key = pd.api.indexers.check_array_indexer(self, key)
        if isinstance(value, (ABCSeries, ABCIndex)):
            value = value.array
        if isinstance(value, SymEA):
            value = value._v
        elif isinstance(value, np.ndarray):
            value = plain(value)
            if value.dtype != object:
                value = value.astype(object)
        self._v[key] = value

    def __len__(self):
        return len(self._v)

    @property
    def dtype(self):
        return SymDtype()

    @property
    def nbytes(self):
        return self._v.nbytes

    def isna(self):
        return np.array([_isna1(v) for v in self._v], dtype=bool)

    def take(self, indices, allow_fill=False, fill_value=None):
        if allow_fill and fill_value is None:
            fill_value = np.nan
        r = pd.api.extensions.take(self._v, indices, fill_value=fill_value, allow_fill=allow_fill)
        return type(self)(r)

    def copy(self):
        return type(self)(self._v)

    def view(self, dtype=None):
        return type(self)._wrap(self._v)

    @classmethod
    def _wrap(cls, v):
        o = cls.__new__(cls)
        o._v = v
        return o

    @classmethod
    def _concat_same_type(cls, to_concat):
        return cls(np.concatenate([x._v for x in to_concat]))

    def __array__(self, dtype=None):
        if dtype is not None and np.dtype(dtype).kind in "fiu" and any(is_sym(x) for x in self._v):
            return self._v
        return self._v if dtype is None or np.dtype(dtype) == object else self._v.astype(dtype)

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        return self._v.copy().view(SymArray)

    def astype(self, dtype, copy=True):
        d = pd.api.types.pandas_dtype(dtype)
        if isinstance(d, SymDtype):
            return self.copy()
        if d == object:
            return self._v.copy()
        if d.kind == "f" and d.itemsize == 8:
            if any(is_sym(x) for x in self._v):
                return self.copy()
            return self._v.astype(float)
        r = self._v.view(SymArray).astype(d)
        return type(self)(r) if isinstance(r, SymArray) else r

    def _values_for_argsort(self):
        return self._v

    def _values_for_factorize(self):
        return self._v, np.nan

    def argsort(self, *args, ascending=True, kind="quicksort", na_position="last", **kw):
        idx = list(range(len(self)))
        nan = [i for i in idx if _isna1(self._v[i])]
        idx = [i for i in idx if not _isna1(self._v[i])]

        def cmp(i, j):
            a, b = self._v[i], self._v[j]
            if a < b:
                return -1
            if b < a:
                return 1
            return 0

        idx.sort(key=functools.cmp_to_key(cmp))
        if not ascending:
            # pandas nargsort semantic: reverse, argsort, reverse (keeps stability)
            ridx = [i for i in range(len(self)) if not _isna1(self._v[i])][::-1]
            ridx.sort(key=functools.cmp_to_key(cmp))
            idx = ridx[::-1]
        return np.array(idx + nan if na_position == "last" else nan + idx, dtype=np.intp)

    def _reduce(self, name, *, skipna=True, **kw):
        vals = [v for v in self._v if not (skipna and _isna1(v))]
        if name == "sum":
            if len(vals) < kw.get("min_count", 0):
                return np.nan
            return functools.reduce(lambda a, b: a + b, vals, 0.0)
        if name in ("any", "all"):
            a = np.empty(len(vals), dtype=object)
            a[:] = vals
            a = a.view(SymArray)
            return a.any() if name == "any" else a.all()
        if not vals:
            return np.nan
        if name == "mean":
            n = len(vals)
            s = functools.reduce(lambda a, b: a + b, vals)
            return s / n if n > 1 else vals[0]
        if name == "max":
            return functools.reduce(sym_max, vals)
        if name == "min":
            return functools.reduce(sym_min, vals)
        if name == "prod":
            return functools.reduce(lambda a, b: a * b, vals)
        if name == "median":
            sv = SymEA(vals)
            o = sv.argsort()
            n = len(vals)
            return vals[o[n // 2]] if n % 2 else (vals[o[n // 2 - 1]] + vals[o[n // 2]]) / 2
        raise Unsupported("reduction %s" % name)

    def _accumulate(self, name, *, skipna=True, **kw):
        if name == "cumsum":
            out, acc = [], 0.0
            for v in self._v:
                acc = acc + v
                out.append(acc)
            return SymEA(out)
        raise Unsupported(name)

    def _logical(self, r):
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [i._v.view(SymArray) if isinstance(i, SymEA) else i for i in inputs]
        if any(isinstance(i, (ABCSeries, ABCIndex, ABCDataFrame)) for i in inputs):
            return NotImplemented
        out = kw.pop("out", None)
        r = getattr(ufunc, method)(*ins, **kw)
        return SymEA(r) if isinstance(r, SymArray) and r.ndim == 1 and r.dtype == object and not _bools(r) else r

    def reshape(self, *shape):
        return self._v.view(SymArray).reshape(*shape)

    def tolist(self):
        return list(self._v)

    def __iter__(self):
        return iter(self._v)

    def _formatter(self, boxed=False):
        return str

    def clip(self, lower=None, upper=None):
        return SymEA([_clip1(v, lower, upper) for v in self._v])

    def round(self, n=0, *a, **k):
        return SymEA([v if _isna1(v) else _round(v, n) for v in self._v])

    def __neg__(self):
        return SymEA([-v for v in self._v])

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return SymEA([abs(v) for v in self._v])

    def __invert__(self):
        raise TypeError("invert")

    def value_counts(self, dropna=True):
        raise Unsupported("value_counts")


def _bools(r):
    return len(r) and all(isinstance(v, (bool, np.bool_, SymBool)) for v in r)


def _binop(opname):
    import operator

    f0 = {
        "add": lambda a, b: a + b,
        "radd": lambda a, b: b + a,
        "sub": lambda a, b: a - b,
        "rsub": lambda a, b: b - a,
        "mul": lambda a, b: a * b,
        "rmul": lambda a, b: b * a,
        "truediv": lambda a, b: _ELEM[np.true_divide](a, b),
        "rtruediv": lambda a, b: _ELEM[np.true_divide](b, a),
        "floordiv": lambda a, b: a // b,
        "mod": lambda a, b: a % b,
        "pow": lambda a, b: a ** b,
    }[opname]

    def f(a, b):
        if _isna1(a) or _isna1(b):
            return np.nan
        return f0(a, b)

    def g(self, other):
        if isinstance(other, (ABCSeries, ABCIndex, ABCDataFrame)):
            return NotImplemented
        o = other._v if isinstance(other, SymEA) else other
        if isinstance(o, (list, tuple)):
            o = np.array(o, dtype=object)
        r = elementwise(f, self._v, o)
        return SymEA(r) if r.ndim == 1 else r.view(SymArray)

    g.__name__ = "__%s__" % opname
    return g


def _cmpop(opname):
    f0 = {
        "lt": lambda a, b: a < b,
        "le": lambda a, b: a <= b,
        "gt": lambda a, b: a > b,
        "ge": lambda a, b: a >= b,
        "eq": lambda a, b: a == b,
        "ne": lambda a, b: a != b,
    }[opname]

    def f(a, b):
        if _isna1(a) or _isna1(b):
            return opname == "ne"
        return f0(a, b)

    def g(self, other):
        if isinstance(other, (ABCSeries, ABCIndex, ABCDataFrame)):
            return NotImplemented
        o = other._v if isinstance(other, SymEA) else other
        r = elementwise(f, self._v, o)
        # a pandas mask must be concrete: fork
        return np.array([bool(v) for v in r], dtype=bool)

    return g


for _o in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "mod", "pow"):
    setattr(SymEA, "__%s__" % _o, _binop(_o))
for _o in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(SymEA, "__%s__" % _o, _cmpop(_o))
SymEA.__hash__ = None


# --------------------------------------------------------------------------
def norm_series(s):
    """object column: symbols -> SymEA; concrete numbers -> float64"""
    if isinstance(s.dtype, SymDtype):
        if not any(is_sym(v) for v in s.array):
            return pd.Series(s.array._v.astype(float), index=s.index, name=s.name)
        return s
    if s.dtype == object:
        vals = s.array
        anysym = False
        allnum = True
        for v in vals:
            if isinstance(v, SymNum):
                anysym = True
            elif isinstance(v, (bool, np.bool_)) or not isinstance(v, (int, float, np.number)):
                if v is None:
                    continue
                allnum = False
                break
        if allnum and anysym:
            return pd.Series(SymEA(list(vals)), index=s.index, name=s.name)
        if allnum and len(s):
            return s.astype(float)
    return s


def needs_norm(df):
    return any((d == object or isinstance(d, SymDtype)) for d in df.dtypes)


def norm_df(df):
    if not needs_norm(df) or not df.columns.is_unique:
        return df
    cols = []
    changed = False
    for i in range(df.shape[1]):
        s = _orig_ixs(df, i)
        n = norm_series(s)
        changed |= n is not s
        cols.append(n)
    if not changed:
        return df
    out = pd.concat([c.reset_index(drop=True) for c in cols], axis=1) if cols else df.copy()
    out.columns = df.columns
    out.index = df.index
    return out


def _orig_ixs(df, i):
    return df._ixs(i, axis=1)


def install():
    DF, S = pd.DataFrame, pd.Series
    g0, sg0, pt0 = DF.groupby, S.groupby, pd.pivot_table

    @functools.wraps(g0)
    def groupby(self, *a, **k):
        return g0(norm_df(self), *a, **k)

    @functools.wraps(sg0)
    def sgroupby(self, *a, **k):
        return sg0(norm_series(self), *a, **k)

    DF.groupby, S.groupby = groupby, sgroupby

    import pandas.core.reshape.pivot as pv

    pt1 = pv.pivot_table

    @functools.wraps(pt1)
    def pivot_table(data, *a, **k):
        return pt1(norm_df(data), *a, **k)

    pv.pivot_table = pivot_table
    pd.pivot_table = pivot_table
    import pandas.core.reshape.api as papi

    papi.pivot_table = pivot_table

    # .values of a symbolic column is an ndarray, as it is for float64
    v0 = S.values

    def values(self):
        if isinstance(self.dtype, SymDtype):
            return self.array._v.copy().view(SymArray)
        r = v0.fget(self)
        if isinstance(r, np.ndarray) and r.dtype == object and any(is_sym(v) for v in r):
            return r.view(SymArray)
        return r

    S.values = property(values)
    dv0 = DF.values

    def dvalues(self):
        if any(isinstance(d, SymDtype) or d == object for d in self.dtypes):
            n, m = self.shape
            out = np.empty((n, m), dtype=object)
            for j in range(m):
                out[:, j] = np.asarray(self._ixs(j, axis=1).array, dtype=object)
            return out.view(SymArray) if any(is_sym(v) for v in out.flat) else dv0.fget(self)
        return dv0.fget(self)

    DF.values = property(dvalues)

    def df_to_numpy(self, *a, **k):
        return self.values

    DF.to_numpy = df_to_numpy
    S.to_numpy = lambda self, *a, **k: self.values

    c0 = DF.clip

    @functools.wraps(c0)
    def clip(self, lower=None, upper=None, *a, **k):
        vals = self.values
        if isinstance(vals, SymArray) or is_sym(lower) or is_sym(upper):
            out = elementwise(lambda v, lo, hi: _clip1(v, lo, hi), vals, _box(lower), _box(upper))
            r = DF(out, index=self.index, columns=self.columns)
            if k.get("inplace"):
                self.iloc[:, :] = r
                return None
            return r
        return c0(self, lower, upper, *a, **k)

    DF.clip = clip
    S.clip = lambda self, lower=None, upper=None, *a, **k: S(
        elementwise(_clip1, self.values, _box(lower), _box(upper)), index=self.index, name=self.name
    )

    so0 = DF.sort_values

    @functools.wraps(so0)
    def sort_values(self, by, *a, **k):
        n = norm_df(self)
        if k.get("inplace"):
            k = dict(k)
            k.pop("inplace")
            r = so0(n, by, *a, **k)
            self._update_inplace(r)
            return None
        return so0(n, by, *a, **k)

    DF.sort_values = sort_values


def _box(x):
    r = np.empty((), dtype=object)
    r[()] = x
    return r
