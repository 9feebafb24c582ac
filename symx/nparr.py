"""numpy under symbolic execution: an object ndarray subclass whose comparisons,
reductions and rounding stay symbolic, and a proxy of the numpy module that
hands such arrays out wherever the real function would return a float array."""
import builtins
import math
import types

import numpy as np

from . import core
from .core import SymNum, SymBool, is_sym, sym_max, sym_min, sym_ite, mkbool, bool_of, Unsupported
import z3

_real_np = np

_CMP = {
    np.less: lambda a, b: a < b,
    np.less_equal: lambda a, b: a <= b,
    np.greater: lambda a, b: a > b,
    np.greater_equal: lambda a, b: a >= b,
    np.equal: lambda a, b: a == b,
    np.not_equal: lambda a, b: a != b,
    np.logical_and: lambda a, b: _b(a) & _b(b),
    np.logical_or: lambda a, b: _b(a) | _b(b),
    np.bitwise_and: lambda a, b: a & b,
    np.bitwise_or: lambda a, b: a | b,
    np.logical_not: lambda a: _not(a),
    np.invert: lambda a: _not(a) if isinstance(a, (bool, np.bool_, SymBool)) else ~a,
    np.isnan: lambda a: (not is_sym(a)) and math.isnan(a),
    np.isfinite: lambda a: is_sym(a) or math.isfinite(a),
    np.isinf: lambda a: (not is_sym(a)) and math.isinf(a),
    np.signbit: lambda a: a < 0,
}


def _b(a):
    return a if isinstance(a, (bool, np.bool_, SymBool)) else (a != 0)


def _not(a):
    if isinstance(a, SymBool):
        return ~a
    if isinstance(a, SymNum):
        return a == 0
    return not a


def _round(a, n=0):
    if isinstance(a, SymNum):
        return a.__round__(n) if n else a.rint()
    return np.round(a, n)


_ELEM = {
    np.maximum: sym_max,
    np.minimum: sym_min,
    np.fmax: sym_max,
    np.fmin: sym_min,
    np.absolute: abs,
    np.fabs: abs,
    np.floor: lambda a: _flt(math.floor(a)),
    np.ceil: lambda a: _flt(math.ceil(a)),
    np.trunc: lambda a: _flt(math.trunc(a)),
    np.rint: lambda a: _round(a),
    np.sign: lambda a: sym_ite(a > 0, 1.0, sym_ite(a < 0, -1.0, 0.0)),
    np.square: lambda a: a * a,
    np.power: lambda a, b: a ** b,
    np.exp: lambda a: a.exp() if isinstance(a, SymNum) else np.exp(float(a)),
    np.sqrt: lambda a: core.CUR.uninterpreted("sqrt", a) if isinstance(a, SymNum) else np.sqrt(float(a)),
    np.true_divide: lambda a, b: _div(a, b),
    np.floor_divide: lambda a, b: a // b,
    np.remainder: lambda a, b: a % b,
    np.negative: lambda a: -a,
    np.positive: lambda a: a,
    np.reciprocal: lambda a: _div(1.0, a),
    np.add: lambda a, b: a + b,
    np.subtract: lambda a, b: a - b,
    np.multiply: lambda a, b: a * b,
    np.conjugate: lambda a: a,
}


def _div(a, b):
    """numpy float division: x/0 yields inf/nan instead of raising"""
    try:
        return a / b
    except ZeroDivisionError:
        if is_sym(a):
            if core.CUR.branch(real(a) == 0):
                return float("nan")
            return float("inf") if core.CUR.branch(real(a) > 0) else float("-inf")
        return float(np.float64(a) / np.float64(0.0))


def real(a):
    return core.real_or_int(a)


def _flt(x):
    return x if is_sym(x) else float(x)


def plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if is_sym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    return x


def concrete(arr):
    return not any(is_sym(v) for v in arr.flat)


def tidy(arr):
    """object results: bool arrays if all concrete bools, else SymArray"""
    if not isinstance(arr, np.ndarray):
        return arr
    if arr.dtype != object:
        return arr
    if arr.ndim == 0:
        return arr[()]
    return arr.view(SymArray)


def tidy_bool(arr):
    if arr.ndim == 0:
        return arr[()]
    if concrete(arr):
        return arr.astype(bool)
    return arr.view(SymArray)


def elementwise(f, *arrs):
    arrs = [plain(a) if isinstance(a, SymArray) or is_sym(a) else np.asarray(a) for a in arrs]
    arrs = [a if a.dtype == object else _obj(a) for a in arrs]
    bc = np.broadcast_arrays(*arrs)
    out = np.empty(bc[0].shape, dtype=object)
    its = [b.flat for b in bc]
    of = out.reshape(-1) if out.ndim else None
    if out.ndim == 0:
        out[()] = f(*[b[()] for b in bc])
        return out
    for i, vals in enumerate(zip(*its)):
        of[i] = f(*vals)
    return out


def _obj(a):
    r = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        r[()] = a[()]
    else:
        fl = r.reshape(-1)
        for i, v in enumerate(a.flat):
            fl[i] = v
    return r


def _fix_key(key):
    """resolve symbolic masks / indices inside an indexing key"""

    def one(k):
        if isinstance(k, np.ndarray) and k.dtype == object:
            flat = list(k.flat)
            if flat and all(isinstance(v, (bool, np.bool_, SymBool)) for v in flat):
                return np.array([bool(v) for v in flat], dtype=bool).reshape(k.shape)
            return np.array([int(v) for v in flat], dtype=int).reshape(k.shape)
        if isinstance(k, SymBool):
            return bool(k)
        if isinstance(k, SymNum):
            return k.__index__()
        if isinstance(k, list) and any(is_sym(v) for v in k):
            return [bool(v) if isinstance(v, SymBool) else int(v) for v in k]
        return k

    return tuple(one(k) for k in key) if isinstance(key, tuple) else one(key)


def _cast(x, kind):
    if kind == "i" and isinstance(x, SymNum):
        return x.__trunc__()
    if kind == "f4" and isinstance(x, SymNum):
        return core.CUR.uninterpreted("float32", x)
    if kind == "b" and is_sym(x):
        return _b(x)
    return x


class SymArray(np.ndarray):
    kind = None  # None: float64; 'i': integer storage (truncates); 'f4': reduced precision

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", None)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        kw.pop("dtype", None)
        kw.pop("casting", None)
        where = kw.pop("where", None)
        args = [plain(i) for i in inputs]
        res = None
        if method == "__call__":
            if ufunc in _CMP:
                res = tidy_bool(elementwise(_CMP[ufunc], *args))
            elif ufunc in _ELEM:
                res = tidy(elementwise(_ELEM[ufunc], *args))
            elif ufunc.__name__ == "clip":
                res = tidy(elementwise(_clip1, *args))
            elif ufunc.__name__ == "matmul":
                res = tidy(np.dot(*args))
            else:
                if all(concrete(np.asarray(a, dtype=object)) for a in args):
                    res = ufunc(*[np.asarray(np.asarray(a).tolist()) for a in args])
                else:
                    raise Unsupported("ufunc %s" % ufunc.__name__)
        elif method == "reduce":
            a = args[0]
            axis = kw.get("axis", 0)
            keepdims = kw.get("keepdims", False)
            initial = kw.get("initial", None)
            f = _CMP.get(ufunc) or _ELEM.get(ufunc)
            if f is None:
                raise Unsupported("reduce %s" % ufunc.__name__)
            res = reduce_axis(f, np.asarray(a), axis, keepdims, initial if initial is not np._NoValue else None, ufunc)
        elif method == "accumulate":
            f = _CMP.get(ufunc) or _ELEM.get(ufunc)
            a = np.asarray(args[0])
            axis = kw.get("axis", 0)
            res = np.apply_along_axis(lambda v: _accum(f, v), axis, a)
            res = tidy(res)
        elif method == "outer":
            f = _CMP.get(ufunc) or _ELEM.get(ufunc)
            a, b = np.asarray(args[0]), np.asarray(args[1])
            res = tidy(elementwise(f, a.reshape(a.shape + (1,) * b.ndim), b))
        elif method == "at":
            f = _CMP.get(ufunc) or _ELEM.get(ufunc)
            a, idx = inputs[0], _fix_key(inputs[1])
            b = args[2] if len(args) > 2 else None
            idxs = np.atleast_1d(idx)
            bb = np.broadcast_to(b, idxs.shape)
            for i, v in zip(idxs, bb):
                a[i] = f(a[i], v)
            return None
        else:
            raise Unsupported("ufunc method %s" % method)
        if where is not None and where is not True and out is None:
            raise Unsupported("ufunc where=")
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            val = plain(res) if isinstance(res, SymArray) else res
            if isinstance(o, SymArray):
                o[...] = val
            elif o.dtype == object or o.dtype == bool:
                o[...] = val
            else:
                # real float buffer: numpy would store floats, the symbol escapes
                raise _NeedObject(o, val)
            return o
        return res

    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        try:
            r = super().__array_function__(func, types_, args, kwargs)
        except TypeError:
            raise
        return r

    # item access
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, _fix_key(key))
        return r

    def __setitem__(self, key, val):
        k = self.kind
        if k:
            if isinstance(val, np.ndarray):
                val = elementwise(lambda v: _cast(v, k), val)
            elif isinstance(val, (list, tuple)):
                val = elementwise(lambda v: _cast(v, k), np.array(val, dtype=object))
            else:
                val = _cast(val, k)
        if isinstance(key, np.ndarray) and key.dtype == object and key.size and key.shape == self.shape and all(
            isinstance(v, (bool, np.bool_, SymBool)) for v in key.flat
        ):
            sel = key.reshape(-1)
            if not isinstance(val, np.ndarray) or val.ndim == 0:
                fl = self.reshape(-1) if self.flags.c_contiguous else None
                if fl is not None:
                    base = fl.view(np.ndarray)
                    v = val[()] if isinstance(val, np.ndarray) else val
                    for i in range(base.size):
                        base[i] = sym_ite(sel[i], v, base[i])
                    return
        np.ndarray.__setitem__(self, _fix_key(key), plain(val) if isinstance(val, SymArray) else val)

    # methods not routed through the protocols
    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_axis(_CMP[np.logical_and], plain(self), axis, keepdims, None, np.logical_and)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_axis(_CMP[np.logical_or], plain(self), axis, keepdims, None, np.logical_or)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_axis(_ELEM[np.add], plain(self), axis, keepdims, None, np.add)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis, keepdims=keepdims) / n

    def max(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return reduce_axis(sym_max, plain(self), axis, keepdims, None if initial is np._NoValue else initial, np.maximum)

    def min(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return reduce_axis(sym_min, plain(self), axis, keepdims, None if initial is np._NoValue else initial, np.minimum)

    def std(self, axis=None, **k):
        m = self.mean(axis=axis, keepdims=axis is not None)
        v = ((self - m) * (self - m)).mean(axis=axis)
        return np.sqrt(v) if isinstance(v, np.ndarray) else core.CUR.uninterpreted("sqrt", v)

    def clip(self, min=None, max=None, out=None, **k):
        r = tidy(elementwise(_clip1, plain(self), _none(min), _none(max)))
        if out is not None:
            out[...] = r
            return out
        return r

    def round(self, decimals=0, out=None):
        return tidy(elementwise(lambda a: _round(a, decimals), plain(self)))

    def astype(self, dtype, *a, **k):
        return cast_array(self, dtype)

    def argmax(self, axis=None, **k):
        return _argbest(plain(self), axis, lambda a, b: a > b)

    def argmin(self, axis=None, **k):
        return _argbest(plain(self), axis, lambda a, b: a < b)

    def dot(self, o):
        return tidy(np.dot(plain(self), plain(o)))


class _NeedObject(Unsupported):
    pass


def _none(x):
    if x is None:
        r = np.empty((), dtype=object)
        r[()] = None
        return r
    return x


def _argbest(a, axis, better):
    if axis is not None and a.ndim > 1:
        return np.apply_along_axis(lambda v: _argbest(v, None, better), axis, a)
    fl = list(a.flat)
    k = 0
    for i in range(1, len(fl)):
        if better(fl[i], fl[k]):
            k = i
    return k


def _clip1(x, lo, hi):
    if lo is not None and not (isinstance(lo, float) and math.isnan(lo)):
        x = sym_max(x, lo)
    if hi is not None and not (isinstance(hi, float) and math.isnan(hi)):
        x = sym_min(x, hi)
    return x


def _accum(f, v):
    out = np.empty(len(v), dtype=object)
    acc = None
    for i, x in enumerate(v):
        acc = x if i == 0 else f(acc, x)
        out[i] = acc
    return out


_EMPTY = {np.add: 0.0, np.multiply: 1.0, np.logical_and: True, np.logical_or: False}


def reduce_axis(f, a, axis, keepdims, initial, ufunc):
    def red(vals):
        vals = list(vals)
        if not vals:
            if initial is not None:
                return initial
            if ufunc in _EMPTY:
                return _EMPTY[ufunc]
            raise ValueError("zero-size array to reduction operation %s which has no identity" % ufunc.__name__)
        if ufunc is np.logical_and:
            bs = [_b(v) for v in vals]
            if builtins.any(b is False or (isinstance(b, np.bool_) and not b) for b in bs):
                return False
            es = [b.e for b in bs if isinstance(b, SymBool)]
            return mkbool(z3.And(*es)) if es else True
        if ufunc is np.logical_or:
            bs = [_b(v) for v in vals]
            if builtins.any((not isinstance(b, SymBool)) and b for b in bs):
                return True
            es = [b.e for b in bs if isinstance(b, SymBool)]
            return mkbool(z3.Or(*es)) if es else False
        acc = vals[0] if initial is None else f(initial, vals[0])
        for v in vals[1:]:
            acc = f(acc, v)
        return acc

    if axis is None:
        r = red(a.flat)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return tidy(o)
        return r
    if isinstance(axis, tuple):
        for ax in sorted((x % a.ndim for x in axis), reverse=True):
            a = plain(reduce_axis(f, a, ax, keepdims, initial, ufunc))
            if not isinstance(a, np.ndarray):
                return a
        return tidy(a)
    axis = axis % a.ndim
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    if out.ndim == 0:
        r = red(m)
        return r
    for i in np.ndindex(*out.shape):
        out[i] = red(m[i])
    if keepdims:
        out = np.expand_dims(out, axis)
    if ufunc in (np.logical_and, np.logical_or):
        return tidy_bool(out)
    return tidy(out)


def kind_of(dtype):
    """'f','i','b','f4', or None when the dtype is not numeric"""
    if dtype is None:
        return "f"
    try:
        d = np.dtype(dtype)
    except TypeError:
        return None
    if d.kind == "f":
        return "f" if d.itemsize >= 8 else "f4"
    if d.kind in "iu":
        return "i"
    if d.kind == "b":
        return "b"
    if d.kind == "c":
        return "f"
    return None


def cast_array(a, dtype):
    d = np.dtype(dtype)
    if d == object:
        return a.copy()
    k = kind_of(d)
    if concrete(a):
        return np.array(a.tolist()).astype(d).reshape(a.shape)
    if k == "f":
        r = a.copy()
        r.kind = None
        return r
    if k is None:
        raise Unsupported("astype(%s)" % d)
    r = elementwise(lambda v: _cast(v, k), plain(a)).view(SymArray)
    r.kind = k
    return r


def _filled(shape, value, kind=None):
    a = np.empty(shape, dtype=object)
    a[...] = value
    a = a.view(SymArray)
    a.kind = {"i": "i", "f4": "f4"}.get(kind)
    return a


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and builtins.any(is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(v) for v in x)
    return False


def f_where(cond, *ab):
    if not ab:
        return np.where(_fix_key(cond if isinstance(cond, np.ndarray) else np.asarray(cond)))
    return tidy(elementwise(lambda c, a, b: sym_ite(_b(c), a, b), cond, *ab))


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    r = tidy(elementwise(_clip1, a, _none(a_min), _none(a_max)))
    if out is not None:
        out[...] = r
        return out
    return r


def _red(ufunc):
    f = _CMP.get(ufunc) or _ELEM.get(ufunc)

    def g(a, axis=None, *rest, keepdims=False, **k):
        if not isinstance(a, np.ndarray):
            a = sym_array(a)
        keepdims = False if keepdims is np._NoValue else keepdims
        init = k.get("initial")
        return reduce_axis(f, plain(a), axis, keepdims, None if init is np._NoValue else init, ufunc)

    return g


def f_mean(a, axis=None, **k):
    a = a if isinstance(a, SymArray) else sym_array(a)
    return a.mean(axis=axis)


def f_std(a, axis=None, **k):
    a = a if isinstance(a, SymArray) else sym_array(a)
    return a.std(axis=axis)


def f_round(a, decimals=0, out=None):
    if is_sym(a):
        return _round(a, decimals)
    return tidy(elementwise(lambda x: _round(x, decimals), a))


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return tidy_bool(elementwise(lambda x, y: abs(x - y) <= (atol + rtol * abs(y)), a, b))


def f_allclose(a, b, **k):
    r = f_isclose(a, b, **k)
    return r.all() if isinstance(r, np.ndarray) else r


def f_array_equal(a, b, equal_nan=False):
    a, b = np.asarray(plain(a)), np.asarray(plain(b))
    if a.shape != b.shape:
        return False
    return reduce_axis(_CMP[np.logical_and], elementwise(_CMP[np.equal], a, b), None, False, None, np.logical_and)


def f_cumsum(a, axis=None, **k):
    p = plain(a) if isinstance(a, SymArray) else np.asarray(a, dtype=object)
    if axis is None:
        p = p.reshape(-1)
        axis = 0
    return tidy(np.apply_along_axis(lambda v: _accum(_ELEM[np.add], v), axis, p))


def f_count_nonzero(a, axis=None, **k):
    return reduce_axis(_ELEM[np.add], elementwise(lambda v: sym_ite(_b(v), 1, 0), a), axis, False, None, np.add)


def f_full_like(a, fill_value, dtype=None, **k):
    return _filled(np.shape(a), fill_value, kind_of(dtype) if dtype is not None else getattr(a, "kind", None))


def f_sort(a, axis=-1, **k):
    r = a.copy()
    np.ndarray.sort(r, axis=axis)
    return r


def f_nan_to_num(a, *args, **k):
    return a.copy() if isinstance(a, np.ndarray) else a


FUNCS = {
    np.where: f_where,
    np.clip: f_clip,
    np.sum: _red(np.add),
    np.nansum: _red(np.add),
    np.prod: _red(np.multiply),
    np.all: _red(np.logical_and),
    np.any: _red(np.logical_or),
    np.max: _red(np.maximum),
    np.amax: _red(np.maximum),
    np.min: _red(np.minimum),
    np.amin: _red(np.minimum),
    np.nanmax: _red(np.maximum),
    np.nanmin: _red(np.minimum),
    np.mean: f_mean,
    np.average: f_mean,
    np.nanmean: f_mean,
    np.std: f_std,
    np.round: f_round,
    np.around: f_round,
    np.isclose: f_isclose,
    np.allclose: f_allclose,
    np.array_equal: f_array_equal,
    np.cumsum: f_cumsum,
    np.count_nonzero: f_count_nonzero,
    np.zeros_like: lambda a, dtype=None, **k: f_full_like(a, 0.0, dtype),
    np.ones_like: lambda a, dtype=None, **k: f_full_like(a, 1.0, dtype),
    np.full_like: f_full_like,
    np.empty_like: lambda a, dtype=None, **k: _undef(np.shape(a)),
    np.sort: f_sort,
    np.nan_to_num: f_nan_to_num,
    np.argmax: lambda a, axis=None, **k: a.argmax(axis),
    np.argmin: lambda a, axis=None, **k: a.argmin(axis),
}


def _undef(shape):
    a = np.empty(shape, dtype=object)
    fl = a.reshape(-1)
    for i in range(fl.size):
        fl[i] = core.CUR.fresh("undef")
    return a.view(SymArray)


def sym_array(x, dtype=None, copy=True, **kw):
    """np.array: object SymArray when symbols are involved, the real thing otherwise"""
    if isinstance(x, SymArray):
        r = x.copy() if copy else x
        if dtype is not None:
            return cast_array(r, dtype)
        return r
    k = None if dtype is None else kind_of(dtype)
    if has_sym(x):
        if isinstance(x, np.ndarray):
            a = x.astype(object)
        else:
            a = _np_object(x)
        a = a.view(SymArray)
        if dtype is not None and k not in (None, "f"):
            a = cast_array(a, dtype)
        return a
    return np.array(x, dtype=undress(dtype), copy=copy, **kw)


def _np_object(x):
    """nested list (with symbols, arrays) -> object ndarray"""
    if is_sym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, np.ndarray):
        return _obj(x) if x.dtype != object else np.asarray(plain(x))
    if isinstance(x, (list, tuple)):
        parts = [_np_object(v) for v in x]
        shapes = {p.shape for p in parts}
        if len(shapes) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        r = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            r[i] = p[()] if p.ndim == 0 else p
        return r
    r = np.empty((), dtype=object)
    r[()] = x
    return r


class ShadowMeta(type):
    """shadow of the builtin float/int: accepts symbolic numbers"""

    def __call__(cls, *a, **k):
        if cls._convert is not None and a and is_sym(a[0]):
            return cls._convert(a[0])
        if a and isinstance(a[0], SymArray) and a[0].size == 1:
            return cls._convert(a[0].reshape(-1)[0]) if is_sym(a[0].reshape(-1)[0]) else cls._base(a[0].reshape(-1)[0])
        return cls._base(*a, **k)

    def __instancecheck__(cls, obj):
        if isinstance(obj, SymNum):
            return cls._accepts(obj)
        return isinstance(obj, cls._base)

    def __subclasscheck__(cls, sub):
        if sub is cls:
            return True
        return issubclass(sub, cls._base) or (sub is SymNum and cls._name == "float")

    def __eq__(cls, o):
        return o is cls or o is cls._base or (o is SymNum and cls._name == "float")

    def __hash__(cls):
        return hash(cls._base)

    def __getattr__(cls, n):
        return getattr(cls._base, n)

    def __repr__(cls):
        return repr(cls._base)


def _to_float(x):
    if isinstance(x, SymBool):
        return x._num() * 1.0
    if x.e.is_int():
        return SymNum(z3.ToReal(x.e))
    return x


class sfloat(metaclass=ShadowMeta):
    _base = float
    _name = "float"
    dtype = np.dtype(float)
    _convert = staticmethod(_to_float)
    _accepts = staticmethod(lambda x: not x.e.is_int())


class sint(metaclass=ShadowMeta):
    _base = int
    _name = "int"
    dtype = np.dtype(int)
    _convert = staticmethod(lambda x: x.__trunc__() if isinstance(x, SymNum) else x._num())
    _accepts = staticmethod(lambda x: x.e.is_int())


class sfloat64(metaclass=ShadowMeta):
    _base = np.float64
    _name = "float64"
    dtype = np.dtype(float)
    _convert = staticmethod(_to_float)
    _accepts = staticmethod(lambda x: False)


class sint64(metaclass=ShadowMeta):
    _base = np.int64
    _name = "int64"
    dtype = np.dtype(np.int64)
    _convert = staticmethod(lambda x: x.__trunc__())
    _accepts = staticmethod(lambda x: False)


class sfloat32(metaclass=ShadowMeta):
    _base = np.float32
    _name = "float32"
    dtype = np.dtype(np.float32)
    _convert = staticmethod(lambda x: core.CUR.uninterpreted("float32", x))
    _accepts = staticmethod(lambda x: False)


def undress(dt):
    return dt._base if isinstance(dt, ShadowMeta) else dt


class NumpyProxy(types.ModuleType):
    """stands in for the numpy module inside hadar's namespaces"""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, n):
        return getattr(_real_np, n)

    float64 = sfloat64
    double = sfloat64
    int64 = sint64
    float32 = sfloat32

    array = staticmethod(sym_array)

    @staticmethod
    def asarray(x, dtype=None, **k):
        if isinstance(x, SymArray):
            return x if dtype is None or kind_of(dtype) == "f" else cast_array(x, dtype)
        if has_sym(x):
            return sym_array(x, dtype)
        return _real_np.asarray(x, dtype=undress(dtype), **k)

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, **k):
        if not (is_sym(start) or is_sym(stop)):
            return np.linspace(start, stop, num, endpoint=endpoint, **k)
        num = int(num)
        n = max(1, num - 1 if endpoint else num)
        a = np.empty(num, dtype=object)
        for i in range(num):
            a[i] = start + (stop - start) * (i / n)
        return a.view(SymArray)

    @staticmethod
    def asanyarray(x, dtype=None, **k):
        return NumpyProxy.asarray(x, dtype)

    ascontiguousarray = asarray

    @staticmethod
    def zeros(shape, dtype=None, **k):
        kd = kind_of(dtype)
        if kd in ("f", "i", "f4"):
            return _filled(shape, 0 if kd == "i" else 0.0, kd)
        return _real_np.zeros(shape, dtype=undress(dtype), **k)

    @staticmethod
    def ones(shape, dtype=None, **k):
        kd = kind_of(dtype)
        if kd in ("f", "i", "f4"):
            return _filled(shape, 1 if kd == "i" else 1.0, kd)
        return _real_np.ones(shape, dtype=undress(dtype), **k)

    @staticmethod
    def empty(shape, dtype=None, **k):
        kd = kind_of(dtype)
        if kd in ("f", "i", "f4"):
            a = _undef(shape)
            a.kind = {"i": "i", "f4": "f4"}.get(kd)
            return a
        return _real_np.empty(shape, dtype=undress(dtype), **k)

    @staticmethod
    def full(shape, fill_value, dtype=None, **k):
        kd = kind_of(dtype) if dtype is not None else "f"
        if has_sym(fill_value) or kd in ("f", "f4"):
            if isinstance(fill_value, (str, bool)) or fill_value is None:
                return _real_np.full(shape, fill_value, **k)
            if isinstance(fill_value, _real_np.ndarray):
                a = _real_np.empty(shape, dtype=object)
                a[...] = plain(fill_value)
                return a.view(SymArray)
            return _filled(shape, fill_value, kd)
        return _real_np.full(shape, fill_value, dtype=undress(dtype), **k)

    @staticmethod
    def _like(a, value, dtype):
        if isinstance(a, SymArray):
            return _filled(a.shape, value, kind_of(dtype) if dtype is not None else a.kind)
        a = _real_np.asarray(a)
        d = dtype if dtype is not None else a.dtype
        kd = kind_of(d)
        if kd in ("f", "f4"):
            return _filled(a.shape, value, kd)
        return _real_np.full(a.shape, value, dtype=undress(d))

    @staticmethod
    def zeros_like(a, dtype=None, **k):
        if dtype is None and not isinstance(a, SymArray):
            b = _real_np.asarray(a)
            if kind_of(b.dtype) not in ("f", "f4"):
                return _real_np.zeros_like(b, **k)
        return NumpyProxy._like(a, 0.0, dtype)

    @staticmethod
    def ones_like(a, dtype=None, **k):
        return NumpyProxy._like(a, 1.0, dtype)

    @staticmethod
    def full_like(a, fill_value, dtype=None, **k):
        if has_sym(fill_value):
            return _filled(_real_np.shape(a), fill_value)
        return NumpyProxy._like(a, fill_value, dtype)

    @staticmethod
    def empty_like(a, dtype=None, **k):
        return _undef(_real_np.shape(a))

    @staticmethod
    def _lifted(name):
        f = getattr(_real_np, name)

        def g(*a, **k):
            if isinstance(k.get("dtype"), ShadowMeta):
                k["dtype"] = undress(k["dtype"])
            if builtins.any(isinstance(x, SymArray) for x in a):
                return f(*a, **k)
            if builtins.any(has_sym(x) for x in a):
                a = [sym_array(x) if has_sym(x) and not is_sym(x) else x for x in a]
                if not builtins.any(isinstance(x, SymArray) for x in a):
                    a = [sym_array([x]) if is_sym(x) else x for x in a]
                    r = f(*a, **k)
                    return r[0] if isinstance(r, _real_np.ndarray) and r.shape == (1,) else r
                return f(*a, **k)
            return f(*a, **k)

        g.__name__ = name
        for attr in ("reduce", "accumulate", "outer", "at", "reduceat"):
            if hasattr(f, attr):
                setattr(g, attr, getattr(f, attr))
        return g


for _n in (
    "sum all any max min amax amin mean std clip round around where maximum minimum abs absolute "
    "add subtract multiply divide cumsum append concatenate stack vstack hstack tile repeat isclose allclose "
    "array_equal less greater less_equal greater_equal equal not_equal logical_and logical_or logical_not "
    "isnan floor ceil rint sign exp power sqrt square count_nonzero sort ravel reshape transpose "
    "column_stack atleast_1d atleast_2d broadcast_to average nansum nanmean nan_to_num prod dot outer diff "
    "argmax argmin negative true_divide"
).split():
    setattr(NumpyProxy, _n, staticmethod(NumpyProxy._lifted(_n)))

PROXY = NumpyProxy()
