"""helpers shared by the harnesses"""
import numpy as np


def arr(ctx, nested, dtype=None):
    """ndarray of (possibly symbolic) numbers"""
    if ctx.symbolic:
        from symx.nparr import SymArray

        return np.array(nested, dtype=object).view(SymArray)
    return np.array(nested, dtype=dtype or float)


def attempt(f):
    """(value, exception) of a call into the code under test"""
    from symx.core import Unsupported

    try:
        return f(), None
    except Unsupported:
        raise
    except Exception as ex:
        return None, ex


def grid(ctx, name, n, m, lo=None, hi=None):
    return [[ctx.real("%s@%d,%d" % (name, i, j), lo, hi) for j in range(m)] for i in range(n)]


def same(ctx, a, b, where, label, depth=0):
    """structural equality of nested python data with numbers as leaves"""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict) and list(map(str, a)) == list(map(str, b))):
            ctx.check(False, "%s: %s" % (label, where))
            return
        for k in a:
            same(ctx, a[k], b[k], "%s.%s" % (where, k) if depth < 2 else where, label, depth + 1)
        return
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)):
            ctx.check(False, "%s: %s" % (label, where))
            return
        for x, y in zip(a, b):
            same(ctx, x, y, where, label, depth + 1)
        return
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        ctx.check(type(a) == type(b) and a == b, "%s: %s" % (label, where))
        return
    ctx.check(ctx.eq(a, b, 1e-12), "%s: %s" % (label, where))


def snapshot(x):
    """deep copy of plain data (symbols are shared, they are immutable)"""
    import copy

    return copy.deepcopy(x)
