"""Installs the symbolic environment and imports hadar from the working tree."""
import copy
import os
import sys
import types

REPO = os.environ.get("HADAR_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def base_setup():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/dev/null/symx"  # neither read nor written: the source is compiled on every run
    if VT not in sys.path:
        sys.path.append(VT)
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    os.environ.setdefault("HADAR_LOG", "ERROR")


# ---- process pools -------------------------------------------------------
class FakePool:
    """multiprocessing.Pool: arguments and results cross a process boundary (copies)."""

    def __init__(self, *a, **k):
        # workers are forked here: each starts with the random state of its parent
        self.rng = RNG.rng

    def _call(self, f, args, kwds={}):
        keep = RNG.rng
        if self.rng is not None:
            RNG.rng = Rng(self.rng.ctx, self.rng.state)
            RNG.rng.n = self.rng.n
        # a module level function of numpy.random is a bound method: pickling it takes its generator along
        _mk.pickled = Rng(self.rng.ctx, self.rng.state) if self.rng is not None else None
        if _mk.pickled is not None:
            _mk.pickled.n = self.rng.n
        try:
            args, kwds = copy.deepcopy((args, kwds))
            _mk.pickled = None
            return copy.deepcopy(f(*args, **kwds))
        finally:
            _mk.pickled = None
            RNG.rng = keep

    def map(self, f, it, chunksize=None):
        return [self._call(f, (x,)) for x in it]

    def imap(self, f, it, chunksize=1):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=1):
        return iter(self.map(f, it)[::-1])

    def starmap(self, f, it, chunksize=None):
        return [self._call(f, tuple(x)) for x in it]

    def apply(self, f, args=(), kwds={}):
        return self._call(f, tuple(args), dict(kwds))

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        r = FakeAsync(self.apply(f, args, kwds))
        if callback:
            callback(r.get())
        return r

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return FakeAsync(self.map(f, it))

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return FakeAsync(self.starmap(f, it))

    def submit(self, f, *a, **k):
        return FakeAsync(self.apply(f, a, k))

    def close(self):
        pass

    join = terminate = shutdown = lambda self, *a, **k: None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakeExecutor(FakePool):
    def map(self, f, *its, **k):
        return iter([self._call(f, x) for x in zip(*its)])


class FakeAsync:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    result = get

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    done = successful = ready


# ---- randomness ----------------------------------------------------------
class Rng:
    """Random draws are symbols named after (seed state, position): the same
    seed replays the same symbols, otherwise draws are unconstrained."""

    def __init__(self, ctx, state):
        self.ctx, self.state, self.n = ctx, state, 0

    def _name(self):
        self.n += 1
        return "rng:%s:%d" % (self.state, self.n)

    def _ints(self, lo, hi, size):
        import numpy as np

        def one():
            return self.ctx.rng_int(self._name(), lo, hi)

        if size is None:
            return one()
        shape = size if isinstance(size, tuple) else (int(size),)
        shape = tuple(int(s) for s in shape)
        a = np.empty(shape, dtype=object)
        fl = a.reshape(-1)
        for i in range(fl.size):
            fl[i] = one()
        return self.ctx.wrap_ints(a)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if isinstance(high, float):
            high = int(high)
        self.ctx.rng_log.append(("randint", low, high))
        ok = low < high
        if not ok:
            raise ValueError("low >= high")
        return self._ints(low, high - 1, size)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + 1 if endpoint else high, size)

    def random_integers(self, low, high=None, size=None):
        return self.randint(low, high + 1, size)

    def choice(self, a, size=None, replace=True, p=None, **k):
        import numpy as np

        pop = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if not replace:
            raise self.ctx.unsupported("choice without replacement")
        idx = self._ints(0, len(pop) - 1, size)
        flat = [idx] if size is None else list(idx.reshape(-1))
        if p is not None:
            p = list(p)
            for q in p:
                self.ctx.require_prob(q)
            for x in flat:
                self.ctx.assume_positive(x, p)
        self.ctx.rng_log.append(("choice", pop, p))
        if pop == list(range(len(pop))):
            return idx
        vals = [pop[int(x)] for x in flat]
        if size is None:
            return vals[0]
        import numpy as np

        r = np.array(vals)
        return r.reshape(idx.shape)

    def _reals(self, lo, hi, size):
        import numpy as np

        def one():
            return self.ctx.rng_real(self._name(), lo, hi)

        if size is None:
            return one()
        shape = size if isinstance(size, tuple) else (int(size),)
        a = np.empty(tuple(int(s) for s in shape), dtype=object)
        fl = a.reshape(-1)
        for i in range(fl.size):
            fl[i] = one()
        return self.ctx.wrap_reals(a)

    def random(self, size=None):
        return self._reals(0, 1, size)

    random_sample = random

    def rand(self, *shape):
        return self._reals(0, 1, tuple(shape) if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._reals(0, 1, size)
        return u * (high - low) + low

    def binomial(self, n, p, size=None):
        self.ctx.require_prob(p)
        r = self._ints(0, n, size)
        return r

    def permutation(self, x):
        raise self.ctx.unsupported("permutation")

    def shuffle(self, x):
        raise self.ctx.unsupported("shuffle")


class RngState:
    """module level np.random state for the running context"""

    def __init__(self):
        self.reset(None)

    def reset(self, ctx):
        self.ctx = ctx
        self.fresh = 0
        self.rng = Rng(ctx, "os0") if ctx is not None else None
        self.seeds = []

    def seed(self, s=None):
        if s is None:
            self.fresh += 1
            self.rng = Rng(self.ctx, "os%d" % self.fresh)
        else:
            self.seeds.append(s)
            if isinstance(s, tuple) or (isinstance(s, int) and s in UR_SEEDS):
                self.fresh += 1
                self.rng = Rng(self.ctx, "os%d" % self.fresh)
            else:
                self.rng = Rng(self.ctx, "seed(%s)" % (int(s) if not isinstance(s, (int, float)) else s))

    def new(self, s=None):
        if s is None or (isinstance(s, int) and s in UR_SEEDS):
            self.fresh += 1
            return Rng(self.ctx, "os%d" % self.fresh)
        if isinstance(s, Rng):
            return s
        return Rng(self.ctx, "seed(%s)" % (int(s),))


UR_SEEDS = set()
RNG = RngState()
_ur_n = [0]


def fake_urandom(n):
    _ur_n[0] += 1
    b = (0x5EED0000 + _ur_n[0]).to_bytes(4, "little")
    b = (b * ((n + 3) // 4))[:n]
    UR_SEEDS.add(int.from_bytes(b, "little"))
    UR_SEEDS.add(int.from_bytes(b, "big"))
    return b


def install_rng():
    import numpy as np

    r = np.random
    for n in "randint choice random random_sample rand uniform binomial permutation shuffle".split():
        setattr(r, n, _mk(n))
    r.seed = lambda s=None: RNG.seed(s)
    r.default_rng = lambda s=None: RNG.new(s)
    r.RandomState = lambda s=None: RNG.new(s)
    os.urandom = fake_urandom


class _mk:
    """picklable, deep-copyable module level random function"""

    pickled = None

    def __init__(self, n, rng=None):
        self.n, self.rng = n, rng

    def __call__(self, *a, **k):
        return getattr(self.rng if self.rng is not None else RNG.rng, self.n)(*a, **k)

    def __deepcopy__(self, memo):
        if _mk.pickled is not None and self.rng is None:
            return _mk(self.n, _mk.pickled)
        return self


# ---- serialisation -------------------------------------------------------
def install_msgpack():
    import msgpack
    from . import core

    p0, u0 = msgpack.packb, msgpack.unpackb

    def packb(o, default=None, **k):
        def d(x):
            if isinstance(x, core.SymNum):
                return msgpack.ExtType(42, core.CUR.register(x).to_bytes(4, "big"))
            if default:
                return default(x)
            raise TypeError("can not serialize %r object" % (type(x).__name__,))

        return p0(o, default=d, **k)

    def unpackb(b, ext_hook=None, **k):
        def h(code, data):
            if code == 42:
                return core.CUR.registry[int.from_bytes(data, "big")]
            return ext_hook(code, data) if ext_hook else msgpack.ExtType(code, data)

        return u0(b, ext_hook=h, **k)

    msgpack.packb = msgpack.dumps = packb
    msgpack.unpackb = msgpack.loads = unpackb


def install_json():
    import json
    from . import core

    d0, l0 = json.dumps, json.loads

    def dumps(o, default=None, **k):
        def d(x):
            if isinstance(x, core.SymNum):
                return {"__sym__": core.CUR.register(x)}
            if default:
                return default(x)
            raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)

        return d0(o, default=d, **k)

    def loads(s, **k):
        def hook(x):
            if isinstance(x, dict) and set(x) == {"__sym__"}:
                return core.CUR.registry[x["__sym__"]]
            return x

        if "object_hook" not in k:
            k["object_hook"] = hook
        return l0(s, **k)

    json.dumps, json.loads = dumps, loads


def hadar_modules():
    return [m for n, m in list(sys.modules.items()) if (n == "hadar" or n.startswith("hadar.")) and m is not None]


def install_symbolic():
    """patch the environment, import hadar, shadow builtins in its namespaces"""
    base_setup()
    import multiprocessing
    import concurrent.futures
    import time

    import multiprocessing.pool as mpp

    pool_class = mpp.Pool

    def real_pool(*a, **k):
        def init():
            mpp.Pool = FakePool

        return pool_class(*a, initializer=init, context=multiprocessing.get_context("fork"), **k)

    import numpy as np
    import pandas  # noqa
    from . import core, nparr, pdx, lpstub
    import ortools.linear_solver.pywraplp as pw

    # full imports that must happen before patching
    import plotly.graph_objects  # noqa
    import matplotlib.cm  # noqa
    import requests  # noqa
    import matplotlib.colors as mcl

    c0 = mcl.Colormap.__call__
    mcl.Colormap.__call__ = lambda self, X, *a, **k: (0.5, 0.5, 0.5, 1.0) if core.is_sym(X) else c0(self, X, *a, **k)
    pw.Solver, pw.Variable, pw.Constraint, pw.Objective = (
        lpstub.FakeSolver, lpstub.FakeVariable, lpstub.FakeConstraint, lpstub.FakeObjective)
    multiprocessing.Pool = FakePool
    concurrent.futures.ProcessPoolExecutor = FakeExecutor
    concurrent.futures.ThreadPoolExecutor = FakeExecutor
    real_sleep = time.sleep
    time.sleep = lambda s: None
    install_rng()
    install_msgpack()
    install_json()
    pdx.install()
    import hadar  # noqa
    import importlib
    import pkgutil

    for m in pkgutil.walk_packages(hadar.__path__, "hadar."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    shadow()
    return real_pool, real_sleep


def shadow():
    import numpy as np
    from . import core, nparr

    lifted = {}
    for n in dir(nparr.NumpyProxy):
        if n.startswith("_"):
            continue
        r = getattr(np, n, None)
        if callable(r):
            lifted[id(r)] = getattr(nparr.PROXY, n)
    # pandas recognises numpy's reductions given as aggregation functions
    import pandas.core.common as com

    for r, how in list(com._cython_table.items()):
        if id(r) in lifted:
            com._cython_table[lifted[id(r)]] = how
    for m in hadar_modules():
        g = vars(m)
        for k, v in list(g.items()):
            if v is np:
                g[k] = nparr.PROXY
            elif isinstance(v, type) and v.__module__ == "multiprocessing.pool":
                g[k] = FakePool
            elif id(v) in lifted and not k.startswith("__") and getattr(v, "__module__", "").startswith("numpy"):
                g[k] = lifted[id(v)]
        g.setdefault("float", nparr.sfloat)
        g.setdefault("int", nparr.sint)
        g.setdefault("min", core.builtin_min)
        g.setdefault("max", core.builtin_max)
