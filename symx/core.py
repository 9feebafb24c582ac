"""Symbolic execution core: symbolic numbers, path exploration, solver queries.

The real code of hadar runs on these objects.  Numbers that flow through it are
z3 terms (reals for floats, integers for indices/draws); a Python branch on a
symbolic condition forks the execution (depth-first re-execution with
feasibility checks), so every feasible path within the bounds is visited and
each assertion is decided by z3 for all values of the symbols at once.
"""
import math
import numbers
import opcode
import sys
import time
from fractions import Fraction

import numpy as np
import z3

CUR = None  # current symbolic context (one per process, set by explore())


class PathAbort(BaseException):
    """Abandon the current path (infeasible, or out of budget)."""


class Unsupported(Exception):
    """The engine cannot represent an operation symbolically."""


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    f = float(x)
    return Fraction(repr(f))


def const(x, want_int=False):
    if want_int:
        return z3.IntVal(int(x))
    f = _frac(x)
    return z3.RealVal(f)


def is_num(x):
    return isinstance(x, (int, float, np.number, np.bool_, Fraction)) and not isinstance(x, complex)


def is_nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def real_of(x):
    """z3 arithmetic term of a number."""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if is_num(x):
        return const(x)
    raise Unsupported("not a number: %r" % (type(x),))


def bool_of(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SymNum):
        return x.e != 0
    if is_num(x):
        return z3.BoolVal(bool(x))
    raise Unsupported("not a bool: %r" % (type(x),))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 2000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.And(self.e, bool_of(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Or(self.e, bool_of(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bool_of(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        try:
            return mkbool(self.e == bool_of(o))
        except Unsupported:
            return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return self.e.hash()

    def _num(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __truediv__(self, o):
        return self._num() / o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "SymBool(%s)" % self.e


def _other(o):
    """operand -> z3 term, or None when not numeric, or nonfinite float."""
    if isinstance(o, SymNum):
        return o.e
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, (bool, np.bool_)):
        return z3.IntVal(int(o))
    if isinstance(o, (int, np.integer)):
        return z3.IntVal(int(o))
    if is_num(o):
        return const(o)
    return None


def _lift(a, b):
    """coerce a pair of arith terms to a common sort"""
    if a.is_int() and not b.is_int():
        a = z3.ToReal(a) if not z3.is_int_value(a) else z3.RealVal(a.as_long())
    elif b.is_int() and not a.is_int():
        b = z3.ToReal(b) if not z3.is_int_value(b) else z3.RealVal(b.as_long())
    return a, b


def wrap(e):
    """z3 term -> python object; numerals become python numbers"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return float(f)
    return SymNum(e)


TOKEN = 7770000000000000  # numbers printed in texts: TOKEN + position in the registry


def _formatting(frame):
    """is the caller executing the % operator (of a string)?"""
    code, i = frame.f_code.co_code, frame.f_lasti
    return opcode.opname[code[i]] == "BINARY_OP" and code[i + 1] in (6, 19)


def symbols_in(text):
    """the numbers written in a text"""
    import re

    out = []
    for x in re.findall(r"-?\d+(?:\.\d+)?(?:e[-+]?\d+)?", text):
        v = float(x)
        k = int(v) - TOKEN
        if CUR is not None and 0 <= k < len(CUR.registry):
            out.append(CUR.registry[k])
        else:
            out.append(v)
    return out


class SymNum:
    """Symbolic number; `e` is a z3 Real or Int term."""

    __slots__ = ("e",)
    __array_priority__ = 2000

    def __init__(self, e):
        self.e = e

    # -- helpers
    @property
    def is_int_sort(self):
        return self.e.is_int()

    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray):
            from .nparr import elementwise, tidy
            return tidy(elementwise(lambda y: self._el(y, f, swap), o))
        if is_nonfinite(o):
            raise Unsupported("arithmetic with inf/nan")
        b = _other(o)
        if b is None:
            return NotImplemented
        a, b = _lift(self.e, b)
        return SymNum(f(b, a) if swap else f(a, b))

    def _el(self, y, f, swap):
        if is_num(y) and isinstance(y, (float, np.floating)) and math.isnan(y):
            return float("nan")
        r = self._bin(y, f, swap)
        if r is NotImplemented:
            raise TypeError("unsupported operand")
        return r

    def __add__(self, o):
        if is_num(o):
            if isinstance(o, (float, np.floating)) and math.isnan(o):
                return float("nan")
            if o == 0:
                return self
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if is_num(o):
            if isinstance(o, (float, np.floating)) and math.isnan(o):
                return float("nan")
            if o == 0:
                return self
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if is_num(o) and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if is_num(o):
            if isinstance(o, (float, np.floating)) and math.isnan(o):
                return float("nan")
            if o == 1:
                return self
            if o == 0:
                return 0.0 if not (self.e.is_int() and isinstance(o, (int, np.integer))) else 0
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if is_num(o):
            if o == 1:
                return self
            if o == 0:
                raise ZeroDivisionError("float division by zero")
            if is_nonfinite(o):
                return 0.0
            return SymNum(_to_real(self.e) * const(Fraction(1) / _frac(o)))
        if isinstance(o, SymNum):
            if CUR.zero_div == "assume":
                CUR.nonzero(o.e)
            elif CUR.branch(o.e == 0):
                if CUR.zero_div == "opaque":
                    return CUR.fresh("nan")
                raise ZeroDivisionError("float division by zero")
            return SymNum(_to_real(self.e) / _to_real(o.e))
        if isinstance(o, np.ndarray):
            from .nparr import elementwise, tidy, _div
            return tidy(elementwise(lambda y: _div(self, y), o))
        return NotImplemented

    def __rtruediv__(self, o):
        if is_num(o):
            if CUR.zero_div == "assume":
                CUR.nonzero(self.e)
            elif CUR.branch(self.e == 0):
                if CUR.zero_div == "opaque":
                    return CUR.fresh("nan")
                raise ZeroDivisionError("float division by zero")
            return SymNum(const(o) / _to_real(self.e))
        if isinstance(o, np.ndarray):
            from .nparr import elementwise, tidy, _div
            return tidy(elementwise(lambda y: _div(y, self), o))
        return NotImplemented

    def __floordiv__(self, o):
        if self.e.is_int() and isinstance(o, (int, np.integer)) and o > 0:
            return SymNum(self.e / z3.IntVal(int(o)))
        r = self.__truediv__(o)
        return math.floor(r) if not isinstance(r, SymNum) else r.__floor__()

    def __rfloordiv__(self, o):
        r = self.__rtruediv__(o)
        return math.floor(r) if not isinstance(r, SymNum) else r.__floor__()

    def __mod__(self, o):
        if self.e.is_int() and isinstance(o, (int, np.integer)) and o > 0:
            return SymNum(self.e % z3.IntVal(int(o)))
        return self - (self.__floordiv__(o)) * o

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, n):
        if isinstance(n, SymNum):
            raise Unsupported("symbolic exponent")
        if n == 2:
            return self * self
        if isinstance(n, (int, np.integer)) and 0 <= n <= 4:
            r = 1
            for _ in range(int(n)):
                r = self * r
            return r
        raise Unsupported("power %r" % (n,))

    # -- comparisons
    def _cmp(self, o, f, inf_res):
        if isinstance(o, np.ndarray):
            from .nparr import elementwise, tidy_bool
            return tidy_bool(elementwise(lambda y: self._cmp(y, f, inf_res), o))
        if is_nonfinite(o):
            return inf_res(float(o))
        b = _other(o)
        if b is None:
            return NotImplemented
        a, b = _lift(self.e, b)
        r = f(a, b)
        return mkbool(r) if isinstance(r, bool) is False else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda i: i == math.inf)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda i: i == math.inf)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda i: i == -math.inf)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda i: i == -math.inf)

    def __eq__(self, o):
        if o is self:
            return True
        r = self._cmp(o, lambda a, b: True if a.eq(b) else a == b, lambda i: False)
        return False if (r is NotImplemented and not isinstance(o, np.ndarray)) else r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        return CUR.branch(self.e != 0)

    # -- rounding
    def __floor__(self):
        return self if self.e.is_int() else SymNum(z3.ToInt(self.e))

    def __ceil__(self):
        return self if self.e.is_int() else SymNum(-z3.ToInt(-self.e))

    def __trunc__(self):
        if self.e.is_int():
            return self
        return SymNum(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def rint(self):
        return SymNum(z3.ToReal(z3.ToInt(_to_real(self.e) + z3.RealVal("1/2"))))

    def __round__(self, n=None):
        if n is None:
            return SymNum(z3.ToInt(_to_real(self.e) + z3.RealVal("1/2")))
        m = 10 ** int(n) if n >= 0 else Fraction(1, 10 ** (-int(n)))
        return SymNum(
            z3.ToReal(z3.ToInt(_to_real(self.e) * const(m) + z3.RealVal("1/2"))) / const(m)
        )

    def sqrt(self):
        raise Unsupported("sqrt")

    def exp(self):
        return CUR.uninterpreted("exp", self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def is_integer(self):
        return mkbool(z3.IsInt(_to_real(self.e)))

    def item(self):
        return self

    def tolist(self):
        return self

    # -- C level escapes
    def __index__(self):
        if not self.e.is_int():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CUR.concretise_int(self.e)

    def __int__(self):
        if CUR is not None and _formatting(sys._getframe(1)):
            return TOKEN + CUR.register(self)  # "%d" % x: the text names the symbol
        if self.e.is_int():
            return CUR.concretise_int(self.e)
        return int(CUR.concretise(self.e))

    def __float__(self):
        return float(CUR.concretise(self.e))

    def __complex__(self):
        return complex(float(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (CUR.register(self),))

    def __repr__(self):
        s = str(self.e)
        return "Sym(%s)" % (s if len(s) < 60 else s[:57] + "...")

    def __str__(self):
        return str(TOKEN + CUR.register(self)) if CUR is not None else self.__repr__()

    def __format__(self, spec):
        return self.__str__()


numbers.Real.register(SymNum)


def _to_real(e):
    return z3.ToReal(e) if e.is_int() else e


def _unpickle(k):
    return CUR.registry[k]


def sym_max(a, b):
    if is_sym(a) or is_sym(b):
        if is_nonfinite(b):
            return a if b < 0 else b
        if is_nonfinite(a):
            return b if a < 0 else a
        x, y = _lift(real_or_int(a), real_or_int(b))
        if CUR.fork_max:
            return a if CUR.branch(x >= y) else b
        return SymNum(z3.If(x >= y, x, y))
    return max(a, b)


def sym_min(a, b):
    if is_sym(a) or is_sym(b):
        if is_nonfinite(b):
            return a if b > 0 else b
        if is_nonfinite(a):
            return b if a > 0 else a
        x, y = _lift(real_or_int(a), real_or_int(b))
        if CUR.fork_max:
            return a if CUR.branch(x <= y) else b
        return SymNum(z3.If(x <= y, x, y))
    return min(a, b)


def _extremum(real, pick):
    import functools

    @functools.wraps(real)
    def f(*a, **k):
        """the builtin, without forking on symbolic numbers"""
        xs = a
        if len(a) == 1 and not k:
            xs = list(a[0])
            a = (xs,)
        if k or len(xs) < 2 or not any(isinstance(x, SymNum) for x in xs) or not all(is_num(x) or isinstance(x, SymNum) for x in xs):
            return real(*a, **k)
        out = xs[0]
        for x in xs[1:]:
            out = pick(out, x)
        return out

    return f


builtin_min, builtin_max = _extremum(min, sym_min), _extremum(max, sym_max)


def real_or_int(x):
    t = _other(x)
    if t is None:
        raise Unsupported("number expected, got %r" % (type(x),))
    return t


def sym_ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(c, SymNum):
        c = c != 0
        if isinstance(c, bool):
            return a if c else b
    if (a is b) or (is_num(a) and is_num(b) and a == b):
        return a
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mkbool(z3.If(c.e, bool_of(a), bool_of(b)))
    try:
        x, y = _lift(real_or_int(a), real_or_int(b))
    except Unsupported:
        return a if CUR.branch(c.e) else b
    return SymNum(z3.If(c.e, x, y))


# --------------------------------------------------------------------------
class Candidate:
    """A solver model falsifying an assertion."""

    def __init__(self, label, inputs, note=""):
        self.label, self.inputs, self.note = label, inputs, note


class BaseCtx:
    """API shared by symbolic and concrete (replay) execution of a harness."""

    symbolic = False


class Hang(BaseException):
    """the path has made no progress for a long time"""


HANG_TICK_S = 25.0


class SymCtx(BaseCtx):
    symbolic = True

    # ---- watchdog: a path on which nothing is asked or asserted any more
    def _watch(self):
        import signal
        import threading

        if threading.current_thread() is not threading.main_thread():
            return
        state = [None, 0]

        def tick(sig, frame):
            st = self.stats
            now = (st["queries"], st["checks"], len(self.inputs), len(self.path), self.fresh_n)
            state[1] = state[1] + 1 if now == state[0] else 0
            state[0] = now
            if state[1] >= 2:
                raise Hang()

        signal.signal(signal.SIGALRM, tick)
        signal.setitimer(signal.ITIMER_REAL, HANG_TICK_S, HANG_TICK_S)

    def _unwatch(self):
        import signal
        import threading

        if threading.current_thread() is threading.main_thread():
            signal.setitimer(signal.ITIMER_REAL, 0)

    def __init__(self, max_paths=200, budget_s=120.0, timeout_ms=20000, seed=1, max_cands=3):
        self.max_paths, self.budget_s = max_paths, budget_s
        self.timeout_ms, self.seed = timeout_ms, seed
        self.max_cands = max_cands
        self.stats = dict(
            paths=0, infeasible=0, queries=0, solver_s=0.0, checks=0, trivially_true=0,
            unknown=0, concretised=0, truncated=0, vacuous_paths=0, reached={}, degraded=[],
            labels={}, cores=[],
        )
        self.candidates = []
        self.may = {}
        self.registry = {}
        self.sample = None
        self.t0 = time.time()
        self.cand_labels = {}

    # ---- exploration
    def explore(self, fn):
        """Run fn(ctx) over all feasible paths."""
        global CUR
        CUR = self
        stack = [[]]
        while stack:
            if self.stats["paths"] >= self.max_paths or time.time() - self.t0 > self.budget_s:
                self.stats["truncated"] += len(stack)
                break
            self.prefix = stack.pop()
            self.decisions = []
            self.alts = []
            self.solver = z3.Solver()
            self.solver.set("timeout", self.timeout_ms)
            self.solver.set("random_seed", self.seed)
            self.path = []
            self.inputs = {}
            self.choices = {}
            self.names = {}
            self.decided = {}
            self.model = None
            self.pending = []
            self.fresh_n = 0
            self.rng_n = 0
            self.ufs = {}
            self.solvers = []
            self.lp_assume = True
            self.rng_log = []
            self.zero_div = "raise"
            self.fork_max = False
            from . import env
            env.RNG.reset(self)
            aborted = False
            try:
                self._watch()
                try:
                    fn(self)
                finally:
                    self._unwatch()
            except Hang:
                self.stats["degraded"].append("no progress for %d s" % (3 * HANG_TICK_S))
                self.candidates_from_path("the operation ends", "no progress for %d s" % (3 * HANG_TICK_S))
                self.stats["truncated"] += len(stack) + len(self.alts)
                self.stats["paths"] += 1
                break
            except PathAbort:
                aborted = True
                self.stats["infeasible"] += 1
            except Unsupported as ex:
                self.stats["degraded"].append("unsupported: %s" % ex)
                self.candidates_from_path("engine:unsupported", "unsupported: %s" % ex)
            except Exception as ex:  # the code under test raised
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)
                where = "%s:%s" % (tb[-1].filename.split("/")[-1], tb[-1].lineno) if tb else "?"
                msg = "%s: %s @%s" % (type(ex).__name__, str(ex)[:200], where)
                self.stats["degraded"].append("exception " + msg)
                self.exc_tb = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-3000:]
                self.stats.setdefault("tb", self.exc_tb)
                self.candidates_from_path("no unexpected exception", msg)
            if not aborted:
                self.flush()
                self.stats["paths"] += 1
                if self.sample is None:
                    self.take_sample()
            stack.extend(self.alts)
            if len(self.candidates) >= 24:
                break
        if not self.stats["truncated"]:
            for label, m in self.may.items():
                if m is not True:
                    self.add_candidate(label, m, "impossible on every path")
        CUR = None
        self.solver = None
        return self

    # ---- solver access
    def _check(self, *extra, timeout=None):
        t = time.time()
        self.stats["queries"] += 1
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set("timeout", self.timeout_ms)
        self.stats["solver_s"] += time.time() - t
        return r

    def add(self, e):
        """Add a path constraint / assumption (no feasibility check)."""
        self.solver.add(e)
        self.path.append(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort()
            else:
                self.stats["unknown"] += 1
        return self.model

    def branch(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        key = s.get_id()
        if key in self.decided:
            return self.decided[key][0]
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n]
            self.decisions.append(v)
            self.add(s if v else z3.Not(s))
            self._remember(s, v)
            return v
        if time.time() - self.t0 > self.budget_s * 1.5:
            self.stats["truncated"] += 1
            raise PathAbort()
        m = self.get_model()
        mt = None
        if m is not None:
            try:
                mv = m.eval(s, model_completion=True)
                mt = True if z3.is_true(mv) else False if z3.is_false(mv) else None
            except z3.Z3Exception:
                mt = None
        if mt is None:
            can_t = self._check(s) != z3.unsat
            can_f = self._check(z3.Not(s)) != z3.unsat
        elif mt:
            can_t, can_f = True, self._check(z3.Not(s)) != z3.unsat
        else:
            can_f, can_t = True, self._check(s) != z3.unsat
        if not can_t and not can_f:
            raise PathAbort()
        if can_t and can_f:
            v = mt if mt is not None else True
            self.alts.append(self.decisions + [not v])
            self.decisions.append(v)
        else:
            v = can_t  # implied by the path: recorded (for re-execution) but adds nothing
            self.decisions.append(v)
            self._remember(s, v)
            return v
        self.add(s if v else z3.Not(s))
        self._remember(s, v)
        return v

    def _remember(self, s, v):
        self.decided[s.get_id()] = (v, s)
        n = z3.simplify(z3.Not(s))
        self.decided[n.get_id()] = (not v, n)

    def concretise_int(self, e):
        """fork over the feasible values of an integer term"""
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        for _ in range(64):
            n = len(self.decisions)
            if n < len(self.prefix):
                v = self.prefix[n][1]
            else:
                v = self.int_order(s)
            self.decisions.append(("val", v))
            if self.branch(s == v):
                return v
        raise Unsupported("too many integer values")

    def int_order(self, s):
        """smallest feasible value (deterministic across re-executions)"""
        m = None
        r = self._check()
        if r != z3.sat:
            raise PathAbort()
        m = self.solver.model()
        v = m.eval(s, model_completion=True).as_long()
        for _ in range(200):
            if self._check(s < v) == z3.sat:
                v2 = self.solver.model().eval(s, model_completion=True).as_long()
                v = v2
            else:
                return v
        raise Unsupported("unbounded integer")

    def concretise(self, e):
        """Escape to a C-level float: pin the term to one value (under-approximation)."""
        s = z3.simplify(e)
        if z3.is_rational_value(s):
            return s.as_fraction()
        self.stats["concretised"] += 1
        key = ("conc", s.get_id())
        if key in self.decided:
            return self.decided[key][0]
        n = len(self.decisions)
        if n < len(self.prefix):
            f = self.prefix[n][1]
            self.decisions.append(("val", f))
            self.add(s == z3.RealVal(f))
            self.decided[key] = (f, s)
            return f
        # prefer a non integer value: it exposes truncations
        r = self._check(z3.Not(z3.IsInt(_to_real(s))), s * 4 == z3.ToReal(z3.ToInt(_to_real(s) * 4)), timeout=2000)
        if r != z3.sat:
            r = self._check()
        if r != z3.sat:
            raise PathAbort()
        v = self.solver.model().eval(s, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        f = v.as_fraction() if z3.is_rational_value(v) else Fraction(v.as_long())
        self.decisions.append(("val", f))
        self.add(s == z3.RealVal(f))
        self.decided[key] = (f, s)
        return f

    def uninterpreted(self, name, x):
        f = self.ufs.get(name)
        if f is None:
            f = self.ufs[name] = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
        return SymNum(f(_to_real(real_or_int(x))))

    def register(self, s):
        k = len(self.registry)
        self.registry[k] = s
        return k

    # ---- random draws (symx.env.Rng)
    def rng_int(self, name, lo, hi):
        if name in self.names:
            return SymNum(self.names[name])
        v = z3.Int(name)
        self.names[name] = v
        self.add(z3.And(v >= real_or_int(lo), v <= real_or_int(hi)))
        return SymNum(v)

    def rng_real(self, name, lo, hi):
        if name in self.names:
            return SymNum(self.names[name])
        v = z3.Real(name)
        self.names[name] = v
        self.add(z3.And(v >= lo, v < hi))
        return SymNum(v)

    def wrap_ints(self, a):
        from .nparr import SymArray
        return a.view(SymArray)

    wrap_reals = wrap_ints

    def require_prob(self, q):
        if not (q >= 0):
            raise ValueError("probabilities are not non-negative")
        if not (q <= 1):
            raise ValueError("probabilities do not sum to 1")

    def assume_positive(self, x, p):
        for i, q in enumerate(p):
            if is_sym(q) or q <= 0:
                self.add(z3.Implies(real_or_int(x) == i, bool_of(q > 0)))

    def unsupported(self, msg):
        return Unsupported(msg)

    def nonzero(self, e):
        k = ("nz", e.get_id())
        if k not in self.decided:
            self.decided[k] = (True, e)
            self.add(e != 0)

    def once(self, fn):
        """fn() builds objects without forking: later paths reuse them (first thing a harness does)"""
        c = getattr(self, "_once", None)
        if c is not None and not self.decisions and self.prefix[:len(c["decisions"])] == c["decisions"]:
            for e in c["path"]:
                self.solver.add(e)
            self.path = list(c["path"])
            self.decisions = list(c["decisions"])
            self.inputs, self.names, self.decided, self.ufs = dict(c["inputs"]), dict(c["names"]), dict(c["decided"]), dict(c["ufs"])
            self.fresh_n, self.model = c["fresh_n"], c["model"]
            return c["value"]
        fresh = not self.decisions
        v = fn()
        if fresh and not self.alts and not self.pending and not self.solvers:
            self._once = dict(value=v, path=list(self.path), decisions=list(self.decisions), inputs=dict(self.inputs), names=dict(self.names),
                              decided=dict(self.decided), ufs=dict(self.ufs), fresh_n=self.fresh_n, model=self.model)
        return v

    # ---- inputs
    def real(self, name, lo=None, hi=None, lo_open=False):
        assert name not in self.inputs, name
        v = z3.Real(name)
        self.inputs[name] = v
        if lo is not None:
            self.add(v > const(lo) if lo_open else v >= const(lo))
        if hi is not None:
            self.add(v <= const(hi))
        return SymNum(v)

    def int(self, name, lo, hi):
        assert name not in self.inputs, name
        v = z3.Int(name)
        self.inputs[name] = v
        self.add(z3.And(v >= lo, v <= hi))
        return SymNum(v)

    def choice(self, name, options):
        """structural choice: forks over the options"""
        i = self.int("choice:" + name, 0, len(options) - 1)
        return options[int(i)]

    def fresh(self, name="f"):
        self.fresh_n += 1
        return SymNum(z3.Real("%s!%d" % (name, self.fresh_n)))

    def fresh_int(self, name="i"):
        self.fresh_n += 1
        return SymNum(z3.Int("%s!%d" % (name, self.fresh_n)))

    def assume(self, c):
        e = bool_of(c)
        self.add(e)

    def feasible(self):
        return self._check() == z3.sat

    def note_inputs(self, **kw):
        pass

    # ---- logic over values (same API in concrete mode)
    def eq(self, a, b, tol=None):
        if a is b:
            return True
        if not is_sym(a) and not is_sym(b):
            if is_num(a) and is_num(b):
                if is_nonfinite(a) or is_nonfinite(b):
                    return bool(a == b)
                return abs(_frac(a) - _frac(b)) <= Fraction(1, 10 ** 9)
            return type(a) == type(b) and a == b
        if is_sym(a) and isinstance(a, SymNum):
            return a == b if (is_num(b) or is_sym(b)) else False
        if isinstance(b, SymNum):
            return b == a if is_num(a) else False
        return mkbool(bool_of(a) == bool_of(b))

    def le(self, a, b, tol=None):
        return a <= b

    def lt(self, a, b, tol=None):
        return a < b

    def all(self, conds):
        cs = list(conds)
        if any(c is False for c in cs):
            return False
        es = [bool_of(c) for c in cs if c is not True]
        return True if not es else mkbool(z3.And(*es))

    def any(self, conds):
        cs = list(conds)
        if any(c is True for c in cs):
            return True
        es = [bool_of(c) for c in cs if c is not False]
        return False if not es else mkbool(z3.Or(*es))

    def implies(self, a, b):
        return mkbool(z3.simplify(z3.Implies(bool_of(a), bool_of(b))))

    def not_(self, a):
        return mkbool(z3.simplify(z3.Not(bool_of(a))))

    def ite(self, c, a, b):
        return sym_ite(c, a, b)

    def max(self, a, b):
        return sym_max(a, b)

    def min(self, a, b):
        return sym_min(a, b)

    def sum(self, xs):
        r = 0
        for x in xs:
            r = x + r
        return r

    # ---- assertions
    def check(self, cond, label):
        self.stats["checks"] += 1
        lab = self.stats["labels"].setdefault(label, [0, 0])
        lab[0] += 1
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                self.stats["trivially_true"] += 1
            else:
                self.candidates_from_path(label, "false on the whole path")
            return
        e = z3.simplify(bool_of(cond))
        if z3.is_true(e):
            self.stats["trivially_true"] += 1
            return
        lab[1] += 1
        self.pending.append((label, e))
        if len(self.pending) >= 400:
            self.flush(final=False)

    def possible(self, cond, label):
        """some path and some value must make cond true (decided over the whole exploration)"""
        self.stats["checks"] += 1
        if self.may.get(label) is not True:
            e = bool_of(cond)
            r = self._check(e)
            if r == z3.sat:
                self.may[label] = True
            elif r == z3.unknown:
                self.stats["unknown"] += 1
                self.may[label] = True
            elif label not in self.may:
                self._check()
                self.may[label] = self.solver.model()

    def reach(self, label):
        self.stats["reached"][label] = self.stats["reached"].get(label, 0) + 1

    def flush(self, final=True):
        pend, self.pending = self.pending, []
        if pend:
            r = self._check(z3.Or(*[z3.Not(e) for _, e in pend])) if len(pend) > 1 else self._check(z3.Not(pend[0][1]))
            if r == z3.unsat:
                pass
            else:
                # locate
                for label, e in pend:
                    if self.cand_labels.get(label, 0) >= self.max_cands:
                        continue
                    self.decide_one(label, e)
        if final:
            r = self._check()
            if r == z3.unsat:
                self.stats["vacuous_paths"] += 1

    def decide_one(self, label, e):
        r = self._check(z3.Not(e))
        if r == z3.unknown:
            s2 = z3.Tactic("qfnra-nlsat").solver() if True else None
            s2.set("timeout", self.timeout_ms)
            try:
                s2.add(*self.path)
                s2.add(z3.Not(e))
                t = time.time()
                r = s2.check()
                self.stats["queries"] += 1
                self.stats["solver_s"] += time.time() - t
                if r == z3.sat:
                    self.add_candidate(label, s2.model())
                    return
            except z3.Z3Exception:
                r = z3.unknown
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.stats["degraded"].append("solver unknown on '%s'" % label)
            return
        if r == z3.sat:
            # several diverse models: nudge towards replay-friendly values
            base = self.solver.model()
            self.nice_models(label, e, base)

    def nice_models(self, label, e, base):
        """look for models with well separated values (robust to float tolerance)"""
        got = 0
        neg = z3.Not(e)
        tried = []
        margin = margin_of(neg)
        nice = [z3.And(v >= 1, v <= 100) for v in self.inputs.values() if not v.is_int()]
        for extra in (
            ([margin] if margin is not None else []) + nice_subset(self, neg, margin),
            [margin] if margin is not None else [],
        ):
            if not extra:
                continue
            r = self._check(neg, *extra, timeout=5000)
            if r == z3.sat:
                self.add_candidate(label, self.solver.model())
                got += 1
                break
        if got == 0 or self.cand_labels.get(label, 0) < self.max_cands:
            self.add_candidate(label, base)

    def add_candidate(self, label, model, note=""):
        self.cand_labels[label] = self.cand_labels.get(label, 0) + 1
        self.candidates.append(Candidate(label, self.extract(model), note))

    def candidates_from_path(self, label, note):
        if self.cand_labels.get(label, 0) >= self.max_cands:
            return
        # spread-out model first
        extra = nice_subset(self, None, None)
        r = self._check(*extra, timeout=5000) if extra else z3.unknown
        if r != z3.sat:
            r = self._check()
        if r == z3.sat:
            self.add_candidate(label, self.solver.model(), note)
        elif r == z3.unknown:
            self.stats["unknown"] += 1

    def take_sample(self, budget=1.5):
        """one model of the path with spread-out values, for a conformance run on the unpatched code"""
        t = time.time()
        q0, s0 = self.stats["queries"], self.stats["solver_s"]
        self.solver.push()
        try:
            got = None
            for i, v in enumerate(self.inputs.values()):
                if v.is_int() or time.time() - t > budget:
                    continue
                for k in (Fraction(3 + (i * 7) % 40, 2), Fraction(1 + i % 7, 8)):
                    if self._check(v == z3.RealVal(k), timeout=300) == z3.sat:
                        got = self.solver.model()
                        self.solver.add(v == z3.RealVal(k))
                        break
            if got is None and self._check(timeout=5000) == z3.sat:
                got = self.solver.model()
            if got is not None:
                self.sample = self.extract(got)
        finally:
            self.solver.pop()
            self.stats["queries"], self.stats["solver_s"] = q0, s0

    def extract(self, model):
        out = {}
        for n, v in self.inputs.items():
            mv = model.eval(v, model_completion=True)
            if z3.is_int_value(mv):
                out[n] = str(mv.as_long())
            elif z3.is_rational_value(mv):
                out[n] = str(mv.as_fraction())
            elif z3.is_algebraic_value(mv):
                out[n] = str(mv.approx(20).as_fraction())
            else:
                out[n] = "0"
        for n, v in self.names.items():
            mv = model.eval(v, model_completion=True)
            if z3.is_int_value(mv):
                out[n] = str(mv.as_long())
            elif z3.is_rational_value(mv):
                out[n] = str(mv.as_fraction())
        return out


def margin_of(neg):
    """a strengthened version of a negated assertion with a numeric gap, if it is an (in)equality"""
    s = z3.simplify(neg, arith_lhs=False)

    def strong(f, pos):
        if z3.is_not(f):
            return strong(f.arg(0), not pos)
        if z3.is_and(f) or z3.is_or(f):
            ks = [strong(c, pos) for c in f.children()]
            ks = [k if k is not None else (c if pos else z3.Not(c)) for k, c in zip(ks, f.children())]
            isand = z3.is_and(f) == pos
            return z3.And(*ks) if isand else z3.Or(*ks)
        if z3.is_eq(f) and z3.is_arith(f.arg(0)):
            a, b = f.arg(0), f.arg(1)
            if pos:
                return None
            return z3.Or(a - b >= z3.RealVal("1/2"), b - a >= z3.RealVal("1/2"))
        if z3.is_le(f) or z3.is_lt(f) or z3.is_ge(f) or z3.is_gt(f):
            a, b = f.arg(0), f.arg(1)
            up = z3.is_le(f) or z3.is_lt(f)
            if not pos:
                up = not up
            g = z3.RealVal("1/2")
            return (b - a >= g) if up else (a - b >= g)
        return None

    try:
        return strong(s, True)
    except z3.Z3Exception:
        return None


def nice_subset(ctx, neg, margin):
    """greedy set of 'nice value' constraints compatible with the path (kept cheap)"""
    reals = [v for v in ctx.inputs.values() if not v.is_int()]
    if not reals or len(reals) > 400:
        return []
    base = [] if neg is None else [neg]
    if margin is not None:
        base.append(margin)
    # distinct, moderately sized values: v_i in (k_i, k_i + 1/2)
    out = []
    rng = [z3.And(v >= z3.RealVal("1/8"), v <= 64) for v in reals]
    ctx.solver.push()
    try:
        ctx.solver.add(*base)
        if ctx._check(*rng, timeout=3000) == z3.sat:
            return rng
    finally:
        ctx.solver.pop()
    return out
