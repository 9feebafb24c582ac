"""Concrete execution of a harness on the unpatched code, with the values of a witness."""
import math
import random
from fractions import Fraction

import numpy as np

from .core import BaseCtx  # noqa  (z3 is only imported, never used here)


class Stop(Exception):
    pass


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, inputs, trial=0, seed=0):
        self.inputs = inputs
        self.trial = trial
        self.rnd = random.Random(1000 * seed + trial)
        self.failures = []
        self.checks = 0
        self.used = {}
        self.rng_log = []
        self.zero_div = "raise"
        self.randomize = False  # replay of "nothing can make this true": draws and values vary
        self.seen = {}
        self.solvers = []
        self.lp_assume = True

    def _get(self, name, default):
        v = self.inputs.get(name)
        if v is None:
            return default
        f = Fraction(v)
        return f

    def real(self, name, lo=None, hi=None, lo_open=False):
        d = Fraction(1) if lo is None else Fraction(str(lo)) + (1 if hi is None else (Fraction(str(hi)) - Fraction(str(lo))) / 2)
        f = float(self._get(name, d))
        if self.randomize:
            if self.rnd.random() < 0.7:
                lo_, hi_ = -50.0 if lo is None else float(lo), 50.0 if hi is None else float(hi)
                f = self.rnd.uniform(lo_ + (0.01 if lo_open else 0), max(lo_ + 0.02, hi_) if hi is not None else lo_ + 60)
        elif self.trial > 0:
            f = self.perturb(name, f, lo, hi, lo_open)
        self.used[name] = f
        return f

    def perturb(self, name, f, lo, hi, lo_open):
        """vary a witness (never outside the property's domain): costs first, then the rest"""
        r = self.rnd
        if self.fine:  # digits that no coarser number format holds; order and domain are kept
            return f * 0.987654321987 if hi is not None else f + 0.123456789123 * self.trial
        is_cost = ".c" in name and name.split(".c")[-1][:1] in ("", "@")
        if is_cost:
            f = r.choice([0.0, 1.0, 2.0, 5.0, 10.0, 100.0, 1000.0, -1.0, -10.0, float(r.randint(1, 50))])
        elif self.trial > 20:
            f = f * r.choice([1.0, 1.0, 0.5, 2.0]) if self.trial < 40 else float(r.randint(0, 40)) + r.choice([0, 0.5])
        if self.trial % 3 == 2:  # values that no coarser number format holds
            f += r.uniform(0.1, 0.9) if r.random() < 0.7 or not self.wide else r.uniform(1e7, 1e9)
        if lo is not None and f < lo:
            f = float(lo) + (0.5 if lo_open else 0.0)
        if lo_open and lo is not None and f <= lo:
            f = float(lo) + 0.5
        if hi is not None and f > hi:
            f = float(lo if lo is not None else hi - 1) + (float(hi) - float(lo if lo is not None else hi - 1)) * r.choice([0.25, 0.5, 1.0])
        return f

    fork_max = False
    fine = False
    wide = False  # large values too (not when an LP is solved numerically)

    def once(self, fn):
        return fn()

    def int(self, name, lo, hi):
        v = self.rnd.randint(int(lo), int(hi)) if self.randomize else int(self._get(name, lo))
        self.used[name] = v
        return v

    def choice(self, name, options):
        return options[self.int("choice:" + name, 0, len(options) - 1)]

    def rng_int(self, name, lo, hi):
        if self.randomize:
            return self.rnd.randint(int(lo), int(hi))
        v = self.inputs.get(name)
        v = int(lo) if v is None else int(Fraction(v))
        return min(max(v, int(lo)), int(hi))

    def rng_real(self, name, lo, hi):
        if self.randomize:
            return self.rnd.uniform(float(lo), float(hi))
        v = self.inputs.get(name)
        return float(lo) if v is None else float(Fraction(v))

    def wrap_ints(self, a):
        return a.astype(int)

    def wrap_reals(self, a):
        return a.astype(float)

    def require_prob(self, q):
        if q < 0 or q > 1 + 1e-9:
            raise ValueError("probabilities are not non-negative")

    def assume_positive(self, x, p):
        pass

    def unsupported(self, msg):
        return NotImplementedError(msg)

    def assume(self, c):
        if not bool(c):
            raise Stop("assumption false for the witness")

    # logic
    TOL = 1e-7

    def eq(self, a, b, tol=None):
        if isinstance(a, (int, float, np.number, np.bool_)) and isinstance(b, (int, float, np.number, np.bool_)):
            a, b = float(a), float(b)
            if a == b:
                return True
            if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
                return False
            t = self.TOL if tol is None else tol
            return abs(a - b) <= t * max(1.0, abs(a), abs(b))
        return type(a) == type(b) and bool(a == b)

    def le(self, a, b, tol=None):
        t = self.TOL if tol is None else tol
        return float(a) <= float(b) + t * max(1.0, abs(float(a)), abs(float(b)))

    def lt(self, a, b, tol=None):
        return self.le(a, b, tol)

    def all(self, cs):
        return all(bool(c) for c in cs)

    def any(self, cs):
        return any(bool(c) for c in cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def not_(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def sum(self, xs):
        r = 0.0
        for x in xs:
            r += x
        return r

    def check(self, cond, label):
        self.checks += 1
        if not bool(cond):
            self.failures.append(label)

    def possible(self, cond, label):
        self.checks += 1
        self.seen[label] = self.seen.get(label, False) or bool(cond)

    def reach(self, label):
        pass
