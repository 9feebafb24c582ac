"""Stand-in for ortools' pywraplp in symbolic execution.

The linear program the code builds is recorded exactly (bounds, rows, objective);
Solve() returns an arbitrary point satisfying the recorded bounds and rows."""
import numpy as np
import z3

from . import core
from .core import SymNum, is_sym, is_num

OPS = ("NumVar", "Constraint")


def _num(x, what):
    """pywraplp accepts python ints/floats (np.float64 is a float), nothing else"""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, (bool, int, float)):
        return x
    raise TypeError("in method '%s', argument of type 'double'" % what)


class Lin:
    def __init__(self, terms=None, const=0.0):
        self.terms = terms or {}
        self.const = const

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, FakeVariable):
            return Lin({x: 1.0})
        return Lin({}, x)

    def __add__(self, o):
        o = Lin.of(o)
        t = dict(self.terms)
        for v, c in o.terms.items():
            t[v] = t[v] + c if v in t else c
        return Lin(t, self.const + o.const)

    __radd__ = __add__

    def __mul__(self, k):
        return Lin({v: c * k for v, c in self.terms.items()}, self.const * k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1.0 / k)

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def __rsub__(self, o):
        return Lin.of(o) + (-self)

    def __le__(self, o):
        return Row(self - Lin.of(o), None, 0.0)

    def __ge__(self, o):
        return Row(self - Lin.of(o), 0.0, None)

    def __eq__(self, o):
        return Row(self - Lin.of(o), 0.0, 0.0)

    __hash__ = None


class Row:
    def __init__(self, lin, lo, hi):
        self.lin, self.lo, self.hi = lin, lo, hi

    def __bool__(self):
        raise NotImplementedError("linear constraint used as a boolean")


class FakeVariable:
    def __init__(self, solver, lb, ub, name, integer=False):
        self.solver, self._lb, self._ub, self._name, self.integer = solver, lb, ub, name, integer
        self.idx = len(solver.vars)
        self.sol = None

    def name(self):
        return self._name

    def index(self):
        return self.idx

    def lb(self):
        return self._lb

    def ub(self):
        return self._ub

    Lb, Ub = lb, ub

    def SetBounds(self, a, b):
        self._lb, self._ub = _num(a, "SetBounds"), _num(b, "SetBounds")

    def SetLb(self, a):
        self._lb = _num(a, "SetLb")

    def SetUb(self, a):
        self._ub = _num(a, "SetUb")

    def solution_value(self):
        if self.sol is None:
            return 0.0
        return self.sol

    SolutionValue = solution_value

    def reduced_cost(self):
        return 0.0

    def __add__(self, o):
        return Lin.of(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return Lin.of(self) - o

    def __rsub__(self, o):
        return Lin.of(o) - self

    def __mul__(self, k):
        return Lin.of(self) * k

    __rmul__ = __mul__

    def __truediv__(self, k):
        return Lin.of(self) / k

    def __neg__(self):
        return -Lin.of(self)

    def __le__(self, o):
        return Lin.of(self) <= o

    def __ge__(self, o):
        return Lin.of(self) >= o

    def __eq__(self, o):
        if isinstance(o, (FakeVariable, Lin)) or is_num(o) or is_sym(o):
            if o is self:
                return True
            return Lin.of(self) == o
        return NotImplemented

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return self._name


class FakeConstraint:
    def __init__(self, lo, hi, name=""):
        self.lo, self.hi, self._name = lo, hi, name
        self.coefs = {}

    def SetCoefficient(self, var, c):
        assert isinstance(var, FakeVariable), "in method 'Constraint_SetCoefficient', argument 2 of type 'Variable const *'"
        self.coefs[var] = _num(c, "Constraint_SetCoefficient")

    def GetCoefficient(self, var):
        return self.coefs.get(var, 0.0)

    def SetBounds(self, a, b):
        self.lo, self.hi = _num(a, "SetBounds"), _num(b, "SetBounds")

    def SetLb(self, a):
        self.lo = _num(a, "SetLb")

    def SetUb(self, a):
        self.hi = _num(a, "SetUb")

    SetLB, SetUB = SetLb, SetUb

    def lb(self):
        return self.lo

    def ub(self):
        return self.hi

    Lb, Ub = lb, ub

    def name(self):
        return self._name

    def Clear(self):
        self.coefs = {}

    def dual_value(self):
        return 0.0

    def __deepcopy__(self, memo):
        return self


class FakeObjective:
    def __init__(self, solver):
        self.solver = solver
        self.coefs = {}
        self.offset = 0.0
        self.minimize = None

    def SetCoefficient(self, var, c):
        assert isinstance(var, FakeVariable)
        self.coefs[var] = _num(c, "Objective_SetCoefficient")

    def GetCoefficient(self, var):
        return self.coefs.get(var, 0.0)

    def SetOffset(self, c):
        self.offset = c

    def SetMinimization(self):
        self.minimize = True

    def SetMaximization(self):
        self.minimize = False

    def SetOptimizationDirection(self, maximize):
        self.minimize = not maximize

    def maximization(self):
        return self.minimize is False

    def minimization(self):
        return self.minimize is not False

    def Clear(self):
        self.coefs = {}
        self.offset = 0.0

    def value(self):
        """objective as a function of the variables' solution symbols"""
        s = self.offset
        for v, c in self.coefs.items():
            s = s + v.sol * c if v.sol is not None else s
        return s

    def Value(self):
        return 0.0 if core.CUR is None else self.value()


def _finite(x):
    return x is not None and not (isinstance(x, float) and x in (float("inf"), float("-inf")))


class FakeSolver:
    GLOP_LINEAR_PROGRAMMING = 2
    CLP_LINEAR_PROGRAMMING = 0
    PDLP_LINEAR_PROGRAMMING = 8
    CBC_MIXED_INTEGER_PROGRAMMING = 5
    SCIP_MIXED_INTEGER_PROGRAMMING = 3
    SAT_INTEGER_PROGRAMMING = 14
    OPTIMAL, FEASIBLE, INFEASIBLE, UNBOUNDED, ABNORMAL, NOT_SOLVED = 0, 1, 2, 3, 4, 6

    def __init__(self, name="", kind=2):
        self.vars, self.rows = [], []
        self.obj = FakeObjective(self)
        self.solved = False
        core.CUR.solvers.append(self)

    @staticmethod
    def CreateSolver(kind):
        return FakeSolver("s", kind)

    @staticmethod
    def infinity():
        return float("inf")

    Infinity = infinity

    def NumVar(self, lb, ub, name=""):
        v = FakeVariable(self, _num(lb, "NumVar"), _num(ub, "NumVar"), name)
        self.vars.append(v)
        return v

    def Var(self, lb, ub, integer, name=""):
        v = FakeVariable(self, _num(lb, "Var"), _num(ub, "Var"), name, integer)
        self.vars.append(v)
        return v

    def IntVar(self, lb, ub, name=""):
        return self.Var(lb, ub, True, name)

    def BoolVar(self, name=""):
        return self.Var(0, 1, True, name)

    def Constraint(self, *a):
        lo, hi, name = float("-inf"), float("inf"), ""
        a = list(a)
        if a and isinstance(a[-1], str):
            name = a.pop()
        if len(a) == 2:
            lo, hi = _num(a[0], "Solver_Constraint"), _num(a[1], "Solver_Constraint")
        elif a:
            raise NotImplementedError("Wrong number or type of arguments for overloaded function 'Solver_Constraint'")
        c = FakeConstraint(lo, hi, name)
        self.rows.append(c)
        return c

    RowConstraint = Constraint

    def Add(self, row, name=""):
        if isinstance(row, bool):
            c = FakeConstraint(0.0, 0.0) if row else FakeConstraint(1.0, 1.0)
            self.rows.append(c)
            return c
        k = row.lin.const
        c = FakeConstraint(
            float("-inf") if row.lo is None else row.lo - k, float("inf") if row.hi is None else row.hi - k, name
        )
        c.coefs = dict(row.lin.terms)
        self.rows.append(c)
        return c

    @staticmethod
    def Sum(xs):
        r = Lin()
        for x in xs:
            r = r + x
        return r

    def Objective(self):
        return self.obj

    def Minimize(self, expr):
        e = Lin.of(expr)
        self.obj.Clear()
        self.obj.coefs, self.obj.offset, self.obj.minimize = dict(e.terms), e.const, True

    def Maximize(self, expr):
        self.Minimize(expr)
        self.obj.minimize = False

    def constraints_at(self, point):
        """[(kind, z3 cond)] of the recorded LP at point: {var: number}"""
        out = []
        for v in self.vars:
            x = point[v]
            if _finite(v._lb):
                out.append((("lb", v), core.bool_of(x >= v._lb) if is_sym(x) or is_sym(v._lb) else z3.BoolVal(bool(x >= v._lb))))
            if _finite(v._ub):
                out.append((("ub", v), core.bool_of(x <= v._ub)))
        for r in self.rows:
            s = 0.0
            for v, c in r.coefs.items():
                s = s + point[v] * c
            if _finite(r.lo) and r.lo is r.hi:
                out.append((("row", r), core.bool_of(s == r.lo)))
                continue
            if _finite(r.lo):
                out.append((("rowlb", r), core.bool_of(s >= r.lo)))
            if _finite(r.hi):
                out.append((("rowub", r), core.bool_of(s <= r.hi)))
        return out

    def Solve(self, *a):
        ctx = core.CUR
        k = ctx.solvers.index(self)
        for i, v in enumerate(self.vars):
            v.sol = SymNum(z3.Real("lp%d_x%d" % (k, i)))
        self.solved = True
        if ctx.lp_assume:
            es = [e for _, e in self.constraints_at({v: v.sol for v in self.vars})]
            if ctx._check(*es) == z3.unsat:  # like GLOP: no solution, every value reads 0
                for v in self.vars:
                    v.sol = None
                return self.INFEASIBLE
            for e in es:
                ctx.add(e)
        return self.OPTIMAL

    def EnableOutput(self):
        pass

    def SuppressOutput(self):
        pass

    def ExportModelAsLpFormat(self, *a):
        return ""

    def ExportModelAsMpsFormat(self, *a):
        return ""

    def NumVariables(self):
        return len(self.vars)

    def NumConstraints(self):
        return len(self.rows)

    def variables(self):
        return list(self.vars)

    def constraints(self):
        return list(self.rows)

    def LookupVariable(self, name):
        for v in self.vars:
            if v._name == name:
                return v
        return None

    def Clear(self):
        self.vars, self.rows = [], []
        self.obj.Clear()

    def Reset(self):
        pass

    def iterations(self):
        return 0

    def wall_time(self):
        return 0

    WallTime = wall_time

    def VerifySolution(self, *a):
        return True

    def SetTimeLimit(self, *a):
        pass

    set_time_limit = SetTimeLimit

    def SetNumThreads(self, *a):
        return True

    def SetSolverSpecificParametersAsString(self, *a):
        return True
