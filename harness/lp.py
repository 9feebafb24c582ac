"""Harnesses over the optimiser: study -> linear program -> result."""
import z3

from .studies import StudySpec, skeletons

SK = skeletons()


def run_solver(ctx, spec):
    import hadar as hd

    study = spec.build()
    if spec.over and not ctx.symbolic:
        try:
            res = hd.LPOptimizer().solve(study)
        except ValueError:
            ctx.assume(all(ref_optimum(spec, s) is not None for s in range(spec.S)))
            raise
    else:
        res = hd.LPOptimizer().solve(study)
    return study, res


class LPView:
    """The linear program of one scenario as a predicate over plans: the map from
    plan entries to LP variables is read off the result the real code produced."""

    def __init__(self, ctx, spec, plan, s):
        from symx.core import SymNum, real_of, is_sym

        self.ctx, self.spec, self.s = ctx, spec, s
        self.var_of = {}
        self.extra = []
        self.broken = []
        allv = {}
        for k, sol in enumerate(ctx.solvers):
            for v in sol.vars:
                if v.sol is not None:
                    allv[str(v.sol.e)] = (sol, v)
        solvers = set()
        self.entries = []
        for key in spec.keys():
            for t in range(spec.h):
                e = plan[key][s][t]
                if not is_sym(e):
                    self.broken.append((key, t, e))
                    continue
                vs = [n for n in z3_vars(e.e) if n in allv]
                if len(vs) != 1:
                    self.broken.append((key, t, e))
                    continue
                sol, v = allv[vs[0]]
                b = z3.simplify(z3.substitute(e.e, (v.sol.e, z3.RealVal(0))))
                a = z3.simplify(z3.substitute(e.e, (v.sol.e, z3.RealVal(1))) - b)
                if not z3.is_rational_value(a) or a.as_fraction() == 0:
                    self.broken.append((key, t, e))
                    continue
                solvers.add(sol)
                self.entries.append((key, t, v, a, b))
        self.solvers = solvers
        self.solver = next(iter(solvers)) if len(solvers) == 1 else None

    def point(self, p):
        """LP point of plan p; returns (point, consistency conditions, missing vars)"""
        from symx.core import SymNum, real_of

        pt, cons = {}, []
        for key, t, v, a, b in self.entries:
            x = (real_of(p[key][self.s][t]) - b) / a
            if v in pt:
                cons.append(pt[v].e == x)
            else:
                pt[v] = SymNum(x)
        missing = [v for v in self.solver.vars if v not in pt]
        return pt, cons, missing


def z3_vars(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


def fresh_plan(ctx, spec, s=None, tag="p"):
    plan = {}
    for k in spec.keys():
        plan[k] = {}
        for sc in ([s] if s is not None else range(spec.S)):
            plan[k][sc] = [ctx.fresh(tag) for _ in range(spec.h)]
    return plan


def h_groups(groups):
    """the returned plan satisfies the given group of the model's constraints"""

    def harness(ctx, sk):
        spec = StudySpec(ctx, SK[sk])
        study, res = run_solver(ctx, spec)
        plan = spec.read_result(res)
        for s in range(spec.S):
            for g, lab, t, c in spec.conds(plan, s, groups):
                ctx.check(c, lab)
        ctx.reach("plan checked")

    return harness


def ref_optimum(spec, s):
    """least cost of scenario s, from the reference model only (concrete mode)"""
    from ortools.linear_solver import pywraplp

    sol = pywraplp.Solver("ref", pywraplp.Solver.GLOP_LINEAR_PROGRAMMING)
    inf = sol.infinity()
    p = {k: {s: [sol.NumVar(0, inf, "%s@%d" % (k, t)) for t in range(spec.h)]} for k in spec.keys()}

    class Rec:
        """the reference model's own equations, handed to the solver"""

        def sum(self, xs):
            return sol.Sum([0.0] + list(xs))

        def eq(self, a, b, tol=None):
            d = a - b
            if not isinstance(d, float):
                sol.Add(d == 0)
            return True

        def le(self, a, b, tol=None):
            d = a - b
            if not isinstance(d, float):
                sol.Add(d <= 0)
            return True

    keep, spec.ctx = spec.ctx, Rec()
    try:
        for _ in spec.conds(p, s):
            pass
        sol.Minimize(spec.cost(p, s))
    finally:
        spec.ctx = keep
    st = sol.Solve()
    return sol.Objective().Value() if st == sol.OPTIMAL else None


def h_optimal(ctx, sk):
    """the plan's cost is the least cost of all admissible plans"""
    from symx.core import SymNum, real_of

    ctx.lp_assume = False  # the point is arbitrary: only its relation to the plan is used
    spec = StudySpec(ctx, SK[sk])
    study, res = run_solver(ctx, spec)
    plan = spec.read_result(res)
    if not ctx.symbolic:
        for s in range(spec.S):
            ref = ref_optimum(spec, s)
            got = spec.cost(plan, s)
            ctx.check(ref is None or ctx.eq(got, ref, 1e-5), "cost of the plan is the minimum")
        return
    for s in range(spec.S):
        v = LPView(ctx, spec, plan, s)
        ok = not v.broken and v.solver is not None
        ctx.check(ok, "every entry of the plan is decided by the optimisation")
        if not ok:
            continue
        p1, p2 = fresh_plan(ctx, spec, s), fresh_plan(ctx, spec, s, "q")
        pt1, c1, missing = v.point(p1)
        pt2, c2, _ = v.point(p2)
        if missing:
            # auxiliary LP variables: pin them to the returned point (under-approximation)
            ctx.stats["degraded"].append("%d auxiliary LP variables" % len(missing))
            continue
        obj = v.solver.obj
        sign = -1.0 if obj.minimize is False else 1.0

        def value(pt):
            return ctx.sum([pt[x] * c for x, c in obj.coefs.items()])

        # (i) the objective ranks plans exactly as their cost does
        ctx.check(ctx.eq(sign * (value(pt1) - value(pt2)), spec.cost(p1, s) - spec.cost(p2, s)),
                  "objective: ranks plans by cost")
        # (ii) every admissible plan is a point of the linear program
        pre = z3.And([_b(c) for _, _, _, c in spec.conds(p1, s)])
        for (kind, what), e in v.solver.constraints_at(pt1):
            ctx.check(mk(z3.Implies(pre, e)), "feasible set: no admissible plan is excluded")
        for e in c1:
            ctx.check(mk(z3.Implies(pre, e)), "feasible set: no admissible plan is excluded")
        ctx.reach("scenario compared")


def mk(e):
    from symx.core import mkbool

    return mkbool(e)


def _b(c):
    from symx.core import bool_of

    return bool_of(c)


def h_solvable(ctx, sk):
    """a plan is always returned: doing nothing (all demand lost) is admissible"""
    ctx.lp_assume = False  # the point is arbitrary: only its relation to the plan is used
    spec = StudySpec(ctx, SK[sk])
    study, res = run_solver(ctx, spec)
    plan = spec.read_result(res)
    if not ctx.symbolic:
        for s in range(spec.S):
            for g, lab, t, c in spec.conds(plan, s):
                ctx.check(c, "the returned plan is a solution")
        return
    for s in range(spec.S):
        v = LPView(ctx, spec, plan, s)
        if v.broken or v.solver is None:
            ctx.check(False, "every entry of the plan is decided by the optimisation")
            continue
        idle = {k: {s: [(spec.stor[k[1:]].init if k[0] == "cap" else 0.0) for _ in range(spec.h)]} for k in spec.keys()}
        pt, c1, missing = v.point(idle)
        if missing:
            ctx.stats["degraded"].append("%d auxiliary LP variables" % len(missing))
            continue
        for (kind, what), e in v.solver.constraints_at(pt):
            ctx.check(mk(e), "the idle plan is accepted")
        for x in v.solver.vars:
            fin = all(not isinstance(b, float) or abs(b) < 1e30 for b in (x._lb, x._ub))
            ctx.check(fin, "every variable is bounded")
        ctx.reach("scenario compared")


def h_infeasible(ctx, which):
    """studies without any admissible plan are refused, never answered"""
    from .studies import node

    sk = dict(h=2, scn=2, rot=which, init_ok=False, nets={"default": {
        "a": node(cons=["l"], prod=["p"], stor=["s", "t"], links=["b"]), "b": node(cons=["l"], stor=["s"])}})
    spec = StudySpec(ctx, sk)
    key = sorted(spec.stor)[which % 3]
    x = spec.stor[key]
    s = which % 2
    # the initial energy neither fits in the storage nor can leave it
    ctx.assume(x.init >= x.cap.m[s][0] + x.fout.m[s][0] + 1)
    for k, o in spec.stor.items():
        if k != key:
            for ss in range(2):
                for t in range(2):
                    ctx.assume(o.init <= o.cap.m[ss][t])
    try:
        run_solver(ctx, spec)
    except Exception as ex:
        if type(ex).__name__ == "Unsupported":
            raise
        ctx.check(True, "an impossible study is refused")
        ctx.reach("refused")
        return
    ctx.check(False, "an impossible study is refused")


def h_alone(ctx, sk):
    """a scenario gets in a batch the optimisation it gets alone"""
    ctx.lp_assume = False  # the point is arbitrary: only its relation to the plan is used
    spec = StudySpec(ctx, SK[sk])
    study, res = run_solver(ctx, spec)
    plan = spec.read_result(res)
    for s in range(spec.S):
        one = spec.only_scenario(s)
        if ctx.symbolic:
            n0 = len(ctx.solvers)
        study1, res1 = run_solver(ctx, one)
        plan1 = one.read_result(res1)
        if not ctx.symbolic:
            ctx.check(ctx.eq(spec.cost(plan, s), one.cost(plan1, 0), 1e-5), "cost in the batch == cost alone")
            continue
        a, b = LPView(ctx, spec, plan, s), LPView(ctx, one, plan1, 0)
        ok = not (a.broken or b.broken) and a.solver is not None and b.solver is not None
        ctx.check(ok, "every entry of the plan is decided by the optimisation")
        if not ok:
            continue
        p = fresh_plan(ctx, spec, s)
        p1 = {k: {0: v[s]} for k, v in p.items()}
        pt, c, m = a.point(p)
        pt1, c1, m1 = b.point(p1)
        if m or m1:
            ctx.stats["degraded"].append("auxiliary LP variables")
            continue
        fa = [e for _, e in a.solver.constraints_at(pt)] + c
        fb = [e for _, e in b.solver.constraints_at(pt1)] + c1
        if len(fa) == len(fb):
            same = [z3.simplify(x) for x in fa], [z3.simplify(y) for y in fb]
            if sorted(x.get_id() for x in same[0]) == sorted(y.get_id() for y in same[1]):
                ctx.check(True, "same admissible plans in the batch and alone")
            else:
                ctx.check(mk(z3.And(*fa) == z3.And(*fb)), "same admissible plans in the batch and alone")
        else:
            ctx.check(mk(z3.And(*fa) == z3.And(*fb)), "same admissible plans in the batch and alone")
        va = ctx.sum([pt[x] * k for x, k in a.solver.obj.coefs.items()])
        vb = ctx.sum([pt1[x] * k for x, k in b.solver.obj.coefs.items()])
        q = fresh_plan(ctx, spec, s, "q")
        qa, qb = a.point(q)[0], b.point({k: {0: v[s]} for k, v in q.items()})[0]
        wa = ctx.sum([qa[x] * k for x, k in a.solver.obj.coefs.items()])
        wb = ctx.sum([qb[x] * k for x, k in b.solver.obj.coefs.items()])
        ctx.check(ctx.eq(va - wa, vb - wb), "same objective in the batch and alone")
        ctx.check(a.solver.obj.minimize == b.solver.obj.minimize, "same objective in the batch and alone")
        ctx.reach("scenario compared")


def admissible(ctx, spec, res, label):
    plan = spec.read_result(res)
    for s in range(spec.S):
        for g, lab, t, c in spec.conds(plan, s):
            ctx.check(c, "%s: %s" % (label, g))
    return plan


def view(ctx, spec, plan, s):
    v = LPView(ctx, spec, plan, s)
    ok = not v.broken and v.solver is not None
    ctx.check(ok, "every entry of the plan is decided by the optimisation")
    return v if ok else None


def same_program(ctx, spec, plan_a, plan_b, label):
    """two optimisations of the same study accept the same plans at the same cost"""
    for s in range(spec.S):
        a, b = view(ctx, spec, plan_a, s), view(ctx, spec, plan_b, s)
        if a is None or b is None:
            continue
        ctx.check(a.solver is not b.solver, label + ": it is solved again")
        p, q = fresh_plan(ctx, spec, s), fresh_plan(ctx, spec, s, "q")
        (pa, ca, ma), (pb, cb, mb) = a.point(p), b.point(p)
        if ma or mb:
            ctx.stats["degraded"].append("auxiliary LP variables")
            continue
        fa = [z3.simplify(e) for e in [e for _, e in a.solver.constraints_at(pa)] + ca]
        fb = [z3.simplify(e) for e in [e for _, e in b.solver.constraints_at(pb)] + cb]
        if sorted(x.get_id() for x in fa) == sorted(y.get_id() for y in fb):
            ctx.check(True, label + ": same admissible plans")
        else:
            ctx.check(mk(z3.And(*fa) == z3.And(*fb)), label + ": same admissible plans")
        qa, qb = a.point(q)[0], b.point(q)[0]
        val = lambda v, pt: ctx.sum([pt[x] * k for x, k in v.solver.obj.coefs.items()])
        ctx.check(ctx.eq(val(a, pa) - val(a, qa), val(b, pb) - val(b, qb)), label + ": same objective")


def h_history(ctx, sk):
    """solving leaves study and earlier results alone, whatever was solved before"""
    import hadar as hd
    from .util import same, snapshot

    full = StudySpec(ctx, SK[sk])
    other = StudySpec(ctx, dict(SK[sk], rot=SK[sk].get("rot", 0) + 1), tag="other.")
    opt = hd.LPOptimizer()
    study = full.part(lambda i, k: i % 2 == 0).declare(hd.Study(horizon=full.h, nb_scn=full.S))
    half = full.part(lambda i, k: i % 2 == 0)
    before = snapshot(study.to_json())
    r1 = opt.solve(study)
    same(ctx, before, study.to_json(), "study", "solving leaves the study unchanged")
    admissible(ctx, half, r1, "first plan")
    seen1 = snapshot(r1.to_json())
    # another study of the same shape, then the first one grown
    st2 = other.build()
    b2 = snapshot(st2.to_json())
    r2 = opt.solve(st2)
    p2 = admissible(ctx, other, r2, "plan of another study")
    same(ctx, b2, st2.to_json(), "study", "solving leaves the study unchanged")
    full.part(lambda i, k: i % 2 == 1).declare(study)
    grown = snapshot(study.to_json())
    r3 = opt.solve(study)
    p3 = admissible(ctx, full, r3, "plan of the grown study")
    same(ctx, grown, study.to_json(), "study", "solving leaves the study unchanged")
    r4 = hd.LPOptimizer().solve(study)
    p4 = admissible(ctx, full, r4, "second plan of the same study")
    if ctx.symbolic:
        same_program(ctx, full, p3, p4, "solving again")
        p5 = full.read_result(opt.solve(full.declare(hd.Study(horizon=full.h, nb_scn=full.S))))
        # nodes in the same order: the grown study is the study declared at once
        same_program(ctx, full, p3, p5, "a study grown in steps")
    else:
        p5 = full.read_result(opt.solve(full.declare(hd.Study(horizon=full.h, nb_scn=full.S))))
        for s in range(full.S):
            c = full.cost(p5, s)
            ctx.check(ctx.eq(full.cost(p3, s), c, 1e-5) and ctx.eq(full.cost(p4, s), c, 1e-5), "same cost however the study was reached")
            ctx.check(ctx.eq(other.cost(p2, s), other.cost(p2, s)), "cost")
    same(ctx, seen1, r1.to_json(), "result", "a result is not changed by later solves")
    # results belong to the caller
    for n, net in r4.networks.items():
        for m, nd in net.nodes.items():
            for x in nd.productions + nd.consumptions:
                x.quantity[0, 0] = -7.0
    same(ctx, grown, study.to_json(), "study", "a result shares nothing with the study")
    ctx.reach("history")
