"""End to end: a study is solved, saved, reloaded and analysed, and its accounts close."""
import json

from .studies import StudySpec
from .lp import SK, run_solver
from .analyzer import TABLE, read_table, compare, matrix
from .util import attempt


def h_accounts(ctx, sk):
    import hadar as hd
    from hadar.optimizer.domain.output import Result

    spec = StudySpec(ctx, SK[sk])
    st, res = run_solver(ctx, spec)
    plan = spec.read_result(res)
    an = hd.ResultAnalyzer(study=st, result=res)
    S, T = range(spec.S), range(spec.h)

    def table(a, kind, label):
        return read_table(ctx, getattr(a, TABLE[kind]), kind, label)

    tabs = {k: table(an, k, "tables of a solved study") for k in TABLE}
    # ---- costs
    whole, ex = attempt(lambda: an.get_cost())
    ctx.check(ex is None, "the cost of a solved study is computed (%s)" % type(ex).__name__)
    if ex is not None or not matrix(ctx, spec, whole, "cost of the study"):
        return
    nets = {n: an.get_cost(network=n) for n in spec.sk["nets"]}
    nodes = {(n, m): an.get_cost(network=n, node=m) for n, m in spec.nodes}
    for s in S:
        ctx.check(ctx.eq(ctx.sum([whole[s, t] for t in T]), spec.cost(plan, s), 1e-5), "the reported costs add up to the cost of the plan")
        for t in T:
            ctx.check(ctx.eq(whole[s, t], ctx.sum([nets[n][s, t] for n in nets]), 1e-5), "the cost of the study is that of its networks")
            for n in nets:
                ctx.check(ctx.eq(nets[n][s, t], ctx.sum([nodes[k][s, t] for k in nodes if k[0] == n]), 1e-5), "the cost of a network is that of its nodes")
    # ---- energy
    for n in spec.sk["nets"]:
        bal = {m: an.get_balance(node=m, network=n) for m in spec.sk["nets"][n]}
        rac = an.get_rac(network=n)
        for s in S:
            for t in T:
                ctx.check(ctx.eq(ctx.sum([bal[m][s, t] for m in bal]), 0.0, 1e-5), "the balances of a network cancel out")
                spare = []
                for m in bal:
                    acc = []
                    for kind, plus, minus in (("prod", "used", None), ("cons", None, "given"), ("stor", "flow_out", "flow_in"),
                                              ("dest", "flow", None), ("src", None, "flow")):
                        for k, row in tabs[kind].items():
                            if (k[0], k[1]) == (n, m) and (k[3], k[4]) == (s, t):
                                if plus:
                                    acc.append(row[plus])
                                if minus:
                                    acc.append(-row[minus])
                                if kind == "prod":
                                    spare += [row["avail"], -row["used"]]
                                if kind == "cons":
                                    spare += [-row["asked"], row["given"]]
                    ctx.check(ctx.eq(ctx.sum(acc), bal[m][s, t], 1e-5), "what a node does not use is what it exports")
                ctx.check(ctx.eq(rac[s, t], ctx.sum(spare), 1e-5), "remaining capacity is what the tables leave")
    # ---- saved and reloaded
    wire = lambda d: json.loads(json.dumps(d))
    st2, res2 = hd.Study.from_json(wire(st.to_json())), Result.from_json(wire(res.to_json()))
    an2 = hd.ResultAnalyzer(study=st2, result=res2)
    for k in TABLE:
        compare(ctx, tabs[k], table(an2, k, "tables after reloading"), "tables after reloading")
    again = an2.get_cost()
    if matrix(ctx, spec, again, "cost after reloading"):
        for s in S:
            for t in T:
                ctx.check(ctx.eq(again[s, t], whole[s, t], 1e-9), "cost after reloading")
    ctx.reach("accounts")
