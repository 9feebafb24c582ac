"""Harnesses over ResultAnalyzer: arbitrary results (every number a symbol) of symbolic studies."""
import itertools

import numpy as np

from .studies import StudySpec, skeletons
from .domain import build_result
from .util import attempt

SK = skeletons()
KEY = dict(cons="name", prod="name", stor="name", link="dest", src="name", dest="name")
CALL = dict(cons="consumption", prod="production", stor="storage", link="link", src="to_converter", dest="from_converter")
TABLE = dict(cons="consumption", prod="production", stor="storage", link="link", src="src_converter", dest="dest_converter")


def rows(spec, val, kind):
    """reference content of a table: {(network, node, name, scn, t): {column: value}}"""
    out = {}

    def put(n, m, e, f):
        for s in range(spec.S):
            for t in range(spec.h):
                out[(n, m, e, s, t)] = {c: (x[s][t] if isinstance(x, list) else x) for c, x in f.items()}

    if kind == "cons":
        for (n, m, e), x in spec.cons.items():
            put(n, m, e, dict(cost=x.c.m, asked=x.q.m, given=val[("given", n, m, e)]))
    elif kind == "prod":
        for (n, m, e), x in spec.prod.items():
            put(n, m, e, dict(cost=x.c.m, avail=x.q.m, used=val[("used", n, m, e)]))
    elif kind == "link":
        for (n, m, e), x in spec.link.items():
            put(n, m, e, dict(cost=x.c.m, avail=x.q.m, used=val[("link", n, m, e)]))
    elif kind == "stor":
        for (n, m, e), x in spec.stor.items():
            put(n, m, e, dict(max_capacity=x.cap.m, capacity=val[("cap", n, m, e)], max_flow_in=x.fin.m, flow_in=val[("fin", n, m, e)],
                              max_flow_out=x.fout.m, flow_out=val[("fout", n, m, e)], cost=x.c.m, init_capacity=x.init, eff=x.eff.m))
    elif kind == "dest":
        for c, x in spec.conv.items():
            put(x.dest[0], x.dest[1], c, dict(max=x.mx.m, cost=x.c.m, flow=val[("dest", c)]))
    else:
        for c, x in spec.conv.items():
            for s, r in x.src.items():
                mx = [[x.mx.m[i][j] / r.m[i][j] for j in range(spec.h)] for i in range(spec.S)]
                put(s[0], s[1], c, dict(max=mx, ratio=r.m, flow=val[("src", c) + s]))
    return out


def prepare(ctx, sk):
    import hadar as hd

    spec = StudySpec(ctx, SK[sk])
    st = spec.build()
    res, val = build_result(ctx, spec)
    an = hd.ResultAnalyzer(study=st, result=res)
    # the analyzer of another study of the same shape changes nothing here
    if sk in ("twonets", "conv", "full", "stor", "rnd0", "rnd1"):
        o = StudySpec(ctx, dict(SK[sk], rot=1 + SK[sk].get("rot", 0)), tag="other.")
        other = hd.ResultAnalyzer(study=o.build(), result=build_result(ctx, o, tag="other.")[0])
        n, m = o.nodes[0]
        for f in (lambda: other.get_cost(), lambda: other.get_cost(network=n, node=m), lambda: other.get_balance(node=m, network=n),
                  lambda: other.get_rac(network=n), lambda: other.network(n).node(m).scn(0).time().production(),
                  lambda: other.network(n).node(m).scn(0).time().consumption()):
            attempt(f)
    return spec, st, res, val, an


def num(x):
    """scenario / time labels are plain numbers whatever their type"""
    if isinstance(x, (int, float, np.number)):
        return int(x) if x == int(x) else float(x)
    return x


def compare(ctx, want, got, label):
    """want, got: {key: {column: value}}"""
    if set(want) != set(got):
        ctx.check(False, label + ": which rows are present")
    for k in want:
        if k in got:
            for c, x in want[k].items():
                if c not in got[k]:
                    ctx.check(False, "%s: column %s" % (label, c))
                else:
                    ctx.check(ctx.eq(got[k][c], x, 1e-9), "%s: %s" % (label, c))


def read_table(ctx, df, kind, label):
    n = len(df)
    cols = {c: list(df[c].values) for c in df.columns}
    keys = [tuple(num(cols[c][i]) for c in ("network", "node", KEY[kind], "scn", "t")) for i in range(n)]
    ctx.check(len(set(keys)) == n, label + ": one row per element, scenario and time step")
    return {k: {c: cols[c][i] for c in cols} for i, k in enumerate(keys)}


def h_tables(ctx, sk, kinds):
    spec, st, res, val, an = prepare(ctx, sk)
    for kind in kinds:
        got = read_table(ctx, getattr(an, TABLE[kind]), kind, TABLE[kind])
        compare(ctx, rows(spec, val, kind), got, TABLE[kind])
    # element counts
    if "cons" in kinds:
        tot = {}
        for (n, m) in spec.nodes:
            d = spec.sk["nets"][n][m]
            tot[(n, m)] = [len(d["cons"]), len(d["prod"]), len(d["stor"]), len(d["links"]),
                           sum((n, m) in x.src for x in spec.conv.values()), sum(x.dest == (n, m) for x in spec.conv.values())]
            ctx.check(list(an.get_elements_inside(node=m, network=n)) == tot[(n, m)], "number of elements of a node")
            if n == "default":
                ctx.check(list(an.get_elements_inside(node=m)) == tot[(n, m)], "number of elements of a node, default network")
        for n in spec.sk["nets"]:
            w = [sum(v[i] for (a, b), v in tot.items() if a == n) for i in range(6)]
            ctx.check(list(an.get_elements_inside(network=n)) == w, "number of elements of a network")
            ctx.check(list(an.nodes(n)) == list(spec.sk["nets"][n]), "nodes of a network")
        w = [sum(v[i] for v in tot.values()) for i in range(6)]
        ctx.check(list(an.get_elements_inside()) == w, "number of elements of the study")
    ctx.reach("tables")


# ---- queries --------------------------------------------------------------
def pick(f, universe):
    """reference meaning of a filter over the values of a dimension"""
    if f is None or (isinstance(f, list) and not f):
        return set(universe)
    if isinstance(f, slice):
        return set(universe[f])
    if isinstance(f, (list, tuple)):
        return set(f) & set(universe)
    return {f} & set(universe)


def single(f, universe):
    if isinstance(f, slice):
        return f.stop is not None and len(range(f.start or 0, f.stop, f.step or 1)) == 1
    return f is not None and not isinstance(f, (list, tuple)) or (isinstance(f, (list, tuple)) and len(f) == 1)


def run_query(an, net, steps, kind):
    q = an.network(*net)
    for d, f in steps:
        g = getattr(q, CALL[kind] if d == "elem" else dict(node="node", scn="scn", t="time")[d])
        q = g(*f)
    return q


def read_frame(ctx, df, dims, fixed, label):
    """{full key: {column: value}} from a query's answer"""
    import pandas as pd

    if isinstance(df, pd.Series):
        return {tuple(num(fixed[d]) for d in ("network", "node", "elem", "scn", "t")): {c: df[c] for c in df.index}}
    names = list(df.index.names)
    out = {}
    cols = {c: list(df[c].values) for c in df.columns}
    for i, k in enumerate(df.index.tolist()):
        if not isinstance(k, tuple):
            k = (k,)
        kk = dict(fixed)
        for nm, v in zip(names, k):
            kk[nm] = v
        key = tuple(num(kk.get(d)) for d in ("network", "node", "elem", "scn", "t"))
        ctx.check(key not in out, label + ": one row per element, scenario and time step")
        out[key] = {c: cols[c][i] for c in cols}
    return out


FILTERS = ("all", "one", "list1", "list2", "tuple", "slice", "open", "upto", "step", "empty", "none", "sliceone", "gaps", "ends", "gaptuple",
           "unknown", "beyond", "odd", "openstep", "mid", "void", "past")


def make_filter(how, universe):
    """arguments handed to the selector (a tuple: possibly no argument)"""
    u = universe
    ints = all(isinstance(x, int) for x in u)
    if how == "all" or not u:
        return ()
    if how == "one":
        return (u[-1],)
    if how == "list1":
        return ([u[0]],)
    if how == "list2":
        return ([u[-1], u[0]],)
    if how == "tuple":
        return (tuple(u[:2]),)
    if how == "gaps":
        return ([x for i, x in enumerate(u) if i != len(u) // 2],) if len(u) > 1 else (u,)
    if how == "ends":
        return ([u[0], u[-1]],) if len(u) > 1 else ([u[0]],)
    if how == "gaptuple":
        return (tuple(reversed(u[::2])),)
    if how == "unknown":
        return ([u[-1], 99 if ints else "nowhere"],)
    if how == "mid":
        return (u[len(u) // 2],)
    if how == "empty":
        return ([],)
    if how == "none":
        return (None,)
    if not ints:
        return (u[0],)
    if how == "slice":
        return (slice(0, max(1, len(u) - 1)),)
    if how == "open":
        return (slice(min(1, len(u) - 1), None),)
    if how == "upto":
        return (slice(None, max(1, len(u) - 1)),)
    if how == "step":
        return (slice(0, len(u), 2),)
    if how == "void":
        return (slice(len(u) // 2, len(u) // 2),)
    if how == "past":
        return (slice(len(u), len(u) + 3),)
    if how == "beyond":
        return (slice(min(1, len(u) - 1), len(u) + 5),)
    if how == "odd":
        return (slice(1 if len(u) > 2 else 0, len(u), 3),)
    if how == "openstep":
        return (slice(1 if len(u) > 1 else 0, None, 2),)
    return (slice(len(u) - 1, len(u)),)


def one_query(ctx, spec, val, an, kind, net, plan, ref, label, again=True):
    """plan: [(dim, filter args)] in the order of the calls"""
    uni = dict(node=sorted({k[1] for k in ref}), elem=sorted({k[2] for k in ref}), scn=list(range(spec.S)), t=list(range(spec.h)))
    df, ex = attempt(lambda: run_query(an, net, plan, kind))
    raw = df
    if ex is not None:
        ctx.check(False, "%s: a query in the documented form is answered (%s)" % (label, type(ex).__name__))
        return
    args = dict((d, (f[0] if f else None)) for d, f in plan)
    nets = [net[0] if net else "default"]
    sel = {d: pick(args[d], uni[d]) for d in uni}
    keep_net = set(spec.sk["nets"]) if nets[0] is None else (set(nets[0]) if isinstance(nets[0], (list, tuple)) and nets[0] else {nets[0]})
    want = {k: v for k, v in ref.items() if k[0] in keep_net and k[1] in sel["node"] and k[2] in sel["elem"] and k[3] in sel["scn"]
            and k[4] in sel["t"]}
    if not want:
        ctx.check(len(df) == 0, label + ": nothing selected, nothing answered")
        return
    order = ["network"] + [d for d, _ in plan]
    fs = dict(args, network=nets[0])
    fixed = {}
    for d in order:
        if single(fs[d], None):
            fixed[d] = next(iter(sel[d])) if d != "network" else next(iter(keep_net))
        else:
            break
    colname = dict(network="network", node="node", elem=KEY[kind], scn="scn", t="t")
    names = [colname[d] for d in order if d not in fixed]
    import pandas as pd

    if not isinstance(df, pd.Series) and names:
        ctx.check(list(df.index.names) == names, label + ": levels as asked, without the leading single ones")
        back = {v: k for k, v in colname.items()}
        df = df.copy()
        df.index.names = [back.get(n, n) for n in df.index.names]
    elif not isinstance(df, pd.Series):
        df = df.copy()
        df.index.names = [dict((v, k) for k, v in colname.items()).get(n, n) for n in df.index.names]
    compare(ctx, want, read_frame(ctx, df, names, fixed, label), label)
    # the answer belongs to the caller: what is done with it does not reach later queries
    try:
        raw.iloc[:] = -12345.0
    except Exception:
        pass
    if again:
        one_query(ctx, spec, val, an, kind, net, plan, ref, label + " asked again", again=False)


def plans(spec, ref, seed, n):
    """a spread of orders and filters"""
    import random

    r = random.Random(seed)
    perms = list(itertools.permutations(("node", "elem", "scn", "t")))
    uni = dict(node=sorted({k[1] for k in ref}), elem=sorted({k[2] for k in ref}), scn=list(range(spec.S)), t=list(range(spec.h)))
    hows = list(FILTERS)
    out = []
    for i in range(n):
        p = perms[(i * 7 + seed) % 24]
        if i == 0:
            fs = ["all"] * 4
        elif i == 1:
            fs = ["one"] * 4
        else:
            fs = [r.choice(hows) for _ in p]
        out.append([(d, make_filter(f, uni[d])) for d, f in zip(p, fs)])
    return out


def h_query(ctx, sk, kind, seed, n):
    spec, st, res, val, an = prepare(ctx, sk)
    ref = rows(spec, val, kind)
    if not ref:
        for plan in plans(spec, ref, seed, 3):
            one_query(ctx, spec, val, an, kind, (None,), plan, ref, TABLE[kind])
        ctx.reach("no such element")
        return
    nets = [(x,) for x in spec.sk["nets"]] + [(None,), (list(spec.sk["nets"]),)] + ([()] if "default" in spec.sk["nets"] else [])
    for i, plan in enumerate(plans(spec, ref, seed, n)):
        one_query(ctx, spec, val, an, kind, nets[(i + seed) % len(nets)], plan, ref, TABLE[kind])
    # unknown names select nothing
    one_query(ctx, spec, val, an, kind, (None,), [("node", ("unknown node",)), ("elem", ()), ("scn", ()), ("t", ())], ref, TABLE[kind])
    # and so do ranges without a step
    for how in ("void", "past"):
        for dim in ("scn", "t"):
            f = make_filter(how, list(range(spec.S if dim == "scn" else spec.h)))
            one_query(ctx, spec, val, an, kind, (None,), [(d, f if d == dim else ()) for d in ("node", "elem", "scn", "t")], ref, TABLE[kind])
            one_query(ctx, spec, val, an, kind, (None,), [(d, f if d == dim else ()) for d in ("t", "scn", "elem", "node")], ref, TABLE[kind])
    # a partial query can be continued several ways
    n0 = (next(k[0] for k in ref),)
    q = an.network(*n0)
    a = attempt(lambda: getattr(q.scn().time(), CALL[kind])().node())
    b = attempt(lambda: getattr(q.scn().time(), CALL[kind])().node())
    ctx.check(a[1] is None and b[1] is None, "a partial query can be used again")
    if a[1] is None and b[1] is None:
        q2 = q.node()
        q3 = q2.scn()
        for t in range(spec.h):
            got, ex = attempt(lambda: getattr(q3.time(t), CALL[kind])())
            ctx.check(ex is None, "a partial query can be used again")
            if ex is None:
                w = {k: v for k, v in ref.items() if k[0] == n0[0] and k[4] == t}
                g = got.copy()
                g.index.names = [{KEY[kind]: "elem"}.get(x, x) for x in g.index.names]
                compare(ctx, w, read_frame(ctx, g, None, dict(network=n0[0]), "reused partial query"), "reused partial query")
    untouched(ctx, spec, val, an, "tables after the queries")
    ctx.reach("queries")


# ---- aggregates -------------------------------------------------------------
def h_twice(ctx, sk):
    """a level is chosen once: which one is repeated, and where, are symbolic choices"""
    spec, st, res, val, an = ctx.once(lambda: prepare(ctx, sk))
    kinds = sorted(CALL.values())
    i, j = ctx.choice("where", list(itertools.combinations(range(4), 2)))
    what = ctx.choice("what", ["node", "scn", "time", "elem", "other"])
    rest = list(ctx.choice("rest", list(itertools.permutations([x for x in ("node", "scn", "time", "elem") if x != what.replace("other", "elem")], 2))))
    pair = [what, what]
    chain = [pair.pop() if k in (i, j) else rest.pop() for k in range(4)]
    e1 = ctx.choice("kind", kinds[:2])
    e2 = kinds[(kinds.index(e1) + 1 + i + j) % len(kinds)]
    seen = []
    for k, x in enumerate(chain):
        if x in ("elem", "other"):
            chain[k] = e2 if x == "other" and seen else e1
            seen.append(k)

    def run():
        q = an.network(*(() if "default" in spec.sk["nets"] else (None,)))
        for x in chain:
            q = getattr(q, x)()
        return q

    got, ex = attempt(run)
    ctx.check(ex is not None, "a query that repeats a level, or asks two kinds of elements, is refused")
    ctx.reach("level chosen once")


def cost_of(spec, val, s, t, keep):
    tot = []
    for k, x in spec.cons.items():
        if keep(k[0], k[1]):
            tot.append((x.q.m[s][t] - val[("given",) + k][s][t]) * x.c.m[s][t])
    for k, x in spec.prod.items():
        if keep(k[0], k[1]):
            tot.append(val[("used",) + k][s][t] * x.c.m[s][t])
    for k, x in spec.stor.items():
        if keep(k[0], k[1]):
            tot.append(val[("cap",) + k][s][t] * x.c.m[s][t])
    for k, x in spec.link.items():
        if keep(k[0], k[1]):
            tot.append(val[("link",) + k][s][t] * x.c.m[s][t])
    for c, x in spec.conv.items():
        if keep(*x.dest):
            tot.append(val[("dest", c)][s][t] * x.c.m[s][t])
    return tot


def matrix(ctx, spec, m, label):
    ok = getattr(m, "shape", None) == (spec.S, spec.h)
    ctx.check(ok, label + ": one value per scenario and time step")
    return ok


def spoil(a):
    """what is returned belongs to the caller: writing in it changes no later answer"""
    try:
        a[:, :] = -12345.0
    except (ValueError, TypeError):
        pass


def untouched(ctx, spec, val, an, label):
    for kind in TABLE:
        compare(ctx, rows(spec, val, kind), read_table(ctx, getattr(an, TABLE[kind]), kind, label), label)


def h_cost(ctx, sk):
    spec, st, res, val, an = prepare(ctx, sk)
    cases = [(dict(), lambda n, m: True, "study")]
    for n, net in spec.sk["nets"].items():
        cases.append((dict(network=n), lambda a, b, n=n: a == n, "network"))
        for m in net:
            cases.append((dict(network=n, node=m), lambda a, b, n=n, m=m: (a, b) == (n, m), "node"))
            if n == "default":
                cases.append((dict(node=m), lambda a, b, n=n, m=m: (a, b) == (n, m), "node of the default network"))
    for kw, keep, lab in cases + cases[::-1]:
        got, ex = attempt(lambda: an.get_cost(**kw))
        if ex is not None:
            ctx.check(False, "cost of a %s is computed (%s)" % (lab, type(ex).__name__))
            continue
        if matrix(ctx, spec, got, "cost of a " + lab):
            for s in range(spec.S):
                for t in range(spec.h):
                    ctx.check(ctx.eq(got[s, t], ctx.sum(cost_of(spec, val, s, t, keep)), 1e-6), "cost of a " + lab)
            spoil(got)
    untouched(ctx, spec, val, an, "tables after the costs")
    ctx.reach("cost")


def h_balance(ctx, sk):
    spec, st, res, val, an = prepare(ctx, sk)
    for n, net in list(spec.sk["nets"].items()) + list(spec.sk["nets"].items())[:2]:
        for m in net:
            for kw in ([dict(network=n)] + ([dict()] if n == "default" else [])):
                got, ex = attempt(lambda: an.get_balance(node=m, **kw))
                if ex is not None:
                    ctx.check(False, "balance of a node is computed (%s)" % type(ex).__name__)
                    continue
                if matrix(ctx, spec, got, "balance of a node"):
                    for s in range(spec.S):
                        for t in range(spec.h):
                            w = [val[("link",) + k][s][t] for k in spec.link if k[:2] == (n, m)]
                            w += [-val[("link",) + k][s][t] for k in spec.link if k[0] == n and k[2] == m]
                            ctx.check(ctx.eq(got[s, t], ctx.sum(w), 1e-6), "balance is exports minus imports")
                    spoil(got)
    untouched(ctx, spec, val, an, "tables after the balances")
    ctx.reach("balance")


def h_rac(ctx, sk):
    spec, st, res, val, an = prepare(ctx, sk)
    for n in list(spec.sk["nets"]) + list(spec.sk["nets"])[:2]:
        for kw in ([dict(network=n)] + ([dict()] if n == "default" else [])):
            got, ex = attempt(lambda: an.get_rac(**kw))
            if ex is not None:
                ctx.check(False, "remaining capacity of a network is computed (%s)" % type(ex).__name__)
                continue
            if matrix(ctx, spec, got, "remaining capacity"):
                for s in range(spec.S):
                    for t in range(spec.h):
                        w = []
                        for k, x in spec.prod.items():
                            if k[0] == n:
                                w += [x.q.m[s][t], -val[("used",) + k][s][t]]
                        for k, x in spec.cons.items():
                            if k[0] == n:
                                w += [-x.q.m[s][t], val[("given",) + k][s][t]]
                        ctx.check(ctx.eq(got[s, t], ctx.sum(w), 1e-6), "remaining capacity is spare production minus unserved demand")
                spoil(got)
    untouched(ctx, spec, val, an, "tables after the remaining capacities")
    ctx.reach("rac")
