"""Harnesses over the plotting API: what the figures show, for arbitrary results of symbolic studies."""
import itertools
import re

import numpy as np

from .studies import StudySpec, node
from .domain import build_result
from .analyzer import rows, compare, read_table, TABLE
from .util import attempt

VSK = {
    "pair": dict(h=2, scn=2, nets={"default": {
        "b": node(cons=["load", "car"], prod=["load", "gas"], links=["a"]),
        "a": node(cons=["load"], prod=["gas"], links=["b", "c"]), "c": node(links=["b"])}}),
    "stor": dict(h=3, scn=2, rot=2, nets={"default": {
        "a": node(cons=["load"], prod=["p"], stor=["cell", "acc"], links=["b"]), "b": node(stor=["cell"])}}),
    "conv": dict(h=2, scn=2, rot=1, nets={
        "elec": {"a": node(cons=["load"]), "b": node(cons=["load"], prod=["p"])},
        "gas": {"a": node(prod=["well"]), "b": node(prod=["well"], cons=["heat"], links=["a"])}},
        convs={"two": dict(src=[("gas", "a"), ("gas", "b")], dest=("elec", "a")), "one": dict(src=[("gas", "b")], dest=("elec", "a")),
               "back": dict(src=[("elec", "b")], dest=("gas", "a"))}),
    "rect": dict(h=3, scn=2, rot=1, nets={"default": {"a": node(cons=["l"]), "b": node(prod=["p"])}}),
    "one": dict(h=2, scn=1, rot=3, nets={"default": {"a": node(cons=["l"], prod=["p"], stor=["s"])}}),
    "scn3": dict(h=1, scn=3, rot=0, nets={"n": {"x": node(cons=["l"], prod=["l"], stor=["l"], links=["y"]), "y": node(cons=["l"], prod=["q", "r"], links=["x"])}}),
}


# large ones: more series than colours, more scenarios and time steps than digits
BIG = {
    "crowd": dict(h=2, scn=1, rot=3, cost_const=True, nets={"default": {
        "a": node(cons=["c%d" % i for i in range(12)], prod=["p%d" % i for i in range(12)], stor=["s%d" % i for i in range(3)])}}),
    "long": dict(h=13, scn=12, rot=1, cost_const=True, nets={"default": {
        "a": node(cons=["load"], prod=["p"], stor=["s"], links=["b"]), "b": node()}}),
}
BIG["scn70"] = dict(h=2, scn=70, rot=1, cost_const=True, nets={"default": {"a": node(cons=["load"], prod=["p"])}})
BIG["days"] = dict(h=60, scn=2, rot=1, cost_const=True, nets={"default": {"a": node(cons=["load"], prod=["p"], stor=["s"])}})
VSK.update(BIG)
SMALL = [k for k in VSK if k not in BIG]


def prepare(ctx, sk, dates=False):
    return ctx.once(lambda: _prepare(ctx, sk, dates))


def _prepare(ctx, sk, dates, tag=""):
    import hadar as hd
    import pandas as pd

    spec = StudySpec(ctx, VSK[sk], tag=tag)
    st = spec.build()
    res, val = build_result(ctx, spec, tag=tag + "r")
    an = hd.ResultAnalyzer(study=st, result=res)
    coord = {m: [2.5 + 3.0 * i, 40.25 + i * i] for i, m in enumerate(sorted({m for _, m in spec.nodes}))}
    kw = dict(time_start="2020-02-01", time_end="2020-02-04") if dates else {}
    pl = hd.HTMLPlotting(agg=an, unit_symbol="MW", node_coord=coord, **kw)
    if dates:
        tix = list(pd.date_range("2020-02-01", "2020-02-04", periods=spec.h))
    else:
        tix = list(range(spec.h))
    return spec, val, an, pl, coord, tix


def cells(x):
    return list(np.asarray(x, dtype=object).reshape(-1)) if x is not None else []


def times(ctx, x, tix, label):
    import pandas as pd

    got = list(x)
    ok = len(got) == len(tix) and all((abs(pd.Timestamp(a) - b) <= pd.Timedelta("2us")) if isinstance(b, pd.Timestamp) else a == b for a, b in zip(got, tix))
    ctx.check(ok, label + ": the time axis is the study's")


def series(ctx, got, want, label):
    got = cells(got)
    ctx.check(len(got) == len(want), label + ": number of points")
    for x, y in zip(got, want):
        ctx.check(ctx.eq(x, y, 1e-9), label)


def multiset(ctx, got, want, label):
    """got is a rearrangement of want"""
    got = cells(got)
    if len(got) != len(want):
        ctx.check(False, label + ": number of points")
        return
    ctx.check(ctx.any([ctx.all([ctx.eq(g, w, 1e-9) for g, w in zip(got, p)]) for p in itertools.permutations(want)]), label)


def elements(spec, val):
    """[(open the graph, table of values per scenario and time)]"""
    out = []
    for (n, m, e), x in spec.cons.items():
        out.append(("consumption asked", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).consumption(e, kind="asked"), x.q.m))
        out.append(("consumption given", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).consumption(e, kind="given"), val[("given", n, m, e)]))
        out.append(("consumption", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).consumption(e), val[("given", n, m, e)]))
    for (n, m, e), x in spec.prod.items():
        out.append(("production avail", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).production(e, kind="avail"), x.q.m))
        out.append(("production used", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).production(e, kind="used"), val[("used", n, m, e)]))
        out.append(("production", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).production(e), val[("used", n, m, e)]))
    for (n, m, e), x in spec.link.items():
        out.append(("link avail", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).link(e, kind="avail"), x.q.m))
        out.append(("link used", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).link(e, kind="used"), val[("link", n, m, e)]))
        out.append(("link", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).link(e), val[("link", n, m, e)]))
    for c, x in spec.conv.items():
        out.append(("converter output", x.dest[0], lambda p, c=c, d=x.dest: p.network(d[0]).node(d[1]).from_converter(c), val[("dest", c)]))
        for s in x.src:
            out.append(("converter input", s[0], lambda p, c=c, s=s: p.network(s[0]).node(s[1]).to_converter(c), val[("src", c) + s]))
    return out


def rac_of(spec, val, n, s, t):
    w = 0.0
    for k, x in spec.prod.items():
        if k[0] == n:
            w = w + x.q.m[s][t] - val[("used",) + k][s][t]
    for k, x in spec.cons.items():
        if k[0] == n:
            w = w - x.q.m[s][t] + val[("given",) + k][s][t]
    return w


def exact(spec, val, n, s, t):
    """the sums behind the remaining capacity are free of rounding, whatever their order"""
    v = [x.q.m[s][t] for d in (spec.prod, spec.cons) for k, x in d.items() if k[0] == n]
    v += [val[("used",) + k][s][t] for k in spec.prod if k[0] == n] + [val[("given",) + k][s][t] for k in spec.cons if k[0] == n]
    return all(abs(x) < 2.0 ** 20 and float(x) * 1024 == int(x * 1024) for x in v)


def unchanged(ctx, spec, val, an):
    for kind in TABLE:
        compare(ctx, rows(spec, val, kind), read_table(ctx, getattr(an, TABLE[kind]), kind, "tables after plotting"), "tables after plotting")


def see_timeline(ctx, spec, tix, fig, what, m):
    ctx.check(len(fig.data) == spec.S, "timeline of %s: one line per scenario" % what)
    for s, tr in enumerate(fig.data[:spec.S]):
        series(ctx, tr.y, m[s], "timeline of %s" % what)
        times(ctx, tr.x, tix, "timeline of %s" % what)
        ctx.check(re.findall(r"[0-9]+", tr.name or "") == [str(s)], "timeline of %s: lines are named after their scenario" % what)


def h_timeline(ctx, sk, dates):
    spec, val, an, pl, coord, tix = prepare(ctx, sk, dates)
    for what, n, sel, m in elements(spec, val):
        fig, ex = attempt(lambda: sel(pl).timeline())
        if ex is not None:
            ctx.check(False, "timeline of %s is drawn (%s)" % (what, type(ex).__name__))
            continue
        see_timeline(ctx, spec, tix, fig, what, m)
    unchanged(ctx, spec, val, an)
    ctx.reach("timeline")


def focus(ctx, spec, m):
    """a time step or a scenario, and the values it selects"""
    if ctx.choice("axis", [0, 1]):
        t = ctx.choice("t", list(range(spec.h)))
        return dict(t=t), [m[s][t] for s in range(spec.S)], [(s, t) for s in range(spec.S)]
    s = ctx.choice("s", list(range(spec.S)))
    return dict(scn=s), [m[s][t] for t in range(spec.h)], [(s, t) for t in range(spec.h)]


def h_monotone(ctx, sk):
    spec, val, an, pl, coord, tix = prepare(ctx, sk)
    els = elements(spec, val)
    for (n, m, e), x in spec.stor.items():
        fi, fo = val[("fin", n, m, e)], val[("fout", n, m, e)]
        els.append(("storage", n, lambda p, n=n, m=m, e=e: p.network(n).node(m).storage(e),
                    [[fi[s][t] - fo[s][t] for t in range(spec.h)] for s in range(spec.S)]))
    what, n, sel, m = ctx.choice("element", els)
    kw, want, _ = focus(ctx, spec, m)
    _, ex = attempt(lambda: sel(pl).monotone(t=0, scn=0))
    ctx.check(isinstance(ex, ValueError), "a time step and a scenario together are refused")
    fig, ex = attempt(lambda: sel(pl).monotone(**kw))
    if ex is not None:
        ctx.check(False, "monotone of %s is drawn (%s)" % (what, type(ex).__name__))
        return
    see_monotone(ctx, fig, what, want)
    unchanged(ctx, spec, val, an)
    ctx.reach("monotone")


def see_monotone(ctx, fig, what, want):
    ctx.check(len(fig.data) == 1, "monotone of %s: one curve" % what)
    y = cells(fig.data[0].y)
    multiset(ctx, y, want, "monotone of %s shows the selected values" % what)
    for a, b in zip(y, y[1:]):
        ctx.check(ctx.le(b, a, 1e-9), "monotone of %s decreases" % what)
    x = cells(fig.data[0].x)
    ctx.check(len(x) == len(y) and x[0] == 0 and all(b > a for a, b in zip(x, x[1:])) and (len(x) < 2 or x[-1] == 100),
              "monotone of %s goes from 0 to 100 %%" % what)


def h_gaussian(ctx, sk):
    spec, val, an, pl, coord, tix = prepare(ctx, sk)
    ctx.zero_div = "assume"
    what, n, sel, m = ctx.choice("element", elements(spec, val))
    kw, want, at = focus(ctx, spec, m)
    _, ex = attempt(lambda: sel(pl).gaussian(t=0, scn=0))
    ctx.check(isinstance(ex, ValueError), "a time step and a scenario together are refused")
    fig, ex = attempt(lambda: sel(pl).gaussian(**kw))
    if ex is not None:
        ctx.check(False, "distribution of %s is drawn (%s)" % (what, type(ex).__name__))
        return
    see_gaussian(ctx, spec, val, fig, what, n, want, at)
    unchanged(ctx, spec, val, an)
    ctx.reach("gaussian")


def see_gaussian(ctx, spec, val, fig, what, n, want, at):
    green = [tr for tr in fig.data if tr.marker.color == "green"]
    red = [tr for tr in fig.data if tr.marker.color == "red"]
    ctx.check(len(green) == 1 and len(red) == 1, "distribution of %s: passed and failed points" % what)
    if len(green) == 1 and len(red) == 1:
        racs = [rac_of(spec, val, n, s, t) for s, t in at]
        # on this path the signs are decided by the code; any assignment must agree with ours
        g, r = cells(green[0].x), cells(red[0].x)
        if len(g) + len(r) != len(want):
            ctx.check(False, "distribution of %s: every selected value is a point" % what)
        else:
            alts = []
            for k in itertools.combinations(range(len(want)), len(g)):
                sg = ctx.all([(racs[i] >= 0) if i in k else (racs[i] < 0) for i in range(len(want))])
                gw, rw = [want[i] for i in k], [want[i] for i in range(len(want)) if i not in k]
                alts.append(ctx.all([sg] + [ctx.eq(a, b, 1e-9) for a, b in zip(g, gw)] + [ctx.eq(a, b, 1e-9) for a, b in zip(r, rw)]))
            # on floats, rounding noise around zero belongs to no side (zeros of exact sums do)
            if ctx.symbolic or all(abs(x) > 1e-6 or (x == 0.0 and exact(spec, val, n, s, t)) for x, (s, t) in zip(racs, at)):
                ctx.check(ctx.any(alts), "distribution of %s: passed when capacity remains, failed otherwise" % what)


def see_candles(ctx, spec, val, tix, fig, k, s):
    i, x = s or 0, spec.stor[k]
    fi, fo = val[("fin",) + k], val[("fout",) + k]
    tr = fig.data[0]
    times(ctx, tr.x, tix, "candles")
    close, level = [], x.init
    for t in range(spec.h):
        level = level + fi[i][t] * x.eff.m[i][t] - fo[i][t]
        close.append(level)
    series(ctx, tr.open, [x.init] + close[:-1], "candles open at the level before the time step")
    series(ctx, tr.close, close, "candles close at the level after the time step")


def h_candles(ctx, sk, dates):
    spec, val, an, pl, coord, tix = prepare(ctx, sk, dates)
    for k, x in spec.stor.items():
        lev, fi, fo = val[("cap",) + k], val[("fin",) + k], val[("fout",) + k]
        for s in range(spec.S):
            for t in range(spec.h):
                prev = x.init if t == 0 else lev[s][t - 1]
                if ctx.symbolic:
                    ctx.assume(lev[s][t] == prev + fi[s][t] * x.eff.m[s][t] - fo[s][t])
    for (n, m, e), x in spec.stor.items():
        lev, fi, fo = val[("cap", n, m, e)], val[("fin", n, m, e)], val[("fout", n, m, e)]
        for s in [None] + list(range(spec.S)):
            fig, ex = attempt(lambda: pl.network(n).node(m).storage(e).candles(**({} if s is None else dict(scn=s))))
            if ex is not None:
                ctx.check(False, "candles of a storage are drawn (%s)" % type(ex).__name__)
                continue
            see_candles(ctx, spec, val, tix, fig, (n, m, e), s)
            if ctx.symbolic:
                series(ctx, fig.data[0].close, lev[s or 0], "candles close at the planned level")
    unchanged(ctx, spec, val, an)
    ctx.reach("candles")


def h_stack(ctx, sk, dates, n, m, first=None):
    spec, val, an, pl, coord, tix = prepare(ctx, sk, dates)
    pk, ck = ctx.choice("kinds", [("used", "given"), ("avail", "asked"), (None, None)])
    s = ctx.choice("scn", ([None] if spec.S > 1 else []) + list(range(spec.S)) if first is None else [first])
    kw = {} if s is None else dict(scn=s)
    if pk:
        kw.update(prod_kind=pk, cons_kind=ck)
    fig, ex = attempt(lambda: pl.network(n).node(m).stack(**kw))
    if ex is not None:
        ctx.check(False, "the stack of a node is drawn (%s)" % type(ex).__name__)
        return
    see_stack(ctx, spec, val, tix, fig, n, m, s, pk, ck)
    unchanged(ctx, spec, val, an)
    ctx.reach("stack")


def see_stack(ctx, spec, val, tix, fig, n, m, s, pk, ck):
    i = s or 0
    T = range(spec.h)
    pk, ck = pk or "used", ck or "asked"
    areas, lines = [], []
    for k, x in spec.prod.items():
        if k[:2] == (n, m):
            areas.append((k[2], (val[("used",) + k] if pk == "used" else x.q.m)[i]))
    for k, x in spec.cons.items():
        if k[:2] == (n, m):
            lines.append((k[2], (val[("given",) + k] if ck == "given" else x.q.m)[i]))
    for k, x in spec.stor.items():
        if k[:2] == (n, m):
            areas.append((k[2], val[("fout",) + k][i]))
            lines.append((k[2], val[("fin",) + k][i]))
    for c, x in spec.conv.items():
        if x.dest == (n, m):
            areas.append((c, val[("dest", c)][i]))
        if (n, m) in x.src:
            lines.append((c, val[("src", c, n, m)][i]))
    bal = []
    for t in T:
        b = 0.0
        for k in spec.link:
            if k[:2] == (n, m):
                b = b + val[("link",) + k][i][t]
            if k[0] == n and k[2] == m:
                b = b - val[("link",) + k][i][t]
        bal.append(b)
    im, xp = [ctx.max(-b, 0.0) for b in bal], [ctx.max(b, 0.0) for b in bal]
    ga = [tr for tr in fig.data if tr.fill is not None]
    gl = [tr for tr in fig.data if tr.fill is None][::-1]
    for traces, want, extra, name, lab in ((ga, areas, im, "import", "areas"), (gl, lines, xp, "export", "lines")):
        prev = [0.0] * spec.h
        got = []
        for tr in traces:
            times(ctx, tr.x, tix, "stack")
            y = cells(tr.y)
            if len(y) != spec.h:
                ctx.check(False, "stack: one point per time step")
                return
            got.append((tr.name, [a - b for a, b in zip(y, prev)]))
            prev = y
        # exchanges are drawn exactly when there are some
        drawn = [g for g in got if g[0] == name]
        rest = [g for g in got if g[0] != name]
        if drawn:
            ctx.check(len(drawn) == 1, "stack: exchanges appear once")
            for a, b in zip(drawn[0][1], extra):
                ctx.check(ctx.eq(a, b, 1e-7), "stack: %s" % name)
        else:
            for b in extra:
                ctx.check(ctx.eq(b, 0.0, 1e-7), "stack: %s is drawn when there is some" % name)
        ctx.check(sorted(g[0] for g in rest) == sorted(w[0] for w in want), "stack: every flow of the node is one of the " + lab)
        for nm in {w[0] for w in want}:
            gs, ws = [g[1] for g in rest if g[0] == nm], [w[1] for w in want if w[0] == nm]
            if len(gs) == len(ws):
                ctx.check(ctx.any([ctx.all([ctx.eq(a, b, 1e-7) for g, w in zip(gs, p) for a, b in zip(g, w)])
                                   for p in itertools.permutations(ws)]), "stack: thickness of the %s" % lab)


def h_rac_matrix(ctx, sk, dates, free=None):
    """free: the cells whose sign is not fixed (None: all)"""
    spec, val, an, pl, coord, tix = prepare(ctx, sk, dates)
    ctx.fork_max = True
    n = ctx.choice("network", list(spec.sk["nets"]))
    r = [[rac_of(spec, val, n, s, t) for t in range(spec.h)] for s in range(spec.S)]
    if free is not None:
        for s in range(spec.S):
            for t in range(spec.h):
                if (s, t) not in free:
                    ctx.assume(r[s][t] > 0 if (s + t) % 2 else r[s][t] < 0)
                if spec.S * spec.h > 20:  # large matrices: which cell is extreme is fixed
                    if (s, t) == (0, 1):
                        ctx.assume(r[s][t] > 9)
                    elif (s, t) == (0, 0):
                        ctx.assume(r[s][t] < -9)
                    else:
                        ctx.assume(ctx.all([r[s][t] < 5, r[s][t] > -5]))
    fig, ex = attempt(lambda: pl.network(n).rac_matrix())
    if ex is not None:
        ctx.check(False, "the RAC matrix is drawn (%s)" % type(ex).__name__)
        return
    see_rac(ctx, spec, val, tix, fig, n, r)
    unchanged(ctx, spec, val, an)
    ctx.reach("rac matrix")


def see_rac(ctx, spec, val, tix, fig, n, r):
    from symx.core import symbols_in

    tr = fig.data[0]
    z, text = np.asarray(tr.z, dtype=object), np.asarray(tr.text, dtype=object)
    ctx.check(z.shape == (spec.S, spec.h) and text.shape == (spec.S, spec.h), "RAC matrix: scenarios by time steps")
    times(ctx, tr.x, tix, "RAC matrix")
    ctx.check([int(v) for v in tr.y] == list(range(spec.S)), "RAC matrix: scenario axis")
    if z.shape != (spec.S, spec.h):
        return
    if not ctx.symbolic:
        # rounding noise around zero belongs to no side
        if any(abs(v) < 1e-6 and not (v == 0.0 and exact(spec, val, n, s, t)) for s, row in enumerate(r) for t, v in enumerate(row)):
            return
    up, dn = 0.0, 0.0
    for s in range(spec.S):
        for t in range(spec.h):
            ctx.check(ctx.eq(text[s, t], r[s][t], 1e-9), "RAC matrix: text is the remaining capacity")
            up, dn = ctx.max(up, text[s, t]), ctx.max(dn, -text[s, t])
    tot = 0
    for s in range(spec.S):
        for t in range(spec.h):
            v, w = text[s, t], z[s, t]
            if v > 0:
                ctx.check(ctx.eq(w, v / up, 1e-7), "RAC matrix: colours follow the remaining capacity")
            elif v < 0:
                ctx.check(ctx.eq(w, v / dn, 1e-7), "RAC matrix: colours follow the remaining capacity")
            else:
                ctx.check(ctx.eq(w, 0.0, 1e-9), "RAC matrix: colours follow the remaining capacity")
            tot = tot + ctx.ite(v >= 0, 1, 0)
    nums = symbols_in(fig.layout.title.text or "")
    ctx.check(len(nums) == 1, "RAC matrix: share of passed situations")
    if len(nums) == 1:
        pct = tot * 100 / (spec.S * spec.h)
        if ctx.symbolic:
            ctx.check(ctx.all([pct - nums[0] < 1, nums[0] - pct < 1]), "RAC matrix: share of passed situations")
        else:
            ctx.check(abs(nums[0] - pct) < 1.01, "RAC matrix: share of passed situations")


def h_map(ctx, sk):
    spec, val, an, pl, coord, tix = prepare(ctx, sk)
    ctx.zero_div = "opaque"
    n = ctx.choice("network", [x for x in spec.sk["nets"] if spec.sk["nets"][x]])
    s = ctx.choice("scn", [None] + list(range(spec.S)))
    t = ctx.choice("t", list(range(spec.h)))
    fig, ex = attempt(lambda: pl.network(n).map(t=t, zoom=2, **({} if s is None else dict(scn=s))))
    if ex is not None:
        ctx.check(False, "the exchange map is drawn (%s)" % type(ex).__name__)
        return
    see_map(ctx, spec, val, coord, fig, n, s, t)
    unchanged(ctx, spec, val, an)
    ctx.reach("map")


def see_map(ctx, spec, val, coord, fig, n, s, t):
    from symx.core import symbols_in

    i = s or 0

    def place(lon, lat):
        c = [m for m in coord if m in spec.sk["nets"][n] and abs(coord[m][0] - lon) < 1e-9 and abs(coord[m][1] - lat) < 1e-9]
        return c[0] if len(c) == 1 else None

    def flow(a, b):
        return val[("link", n, a, b)][i][t] if (n, a, b) in spec.link else 0.0

    marks = [tr for tr in fig.data if tr.mode == "markers"]
    ctx.check(len(marks) == 1, "map: nodes are marked once")
    if len(marks) != 1:
        return
    mk = marks[0]
    names = [place(a, b) for a, b in zip(list(mk.lon), list(mk.lat))]
    ctx.check(sorted(map(str, names)) == sorted(spec.sk["nets"][n]), "map: every node is at its place")
    lim_lo, lim_hi = mk.marker.cmin, mk.marker.cmax
    for nm, tx, co in zip(names, list(mk.text), list(mk.marker.color)):
        if nm is None:
            continue
        b = 0.0
        for o in spec.sk["nets"][n]:
            b = b + flow(nm, o) - flow(o, nm)
        ctx.check(ctx.eq(co, b, 1e-7), "map: colour of a node is its balance")
        tv = tx if not isinstance(tx, str) else (symbols_in(tx) + [None])[0]
        ctx.check(tv is not None and ctx.eq(tv, b, 1e-7), "map: text of a node is its balance")
        ctx.check(ctx.all([ctx.le(lim_lo, b, 1e-7), ctx.le(b, lim_hi, 1e-7)]), "map: the colour scale covers every balance")
    rest = [tr for tr in fig.data if tr.mode != "markers"]
    segs = [tr for tr in rest if not tr.text]
    tips = [tr for tr in rest if tr.text]
    ctx.check(len(segs) == len(tips), "map: every exchange is an arrow")
    seen = {}
    for sg, tp in zip(segs, tips):
        a, b = place(sg.lon[0], sg.lat[0]), place(sg.lon[1], sg.lat[1])
        ctx.check(a is not None and b is not None and a != b, "map: arrows join nodes")
        if a is None or b is None or a == b:
            continue
        seen.setdefault(frozenset((a, b)), []).append((a, b))
        q = symbols_in(tp.text)
        net = flow(a, b) - flow(b, a)
        ctx.check(len(q) == 1, "map: an arrow tells the exchange")
        if len(q) == 1:
            ctx.check(ctx.all([ctx.eq(q[0], net, 1e-7), ctx.le(0.0, net, 1e-7)]), "map: an arrow goes where the energy goes")
        # tip of the arrow: the point the two others look at, further along the way to b
        pts = list(zip([float(v) for v in tp.lon[:3]], [float(v) for v in tp.lat[:3]]))
        v = (coord[b][0] - coord[a][0], coord[b][1] - coord[a][1])
        mid = ((pts[0][0] + pts[2][0]) / 2, (pts[0][1] + pts[2][1]) / 2)
        dot = (pts[1][0] - mid[0]) * v[0] + (pts[1][1] - mid[1]) * v[1]
        ctx.check(dot > 0, "map: arrow heads point to the destination")
        end = (pts[1][0] - coord[a][0]) * v[0] + (pts[1][1] - coord[a][1]) * v[1]
        ctx.check(end > 0.5 * (v[0] ** 2 + v[1] ** 2), "map: arrow heads are at the destination")
    for k in {frozenset((k[1], k[2])) for k in spec.link if k[0] == n}:
        a, b = sorted(k)
        net = flow(a, b) - flow(b, a)
        ctx.check(k in seen, "map: every linked pair of nodes has an arrow")
        if len(seen.get(k, [])) > 1:
            ctx.check(ctx.eq(net, 0.0, 1e-7), "map: one arrow per exchange")


def h_session(ctx, sk, what, dates):
    """drawings one after the other, on one plotting object or on two: each shows its own data, and goes on showing it"""
    P = ctx.once(lambda: (_prepare(ctx, sk, dates), _prepare(ctx, sk, False, "other.")))
    ctx.zero_div = "assume"
    ctx.fork_max = what == "rac"
    ops = []
    for which, (spec, val, an, pl, coord, tix) in enumerate(P):
        for n in spec.sk["nets"]:  # the signs are fixed: the other jobs decide them
            for s in range(spec.S):
                for t in range(spec.h):
                    r = rac_of(spec, val, n, s, t)
                    if not isinstance(r, float):
                        ctx.assume(r > 0 if (s + t + which) % 2 else r < 0)
        els = elements(spec, val)
        pick = [els[0], els[len(els) // 2], els[-1]] if which == 0 else [els[0]]
        if what == "gaussian":
            for w, n, sel, m in pick:
                ops.append(("gaussian", P[which], lambda pl, sel=sel, t=spec.h - 1: sel(pl).gaussian(t=t),
                            lambda fig, a=(spec, val), w=w, n=n, m=m, t=spec.h - 1: see_gaussian(
                                ctx, a[0], a[1], fig, w, n, [m[s][t] for s in range(a[0].S)], [(s, t) for s in range(a[0].S)])))
                ops.append(("gaussian", P[which], lambda pl, sel=sel: sel(pl).gaussian(scn=0),
                            lambda fig, a=(spec, val), w=w, n=n, m=m: see_gaussian(
                                ctx, a[0], a[1], fig, w, n, [m[0][t] for t in range(a[0].h)], [(0, t) for t in range(a[0].h)])))
        if what == "rac":
            for n in spec.sk["nets"]:
                ops.append(("rac matrix", P[which], lambda pl, n=n: pl.network(n).rac_matrix(),
                            lambda fig, a=(spec, val, tix), n=n: see_rac(
                                ctx, a[0], a[1], a[2], fig, n, [[rac_of(a[0], a[1], n, s, t) for t in range(a[0].h)] for s in range(a[0].S)])))
        if what == "map":
            for n in spec.sk["nets"]:
                for s, t in ((0, 0), (spec.S - 1, spec.h - 1))[:1 if which else 2]:
                    ops.append(("map", P[which], lambda pl, n=n, s=s, t=t: pl.network(n).map(t=t, zoom=1, scn=s),
                                lambda fig, a=(spec, val, coord), n=n, s=s, t=t: see_map(ctx, a[0], a[1], a[2], fig, n, s, t)))
        if what == "element":
            for w, n, sel, m in pick:
                ops.append(("timeline", P[which], lambda pl, sel=sel: sel(pl).timeline(),
                            lambda fig, a=(spec, tix), w=w, m=m: see_timeline(ctx, a[0], a[1], fig, w, m)))
                ops.append(("monotone", P[which], lambda pl, sel=sel: sel(pl).monotone(t=0),
                            lambda fig, w=w, m=m, S=spec.S: see_monotone(ctx, fig, w, [m[s][0] for s in range(S)])))
            for k in list(spec.stor)[:2]:
                for s in range(min(2, spec.S)):
                    ops.append(("candles", P[which], lambda pl, k=k, s=s: pl.network(k[0]).node(k[1]).storage(k[2]).candles(scn=s),
                                lambda fig, a=(spec, val, tix), k=k, s=s: see_candles(ctx, a[0], a[1], a[2], fig, k, s)))
        if what == "stack":
            for i, (n, m) in enumerate(spec.nodes[:3] if which == 0 else spec.nodes[:1]):
                s, (pk, ck) = (i + 1) % spec.S, (("used", "given"), ("avail", "asked"))[i % 2]
                ops.append(("stack", P[which], lambda pl, n=n, m=m, s=s, pk=pk, ck=ck: pl.network(n).node(m).stack(scn=s, prod_kind=pk, cons_kind=ck),
                            lambda fig, a=(spec, val, tix), n=n, m=m, s=s, pk=pk, ck=ck: see_stack(ctx, a[0], a[1], a[2], fig, n, m, s, pk, ck)))
    one, two = ctx.choice("first", ops), ctx.choice("second", ops)
    figs = []
    for kind, p, draw, see in (one, two):
        fig, ex = attempt(lambda: draw(p[3]))
        if ex is not None:
            ctx.check(False, "%s is drawn (%s)" % (kind, type(ex).__name__))
            return
        see(fig)
        figs.append(fig)
    one[3](figs[0])
    for spec, val, an, pl, coord, tix in P:
        unchanged(ctx, spec, val, an)
    ctx.reach("session")


def h_axis(ctx):
    """both ends of the time axis or none"""
    import hadar as hd

    spec = StudySpec(ctx, VSK["one"])
    st = spec.build()
    res, val = build_result(ctx, spec)
    an = hd.ResultAnalyzer(study=st, result=res)
    for kw in (dict(time_start="2020-01-01"), dict(time_end="2020-01-01")):
        _, ex = attempt(lambda: hd.HTMLPlotting(agg=an, **kw))
        ctx.check(isinstance(ex, ValueError), "half a time axis is refused")
    pl = hd.HTMLPlotting(agg=an)
    _, ex = attempt(lambda: pl.network().map(t=0, zoom=1))
    ctx.check(isinstance(ex, ValueError), "a map without coordinates is refused")
    ctx.reach("axis")
