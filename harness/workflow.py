"""Harnesses over hadar.workflow: plugs, stages, pipelines, shuffler."""
import itertools

import numpy as np
import pandas as pd

from .util import arr, attempt


# ---- plugs (names are symbolic integers) -----------------------------------------
def member(ctx, x, xs):
    return ctx.any([ctx.eq(x, y) for y in xs])


def iff(ctx, a, b):
    return ctx.all([ctx.implies(a, b), ctx.implies(b, a)])


def h_plug(ctx, ni, no, mi, mo):
    from hadar.workflow.pipeline import RestrictedPlug, FreePlug

    N = lambda p, n: [ctx.int("%s%d" % (p, i), 0, 5) for i in range(n)]
    ai, ao, bi, bo = N("ai", ni), N("ao", no), N("bi", mi), N("bo", mo)
    w = ctx.int("w", 0, 5)
    a, b = RestrictedPlug(inputs=list(ai), outputs=list(ao)), RestrictedPlug(inputs=list(bi), outputs=list(bo))
    link = ctx.all([member(ctx, x, ao) for x in bi])
    got = a.linkable_to(b)
    ctx.check(iff(ctx, got, link), "a plug links to the next iff it provides all its inputs")
    if got:
        c = a + b
        ctx.check(iff(ctx, member(ctx, w, c.inputs), member(ctx, w, ai)), "joined plugs need the inputs of the first")
        want = ctx.any([member(ctx, w, bo), ctx.all([member(ctx, w, ao), ctx.not_(member(ctx, w, bi))])])
        ctx.check(iff(ctx, member(ctx, w, c.outputs), want), "joined plugs offer the next outputs and what it leaves")
        for p, (i, o) in ((a, (ai, ao)), (b, (bi, bo))):
            ctx.check(len(p.inputs) == len(i) and len(p.outputs) == len(o), "joining leaves both plugs unchanged")
            for x, y in list(zip(p.inputs, i)) + list(zip(p.outputs, o)):
                ctx.check(ctx.eq(x, y), "joining leaves both plugs unchanged")
    names = N("n", 2)
    ctx.check(iff(ctx, a.computable(list(names)), ctx.all([member(ctx, x, names) for x in ai])),
              "a plug accepts data iff it holds all its inputs")
    f = FreePlug()
    ctx.check(f.linkable_to(a) and f.linkable_to(f) and a.linkable_to(f) and f.computable(list(names)), "a free plug links to anything")
    for c in (a + f, f + a):
        ctx.check(isinstance(c, RestrictedPlug), "a free plug is neutral")
        if isinstance(c, RestrictedPlug):
            ctx.check(iff(ctx, member(ctx, w, c.inputs), member(ctx, w, ai)), "a free plug is neutral")
            ctx.check(iff(ctx, member(ctx, w, c.outputs), member(ctx, w, ao)), "a free plug is neutral")
    ctx.check(isinstance(f + f, FreePlug), "a free plug is neutral")
    ctx.reach("linked" if got else "not linked")


def h_plug_wide(ctx, n, pos):
    """many names, one of them symbolic on either side"""
    from hadar.workflow.pipeline import RestrictedPlug

    x, y = ctx.int("x", 0, 3 * n), ctx.int("y", 0, 3 * n)
    ai = list(range(n))
    ao = list(range(n, 2 * n))
    ao[pos] = x
    bi = list(reversed(range(n, 2 * n)))
    bi[n - 1 - pos] = y
    bo = list(range(2 * n, 3 * n))
    a, b = RestrictedPlug(inputs=list(ai), outputs=list(ao)), RestrictedPlug(inputs=list(bi), outputs=list(bo))
    got = a.linkable_to(b)
    ctx.check(iff(ctx, got, ctx.all([member(ctx, e, ao) for e in bi])), "a plug links to the next iff it provides all its inputs")
    if got:
        c = a + b
        for w in range(3 * n + 1):
            ctx.check(iff(ctx, member(ctx, w, c.inputs), member(ctx, w, ai)), "joined plugs need the inputs of the first")
            want = ctx.any([member(ctx, w, bo), ctx.all([member(ctx, w, ao), ctx.not_(member(ctx, w, bi))])])
            ctx.check(iff(ctx, member(ctx, w, c.outputs), want), "joined plugs offer the next outputs and what it leaves")
    names = list(range(n))
    names[pos] = y
    names.append(77)
    ctx.check(iff(ctx, a.computable(names), ctx.all([member(ctx, e, names) for e in ai])), "a plug accepts data iff it holds all its inputs")
    # with a free plug on either side, the restricted one keeps all it asks and offers
    from hadar.workflow.pipeline import FreePlug

    for left, c in (("free first", FreePlug() + a), ("free last", a + FreePlug())):
        for w in range(3 * n + 1):
            ctx.check(iff(ctx, member(ctx, w, c.inputs), member(ctx, w, ai)), left + ": the restricted inputs are kept")
            ctx.check(iff(ctx, member(ctx, w, c.outputs), member(ctx, w, ao)), left + ": the restricted outputs are kept")
    # arguments left out mean no column; plugs do not share their lists
    e1, e2 = RestrictedPlug(outputs=[x]), RestrictedPlug(inputs=[y])
    e3 = RestrictedPlug()
    ctx.check(list(e1.inputs) == [] and list(e2.outputs) == [] and list(e3.inputs) == [] and list(e3.outputs) == [], "arguments left out mean no column")
    ctx.check(e1.computable([]) and e3.computable([7]) and e1.linkable_to(e3) and e3.linkable_to(e1) and not e3.linkable_to(e2),
              "arguments left out mean no column")
    j = e3 + e1
    ctx.check(len(j.outputs) == 1 and len(e3.outputs) == 0 and len(RestrictedPlug().outputs) == 0, "joining leaves both plugs unchanged")
    ctx.reach("wide" if got else "wide, not linked")


# ---- data --------------------------------------------------------------------------
class Data:
    """timeline data: {(scenario, name): [value per time step]} in column order"""

    def __init__(self, cells, index, multi=True):
        self.cells, self.index, self.multi = cells, list(index), multi

    def copy(self):
        return Data(dict((k, list(v)) for k, v in self.cells.items()), self.index, self.multi)

    def scenarios(self):
        return list(dict.fromkeys(s for s, _ in self.cells))

    def names(self):
        return list(dict.fromkeys(n for _, n in self.cells))

    def frame(self, ctx):
        cols = list(self.cells)
        d = {c: self.cells[c] for c in cols}
        df = pd.DataFrame(d, index=self.index, dtype=object if ctx.symbolic else float)
        if self.multi:
            df.columns = pd.MultiIndex.from_tuples(cols)
        else:
            df.columns = [n for _, n in cols]
        return df


def data(ctx, h, cols, index="range", multi=True, lo=None):
    cells = {c: [ctx.real("d.%s.%s@%d" % (c[0], c[1], t), lo) for t in range(h)] for c in cols}
    if index == "gaps":  # missing values
        for j, c in enumerate(cells):
            for t in range(h):
                if (t + 2 * j) % 3 == 1:
                    cells[c][t] = float("nan")
    ix = dict(range=range(h), gaps=range(h), offset=range(10, 10 + h), dates=pd.date_range("2020-01-01", periods=h, freq="h"),
              rev=range(h - 1, -1, -1))[index]
    return Data(cells, ix, multi)


def missing(x):
    return isinstance(x, float) and x != x


def check_frame(ctx, df, want, label, order=False):
    got = [tuple(c) if isinstance(c, tuple) else (0, c) for c in df.columns.tolist()]
    got = [(int(s) if isinstance(s, (int, float, np.number)) else s, n) for s, n in got]
    ctx.check(len(got) == len(set(got)), label + ": columns are unique")
    if set(got) != set(want.cells):
        ctx.check(False, label + ": scenarios and columns")
        return
    if order:
        ctx.check(got == list(want.cells), label + ": order of the columns")
    ctx.check(list(df.index) == list(want.index), label + ": time index")
    if len(df) != len(want.index):
        return
    for j, c in enumerate(got):
        col = list(df.iloc[:, j].values)
        for t, x in enumerate(want.cells[c]):
            if missing(x):
                ctx.check(missing(col[t]), label + ": missing values stay missing")
            else:
                ctx.check(not missing(col[t]) and ctx.eq(col[t], x, 1e-9), label + ": values")


# ---- reference stages ----------------------------------------------------------------
def ref_clip(ctx, d, lower, upper):
    o = d.copy()
    for k, v in o.cells.items():
        for t, x in enumerate(v):
            if missing(x):
                continue
            if lower is not None:
                x = ctx.ite(x < lower, lower, x)
            if upper is not None:
                x = ctx.ite(x > upper, upper, x)
            v[t] = x
    return o


def ref_rename(ctx, d, m):
    o = d.copy()
    o.cells = {(s, m.get(n, n)): v for (s, n), v in o.cells.items()}
    return o


def ref_drop(ctx, d, names):
    o = d.copy()
    o.cells = {(s, n): v for (s, n), v in o.cells.items() if n not in names}
    return o


def ref_repeat(ctx, d, n):
    o = d.copy()
    r = {s: i for i, s in enumerate(d.scenarios())}
    o.cells = {(k * len(r) + r[s], nm): list(v) for k in range(n) for (s, nm), v in d.cells.items()}
    return o


COLS = {
    "one": [(0, "a")],
    "two": [(0, "a"), (0, "b")],
    "scn": [(0, "a"), (0, "b"), (1, "a"), (1, "b")],
    "mixed": [(0, "a"), (1, "a"), (2, "a"), (0, "b"), (1, "b"), (2, "b")],
    "odd": [(3, "b"), (3, "a"), (7, "a"), (7, "b")],
    "blank": [(0, "a"), (0, "")],
    "words": [(s, n) for s in (0, 1) for n in ("a", "alpha beta", "quantity", "b", "")],
    "wide": [(s, n) for s in (4, 2, 0, 1, 3) for n in ("f", "e", "d", "b", "a")],
    "three": [(1, "c"), (1, "a"), (1, "b"), (0, "b"), (0, "c"), (0, "a")],
}


def flat_of(cols):
    return all(s == 0 for s, _ in cols)


def inputs_of(ctx, h, cols, index):
    c = COLS[cols]
    return data(ctx, h, c, index, multi=not flat_of(c))


def run_stage(ctx, make, d, ref, label):
    """stage and data are left alone, the same stage can run again, on other data too"""
    import hadar as hd  # noqa

    want = ref(d)
    st = make()
    df = d.frame(ctx)
    out, ex = attempt(lambda: st(df))
    if ex is not None:
        ctx.check(False, "%s: runs (%s)" % (label, type(ex).__name__))
        return None
    check_frame(ctx, out, want, label)
    unchanged(ctx, df, d, label)
    # writing in the answer does not reach the input
    before = d
    out.iloc[:, :] = -1.0
    unchanged(ctx, df, before, label)
    out2, ex = attempt(lambda: st(df))
    if ex is None:
        check_frame(ctx, out2, want, label + " again")
    else:
        ctx.check(False, "%s: runs again (%s)" % (label, type(ex).__name__))
    # other data: other scenarios, columns in another order, another horizon
    scns, names = d.scenarios(), d.names()
    oth = Data({(sc, nm): [ctx.real("e%s.%s.%s@%d" % (label, sc, nm, t)) for t in range(len(d.index) + 1)] for sc in scns[:1] + [8] for nm in reversed(names)},
               range(5, 6 + len(d.index)))
    for e in (oth, d):
        out3, ex = attempt(lambda: st(e.frame(ctx)))
        if ex is None:
            check_frame(ctx, out3, ref(e), label + " on other data")
        else:
            ctx.check(False, "%s: runs on other data (%s)" % (label, type(ex).__name__))
    return st


def unchanged(ctx, df, d, label):
    same_cols = df.columns.tolist() == ([c for c in d.cells] if d.multi else [n for _, n in d.cells])
    ctx.check(same_cols, label + ": the given data keeps its columns")
    if same_cols:
        check_frame(ctx, df, d, label + ": the given data is unchanged")


def h_clip(ctx, h, cols, index, which):
    from hadar.workflow.pipeline import Clip

    d = inputs_of(ctx, h, cols, index)
    lo = ctx.real("lower") if "l" in which else None
    up = ctx.real("upper") if "u" in which else None
    if lo is not None and up is not None:
        ctx.assume(lo <= up)
    kw = {}
    if lo is not None:
        kw["lower"] = lo
    if up is not None:
        kw["upper"] = up
    run_stage(ctx, lambda: Clip(**kw), d, lambda d: ref_clip(ctx, d, lo, up), "Clip")
    ctx.reach("clip")


def h_rename(ctx, h, cols, index, m):
    from hadar.workflow.pipeline import Rename, ToShuffler

    d = inputs_of(ctx, h, cols, index)
    run_stage(ctx, lambda: Rename(**dict(m)), d, lambda d: ref_rename(ctx, d, dict(m)), "Rename")
    run_stage(ctx, lambda: ToShuffler("a"), d, lambda d: ref_rename(ctx, d, {"a": "to_shuffler"}), "ToShuffler")
    st = Rename(zz="y")
    _, ex = attempt(lambda: st(d.frame(ctx)))
    ctx.check(isinstance(ex, ValueError), "a stage refuses data without its inputs")
    ctx.reach("rename")


def h_drop(ctx, h, cols, index, names):
    from hadar.workflow.pipeline import Drop

    d = inputs_of(ctx, h, cols, index)
    ns = [names] if isinstance(names, str) else list(names)
    run_stage(ctx, lambda: Drop(names if isinstance(names, str) else list(names)), d, lambda d: ref_drop(ctx, d, ns), "Drop")
    _, ex = attempt(lambda: Drop("zz")(d.frame(ctx)))
    ctx.check(isinstance(ex, ValueError), "a stage refuses data without its inputs")
    ctx.reach("drop")


def h_repeat(ctx, h, cols, index, n):
    from hadar.workflow.pipeline import RepeatScenario

    d = inputs_of(ctx, h, cols, index)
    run_stage(ctx, lambda: RepeatScenario(n), d, lambda d: ref_repeat(ctx, d, n), "RepeatScenario")
    ctx.reach("repeat")


def focus_cls(ctx):
    from hadar.workflow.pipeline import FocusStage, RestrictedPlug

    class Mix(FocusStage):
        """a -> s, -s (uses the scenario number too)"""

        def __init__(self, weights):
            FocusStage.__init__(self, plug=RestrictedPlug(inputs=["a"], outputs=["s", "-s"]))
            self.weights = weights

        def _process_scenarios(self, n_scn, scenario):
            scenario["-s"] = -scenario["a"] - self.weights[int(n_scn)]
            scenario["s"] = scenario["a"] + self.weights[int(n_scn)]
            return scenario.drop(["a"], axis=1)

    return Mix


def ref_mix(ctx, d, w):
    o = d.copy()
    cells = {}
    for (s, n), v in d.cells.items():
        if n == "a":
            cells[(s, "s")] = [x + w[s] for x in v]
            cells[(s, "-s")] = [-x - w[s] for x in v]
        else:
            cells[(s, n)] = list(v)
    o.cells = cells
    return o


def h_focus(ctx, h, cols, index):
    d = inputs_of(ctx, h, cols, index)
    w = {s: ctx.real("w%s" % s) for s in d.scenarios() + [8]}
    Mix = focus_cls(ctx)
    run_stage(ctx, lambda: Mix(w), d, lambda d: ref_mix(ctx, d, w), "FocusStage")
    ctx.reach("focus")


# ---- pipelines --------------------------------------------------------------------------
def stage_of(ctx, code, par):
    """(stage, reference function, plug inputs, plug outputs or None when free)"""
    from hadar.workflow.pipeline import Clip, Rename, Drop, RepeatScenario, ToShuffler

    if code == "clip":
        return Clip(lower=par["lo"], upper=par["up"]), lambda d: ref_clip(ctx, d, par["lo"], par["up"]), None, None
    if code == "rep":
        return RepeatScenario(2), lambda d: ref_repeat(ctx, d, 2), None, None
    if code == "mix":
        return focus_cls(ctx)(par["w"]), lambda d: ref_mix(ctx, d, par["w"]), ["a"], ["s", "-s"]
    kind, arg = code.split(":")
    if kind == "ren":
        m = dict(x.split(">") for x in arg.split(","))
        return Rename(**m), lambda d: ref_rename(ctx, d, m), list(m), list(m.values())
    if kind == "drop":
        ns = arg.split(",")
        return Drop(ns), lambda d: ref_drop(ctx, d, ns), ns, []
    return ToShuffler(arg), lambda d: ref_rename(ctx, d, {arg: "to_shuffler"}), [arg], ["to_shuffler"]


PIPES = [
    ["clip", "clip"], ["clip", "rep", "ren:a>x"], ["ren:a>b,b>a", "clip", "drop:b"], ["mix", "ren:s>u", "clip"],
    ["rep", "mix", "drop:-s", "tosh:s"], ["ren:b>q", "ren:q>r", "ren:r>b"], ["ren:a>x", "clip", "rep", "drop:x"],
    ["ren:a>x", "clip", "ren:b>y"], ["drop:a", "drop:b"], ["mix", "ren:a>z"], ["ren:b>c2", "ren:c2>b", "mix"], ["clip", "mix", "clip", "drop:-s", "ren:s>a", "mix"],
    ["ren:a>x,b>y", "drop:x", "ren:y>a", "mix"], ["ren:a>x", "ren:x>y", "ren:x>z"], ["rep", "rep", "tosh:a"],
    ["ren:a>x,b>y", "ren:x>p", "ren:y>q", "drop:p,q"], ["mix", "drop:s", "clip", "drop:s"], ["tosh:zz", "clip"], ["clip"],
    ["ren:a>x", "ren:b>y"], ["clip", "ren:a>x", "ren:b>y"],
]


def h_pipeline(ctx, h, cols, index, k):
    """composition, acceptance, and no effect on stages, data or other pipelines"""
    from hadar.workflow.pipeline import Pipeline

    codes = PIPES[k]
    d = inputs_of(ctx, h, cols, index)
    lo, up = ctx.real("lower"), ctx.real("upper")
    ctx.assume(lo <= up)
    par = dict(lo=lo, up=up, w={i: ctx.real("w%d" % i) for i in range(20)})
    ref = [stage_of(ctx, c, par) for c in codes]

    def mk():
        return [stage_of(ctx, c, par)[0] for c in codes]

    # expected plug and linkability
    ins, outs, ok, started = [], [], True, False
    for _, _, i, o in ref:
        if i is None:
            continue
        if not started:
            ins, outs, started = list(i), list(o), True
        else:
            if not all(x in outs for x in i):
                ok = False
                break
            outs = list(o) + [x for x in outs if x not in i]

    def build_list(stages):
        return Pipeline(stages=stages)

    def build_add(stages):
        p = stages[0]
        if len(stages) == 1:
            return Pipeline(stages=stages)
        for s in stages[1:]:
            p = p + s
        return p

    others = [Data({k_: [ctx.real("e.%s.%s@%d" % (k_ + (t,))) for t in range(h)] for k_ in d.cells}, d.index, d.multi),
              Data({(sc, nm): [ctx.real("f.%s.%s@%d" % (sc, nm, t)) for t in range(h + 1)] for sc in d.scenarios()[:1] + [8] for nm in reversed(d.names())},
                   range(5, 6 + h))]
    kept = mk()
    for way, build in (("list", build_list), ("sum", build_add)):
        for stages in (mk(), kept):
            p, ex = attempt(lambda: build(stages))
            if not ok:
                ctx.check(isinstance(ex, ValueError), "stages that do not fit are refused (%s)" % way)
                continue
            if ex is not None:
                ctx.check(False, "stages that fit are linked (%s)" % way)
                continue
            ctx.check(set(p.plug.inputs) == set(ins) and set(p.plug.outputs) == set(outs), "inputs and outputs of a pipeline")
            df = d.frame(ctx)
            accept = all(x in d.names() for x in ins)
            out, ex = attempt(lambda: p(df))
            if not accept:
                ctx.check(isinstance(ex, ValueError), "a pipeline refuses data without its inputs")
                continue
            if ex is not None:
                ctx.check(False, "a pipeline runs on the data it accepts (%s)" % type(ex).__name__)
                continue
            w = d
            for _, f, _, _ in ref:
                w = f(w)
            if w.cells:
                check_frame(ctx, out, w, "pipeline")
            unchanged(ctx, df, d, "pipeline")
            # the same pipeline on other timelines: same shape, then another one
            for e in others:
                o, ex = attempt(lambda: p(e.frame(ctx)))
                if ex is not None:
                    ctx.check(False, "a pipeline runs on other data (%s)" % type(ex).__name__)
                    continue
                we = e
                for _, f, _, _ in ref:
                    we = f(we)
                if we.cells:
                    check_frame(ctx, o, we, "pipeline on other data")
            # a pipeline can be extended in several ways, and used again
            n = len(p.stages)
            tail = "clip"
            q1, ex1 = attempt(lambda: p + stage_of(ctx, tail, par)[0])
            q2, ex2 = attempt(lambda: p + stage_of(ctx, "rep", par)[0])
            ctx.check(ex1 is None and ex2 is None, "a pipeline can be extended")
            if w.cells:
                for q, f in ((p, lambda x: x), (q1, stage_of(ctx, tail, par)[1]), (q2, stage_of(ctx, "rep", par)[1])):
                    o, ex = attempt(lambda: q(d.frame(ctx)))
                    if ex is not None:
                        ctx.check(False, "extending a pipeline leaves it unchanged (%s)" % type(ex).__name__)
                    else:
                        check_frame(ctx, o, f(w), "extended pipeline")
    for bad in (None, 3, "clip", [], kept[0].plug):
        _, ex = attempt(lambda: kept[0] + bad)
        ctx.check(isinstance(ex, ValueError), "what is not a stage is refused")
        if ok:
            p = Pipeline(stages=mk())
            _, ex = attempt(lambda: p + bad)
            ctx.check(isinstance(ex, ValueError), "what is not a stage is refused")
    ctx.reach("linked" if ok else "refused")


# ---- faults ---------------------------------------------------------------------------------
def fault_shapes(h, lo, hi, faults=None):
    """all vectors: number of faults active at each step"""
    one = set()
    for b in range(h):
        for dur in range(lo, hi + 1):
            one.add(tuple(1 if b <= t < b + dur else 0 for t in range(h)))
    out = set()
    ns = range(0, h + 1) if faults is None else [faults]
    for n in ns:
        for c in itertools.combinations_with_replacement(sorted(one), n):
            out.add(tuple(sum(x[t] for x in c) for t in range(h)))
    return sorted(out)


def h_fault(ctx, h, lo, hi, freq, scns=1, extra=False, index="range"):
    """for every draw: the quantity drops by a whole number of losses made of faults within the declared durations"""
    from hadar.workflow.pipeline import Fault

    cols = [(s, "quantity") for s in range(scns)]
    if extra:
        cols += [(s, "other") for s in range(scns)]
    d = data(ctx, h, cols, index, multi=scns > 1)
    loss = ctx.real("loss", 0, lo_open=True)
    f = ctx.real("freq", 0, 1) if freq is None else freq
    st = Fault(loss=loss, occur_freq=f, downtime_min=lo, downtime_max=hi)
    df = d.frame(ctx)
    out, ex = attempt(lambda: st(df))
    if ex is not None:
        ctx.check(False, "Fault: runs for every draw (%s)" % type(ex).__name__)
        return
    unchanged(ctx, df, d, "Fault")
    cols = [tuple(c) for c in out.columns.tolist()]
    ctx.check(sorted(map(str, cols)) == sorted(map(str, d.cells)), "Fault: scenarios and columns")
    ctx.check(list(out.index) == list(d.index), "Fault: time index")
    shapes = fault_shapes(h, lo, hi, 0 if freq == 0 else h if freq == 1 else None)
    for s in range(scns):
        got = list(out[(s, "quantity")].values)
        diff = [x - y for x, y in zip(d.cells[(s, "quantity")], got)]
        ctx.check(ctx.any([ctx.all([ctx.eq(diff[t], k[t] * loss, 1e-7) for t in range(h)]) for k in shapes]),
                  "Fault: losses are faults of the declared durations")
        if freq is None or 0 < freq < 1:
            for t in range(h):
                ctx.possible(ctx.eq(diff[t], loss, 1e-7), "a fault can reach time step %d of scenario %d" % (t, s))
            if h > hi:
                for n in range(lo, hi + 1):
                    k = [1 if t < n else 0 for t in range(h)]
                    ctx.possible(ctx.all([ctx.eq(diff[t], k[t] * loss, 1e-7) for t in range(h)]), "a fault can last %d steps in scenario %d" % (n, s))
        if (freq is None or 0 < freq < 1) and s == 0:
            ctx.possible(ctx.all([ctx.eq(x, 0.0, 1e-7) for x in diff]), "no fault can happen at all")
            if h > 1 and lo > 0:
                ctx.possible(ctx.eq(diff[h - 1], 2 * loss, 1e-7), "two faults can add up")
        if s == 1 and (freq is None or 0 < freq < 1):
            d0 = [x - y for x, y in zip(d.cells[(0, "quantity")], list(out[(0, "quantity")].values))]
            ctx.possible(ctx.any([ctx.not_(ctx.eq(x, y, 1e-7)) for x, y in zip(d0, diff)]), "scenarios can have different faults")
        if extra:
            for x, y in zip(list(out[(s, "other")].values), d.cells[(s, "other")]):
                ctx.check(ctx.eq(x, y, 1e-9), "Fault: other columns pass")
    ctx.reach("fault")


def h_fault_seed(ctx, h, lo, hi, seed):
    """with a seed, two runs give the same faults"""
    from hadar.workflow.pipeline import Fault

    d = data(ctx, h, [(0, "quantity")], multi=False)
    loss = ctx.real("loss", 0, lo_open=True)
    mk = lambda: Fault(loss=loss, occur_freq=0.5, downtime_min=lo, downtime_max=hi, seed=seed)
    a = mk()
    outs = [attempt(lambda: a(d.frame(ctx))), attempt(lambda: a(d.frame(ctx))), attempt(lambda: mk()(d.frame(ctx)))]
    for o, ex in outs:
        ctx.check(ex is None, "Fault with a seed runs")
    if all(ex is None for _, ex in outs):
        vs = [list(o[(0, "quantity")].values) for o, _ in outs]
        for v in vs[1:]:
            for x, y in zip(vs[0], v):
                ctx.check(ctx.eq(x, y, 1e-9), "the same seed gives the same faults")
    ctx.reach("seeded")


# ---- shuffler -----------------------------------------------------------------------------------
CALLS = []


class Sampler:
    """a public sampler whose draws are symbols; refuses bounds that leave the data"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def __deepcopy__(self, memo):
        return self

    def __call__(self, low, high=None, size=None):
        self.ctx.samples.append((int(low), int(high), int(size)))
        k = len(self.ctx.samples)
        draws = [self.ctx.rng_int("draw:%d:%d" % (k, i), low, high - 1) for i in range(int(size))]
        a = np.empty(len(draws), dtype=object)
        a[:] = draws
        return self.ctx.wrap_ints(a)


def h_shuffle(ctx, h, nb, sizes, pipes, default):
    """every sampled scenario is a scenario of its own source, in source order of time"""
    import hadar as hd
    from hadar.workflow.pipeline import RepeatScenario, ToShuffler, Clip, Rename

    ctx.samples = []
    sh = hd.Shuffler() if default else hd.Shuffler(sampler=Sampler(ctx))
    src, given = {}, {}
    for i, n in enumerate(sizes):
        m = [[ctx.real("raw%d@%d,%d" % (i, s, t)) for t in range(h)] for s in range(n)]
        given["raw%d" % i] = arr(ctx, m)
        r = sh.add_data(name="raw%d" % i, data=given["raw%d" % i])
        ctx.check(r is sh, "adding a source returns the shuffler")
        src["raw%d" % i] = m
    for i, cols in enumerate(pipes):
        c = COLS[cols]
        d = Data({k: [ctx.real("p%d.%s.%s@%d" % (i, k[0], k[1], t)) for t in range(h)] for k in c},
                 (range(h + 4, 4, -1), pd.date_range("2020-01-01", periods=h, freq="h"), range(h))[i % 3], multi=not flat_of(c))
        df = d.frame(ctx)
        lo = ctx.real("lower%d" % i)
        p = RepeatScenario(2) + Clip(lower=lo) + ToShuffler("a")
        r, ex = attempt(lambda: sh.add_pipeline(name="pipe%d" % i, data=df, pipeline=p))
        ctx.check(ex is None and r is sh, "adding a source returns the shuffler")
        unchanged(ctx, df, d, "shuffler")
        w = ref_clip(ctx, ref_repeat(ctx, d, 2), lo, None)
        src["pipe%d" % i] = [w.cells[k] for k in w.cells if k[1] == "a"]
    res, ex = attempt(lambda: sh.shuffle(nb))
    if ex is not None:
        ctx.check(False, "shuffling works for every draw (%s)" % type(ex).__name__)
        return
    ctx.check(set(res) == set(src), "one matrix per source")
    for name, m in src.items():
        if name not in res:
            continue
        g = res[name]
        ok = getattr(g, "shape", None) == (nb, h)
        ctx.check(ok, "one row per asked scenario")
        if ok:
            for r in range(nb):
                ctx.check(ctx.any([ctx.all([ctx.eq(g[r, t], x[t], 1e-9) for t in range(h)]) for x in m]),
                          "each sampled scenario is a scenario of the source")
            for i, x in enumerate(m):
                # (and recognised: no other scenario has the same values)
                apart = [ctx.not_(ctx.eq(x[0], y[0], 1e-9)) for j, y in enumerate(m) if j != i] if name in given else []
                ctx.possible(ctx.all([ctx.eq(g[nb - 1, t], x[t], 1e-9) for t in range(h)] + apart), "scenario %d of %s can be sampled" % (i, name))
            # what was given is left alone, what was returned belongs to the caller
            if name in given:
                for q in range(len(m)):
                    for t in range(h):
                        ctx.check(ctx.eq(given[name][q, t], m[q][t], 1e-9), "the given data is unchanged")
            if ok:
                g[...] = -99.0
    # shuffle again: other size, one more source
    m = [[ctx.real("late@%d,%d" % (q, t)) for t in range(h)] for q in range(2)]
    sh.add_data(name="late", data=arr(ctx, m))
    src["late"] = m
    other = hd.Shuffler()
    other.add_data(name="other", data=arr(ctx, [[1.0] * h]))
    for shf, want_, n_ in ((sh, src, 1), (other, {"other": [[1.0] * h]}, 2)):
        res, ex = attempt(lambda: shf.shuffle(n_))
        ctx.check(ex is None, "shuffling again works")
        if ex is None:
            ctx.check(set(res) == set(want_), "one matrix per source, of this shuffler only")
            for name, m in want_.items():
                g = res.get(name)
                if getattr(g, "shape", None) != (n_, h):
                    ctx.check(False, "one row per asked scenario, again")
                    continue
                for r in range(n_):
                    ctx.check(ctx.any([ctx.all([ctx.eq(g[r, t], x[t], 1e-9) for t in range(h)]) for x in m]),
                              "each scenario sampled again is a scenario of the source")
    if not default and ctx.symbolic:
        for (lo, hi, n) in ctx.samples[:len(src) - 1]:
            ctx.check(n == nb and lo == 0 and hi in [len(m) for m in src.values()], "the sampler gets the bounds of the source")
    ctx.reach("shuffled")


def h_refuse(ctx):
    """the shuffler refuses pipelines that cannot run or do not end in it"""
    import hadar as hd
    from hadar.workflow.pipeline import RepeatScenario, ToShuffler, Clip, Rename, Drop, Pipeline

    d = data(ctx, 2, COLS["scn"])
    good = {"plain": lambda: RepeatScenario(2) + ToShuffler("a"), "then clip": lambda: Pipeline([ToShuffler("a"), Clip(lower=0)])}
    bad = {"no end": lambda: RepeatScenario(2) + Rename(a="b2"), "free only": lambda: Clip(lower=0) + RepeatScenario(2),
           "missing input": lambda: RepeatScenario(2) + ToShuffler("zz"), "dropped": lambda: ToShuffler("a") + Drop("to_shuffler")}
    for n, f in good.items():
        sh = hd.Shuffler()
        _, ex = attempt(lambda: sh.add_pipeline("x", d.frame(ctx), f()))
        ctx.check(ex is None, "a pipeline that ends in the shuffler is accepted (%s)" % n)
    for n, f in bad.items():
        sh = hd.Shuffler()
        _, ex = attempt(lambda: sh.add_pipeline("x", d.frame(ctx), f()))
        ctx.check(isinstance(ex, ValueError), "a pipeline that cannot feed the shuffler is refused (%s)" % n)
    ctx.reach("refuse")


def h_timeline(ctx, h, cols, nb):
    """sampling a timeline without a shuffler"""
    from hadar.workflow.pipeline import RepeatScenario, ToShuffler, Clip
    from hadar.workflow import shuffler

    Timeline, TimelinePipeline = shuffler.Timeline, getattr(shuffler, "TimelinePipeline", None)
    if TimelinePipeline is None:  # not a public name
        return ctx.reach("timeline")
    ctx.samples = []
    c = COLS[cols]
    d = data(ctx, h, c, multi=not flat_of(c))
    lo = ctx.real("lower")
    w = ref_clip(ctx, ref_repeat(ctx, d, 2), lo, None)
    raw = [[ctx.real("raw@%d,%d" % (q, t)) for t in range(h)] for q in range(3)]
    for tl, m in ((TimelinePipeline(d.frame(ctx), RepeatScenario(2) + Clip(lower=lo) + ToShuffler("a"), sampler=Sampler(ctx)),
                   [w.cells[k] for k in w.cells if k[1] == "a"]), (Timeline(arr(ctx, raw), sampler=Sampler(ctx)), raw)):
        for n in (nb, 1):
            g, ex = attempt(lambda: tl.sample(n))
            if ex is not None or getattr(g, "shape", None) != (n, h):
                ctx.check(False, "a timeline is sampled")
                continue
            for r in range(n):
                ctx.check(ctx.any([ctx.all([ctx.eq(g[r, t], x[t], 1e-9) for t in range(h)]) for x in m]), "each sample is a scenario of the timeline")
            for i, x in enumerate(m):
                if m is raw:
                    apart = [ctx.not_(ctx.eq(x[0], y[0], 1e-9)) for j, y in enumerate(m) if j != i]
                    ctx.possible(ctx.all([ctx.eq(g[n - 1, t], x[t], 1e-9) for t in range(h)] + apart), "scenario %d can be sampled" % i)
    ctx.reach("timeline")


def h_fault_sources(ctx, h):
    """pipelines of one shuffler generate their faults independently"""
    import hadar as hd
    from hadar.workflow.pipeline import Fault, ToShuffler

    one = lambda n: pd.DataFrame({"quantity": [100.0] * n})
    mk = lambda: Fault(loss=1.0, occur_freq=0.5, downtime_min=1, downtime_max=2) + ToShuffler("quantity")
    if ctx.symbolic:
        sh, ds = hd.Shuffler(), []
        for i in range(2):
            d = Data({(0, "quantity"): [ctx.real("q%d@%d" % (i, t)) for t in range(h)]}, range(h), multi=False)
            ds.append(d.cells[(0, "quantity")])
            sh.add_pipeline("s%d" % i, d.frame(ctx), mk())
        res = sh.shuffle(1)
        loss = [[ds[i][t] - res["s%d" % i][0, t] for t in range(h)] for i in range(2)]
        ctx.possible(ctx.any([ctx.not_(ctx.eq(loss[0][t], loss[1][t])) for t in range(h)]), "two pipelines can have different faults")
        ctx.reach("fault sources")
        return
    for _ in range(6):  # replay: real processes and generator; 300 steps never coincide by chance
        sh = hd.Shuffler()
        for i in range(16):
            sh.add_pipeline("s%d" % i, one(300), mk())
        res = sh.shuffle(1)
        rows = [tuple(v[0]) for v in res.values()]
        if len(set(rows)) < len(rows):
            ctx.check(False, "two pipelines can have different faults")
            return


def h_independent(ctx, n, k, nb):
    """the draws of two sources are not tied together"""
    import hadar as hd

    if ctx.symbolic:
        sh = hd.Shuffler()
        m = [[float(s)] for s in range(n)]
        for i in range(k):
            sh.add_data("s%d" % i, arr(ctx, m))
        res = sh.shuffle(nb)
        ctx.possible(ctx.all([ctx.any([ctx.not_(ctx.eq(res["s%d" % i][r, 0], res["s%d" % j][r, 0])) for r in range(nb)])
                              for i in range(k) for j in range(i)]), "two sources can be sampled differently")
        ctx.reach("independent")
        return
    # replay: real processes, real generator; 40 draws among 1000 rows never coincide by chance
    for _ in range(6):
        sh = hd.Shuffler()
        for i in range(16):
            sh.add_data("s%d" % i, np.arange(1000.0).reshape(1000, 1))
        res = sh.shuffle(40)
        rows = [tuple(v[:, 0]) for v in res.values()]
        if len(set(rows)) < len(rows):
            ctx.check(False, "two sources can be sampled differently")
            return
