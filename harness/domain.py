"""Harnesses over the study description: values, validation, fluent API, JSON."""
import json

import numpy as np
import pandas as pd

from .studies import StudySpec, skeletons, node, value, SHAPES
from .util import arr, attempt, same, snapshot

SK = skeletons()


# ---- numerical values ------------------------------------------------------
def given_as(ctx, kind, g):
    """the same data in the containers the API accepts"""
    if kind == "list":
        return g if not isinstance(g, np.ndarray) else g.tolist()
    if kind == "array":
        return arr(ctx, g)
    if kind == "series":
        return pd.Series(g, dtype=object) if ctx.symbolic else pd.Series(g)
    if kind == "frame":
        return pd.DataFrame(g, dtype=object) if ctx.symbolic else pd.DataFrame(g)
    raise ValueError(kind)


def flat(given, m):
    return [x for row in m for x in row]


def study_with(h, S, given, via):
    """store one numerical value through the public API and return the stored value object"""
    import hadar as hd

    st = hd.Study(horizon=h, nb_scn=S)
    n = st.network().node("a")
    if via == "prod":
        n.production(name="p", cost=0, quantity=given)
        return st.networks["default"].nodes["a"].productions[0].quantity
    if via == "cost":
        n.consumption(name="p", cost=given, quantity=1)
        return st.networks["default"].nodes["a"].consumptions[0].cost
    if via == "cap":
        n.storage(name="p", capacity=given, flow_in=1, flow_out=1)
        return st.networks["default"].nodes["a"].storages[0].capacity
    n.node("b").link(src="a", dest="b", cost=0, quantity=given)
    return st.networks["default"].nodes["a"].links[0].quantity


def h_value(ctx, h, S, shape, kind, via):
    v = value(ctx, "v", h, S, shape, 0)
    given = v.given if shape == "scalar" else given_as(ctx, kind, v.given)
    q = study_with(h, S, given, via)
    for s in range(S):
        for t in range(h):
            ctx.check(ctx.eq(q[s, t], v.m[s][t], 1e-12), "value seen at each (scenario, time step)")
    f = list(q.flatten())
    ctx.check(len(f) == h * S, "flatten has one entry per (scenario, time step)")
    for i, x in enumerate(flat(given, v.m)[:len(f)]):
        ctx.check(ctx.eq(f[i], x, 1e-12), "flatten lists scenario after scenario")
    # what flatten returns belongs to the caller
    f = q.flatten()
    if isinstance(f, np.ndarray) and f.flags.writeable:
        f[...] = -55.0
        for s in range(S):
            for t in range(h):
                ctx.check(ctx.eq(q[s, t], v.m[s][t], 1e-12), "changing the flattened copy does not reach the study")
    for i, j in ((S, 0), (0, h), (S + 3, h + 5)):
        _, ex = attempt(lambda: q[i, j])
        ctx.check(isinstance(ex, IndexError), "indexes out of the study are refused")
    # comparisons with a bound speak about every cell
    b = ctx.real("bound")
    cells = [x for row in v.m for x in row]
    for lab, got, want in (("<", q < b, [x < b for x in cells]), ("<=", q <= b, [x <= b for x in cells]),
                           (">", q > b, [x > b for x in cells]), (">=", q >= b, [x >= b for x in cells])):
        want = ctx.all(want)
        ctx.check(ctx.all([ctx.implies(got, want), ctx.implies(want, got)]), "comparison %s a bound holds iff for every cell" % lab)
    # the study owns its data
    if shape != "scalar" and kind in ("array", "list"):
        if kind == "array":
            given[...] = -77.0
        else:
            for r in range(len(given)):
                if isinstance(given[r], list):
                    given[r][0] = -77.0
                else:
                    given[r] = -77.0
        for s in range(S):
            for t in range(h):
                ctx.check(ctx.eq(q[s, t], v.m[s][t], 1e-12), "later changes of the caller's data do not reach the study")
    ctx.reach("value")


def h_reuse(ctx, h, S, shape, kind):
    """one container filled again and again: each declaration takes what it holds then"""
    import hadar as hd

    vs = [value(ctx, "v%d" % i, h, S, shape, 0) for i in range(4)]
    box = given_as(ctx, kind, snapshot(vs[0].given) if kind == "list" else vs[0].given)
    st = hd.Study(horizon=h, nb_scn=S)
    n = st.network().node("a")
    st.network().node("b")
    for i, v in enumerate(vs):
        if i:
            new = given_as(ctx, kind, snapshot(v.given) if kind == "list" else v.given)
            if kind == "list":
                for k in range(len(box)):
                    if isinstance(box[k], list):
                        box[k][:] = new[k]
                    else:
                        box[k] = new[k]
            elif kind == "array":
                box[...] = new
            else:
                for k in range(len(box)):
                    box.iloc[k] = new.iloc[k]
        if i == 0:
            n.production(name="p", cost=0, quantity=box)
        elif i == 1:
            n.consumption(name="c", cost=box, quantity=1)
        elif i == 2:
            n.storage(name="s", capacity=box, flow_in=box, flow_out=1)
        else:
            n.link(src="a", dest="b", cost=0, quantity=box)
    a = st.networks["default"].nodes["a"]
    for v, q in zip((vs[0], vs[1], vs[2], vs[2], vs[3]), (a.productions[0].quantity, a.consumptions[0].cost, a.storages[0].capacity, a.storages[0].flow_in, a.links[0].quantity)):
        for s_ in range(S):
            for t in range(h):
                ctx.check(ctx.eq(q[s_, t], v.m[s_][t], 1e-12), "each element has what the container held when it was declared")
    ctx.reach("reused")


def h_shape(ctx, h, S):
    """any other shape is refused"""
    import hadar as hd

    x = ctx.real("x", 0)
    ok = {(h,), (S, 1), (S, h)}
    for shp in [(1,), (2,), (3,), (4,), (h + 1,), (S,), (1, 1), (2, 1), (S + 1, 1), (1, h), (h, S), (S, h + 1), (S + 1, h), (h, 1),
                (1, S), (1, S, h), (0,), (S, 0), (h + 2,), (2 * h,), (S * h,), (h + 9,), (S, h + 2), (S, h + 5), (S, 2 * h), (S + 3, h), (2 * S, h),
                (S + 4, 1), (1, S * h), (S * h, 1), (S, h, 1), (1, 1, h), (h - 1,), (S, h - 1), (S - 1, h), (S - 1, 1)]:
        if min(shp) < 0:
            continue
        a = np.empty(shp, dtype=object)
        if a.size:
            a[...] = x
        a = arr(ctx, a.tolist()) if a.size else (arr(ctx, np.zeros(shp).tolist()).reshape(shp))
        st = hd.Study(horizon=h, nb_scn=S)
        n = st.network().node("a")
        before = st.to_json()
        _, ex = attempt(lambda: n.production(name="p", cost=0, quantity=a))
        if shp in ok:
            ctx.check(ex is None, "a fitting shape is accepted")
        else:
            ctx.check(isinstance(ex, ValueError), "a shape that does not fit is refused")
            same(ctx, st.to_json(), before, "study", "a refused value leaves the study unchanged")
    for num in (np.float64(2.5), np.int64(2), np.float32(0.5), np.int32(7), np.array(3.0), np.array(4), 3, 0.25):
        want = float(num)
        for via in ("prod", "cost", "cap", "link"):
            q, ex = attempt(lambda: study_with(h, S, num, via))
            ctx.check(ex is None and q[0, 0] == want and q[S - 1, h - 1] == want and list(map(float, q.flatten())) == [want] * (h * S),
                      "a number of any type is accepted")
    for dt in (np.int32, np.int64, np.float32, np.float64, bool, object):
        a = np.ones((S, h), dtype=dt)
        q, ex = attempt(lambda: study_with(h, S, a, "prod"))
        ctx.check(ex is None and q[S - 1, h - 1] == 1, "an array of any numeric type is accepted")
        ctx.check(q is None or type(q.value.tolist()[0][0]) is float, "values are kept as floats")
    for bad in ("10", None, {}, (1.0, 2.0), {"a": 1}):
        st = hd.Study(horizon=h, nb_scn=S)
        n = st.network().node("a")
        _, ex = attempt(lambda: n.production(name="p", cost=0, quantity=bad))
        ctx.check(isinstance(ex, ValueError), "something that is not a number is refused")


# ---- validation ------------------------------------------------------------
def base_study(h, S):
    import hadar as hd

    st = hd.Study(horizon=h, nb_scn=S)
    st.network().node("a").production(name="p", cost=1, quantity=1).consumption(name="c", cost=1, quantity=1) \
        .storage(name="s", capacity=1, flow_in=1, flow_out=1).to_converter(name="k", ratio=1) \
        .node("b").link(src="a", dest="b", cost=1, quantity=1)
    st.network("gas").node("a").converter(name="k", to_network="gas", to_node="a", max=1)
    return st


def hd_many(h, S):
    """a node with four elements of each kind"""
    import hadar as hd

    st = hd.Study(horizon=h, nb_scn=S)
    n = st.network().node("a")
    for k in range(4):
        n.production(name="p%d" % k, cost=1, quantity=1).consumption(name="c%d" % k, cost=1, quantity=1) \
            .storage(name="s%d" % k, capacity=1, flow_in=1, flow_out=1)
        n.node("b%d" % k).link(src="a", dest="b%d" % k, cost=1, quantity=1).node("b%d" % k).to_converter(name="k", ratio=1)
    return st


def fields(kind):
    """numeric arguments of a call: name -> (constraint, lower, upper)"""
    return dict(
        production=dict(quantity="pos", cost="any"), consumption=dict(quantity="pos", cost="any"),
        link=dict(quantity="pos", cost="any"),
        storage=dict(capacity="pos", flow_in="pos", flow_out="pos", cost="any", eff="unit"),
        to_converter=dict(ratio="strict"), converter=dict(max="pos", cost="any"))[kind]


def call(st, kind, kw):
    n = st.network().node("a")
    if kind == "production":
        n.production(name="new", **kw)
    elif kind == "consumption":
        n.consumption(name="new", **kw)
    elif kind == "link":
        st.network().link(src="b", dest="a", **kw)
    elif kind == "storage":
        n.storage(name="new", **kw)
    elif kind == "to_converter":
        n.to_converter(name="new", **kw)
    else:
        st.network().converter(name="new", to_network="gas", to_node="a", **kw)


def h_valid(ctx, kind, rot):
    """accepted iff every cell of every argument is in its domain; refused calls change nothing"""
    h, S = 3, 2
    st = base_study(h, S)
    kw, oks = {}, []
    fs = fields(kind)
    for i, (f, dom) in enumerate(fs.items()):
        v = value(ctx, f, h, S, SHAPES[(i + rot) % 4], as_array=bool((rot + i) % 2))
        kw[f] = v.given
        cells = [x for row in v.m for x in row]
        if dom == "pos":
            oks += [x >= 0 for x in cells]
        elif dom == "strict":
            oks += [x > 0 for x in cells]
        elif dom == "unit":
            oks += [x >= 0 for x in cells] + [x <= 1 for x in cells]
    if kind == "storage":
        init = ctx.real("init_capacity")
        kw["init_capacity"] = init
        oks.append(init >= 0)
    valid = ctx.all(oks)
    before = st.to_json()
    _, ex = attempt(lambda: call(st, kind, kw))
    if ex is None:
        ctx.check(valid, "%s: a value out of its domain is refused" % kind)
    else:
        ctx.check(isinstance(ex, ValueError), "%s: refusal is a ValueError" % kind)
        ctx.check(ctx.not_(valid), "%s: valid values are accepted" % kind)
        same(ctx, st.to_json(), before, "study", "a refused call leaves the study unchanged")
    ctx.reach("accepted" if ex is None else "refused")


def h_valid1(ctx, kind, field, shape):
    """as h_valid, one argument at a time, all shapes"""
    h, S = 2, 2
    st = base_study(h, S)
    fs = fields(kind)
    kw = {f: (0.5 if f != field else None) for f in fs}
    v = value(ctx, field, h, S, shape)
    kw[field] = v.given
    cells = [x for row in v.m for x in row]
    dom = fs[field]
    if dom == "pos":
        ok = ctx.all([x >= 0 for x in cells])
    elif dom == "strict":
        ok = ctx.all([x > 0 for x in cells])
    elif dom == "unit":
        ok = ctx.all([x >= 0 for x in cells] + [x <= 1 for x in cells])
    else:
        ok = True
    before = st.to_json()
    _, ex = attempt(lambda: call(st, kind, kw))
    if ex is None:
        ctx.check(ok, "%s: a value out of its domain is refused" % kind)
    else:
        ctx.check(isinstance(ex, ValueError), "%s: refusal is a ValueError" % kind)
        ctx.check(ctx.not_(ok), "%s: valid values are accepted" % kind)
        same(ctx, st.to_json(), before, "study", "a refused call leaves the study unchanged")
    ctx.reach("accepted" if ex is None else "refused")


def h_structure(ctx):
    """structural mistakes are refused and leave the study unchanged"""
    h, S = 2, 2
    x = ctx.real("x", 0)
    y = ctx.real("y", 0, lo_open=True)
    z = ctx.real("z")
    net = lambda st: st.network()
    a = lambda st: st.network().node("a")
    cases = {
        "duplicate production": lambda st: a(st).production(name="p", cost=z, quantity=x),
        "duplicate consumption": lambda st: a(st).consumption(name="c", cost=z, quantity=x),
        "duplicate storage": lambda st: a(st).storage(name="s", capacity=x, flow_in=x, flow_out=x),
        "duplicate link": lambda st: net(st).link(src="a", dest="b", cost=z, quantity=x),
        "link from an unknown node": lambda st: net(st).link(src="zz", dest="b", cost=z, quantity=x),
        "link to an unknown node": lambda st: net(st).link(src="a", dest="zz", cost=z, quantity=x),
        "link to itself": lambda st: net(st).link(src="a", dest="a", cost=z, quantity=x),
        "link to a node of another network": lambda st: st.network("gas").link(src="a", dest="b", cost=z, quantity=x),
        "duplicate converter source": lambda st: a(st).to_converter(name="k", ratio=y),
        "second converter destination": lambda st: net(st).converter(name="k", to_network="default", to_node="b", max=x),
        "converter to an unknown node": lambda st: net(st).converter(name="n", to_network="gas", to_node="zz", max=x),
        "converter to an unknown network": lambda st: net(st).converter(name="n", to_network="zz", to_node="a", max=x),
        "converter with a wrong shape": lambda st: net(st).converter(name="n", to_network="gas", to_node="a", max=[x] * 7),
        "converter source with a wrong shape": lambda st: a(st).to_converter(name="n", ratio=[y] * 7),
        "storage with a wrong shape": lambda st: a(st).storage(name="n", capacity=x, flow_in=x, flow_out=[x] * 5),
        "link with a wrong cost": lambda st: net(st).link(src="b", dest="a", cost=[z] * 5, quantity=x),
        "consumption with a wrong cost": lambda st: a(st).consumption(name="n", cost=[z] * 5, quantity=x),
    }
    for name, f in cases.items():
        st = base_study(h, S)
        before = st.to_json()
        _, ex = attempt(lambda: f(st))
        ctx.check(isinstance(ex, ValueError), "%s is refused" % name)
        same(ctx, st.to_json(), before, "study", "%s leaves the study unchanged" % name)
    # duplicates among several elements, the first as well as the last
    for k in range(4):
        st = hd_many(h, S)
        before = st.to_json()
        for name, f in (("production", lambda: a(st).production(name="p%d" % k, cost=z, quantity=x)),
                        ("consumption", lambda: a(st).consumption(name="c%d" % k, cost=z, quantity=x)),
                        ("storage", lambda: a(st).storage(name="s%d" % k, capacity=x, flow_in=x, flow_out=x)),
                        ("link", lambda: net(st).link(src="a", dest="b%d" % k, cost=z, quantity=x)),
                        ("converter source", lambda: st.network().node("b%d" % k).to_converter(name="k", ratio=y))):
            _, ex = attempt(f)
            ctx.check(isinstance(ex, ValueError), "duplicate %s among several is refused" % name)
        same(ctx, st.to_json(), before, "study", "duplicates among several leave the study unchanged")
    # the same names are free elsewhere
    fine = {
        "production": lambda st: st.network().node("b").production(name="p", cost=z, quantity=x),
        "consumption": lambda st: st.network("gas").node("a").consumption(name="c", cost=z, quantity=x),
        "storage": lambda st: st.network().node("b").storage(name="s", capacity=x, flow_in=x, flow_out=x),
        "production named like a consumption": lambda st: a(st).production(name="c", cost=z, quantity=x),
        "consumption named like a production": lambda st: a(st).consumption(name="p", cost=z, quantity=x),
        "storage named like a production": lambda st: a(st).storage(name="p", capacity=x, flow_in=x, flow_out=x),
        "reverse link": lambda st: net(st).link(src="b", dest="a", cost=z, quantity=x),
        "second source": lambda st: st.network().node("b").to_converter(name="k", ratio=y),
        "source in another network": lambda st: st.network("gas").node("b").to_converter(name="k", ratio=y),
        "link between nodes of the same names in another network": lambda st: st.network("gas").node("b").link(src="a", dest="b", cost=z, quantity=x),
        "link to the same destination": lambda st: st.network().node("c").link(src="c", dest="b", cost=z, quantity=x),
        "second link of a node": lambda st: st.network().node("c").link(src="a", dest="c", cost=z, quantity=x),
        "converter back to its source": lambda st: a(st).to_converter(name="n", ratio=y).converter(name="n", to_network="default", to_node="a", max=x),
        "converter to the destination of another": lambda st: st.network().node("b").to_converter(name="n", ratio=y)
            .converter(name="n", to_network="gas", to_node="a", max=x),
        "names that only resemble": lambda st: [a(st).production(name=n, cost=z, quantity=x).consumption(name=n, cost=z, quantity=x)
                                                .storage(name=n, capacity=x, flow_in=x, flow_out=x).to_converter(name=n, ratio=y)
                                                for n in ("P", "C", "S", "K", "pp", "cc", "ss", "kk", " p", "c ", "s ", "k ", "")],
        "a node and a network of the same name": lambda st: st.network("a").node("default").production(name="p", cost=z, quantity=x),
        "second converter": lambda st: net(st).converter(name="n", to_network="gas", to_node="a", max=x),
    }
    for name, f in fine.items():
        _, ex = attempt(lambda: f(base_study(h, S)))
        ctx.check(ex is None, "%s is accepted" % name)
    ctx.reach("structure")


# ---- what was declared is what is stored -------------------------------------
def check_study(ctx, spec, st, label, order=True):
    h, S = spec.h, spec.S
    ctx.check(st.horizon == h and st.nb_scn == S, label + ": horizon and scenarios")
    nets = spec.sk["nets"]
    ctx.check(list(st.networks) == list(nets), label + ": networks")

    def eqv(q, v, lab):
        for s in range(S):
            for t in range(h):
                ctx.check(ctx.eq(q[s, t], v.m[s][t], 1e-12), "%s: %s" % (label, lab))

    for n, net in nets.items():
        if n not in st.networks:
            continue
        ctx.check(list(st.networks[n].nodes) == list(net), label + ": nodes of a network")
        for m, d in net.items():
            if m not in st.networks[n].nodes:
                continue
            nd = st.networks[n].nodes[m]
            ctx.check([c.name for c in nd.consumptions] == d["cons"], label + ": consumptions of a node")
            ctx.check([c.name for c in nd.productions] == d["prod"], label + ": productions of a node")
            ctx.check([c.name for c in nd.storages] == d["stor"], label + ": storages of a node")
            ctx.check([c.dest for c in nd.links] == d["links"], label + ": links of a node")
            for c in nd.consumptions:
                x = spec.cons.get((n, m, c.name))
                if x:
                    eqv(c.quantity, x.q, "consumption quantity")
                    eqv(c.cost, x.c, "consumption cost")
            for c in nd.productions:
                x = spec.prod.get((n, m, c.name))
                if x:
                    eqv(c.quantity, x.q, "production quantity")
                    eqv(c.cost, x.c, "production cost")
            for c in nd.links:
                x = spec.link.get((n, m, c.dest))
                if x:
                    eqv(c.quantity, x.q, "link quantity")
                    eqv(c.cost, x.c, "link cost")
            for c in nd.storages:
                x = spec.stor.get((n, m, c.name))
                if x:
                    eqv(c.capacity, x.cap, "storage capacity")
                    eqv(c.flow_in, x.fin, "storage flow in")
                    eqv(c.flow_out, x.fout, "storage flow out")
                    eqv(c.cost, x.c, "storage cost")
                    eqv(c.eff, x.eff, "storage efficiency")
                    ctx.check(ctx.eq(c.init_capacity, x.init, 1e-12), label + ": storage initial level")
    ctx.check(sorted(st.converters) == sorted(spec.conv), label + ": converters")
    for c, x in spec.conv.items():
        if c not in st.converters:
            continue
        k = st.converters[c]
        ctx.check(k.name == c and (k.dest_network, k.dest_node) == x.dest, label + ": converter destination")
        ctx.check(set(k.src_ratios) == set(x.src), label + ": converter sources")
        eqv(k.max, x.mx, "converter max")
        eqv(k.cost, x.c, "converter cost")
        for s in x.src:
            if s in k.src_ratios:
                eqv(k.src_ratios[s], x.src[s], "converter ratio")


def h_declare(ctx, sk, style):
    """the study holds exactly the declared elements, whatever the order of the calls and
    whichever selector they are made through"""
    import hadar as hd

    spec = StudySpec(ctx, SK[sk])
    if style == "chain":
        check_study(ctx, spec, spec.build(), "study")
        ctx.reach("declared")
        return
    st = hd.Study(horizon=spec.h, nb_scn=spec.S)
    sel = {}
    for n, net in spec.sk["nets"].items():
        ns = st.network(n)
        for m in net:
            sel[(n, m)] = ns.node(m)
    for c, x in spec.conv.items():
        if style == "early":
            st.network(x.dest[0]).converter(name=c, to_network=x.dest[0], to_node=x.dest[1], max=x.mx.given, cost=x.c.given)
    # round robin over the kept selectors, links first
    todo = []
    for (n, m), d in [((n, m), d) for n, net in spec.sk["nets"].items() for m, d in net.items()]:
        for dst in d["links"]:
            x = spec.link[(n, m, dst)]
            todo.append((0, lambda n=n, m=m, dst=dst, x=x: sel[(n, m)].link(src=m, dest=dst, cost=x.c.given, quantity=x.q.given)))
        for i, e in enumerate(d["stor"]):
            x = spec.stor[(n, m, e)]
            todo.append((i, lambda n=n, m=m, e=e, x=x: sel[(n, m)].storage(
                name=e, capacity=x.cap.given, flow_in=x.fin.given, flow_out=x.fout.given, cost=x.c.given,
                init_capacity=x.init, eff=x.eff.given)))
        for i, e in enumerate(d["prod"]):
            x = spec.prod[(n, m, e)]
            todo.append((i, lambda n=n, m=m, e=e, x=x: sel[(n, m)].production(name=e, cost=x.c.given, quantity=x.q.given)))
        for i, e in enumerate(d["cons"]):
            x = spec.cons[(n, m, e)]
            todo.append((i, lambda n=n, m=m, e=e, x=x: sel[(n, m)].consumption(name=e, cost=x.c.given, quantity=x.q.given)))
        for c, x in spec.conv.items():
            if (n, m) in x.src:
                todo.append((1, lambda n=n, m=m, c=c, x=x: sel[(n, m)].to_converter(name=c, ratio=x.src[(n, m)].given)))
    if style == "wander":
        # each declaration goes through a selector reached from the kept ones, alternately the
        # kept one itself after others were reached from it: none of them may move
        kept, nets = dict(sel), {n: st.network(n) for n in spec.sk["nets"]}
        keys = list(kept)
        for i, (_, f) in enumerate(sorted(todo, key=lambda p: p[0])):
            for j, (n, m) in enumerate(keys):
                n0, m0 = keys[(i + j + 1) % len(keys)]
                far = kept[(n0, m0)].network(n).node(m)
                near = nets[n0].network(n).node(m)
                side = kept[(n, m0)].node(m) if (n, m0) in kept else nets[n].node(m)
                sel[(n, m)] = (kept[(n, m)], far, near, side, kept[(n, m)], nets[n].node(m))[i % 6]
            f()
    else:
        for _, f in sorted(todo, key=lambda p: p[0]):
            f()
    for c, x in spec.conv.items():
        if style != "early":
            st.network(x.dest[0]).converter(name=c, to_network=x.dest[0], to_node=x.dest[1], max=x.mx.given, cost=x.c.given)
    check_study(ctx, spec, st, "study")
    # selecting an existing network or node again is neutral
    for n, net in spec.sk["nets"].items():
        for m in net:
            st.network(n).node(m)
    check_study(ctx, spec, st, "study")
    ctx.reach("declared")


def h_defaults(ctx):
    """arguments left out take their documented default"""
    import hadar as hd

    q = ctx.real("q", 0)
    st = hd.Study(horizon=2)
    st.network().node("a").storage(name="s", capacity=q, flow_in=q, flow_out=q).to_converter(name="k") \
        .node("b").converter(name="k", to_network="default", to_node="b", max=q)
    s = st.networks["default"].nodes["a"].storages[0]
    ctx.check(st.nb_scn == 1, "default: one scenario")
    ctx.check(ctx.eq(s.eff[0, 1], 0.99, 1e-12), "default: storage efficiency 0.99")
    ctx.check(ctx.eq(s.cost[0, 1], 0.0, 1e-12), "default: storage cost 0")
    ctx.check(ctx.eq(s.init_capacity, 0.0, 1e-12), "default: storage starts empty")
    k = st.converters["k"]
    ctx.check(ctx.eq(k.src_ratios[("default", "a")][0, 0], 1.0, 1e-12), "default: ratio 1")
    ctx.check(ctx.eq(k.cost[0, 0], 0.0, 1e-12), "default: converter cost 0")


# ---- JSON -------------------------------------------------------------------
def h_study_json(ctx, sk):
    import hadar as hd
    import msgpack

    spec = StudySpec(ctx, SK[sk])
    st = spec.build()
    d = st.to_json()
    check_study(ctx, spec, st, "serialising leaves the study unchanged")
    for way, wire in (("json", lambda x: json.loads(json.dumps(x))), ("direct", lambda x: x),
                      ("msgpack", lambda x: msgpack.unpackb(msgpack.packb(x, use_bin_type=True), raw=False))):
        e = wire(d)
        keep = snapshot(e)
        back = hd.Study.from_json(e)
        same(ctx, e, keep, "input", "reading leaves its input unchanged")
        check_study(ctx, spec, back, "study read back (%s)" % way)
        ctx.check(back.version == st.version, "version survives")
        same(ctx, back.to_json(), d, "study", "writing the study read back gives the same document")
        # the study read back can be extended like the original
        _, ex = attempt(lambda: back.network("zz").node("new").production(name="p", cost=1, quantity=[1.0] * spec.h))
        ctx.check(ex is None, "the study read back can be extended")
        check_study(ctx, spec, st, "the original is independent of the copy")
    ctx.reach("round trip")


def h_study_numbers(ctx):
    """studies whose plain numbers are numpy numbers can be written too"""
    import hadar as hd
    import msgpack

    for num in (np.float64(2.5), np.int64(2), np.float32(0.1), np.int32(7), 3, 0.1, 1e-13, 1.0 / 3, 123456789.123):
        want = float(num)
        st = hd.Study(horizon=2, nb_scn=2).network().node("a").storage(
            name="s", capacity=num, flow_in=[num, 1], flow_out=[[num], [1]], init_capacity=num, cost=[[num, 1], [1, 1]]).node("b") \
            .production(name="p", quantity=np.array([num, num]), cost=num).to_converter(name="k", ratio=num) \
            .link(src="a", dest="b", cost=num, quantity=num).converter(name="k", to_network="default", to_node="a", max=num, cost=num).build()
        for way, wire in (("json", lambda x: json.loads(json.dumps(x))), ("msgpack", lambda x: msgpack.unpackb(msgpack.packb(x, use_bin_type=True), raw=False))):
            e, ex = attempt(lambda: hd.Study.from_json(wire(st.to_json())))
            ctx.check(ex is None, "a study with numpy numbers is written and read back (%s)" % way)
            if ex is None:
                s, p = e.networks["default"].nodes["a"].storages[0], e.networks["default"].nodes["b"].productions[0]
                l, k = e.networks["default"].nodes["a"].links[0], e.converters["k"]
                for v in (s.capacity[1, 1], s.flow_in[1, 0], s.flow_out[0, 1], s.init_capacity, s.cost[0, 0], p.quantity[1, 1], p.cost[0, 0],
                          l.cost[0, 0], l.quantity[1, 1], k.max[0, 0], k.cost[1, 1], k.src_ratios[("default", "b")][0, 1]):
                    ctx.check(float(v) == want, "a number of any type is read back exactly (%s)" % way)


def build_result(ctx, spec, tag="r", given=None):
    """a Result with arbitrary numbers (or the given ones), and its meaning"""
    import hadar.optimizer.domain.output as o

    h, S = spec.h, spec.S
    val = {}

    def q(key):
        val[key] = [list(x) for x in given[key]] if given else [[ctx.real("%s.%s@%d,%d" % (tag, ".".join(map(str, key)), s, t)) for t in range(h)] for s in range(S)]
        return arr(ctx, val[key])

    nets = {}
    for n, net in spec.sk["nets"].items():
        nodes = {}
        for m, d in net.items():
            nodes[m] = o.OutputNode(
                consumptions=[o.OutputConsumption(name=e, quantity=q(("given", n, m, e))) for e in d["cons"]],
                productions=[o.OutputProduction(name=e, quantity=q(("used", n, m, e))) for e in d["prod"]],
                storages=[o.OutputStorage(name=e, capacity=q(("cap", n, m, e)), flow_in=q(("fin", n, m, e)),
                                          flow_out=q(("fout", n, m, e))) for e in d["stor"]],
                links=[o.OutputLink(dest=e, quantity=q(("link", n, m, e))) for e in d["links"]])
        nets[n] = o.OutputNetwork(nodes=nodes)
    convs = {c: o.OutputConverter(name=c, flow_src={s: q(("src", c) + s) for s in x.src}, flow_dest=q(("dest", c)))
             for c, x in spec.conv.items()}
    return o.Result(networks=nets, converters=convs), val


def check_result(ctx, spec, res, val, label):
    ctx.check(list(res.networks) == list(spec.sk["nets"]), label + ": networks")
    for n, net in spec.sk["nets"].items():
        ctx.check(list(res.networks[n].nodes) == list(net), label + ": nodes")
        for m, d in net.items():
            nd = res.networks[n].nodes[m]
            ctx.check([x.name for x in nd.consumptions] == d["cons"] and [x.name for x in nd.productions] == d["prod"]
                      and [x.name for x in nd.storages] == d["stor"] and [x.dest for x in nd.links] == d["links"],
                      label + ": elements")
    ctx.check(list(res.converters) == list(spec.conv), label + ": converters")
    got = spec.read_result(res)
    for k in spec.keys():
        for s in range(spec.S):
            for t in range(spec.h):
                ctx.check(ctx.eq(got[k][s][t], val[k][s][t], 1e-12), label + ": %s values" % k[0])


def h_result_json(ctx, sk):
    import hadar.optimizer.domain.output as o
    import msgpack

    spec = StudySpec(ctx, SK[sk])
    res, val = build_result(ctx, spec)
    res.benchmark = o.Benchmark(modeler=[0.5, 1.5], solver=[2.5], mapper=3, total=4)
    d = res.to_json()
    check_result(ctx, spec, res, val, "serialising leaves the result unchanged")
    for way, wire in (("json", lambda x: json.loads(json.dumps(x))), ("direct", lambda x: x),
                      ("msgpack", lambda x: msgpack.unpackb(msgpack.packb(x, use_bin_type=True), raw=False))):
        e = wire(d)
        keep = snapshot(e)
        back = o.Result.from_json(e)
        same(ctx, e, keep, "input", "reading leaves its input unchanged")
        check_result(ctx, spec, back, val, "result read back (%s)" % way)
        b = back.benchmark
        ctx.check([list(b.modeler), list(b.solver), b.mapper, b.total] == [[0.5, 1.5], [2.5], 3, 4], "benchmark survives")
        same(ctx, back.to_json(), d, "result", "writing the result read back gives the same document")
    ctx.reach("round trip")


def other_spec(ctx, spec, d, k, f):
    """the same study, one of its inputs given other numbers"""
    import copy
    from .studies import Elem

    o = copy.copy(spec)
    e = Elem(**getattr(spec, d)[k].__dict__)
    if f == "init":
        e.init = ctx.real("again.init", 0)
        pairs = [(getattr(spec, d)[k].init, e.init)]
    elif isinstance(f, tuple):
        e.src = dict(e.src)
        e.src[f] = e.src[f].again("again.ratio")
        pairs = [(a, b) for ra, rb in zip(getattr(spec, d)[k].src[f].m, e.src[f].m) for a, b in zip(ra, rb)]
    else:
        v = getattr(e, f).again("again." + f)
        setattr(e, f, v)
        pairs = [(a, b) for ra, rb in zip(getattr(getattr(spec, d)[k], f).m, v.m) for a, b in zip(ra, rb)]
    setattr(o, d, {x: e if x == k else y for x, y in getattr(spec, d).items()})
    if d == "stor":
        for s in range(o.S):
            for t in range(o.h):
                ctx.assume(e.init <= e.cap.m[s][t])
    return o, pairs


def equal(ctx, a, b, label):
    got, ex = attempt(lambda: (a == b, b == a, a != b))
    ctx.check(ex is None, label + ": comparing is possible (%s)" % type(ex).__name__)
    if ex is not None:
        return None
    eq, qe, ne = [bool(x) for x in got]
    ctx.check(eq == qe and eq != ne, label + ": the two directions agree, and differ from inequality")
    return eq


def h_equal(ctx, sk):
    """studies and results are equal exactly when their numbers are"""
    import copy
    import hadar as hd
    import hadar.optimizer.domain.output as o

    spec = StudySpec(ctx, SK[sk])
    st = spec.build()
    ctx.check(equal(ctx, st, spec.build(), "studies") is True, "the same declarations give equal studies")
    ctx.check(equal(ctx, st, copy.deepcopy(st), "studies") is True, "a copy is equal")
    ctx.check(equal(ctx, st, hd.Study.from_json(json.loads(json.dumps(st.to_json()))), "studies") is True, "the study read back is equal")
    opts = []
    for d in ("cons", "prod", "stor", "link", "conv"):
        for i, (k, e) in enumerate(getattr(spec, d).items()):
            for f in e.__dict__:
                if f == "src":
                    opts += [(d, k, x) for x in e.src]
                elif f != "dest":
                    opts.append((d, k, f))
    # one element of each kind, all its fields
    seen, few = set(), []
    for d, k, f in opts:
        if (d, f if not isinstance(f, tuple) else "src") not in seen:
            seen.add((d, f if not isinstance(f, tuple) else "src"))
            few.append((d, k, f))
    last = {}
    for d, k, f in opts:
        last[(d, f if not isinstance(f, tuple) else "src")] = (d, k, f)
    few += [x for x in last.values() if x not in few]
    d, k, f = ctx.choice("field", few)
    ot, pairs = other_spec(ctx, spec, d, k, f)
    eq = equal(ctx, st, ot.build(), "studies")
    if eq is not None:
        ctx.check(ctx.all([a == b for a, b in pairs]) if eq else ctx.any([a != b for a, b in pairs]),
                  "studies are equal exactly when their numbers are")
    ctx.reach("studies compared")


def h_equal_result(ctx, sk):
    import copy
    import hadar.optimizer.domain.output as o

    spec = StudySpec(ctx, SK[sk])
    a, val = build_result(ctx, spec)
    b, _ = build_result(ctx, spec, given=val)
    ctx.check(equal(ctx, a, b, "results") is True, "the same numbers give equal results")
    ctx.check(equal(ctx, a, copy.deepcopy(a), "results") is True, "a copy is equal")
    ctx.check(equal(ctx, a, o.Result.from_json(json.loads(json.dumps(a.to_json()))), "results") is True, "the result read back is equal")
    keys = list(spec.keys())
    k = ctx.choice("field", keys[::1 + len(keys) // 60])
    s, t = ctx.choice("cell", [(0, 0), (spec.S - 1, spec.h - 1), (0, spec.h - 1)])
    x = ctx.real("again")
    n = b.networks.get(k[1])
    if k[0] in ("given", "used", "cap", "fin", "fout", "link"):
        nd = n.nodes[k[2]]
        lst, att = dict(given=("consumptions", "quantity"), used=("productions", "quantity"), cap=("storages", "capacity"),
                        fin=("storages", "flow_in"), fout=("storages", "flow_out"), link=("links", "quantity"))[k[0]]
        el = [e for e in getattr(nd, lst) if getattr(e, "name", getattr(e, "dest", None)) == k[3]][0]
        getattr(el, att)[s, t] = x
    elif k[0] == "dest":
        b.converters[k[1]].flow_dest[s, t] = x
    else:
        b.converters[k[1]].flow_src[k[2:]][s, t] = x
    eq = equal(ctx, a, b, "results")
    if eq is not None:
        ctx.check((val[k][s][t] == x) if eq else (val[k][s][t] != x), "results are equal exactly when their numbers are")
    ctx.reach("results compared")


def h_equal_shape(ctx):
    """studies that differ by a name, an element, a size are not equal"""
    import hadar as hd

    def mk(h=2, S=2, net="n", node="a", cons="l", prod="p", extra=None, dest="b", stor="s", conv="k", cnode="b", ratio_node="a"):
        q = hd.Study(horizon=h, nb_scn=S).network(net).node(node).consumption(name=cons, cost=5, quantity=3).production(name=prod, cost=1, quantity=2) \
            .storage(name=stor, capacity=3, flow_in=1, flow_out=1).to_converter(name=conv, ratio=2).node("b").node("c")
        if extra == "cons":
            q = q.consumption(name="x", cost=5, quantity=3)
        if extra == "prod":
            q = q.production(name="x", cost=5, quantity=3)
        if extra == "stor":
            q = q.storage(name="x", capacity=3, flow_in=1, flow_out=1)
        if extra == "node":
            q = q.node("d")
        q = q.link(src=node, dest=dest, cost=1, quantity=4)
        if extra == "link":
            q = q.link(src="b", dest="c", cost=1, quantity=4)
        q = q.converter(name=conv, to_network=net, to_node=cnode, max=4)
        if extra == "net":
            q = q.network("empty").node("z")
        return q.build()

    base = mk()
    ctx.check(equal(ctx, base, mk(), "studies") is True, "the same declarations give equal studies")
    for kw in (dict(h=3), dict(S=3), dict(net="m"), dict(node="aa"), dict(cons="ll"), dict(prod="pp"), dict(dest="c"), dict(stor="ss"), dict(conv="kk"),
               dict(cnode="c"), *[dict(extra=x) for x in ("cons", "prod", "stor", "node", "link", "net")]):
        ctx.check(equal(ctx, base, mk(**kw), "studies") is False, "studies that differ by %s are not equal" % list(kw))
    for other in (None, 5, "study", {}, [], base.networks["n"]):
        ctx.check(equal(ctx, base, other, "studies") is False, "a study is not equal to something else")


def alterations(obj):
    """[(label, path, change)] of every element left out, added twice under another name, or renamed, in a study or a result"""
    outs = []
    NAMED = ("name", "dest", "dest_network", "dest_node")

    def walk(o, path):
        for att in ("networks", "converters", "nodes", "src_ratios", "flow_src"):
            d = getattr(o, att, None)
            if isinstance(d, dict):
                for k in d:
                    p = path + [att]
                    outs.append(("%s without %s" % (att, k), p, lambda x, k=k: x.pop(k)))
                    new = ("other",) + k[1:] if isinstance(k, tuple) else str(k) + "'"
                    outs.append(("%s with %s renamed" % (att, k), p, lambda x, k=k, new=new: x.__setitem__(new, x.pop(k))))
                    outs.append(("%s with %s twice" % (att, k), p, lambda x, k=k, new=new: x.__setitem__(new, x[k])))
                    if hasattr(d[k], "__dict__") and att in ("networks", "converters", "nodes"):
                        walk(d[k], p + [k])
        for att in ("consumptions", "productions", "storages", "links"):
            l = getattr(o, att, None)
            if isinstance(l, list):
                for i, e in enumerate(l):
                    p = path + [att]
                    outs.append(("%s without %d" % (att, i), p, lambda x, i=i: x.pop(i)))
                    outs.append(("%s with %d twice" % (att, i), p, lambda x, i=i: x.append(x[i])))
                    walk(e, p + [i])
        for att in NAMED:
            if isinstance(getattr(o, att, None), str):
                outs.append(("%s %r changed" % (att, getattr(o, att)), path, lambda x, att=att: setattr(x, att, getattr(x, att) + "'")))

    walk(obj, [])
    return outs


def h_equal_structure(ctx, sk, what):
    """leaving out, doubling or renaming any element makes a study or a result different"""
    import copy

    spec = StudySpec(ctx, SK[sk])
    a = spec.build() if what == "study" else build_result(ctx, spec)[0]
    for lab, path, change in alterations(a):
        b = copy.deepcopy(a)
        x = b
        for k in path:
            x = getattr(x, k) if isinstance(k, str) and hasattr(x, k) and not isinstance(x, dict) else x[k]
        change(x)
        ctx.check(equal(ctx, a, b, what) is False, "%s: %s" % (what, lab))
    ctx.reach("structures compared")
