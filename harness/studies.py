"""Bounded study skeletons: the topology is concrete, every number is symbolic."""
import numpy as np

SHAPES = ("scalar", "row", "col", "matrix")


class Vals:
    """one study input: what is handed to hadar, and its meaning M[s][t]"""

    def __init__(self, given, m, again=None):
        self.given, self.m, self.again = given, m, again  # again(name): fresh values given the same way


def value(ctx, name, h, S, shape, lo=None, hi=None, lo_open=False, as_array=False):
    def r(suffix):
        return ctx.real(name + suffix, lo, hi, lo_open)

    def again(name):
        return value(ctx, name, h, S, shape, lo, hi, lo_open, as_array)

    if shape == "scalar":
        x = r("")
        return Vals(x, [[x] * h for _ in range(S)], again)
    if shape == "row":
        xs = [r("@%d" % t) for t in range(h)]
        g, m = xs, [list(xs) for _ in range(S)]
    elif shape == "col":
        xs = [r("@s%d" % s) for s in range(S)]
        g, m = [[x] for x in xs], [[xs[s]] * h for s in range(S)]
    else:
        m = [[r("@s%d,%d" % (s, t)) for t in range(h)] for s in range(S)]
        g = [list(x) for x in m]
    if as_array:
        g = np.array(g, dtype=object) if ctx.symbolic else np.array(g)
        if ctx.symbolic:
            from symx.nparr import SymArray

            g = g.view(SymArray)
    return Vals(g, m, again)


class Elem:
    def __init__(self, **k):
        self.__dict__.update(k)


def node(cons=(), prod=(), stor=(), links=()):
    return dict(cons=list(cons), prod=list(prod), stor=list(stor), links=list(links))


class StudySpec:
    """Reference description of a study (independent of hadar's own objects)."""

    def __init__(self, ctx, sk, tag=""):
        self.sk, self.ctx = sk, ctx
        self.h, self.S = sk["h"], sk["scn"]
        self.over = not sk.get("init_ok", True)
        self.k = sk.get("rot", 0)
        self.nodes = [(n, m) for n, net in sk["nets"].items() for m in net]
        self.cons, self.prod, self.stor, self.link, self.conv = {}, {}, {}, {}, {}
        only = sk.get("shapes")

        def v(name, *a, **kw):
            self.k += 1
            shapes = only or SHAPES
            if sk.get("cost_const") and name.endswith(".c"):  # fixed costs: nothing to decide in their order
                x = float((self.k * 7) % 11) + 0.5
                return Vals(x, [[x] * self.h for _ in range(self.S)])
            return value(ctx, name, self.h, self.S, shapes[self.k % len(shapes)], *a,
                         as_array=(self.k % 3 == 0), **kw)

        cost_lo = sk.get("cost_lo")
        for (n, m) in self.nodes:
            d = sk["nets"][n][m]
            for e in d["cons"]:
                p = tag + "cons.%s.%s.%s" % (n, m, e)
                self.cons[(n, m, e)] = Elem(q=v(p + ".q", 0), c=v(p + ".c", cost_lo))
            for e in d["prod"]:
                p = tag + "prod.%s.%s.%s" % (n, m, e)
                self.prod[(n, m, e)] = Elem(q=v(p + ".q", 0), c=v(p + ".c", cost_lo))
            for e in d["stor"]:
                p = tag + "stor.%s.%s.%s" % (n, m, e)
                cap = v(p + ".cap", 0)
                init = ctx.real(p + ".init", 0)
                if sk.get("init_ok", True):
                    for s in range(self.S):
                        for t in range(self.h):
                            ctx.assume(init <= cap.m[s][t])
                self.stor[(n, m, e)] = Elem(cap=cap, fin=v(p + ".fin", 0), fout=v(p + ".fout", 0),
                                            c=v(p + ".c", cost_lo), init=init, eff=v(p + ".eff", 0, 1))
            for dst in d["links"]:
                p = tag + "link.%s.%s.%s" % (n, m, dst)
                self.link[(n, m, dst)] = Elem(q=v(p + ".q", 0), c=v(p + ".c", cost_lo))
        for name, cv in sk.get("convs", {}).items():
            p = tag + "conv.%s" % name
            self.conv[name] = Elem(src={s: v(p + ".r.%s.%s" % s, 0, lo_open=True) for s in cv["src"]},
                                   dest=cv["dest"], mx=v(p + ".max", 0), c=v(p + ".c", cost_lo))

    def only_scenario(self, s):
        """the same study reduced to scenario s, given as full matrices"""
        import copy

        o = copy.copy(self)
        o.S = 1

        def cut(v):
            return Vals([list(v.m[s])], [list(v.m[s])])

        for n in ("cons", "prod", "stor", "link", "conv"):
            d = {}
            for k, e in getattr(self, n).items():
                a = {}
                for f, x in e.__dict__.items():
                    if isinstance(x, Vals):
                        a[f] = cut(x)
                    elif f == "src":
                        a[f] = {q: cut(y) for q, y in x.items()}
                    else:
                        a[f] = x
                d[k] = Elem(**a)
            setattr(o, n, d)
        o.sk = dict(self.sk, scn=1)
        return o

    def build(self):
        """the study through hadar's public API"""
        import hadar as hd

        sk = self.sk
        study = hd.Study(horizon=self.h, nb_scn=self.S)
        cur = study
        # declare all the nodes first: links need them
        for n, net in sk["nets"].items():
            cur = cur.network(n)
            for m in net:
                cur = cur.node(m)
                d = net[m]
                for e in d["cons"]:
                    x = self.cons[(n, m, e)]
                    cur = cur.consumption(name=e, cost=x.c.given, quantity=x.q.given)
                for e in d["prod"]:
                    x = self.prod[(n, m, e)]
                    cur = cur.production(name=e, cost=x.c.given, quantity=x.q.given)
                for e in d["stor"]:
                    x = self.stor[(n, m, e)]
                    cur = cur.storage(name=e, capacity=x.cap.given, flow_in=x.fin.given, flow_out=x.fout.given,
                                      cost=x.c.given, init_capacity=x.init, eff=x.eff.given)
                for cname, cv in sk.get("convs", {}).items():
                    if (n, m) in cv["src"]:
                        cur = cur.to_converter(name=cname, ratio=self.conv[cname].src[(n, m)].given)
        for n, net in sk["nets"].items():
            cur = study.network(n)
            for m in net:
                for dst in net[m]["links"]:
                    x = self.link[(n, m, dst)]
                    cur = cur.link(src=m, dest=dst, cost=x.c.given, quantity=x.q.given)
        for cname, cv in sk.get("convs", {}).items():
            x = self.conv[cname]
            study.network(cv["dest"][0]).converter(name=cname, to_network=cv["dest"][0], to_node=cv["dest"][1],
                                                   max=x.mx.given, cost=x.c.given)
        return study

    def part(self, keep):
        """the same study with only the elements of which keep(index, key) is true"""
        import copy

        o = copy.copy(self)
        for n in ("cons", "prod", "stor", "link", "conv"):
            setattr(o, n, {k: x for i, (k, x) in enumerate(getattr(self, n).items()) if keep(i, k)})
        return o

    def declare(self, study):
        """declare this (part of a) study's elements in an existing study"""
        for (n, m) in self.nodes:
            study.network(n).node(m)
        for (n, m, e), x in self.cons.items():
            study.network(n).node(m).consumption(name=e, cost=x.c.given, quantity=x.q.given)
        for (n, m, e), x in self.prod.items():
            study.network(n).node(m).production(name=e, cost=x.c.given, quantity=x.q.given)
        for (n, m, e), x in self.stor.items():
            study.network(n).node(m).storage(name=e, capacity=x.cap.given, flow_in=x.fin.given, flow_out=x.fout.given,
                                             cost=x.c.given, init_capacity=x.init, eff=x.eff.given)
        for (n, m, d), x in self.link.items():
            study.network(n).link(src=m, dest=d, cost=x.c.given, quantity=x.q.given)
        for c, x in self.conv.items():
            for (n, m), r in x.src.items():
                study.network(n).node(m).to_converter(name=c, ratio=r.given)
            study.network(x.dest[0]).converter(name=c, to_network=x.dest[0], to_node=x.dest[1], max=x.mx.given, cost=x.c.given)
        return study

    # ---- plan keys
    def keys(self):
        for k in self.cons:
            yield ("given",) + k
        for k in self.prod:
            yield ("used",) + k
        for k in self.stor:
            yield ("cap",) + k
            yield ("fin",) + k
            yield ("fout",) + k
        for k in self.link:
            yield ("link",) + k
        for c in self.conv:
            yield ("dest", c)
            for s in self.conv[c].src:
                yield ("src", c) + s

    def read_result(self, res):
        """plan[key][s][t] read from a hadar Result, elements found by name"""
        plan = {}

        def arr(a):
            return [[a[s, t] for t in range(self.h)] for s in range(self.S)]

        def find(xs, attr, name):
            r = [x for x in xs if getattr(x, attr) == name]
            assert len(r) == 1, "element %s appears %d times in the result" % (name, len(r))
            return r[0]

        for (n, m, e) in self.cons:
            plan[("given", n, m, e)] = arr(find(res.networks[n].nodes[m].consumptions, "name", e).quantity)
        for (n, m, e) in self.prod:
            plan[("used", n, m, e)] = arr(find(res.networks[n].nodes[m].productions, "name", e).quantity)
        for (n, m, e) in self.stor:
            x = find(res.networks[n].nodes[m].storages, "name", e)
            plan[("cap", n, m, e)] = arr(x.capacity)
            plan[("fin", n, m, e)] = arr(x.flow_in)
            plan[("fout", n, m, e)] = arr(x.flow_out)
        for (n, m, e) in self.link:
            plan[("link", n, m, e)] = arr(find(res.networks[n].nodes[m].links, "dest", e).quantity)
        for c in self.conv:
            x = res.converters[c]
            plan[("dest", c)] = arr(x.flow_dest)
            for s in self.conv[c].src:
                plan[("src", c) + s] = arr(x.flow_src[s])
        return plan

    # ---- the mathematical model (docs/source/mathematics/linear-model.rst)
    def balance(self, p, s, t):
        for (n, m) in self.nodes:
            ins, outs = [], []
            for (a, b, e) in self.cons:
                if (a, b) == (n, m):
                    outs.append(p[("given", a, b, e)][s][t])
            for (a, b, e) in self.prod:
                if (a, b) == (n, m):
                    ins.append(p[("used", a, b, e)][s][t])
            for (a, b, e) in self.stor:
                if (a, b) == (n, m):
                    ins.append(p[("fout", a, b, e)][s][t])
                    outs.append(p[("fin", a, b, e)][s][t])
            for (a, b, d) in self.link:
                if a == n and b == m:
                    outs.append(p[("link", a, b, d)][s][t])
                if a == n and d == m:
                    ins.append(p[("link", a, b, d)][s][t])
            for c, x in self.conv.items():
                if x.dest == (n, m):
                    ins.append(p[("dest", c)][s][t])
                for src in x.src:
                    if src == (n, m):
                        outs.append(p[("src", c) + src][s][t])
            yield "node %s/%s" % (n, m), self.ctx.eq(self.ctx.sum(ins), self.ctx.sum(outs), self.tol)

    tol = 1e-6

    def bounds(self, p, s, t):
        ctx, tol = self.ctx, self.tol

        def within(label, x, ub):
            yield label + " >= 0", ctx.le(0, x, tol)
            yield label + " <= limit", ctx.le(x, ub, tol)

        for k, x in self.cons.items():
            yield from within("given %s" % (k,), p[("given",) + k][s][t], x.q.m[s][t])
        for k, x in self.prod.items():
            yield from within("used %s" % (k,), p[("used",) + k][s][t], x.q.m[s][t])
        for k, x in self.stor.items():
            yield from within("level %s" % (k,), p[("cap",) + k][s][t], x.cap.m[s][t])
            yield from within("flow in %s" % (k,), p[("fin",) + k][s][t], x.fin.m[s][t])
            yield from within("flow out %s" % (k,), p[("fout",) + k][s][t], x.fout.m[s][t])
        for k, x in self.link.items():
            yield from within("link %s" % (k,), p[("link",) + k][s][t], x.q.m[s][t])
        for c, x in self.conv.items():
            yield from within("converter %s" % c, p[("dest", c)][s][t], x.mx.m[s][t])
            for src in x.src:
                yield "converter source %s %s >= 0" % (c, src), ctx.le(0, p[("src", c) + src][s][t], tol)

    def storage(self, p, s, t):
        for k, x in self.stor.items():
            prev = x.init if t == 0 else p[("cap",) + k][s][t - 1]
            nxt = prev + p[("fin",) + k][s][t] * x.eff.m[s][t] - p[("fout",) + k][s][t]
            yield "level of %s" % (k,), self.ctx.eq(p[("cap",) + k][s][t], nxt, self.tol)

    def mix(self, p, s, t):
        for c, x in self.conv.items():
            for src in x.src:
                yield "ratio of %s from %s" % (c, src), self.ctx.eq(
                    p[("src", c) + src][s][t] * x.src[src].m[s][t], p[("dest", c)][s][t], self.tol)

    def cost_st(self, p, s, t):
        tot = []
        for k, x in self.cons.items():
            tot.append((x.q.m[s][t] - p[("given",) + k][s][t]) * x.c.m[s][t])
        for k, x in self.prod.items():
            tot.append(p[("used",) + k][s][t] * x.c.m[s][t])
        for k, x in self.stor.items():
            tot.append(p[("cap",) + k][s][t] * x.c.m[s][t])
        for k, x in self.link.items():
            tot.append(p[("link",) + k][s][t] * x.c.m[s][t])
        for c, x in self.conv.items():
            tot.append(p[("dest", c)][s][t] * x.c.m[s][t])
        return tot

    def cost(self, p, s):
        return self.ctx.sum([v for t in range(self.h) for v in self.cost_st(p, s, t)])

    GROUPS = ("balance", "bounds", "storage", "mix")

    def conds(self, p, s, groups=GROUPS):
        for g in groups:
            for t in range(self.h):
                for lab, c in getattr(self, g)(p, s, t):
                    yield g, "%s: %s" % (g, lab), t, c


# --------------------------------------------------------------------------
def skeletons():
    sk = {}
    # two nodes both ways, several elements with clashing names
    sk["pair"] = dict(h=3, scn=2, nets={"default": {
        "b": node(cons=["load", "car"], prod=["load", "gas"], links=["a"]),
        "a": node(cons=["load"], prod=["gas"], links=["b"])}})
    # same names everywhere: nodes and elements repeated over networks
    sk["twonets"] = dict(h=2, scn=2, rot=1, nets={
        "elec": {"a": node(cons=["x"], prod=["x"], links=["b", "c"]), "b": node(cons=["x"], prod=["y", "x"], links=["a"]),
                 "c": node(cons=["x", "y"], prod=[], links=["b"])},
        "gas": {"b": node(cons=["x"], prod=["x"], links=["a"]), "a": node(cons=[], prod=["x"], links=["b"])}})
    # storages: several per node, several nodes
    sk["stor"] = dict(h=4, scn=2, rot=2, nets={"default": {
        "a": node(cons=["load"], prod=["p"], stor=["cell", "acc"], links=["b"]),
        "b": node(cons=["load"], prod=["p"], stor=["cell"])}})
    sk["stor3"] = dict(h=3, scn=1, rot=3, nets={"n": {
        "a": node(cons=["load"], prod=["p"], stor=["s1", "s2", "s3"])}})
    # converters: several, multi source, sharing nodes
    sk["conv"] = dict(h=2, scn=2, rot=0, nets={
        "elec": {"a": node(cons=["load"], prod=["nuc"]), "b": node(cons=["load"])},
        "gas": {"a": node(prod=["well"]), "b": node(prod=["well"], cons=["heat"])},
        "coal": {"a": node(prod=["mine"])}},
        convs={"two": dict(src=[("gas", "a"), ("coal", "a")], dest=("elec", "a")),
               "one": dict(src=[("gas", "b")], dest=("elec", "a")),
               "three": dict(src=[("gas", "b"), ("gas", "a"), ("elec", "a")], dest=("elec", "b"))})
    # everything together
    sk["full"] = dict(h=2, scn=3, rot=1, nets={
        "default": {"a b": node(cons=["l-1", "l 2"], prod=["p"], stor=["s"], links=["a"]),
                    "a": node(cons=["l-1"], prod=["p", "pp"], stor=["s", "t"], links=["a b", "z"]),
                    "z": node(prod=["p"], links=["a"])},
        "a": {"a": node(cons=["l-1"], prod=["p"], stor=["s"])}},
        convs={"c": dict(src=[("default", "a"), ("default", "z")], dest=("a", "a")),
               "d": dict(src=[("a", "a")], dest=("default", "a b"))})
    # prosumers: a node without demand, an isolated node, an empty network
    sk["sparse"] = dict(h=3, scn=1, rot=2, nets={
        "default": {"a": node(prod=["p"], links=["b"]), "b": node(cons=["l"]), "c": node(stor=["s"]), "d": node()},
        "void": {}})
    sk["chain"] = dict(h=1, scn=2, rot=0, nets={"default": dict(
        [("n%d" % i, node(cons=["l"] if i % 2 else [], prod=["p"], links=["n%d" % (i + 1)] if i < 11 else ["n0"]))
         for i in range(12)])})
    sk["many"] = dict(h=2, scn=1, rot=1, nets={"default": {
        "a": node(cons=["c%d" % i for i in range(12)], prod=["p%d" % i for i in range(12)], stor=["s%d" % i for i in range(4)])}})
    sk["nets5"] = dict(h=2, scn=2, rot=1, nets=dict(
        ("net%d" % i, {"x": node(cons=["l"], prod=["p"], stor=["s"], links=["y"]), "y": node(cons=["l"], prod=["p"], stor=["s"], links=["x"])})
        for i in range(5)), convs={"k%d" % i: dict(src=[("net%d" % i, "x")], dest=("net%d" % ((i + 1) % 5), "y")) for i in range(5)})
    sk["wide"] = dict(h=7, scn=6, rot=3, nets={"default": {
        "a": node(cons=["l", "m", "n", "o"], prod=["p"], links=["b", "c", "d", "e"]), "b": node(prod=["p", "q", "r", "s", "t"]),
        "c": node(stor=["s", "t", "u", "v"]), "d": node(cons=["l"], links=["a"]), "e": node(prod=["p"], cons=["o"])}},
        convs={"k": dict(src=[("default", "a"), ("default", "b")], dest=("default", "e")), "l": dict(src=[("default", "c")], dest=("default", "d")),
               "m": dict(src=[("default", "a")], dest=("default", "d")), "n": dict(src=[("default", "a")], dest=("default", "c"))})
    sk["long"] = dict(h=30, scn=1, rot=0, shapes=("row", "matrix"), nets={"default": {
        "a": node(cons=["l"], prod=["p"], stor=["s"], links=["b"]), "b": node(cons=["l"], prod=["p"])}})
    sk["scn12"] = dict(h=1, scn=12, rot=0, shapes=("matrix", "col"), nets={"default": {
        "a": node(cons=["l"], prod=["p"], stor=["s"], links=["b"]), "b": node(cons=["l"], prod=["p"])}})
    # names that look like columns, formats, numbers; converters inside a network and on one node
    sk["names"] = dict(h=2, scn=2, rot=2, nets={
        "network": {"10": node(cons=["cost", "t"], prod=["scn", "100%"], stor=["node", "Node", "NODE"], links=["9", "node"]),
                    "9": node(cons=["%s"], prod=["cost"], links=["10"]), "node": node(cons=["\u00e9"], prod=["in", ""], links=["9"])},
        "natural gas": {"a b": node(prod=["p q"], cons=["x:y"]), "a:b": node(stor=["s t"], cons=["l"]), ".": node(prod=["-"])},
        "Default": {"10": node(cons=[""], prod=["10"], stor=["10", "{}"], links=["10 "]), "10 ": node(cons=["Cost", "cost ", "cost"], prod=["a.b/c=d"]),
                    "1": node(prod=["p_1", "p-1", "p1"])}},
        convs={"10": dict(src=[("network", "10"), ("network", "9"), ("Default", "10"), ("network", "node")], dest=("network", "node")),
               "": dict(src=[("Default", "10")], dest=("Default", "10")), "scn": dict(src=[("network", "9"), ("natural gas", "a:b")], dest=("Default", "10")),
               "c: d": dict(src=[("natural gas", "a b"), ("natural gas", ".")], dest=("natural gas", "a:b"))})
    # names apart only by case, space or accent, for every kind of element
    alike = ["s", "S", " s", "s ", "\u017f", "s1", "s01", "s1.0"]
    sk["alike"] = dict(h=2, scn=2, rot=1, nets={"n": {m: node(cons=alike, prod=alike, stor=alike[:5], links=[x for x in alike[:5] if x != m]) for m in alike[:5]},
                                                "N": {"s": node(cons=["s"], prod=["S"]), "S": node(prod=["s"], links=["s"])}},
                       convs={c: dict(src=[("n", "s"), ("N", "S"), ("n", "S"), ("N", "s")][i % 2:3 + i % 2], dest=("n", alike[i % 5])) for i, c in enumerate(alike[:5])})
    # storages that may start above their capacity: solvable when the excess can leave
    sk["overfull"] = dict(h=3, scn=2, rot=1, init_ok=False, nets={"default": {
        "a": node(cons=["load"], prod=["p"], stor=["s", "t"], links=["b"]), "b": node(cons=["load"], stor=["s"])}},
        convs={"k": dict(src=[("default", "b")], dest=("default", "a"))})
    sk["subsets"] = subsets()
    sk.update(big())
    for i in range(40):
        sk["rnd%d" % i] = rnd(i)
    return sk


def subsets():
    """a node for every combination of the kinds of elements"""
    nets, convs = {"k": {"hub": node(prod=["p"], cons=["l"])}, "default": {"hub": node(prod=["p"])}}, {}
    for i in range(64):
        net, name = ("default", "k")[i & 1], "n%d" % i
        nets[net][name] = node(cons=["l"] if i & 1 else [], prod=["p"] if i & 2 else [], stor=["s"] if i & 4 else [], links=["hub"] if i & 8 else [])
        if i & 16:
            convs["to%d" % i] = dict(src=[(net, name)], dest=("k", "hub"))
        if i & 32:
            convs["from%d" % i] = dict(src=[("default", "hub")], dest=(net, name))
    return dict(h=2, scn=1, rot=1, nets=nets, convs=convs)


def pick(tier, sk=None):
    """names of the topologies of a tier"""
    quick = ["rnd%d" % i for i in range(6)]
    return [k for k in (sk or skeletons()) if tier != "quick" or not k.startswith("rnd") or k in quick]


def rnd(seed):
    """a topology drawn at random"""
    import random

    r = random.Random(seed)
    pool = ["a", "b", "c", "x", "y", "default", "n 1", "A", "z", "10", "2"]

    def some(n):
        return r.sample(pool, r.randint(0, n))

    nets = {}
    names = r.sample(pool, r.randint(1, 3))
    if r.random() < 0.5 and "default" not in names:
        names[0] = "default"
    for n in names:
        ns = r.sample(pool, r.randint(1, 4))
        nets[n] = {m: node(cons=some(3), prod=some(3), stor=some(2), links=r.sample([x for x in ns if x != m], r.randint(0, len(ns) - 1)))
                   for m in ns}
    all_ = [(n, m) for n in nets for m in nets[n]]
    convs = {}
    for c in r.sample(pool, r.choice([0, 0, 1, 2, 3])):
        convs[c] = dict(src=r.sample(all_, r.randint(1, min(3, len(all_)))), dest=r.choice(all_))
    return dict(h=r.randint(1, 5), scn=r.randint(1, 4), rot=r.randint(0, 3), nets=nets, convs=convs)


def big():
    """larger sizes: past a week of hours, many scenarios, dense meshes, many converters"""
    sk = {}
    sk["week"] = dict(h=300, scn=1, rot=0, shapes=("row", "matrix"), nets={"default": {
        "a": node(cons=["l"], prod=["p"], stor=["s"], links=["b"]), "b": node(cons=["l"])}}, convs={
        "c": dict(src=[("default", "b")], dest=("default", "a"))})
    sk["scn70"] = dict(h=2, scn=70, rot=1, shapes=("matrix", "col"), nets={"default": {
        "a": node(cons=["l"], prod=["p"], stor=["s"], links=["b"]), "b": node(cons=["l"])}}, convs={
        "c": dict(src=[("default", "b")], dest=("default", "a"))})
    sk["scn300"] = dict(h=1, scn=300, rot=1, shapes=("matrix", "col"), nets={"default": {
        "a": node(cons=["l"], prod=["p"], stor=["s"], links=["b"]), "b": node()}}, convs={"c": dict(src=[("default", "b")], dest=("default", "a"))})
    # long names that part only at the end
    w = ["x" * 40 + "1", "x" * 40 + "2", "y" * 300 + "1", "y" * 300 + "2"]
    sk["words"] = dict(h=2, scn=2, rot=1, nets={w[i]: {w[2]: node(cons=w, prod=w, stor=w, links=[w[3], w[0], w[1]]), w[3]: node(prod=w, links=[w[2]]),
                                                       w[0]: node(cons=w[:2]), w[1]: node(cons=w[1:3])} for i in (0, 2, 1)},
                       convs={c: dict(src=[(w[i % 3], w[3]), (w[i % 3], w[2])], dest=(w[(i + 1) % 3], w[i])) for i, c in enumerate(w)})
    # a hub with nothing but links, leaves with one thing each
    sk["star"] = dict(h=2, scn=1, rot=2, nets={"default": dict([("hub", node(cons=["l"], links=["f%d" % i for i in range(16)]))] + [
        ("f%d" % i, node(cons=["l"] if i % 4 == 0 else [], prod=["p"] if i % 4 == 1 else [], stor=["s"] if i % 4 == 2 else [], links=["hub"]))
        for i in range(16)])})
    # past a hundred elements of each kind
    sk["crowd"] = dict(h=1, scn=1, rot=0, shapes=("scalar",), nets={"default": dict([("n%d" % i, node(links=["n%d" % j for j in range(i)])) for i in range(17)] + [
        ("z", node(cons=["c%d" % i for i in range(130)], prod=["p%d" % i for i in range(130)], stor=["s%d" % i for i in range(130)]))])},
        convs={"k%d" % i: dict(src=[("default", "z")], dest=("default", "n%d" % (i % 17))) for i in range(130)})
    sk["mesh"] = dict(h=2, scn=2, rot=3, nets={n: {"n%d" % i: node(
        cons=["l"], prod=["p"], stor=["s"], links=["n%d" % j for j in range(6) if j != i]) for i in range(6)} for n in ("x", "default", "y")})
    sk["mixes"] = dict(h=2, scn=2, rot=2, nets={n: {m: node(cons=["l"] if m < "c" else [], prod=["p"]) for m in "abcdef"} for n in ("k", "default")},
                       convs={"six": dict(src=[("k", m) for m in "fedcba"], dest=("default", "a")),
                              "nine": dict(src=[("default", m) for m in "bcdef"] + [("k", m) for m in "abcd"], dest=("default", "a")),
                              "twelve": dict(src=[(n, m) for m in "abcdef" for n in ("default", "k")], dest=("k", "f"))})
    sk["convs"] = dict(h=2, scn=1, rot=1, nets={n: {m: node(cons=["l"], prod=["p"]) for m in "abc"} for n in ("k1", "k2", "k3", "k4")},
                       convs={"v%d" % i: dict(src=[("k%d" % (1 + (i + j) % 4), "abc"[(i * j + j) % 3]) for j in range(1 + i % 4)],
                                              dest=("k%d" % (1 + (i * 3 + 1) % 4), "abc"[i % 3])) for i in range(14)})
    return sk
