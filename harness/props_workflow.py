from .registry import prop, Job
from . import workflow as wf
from .props_domain import ASM, OUT

ASM_W = ["floating point numbers are treated as mathematical reals",
         "pandas runs as is on object columns that hold symbolic numbers; column names and scenario labels are concrete (plug names symbolic)",
         "random draws are unconstrained symbols named after the generator's seed and position; worker processes are forked with their parent's generator"]


def _m(bounds):
    return dict(bounds=bounds, outside="longer timelines, more scenarios or columns; IEEE rounding, NaN and infinities; the probability law of the draws",
                assumptions=ASM_W)


COLS = ("one", "two", "scn", "mixed", "odd", "three", "words", "wide")


@prop("C19", **_m("plugs with up to 2 inputs and 3 outputs on each side, names drawn from six symbolic integers"))
def _c19(tier):
    js = []
    for a in ((1, 1, 1, 1), (1, 2, 1, 1), (0, 2, 2, 1), (1, 2, 2, 0), (2, 2, 0, 1), (0, 0, 1, 1), (1, 3, 1, 2)) + (
            ((2, 3, 2, 2), (1, 3, 2, 2), (2, 2, 2, 2)) if tier == "thorough" else ()):
        js.append(Job("plug/%d%d%d%d" % a, wf.h_plug, a, max_paths=4000, budget_s=120 if tier == "quick" else 600))
    for n, pos in ((5, 0), (5, 4), (8, 6)):
        js.append(Job("wide/%d/%d" % (n, pos), wf.h_plug_wide, (n, pos), max_paths=4000))
    return js


@prop("C20", **_m("21 pipelines of 1 to 5 stages, timelines of 3 steps, 1 to 3 scenarios, 1 to 3 columns, every cell and bound a real"))
def _c20(tier):
    js = []
    for k in range(len(wf.PIPES)):
        for i, c in enumerate(("two", "mixed", "three", "words", "wide") if tier == "quick" else COLS):
            js.append(Job("pipe/%d/%s" % (k, c), wf.h_pipeline, (2 if tier == "quick" else 3, c, ("range", "dates", "offset")[(i + k) % 3], k),
                          max_paths=600, conformance=c == "mixed"))
    return js


@prop("C21", **_m("timelines of 2 or 3 steps, six column layouts, four time indexes, every cell and bound a real"))
def _c21(tier):
    js = []
    for i, c in enumerate(COLS):
        for ix in (("range", "offset", "dates", "rev") if tier == "thorough" else (("range", "offset", "dates", "rev")[i % 4], "offset")) + ("gaps",):
            for w in ("lu", "l", "u", ""):
                js.append(Job("clip/%s/%s/%s" % (c, ix, w), wf.h_clip, (2, c, ix, w), max_paths=2000, conformance=False))
            js.append(Job("repeat/%s/%s/2" % (c, ix), wf.h_repeat, (3, c, ix, 2)))
            js.append(Job("repeat/%s/%s/3" % (c, ix), wf.h_repeat, (2, c, ix, 3)))
            js.append(Job("repeat/%s/%s/1" % (c, ix), wf.h_repeat, (2, c, ix, 1)))
            if ix != "gaps":
                js.append(Job("focus/%s/%s" % (c, ix), wf.h_focus, (3, c, ix)))
            js.append(Job("rename/%s/%s" % (c, ix), wf.h_rename, (3, c, ix, (("a", "alpha"),))))
            if c != "one":
                js.append(Job("rename2/%s/%s" % (c, ix), wf.h_rename, (3, c, ix, (("a", "b"), ("b", "a")))))
                js.append(Job("drop/%s/%s" % (c, ix), wf.h_drop, (3, c, ix, "b")))
                js.append(Job("dropl/%s/%s" % (c, ix), wf.h_drop, (3, c, ix, ("b",))))
            if c == "words":
                js.append(Job("dropw/%s/%s" % (c, ix), wf.h_drop, (2, c, ix, "alpha beta")))
                js.append(Job("droplw/%s/%s" % (c, ix), wf.h_drop, (2, c, ix, ("quantity", "", "alpha beta"))))
                js.append(Job("renamew/%s/%s" % (c, ix), wf.h_rename, (2, c, ix, (("quantity", "Q"), ("alpha beta", "quantity"), ("b", "a"), ("a", "b")))))
            if c == "wide":
                js.append(Job("droplw/%s/%s" % (c, ix), wf.h_drop, (2, c, ix, ("f", "e", "d", "b"))))
                js.append(Job("renamew/%s/%s" % (c, ix), wf.h_rename, (2, c, ix, (("f", "1"), ("e", "2"), ("d", "3"), ("b", "4"), ("a", "5")))))
    return {j.name: j for j in js}.values() and list({j.name: j for j in js}.values())


@prop("C22", **_m("horizons 1 to 4, downtimes up to 3 steps, up to 2 scenarios; every random draw, loss, frequency and quantity symbolic"))
def _c22(tier):
    js = []
    for (h, lo, hi, fr, sc, ex, ix) in ((3, 1, 2, None, 1, False, "range"), (3, 2, 2, None, 1, False, "offset"), (2, 1, 3, None, 1, True, "dates"),
                                        (2, 1, 1, 1.0, 1, False, "range"), (3, 1, 2, 0.0, 2, True, "range"), (1, 1, 2, 0.5, 2, False, "offset"),
                                        (2, 1, 2, 0.5, 2, True, "range"), (3, 0, 1, None, 1, False, "range")) + (
            ((4, 1, 2, None, 1, False, "range"), (4, 2, 3, 0.5, 1, False, "rev")) if tier == "thorough" else ()):
        js.append(Job("fault/%d/%d-%d/%s/%d%d/%s" % (h, lo, hi, fr, sc, ex, ix), wf.h_fault, (h, lo, hi, fr, sc, ex, ix), max_paths=20000,
                      budget_s=150 if tier == "quick" else 900, stub_rng=True, weight=5))
    for s in (0, 1, 543, 2 ** 31):
        js.append(Job("seed/%d" % s, wf.h_fault_seed, (2, 1, 2, s), max_paths=4000, budget_s=120, stub_rng=True))
    return js


@prop("C23", **_m("up to three sources of up to four scenarios, two or three sampled scenarios, horizon 2; every draw and value symbolic"))
def _c23(tier):
    js = [Job("refuse", wf.h_refuse)]
    for i, (h, nb, sizes, pipes) in enumerate(((2, 2, (2,), ()), (2, 1, (3, 2), ()), (2, 2, (), ("one",)), (1, 1, (4, 1), ("mixed",)), (2, 1, (), ("three", "two")),
                                               (3, 3, (2,), ()), (1, 1, (2, 1, 2, 1, 2, 1), ()), (1, 1, (), ("words", "blank")), (1, 5, (2,), ()), (1, 4, (3,), ()), (2, 1, (12,), ()), (1, 1, (), ("three",)))):
        for default in (False, True):
            js.append(Job("shuffle/%d/%s" % (i, "default" if default else "given"), wf.h_shuffle, (h, nb, sizes, pipes, default),
                          max_paths=3000, budget_s=120, stub_rng=True))
    for c in ("one", "mixed"):
        js.append(Job("timeline/%s" % c, wf.h_timeline, (2, c, 2 if c == "one" else 1), max_paths=3000, stub_rng=True))
    js.append(Job("faults", wf.h_fault_sources, (2,), max_paths=3000))
    js.append(Job("independent", wf.h_independent, (3, 3, 2), max_paths=3000))
    return js
