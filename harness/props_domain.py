from .registry import prop, Job
from . import domain as dm
from .studies import pick
from .props_lp import BOUNDS_LP

ASM = ["floating point numbers are treated as mathematical reals",
       "json and msgpack are the real libraries, symbolic numbers cross them by reference"]
OUT = "other topologies and sizes; IEEE rounding; NaN and infinities; names containing ':'"


def _m(bounds):
    return dict(bounds=bounds, outside=OUT, assumptions=ASM)


@prop("C08", **_m("horizon x scenarios in {(3,2),(1,1),(1,3),(3,1),(2,2),(5,4)}, all accepted shapes and containers; every number a real"))
def _c08(tier):
    js = []
    sizes = [(3, 2), (1, 1), (1, 3), (3, 1), (2, 2)] + ([(5, 4), (24, 3), (7, 12)] if tier == "thorough" else [])
    for (h, S) in sizes:
        for shape in dm.SHAPES:
            kinds = {"scalar": ["list"], "row": ["list", "array", "series"]}.get(shape, ["list", "array", "frame"])
            for i, kind in enumerate(kinds):
                for via in (("prod", "cost", "cap", "link") if tier == "thorough" else (("prod", "cost", "cap", "link")[(i + h + S) % 4],)):
                    if via == "cost":
                        pass
                    js.append(Job("value/%dx%d/%s/%s/%s" % (h, S, shape, kind, via), dm.h_value, (h, S, shape, kind, via), max_paths=60,
                                  conformance=(h, S) == (3, 2)))
                if shape != "scalar" and (h, S) == (3, 2):
                    js.append(Job("reuse/%s/%s" % (shape, kind), dm.h_reuse, (h, S, shape, kind)))
        js.append(Job("shape/%dx%d" % (h, S), dm.h_shape, (h, S)))
    return js


@prop("C09", **_m("one call of each kind on a study with two networks, horizon <=3, 2 scenarios; every argument value an unconstrained real"))
def _c09(tier):
    js = [Job("structure", dm.h_structure)]
    for kind in ("production", "consumption", "link", "storage", "to_converter", "converter"):
        for rot in range(4):
            js.append(Job("valid/%s/%d" % (kind, rot), dm.h_valid, (kind, rot), weight=3))
        for f in dm.fields(kind):
            for shape in dm.SHAPES:
                js.append(Job("valid1/%s.%s/%s" % (kind, f, shape), dm.h_valid1, (kind, f, shape), conformance=False))
    return js


@prop("C10", **_m(BOUNDS_LP))
def _c10(tier):
    return [Job("declare/%s/%s" % (k, st), dm.h_declare, (k, st), weight=2, conformance=k in ("conv", "full")) for k in pick(tier, dm.SK)
            for st in ("chain", "kept", "early", "wander")] + [Job("defaults", dm.h_defaults)]


@prop("C11", **_m(BOUNDS_LP))
def _c11(tier):
    return [Job("study_json/%s" % k, dm.h_study_json, (k,)) for k in pick(tier, dm.SK)] + [Job("study_numbers", dm.h_study_numbers)]


@prop("C12", **_m(BOUNDS_LP))
def _c12(tier):
    return [Job("result_json/%s" % k, dm.h_result_json, (k,)) for k in pick(tier, dm.SK)]


@prop("C29", **_m(BOUNDS_LP + "; one input of the study, or one cell of the result, differs (which one is a symbolic choice)"))
def _c29(tier):
    js = [Job("shape", dm.h_equal_shape)]
    js += [Job("structure/%s/%s" % (k, w), dm.h_equal_structure, (k, w)) for k in ("full", "conv", "sparse", "names") for w in ("study", "result")]
    for k in ("pair", "conv", "stor", "full", "names", "twonets", "sparse", "nets5") if tier == "quick" else pick(tier, dm.SK):
        js.append(Job("study/%s" % k, dm.h_equal, (k,), max_paths=3000, budget_s=200))
        js.append(Job("result/%s" % k, dm.h_equal_result, (k,), max_paths=3000, budget_s=200))
    return js
