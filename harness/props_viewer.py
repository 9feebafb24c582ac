from .registry import prop, Job
from . import viewer as vw
from .props_analyzer import ASM_A
from .props_domain import OUT

B = ("five topologies up to 3 nodes, 2 networks, 3 converters, 2 storages; horizon and scenarios up to 3; the drawn element, kind, time step "
     "and scenario are symbolic choices, every number of study and result an unconstrained real")
ASM_V = ASM_A + ["plotly keeps the data it is given", "square root and exponential are uninterpreted: the height of the bell curve is not decided"]
M = dict(bounds=B, outside=OUT + "; colours, layout and hover templates", assumptions=ASM_V)


FREE = ((0, 0), (0, 1), (1, 0))


@prop("C25", **M)
def _c25(tier):
    js = [Job("axis", vw.h_axis)]
    for i, k in enumerate(vw.SMALL):
        for d in ((False, True) if tier == "thorough" else (bool(i % 2),)):
            js.append(Job("timeline/%s/%d" % (k, d), vw.h_timeline, (k, d)))
            if k in ("stor", "one", "scn3"):
                js.append(Job("candles/%s/%d" % (k, d), vw.h_candles, (k, d)))
        js.append(Job("monotone/%s" % k, vw.h_monotone, (k,), max_paths=6000, budget_s=300, weight=5))
        js.append(Job("gaussian/%s" % k, vw.h_gaussian, (k,), max_paths=6000, budget_s=300, weight=6))
    js.append(Job("timeline/scn70", vw.h_timeline, ("scn70", False)))
    js.append(Job("timeline/days", vw.h_timeline, ("days", True)))
    js.append(Job("candles/days", vw.h_candles, ("days", True)))
    js.append(Job("timeline/long", vw.h_timeline, ("long", True)))
    js.append(Job("candles/long", vw.h_candles, ("long", False)))
    for k in ("conv", "stor"):
        js.append(Job("session/element/%s" % k, vw.h_session, (k, "element", k == "stor"), max_paths=6000, budget_s=300, weight=6))
        js.append(Job("session/gaussian/%s" % k, vw.h_session, (k, "gaussian", False), max_paths=6000, budget_s=300, weight=6))
    return js


@prop("C26", **M)
def _c26(tier):
    js = []
    for i, k in enumerate(vw.SMALL):
        for n, net in vw.VSK[k]["nets"].items():
            for m in net:
                for d in ((False, True) if tier == "thorough" else (bool(i % 2),)):
                    if k == "stor":
                        for s in range(2):
                            js.append(Job("stack/%s/%d/%s/%s/%d" % (k, d, n, m, s), vw.h_stack, (k, d, n, m, s), max_paths=6000, budget_s=400, weight=4))
                    else:
                        js.append(Job("stack/%s/%d/%s/%s" % (k, d, n, m), vw.h_stack, (k, d, n, m), max_paths=6000, budget_s=400))
    js.append(Job("stack/crowd", vw.h_stack, ("crowd", True, "default", "a")))
    for k in ("conv", "scn3"):
        js.append(Job("session/stack/%s" % k, vw.h_session, (k, "stack", k == "scn3"), max_paths=6000, budget_s=300, weight=6))
    return js


@prop("C27", **M)
def _c27(tier):
    js = []
    if tier == "thorough":
        js.append(Job("rac_matrix_free/rect", vw.h_rac_matrix, ("rect", False, None), max_paths=20000, budget_s=1500, weight=9))
    for i, k in enumerate(vw.SMALL):
        js.append(Job("map/%s" % k, vw.h_map, (k,), max_paths=6000, budget_s=300))
        for d in ((False, True) if tier == "thorough" else (bool(i % 2),)):
            js.append(Job("rac_matrix/%s/%d" % (k, d), vw.h_rac_matrix, (k, d, FREE if k in ("rect", "stor") else None), max_paths=6000, budget_s=300, weight=4))
    for k, fr in (("scn70", ((69, 1),)), ("days", ((0, 2),)), ("days", ((1, 59),))):
        js.append(Job("rac_matrix/%s/%d" % (k, fr[0][1]), vw.h_rac_matrix, (k, True, fr), max_paths=50, budget_s=200, weight=8))
    for k in ("conv", "pair"):
        js.append(Job("session/rac/%s" % k, vw.h_session, (k, "rac", k == "pair"), max_paths=6000, budget_s=300, weight=6))
    for k in ("conv", "scn3"):
        js.append(Job("session/map/%s" % k, vw.h_session, (k, "map", k == "scn3"), max_paths=6000, budget_s=300, weight=6))
    return js
