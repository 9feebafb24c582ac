from .registry import prop, Job
from . import lp
from .studies import pick

BOUNDS_LP = ("fixed topologies %s and 6 (thorough 40) drawn at random (<=18 nodes, <=12 elements of a kind per node, <=14 converters with <=4 sources); "
             "horizon 1..5, 30 and 200, 1..4, 12 and 70 scenarios; every quantity, capacity, cost, efficiency, ratio and level is an unbounded real" % [k for k in lp.SK if not k.startswith("rnd")])
OUT_LP = "other topologies and sizes; IEEE rounding (floats are reals); the numerical behaviour of the external LP solver; names containing ':'"
ASM_LP = ["floating point numbers are treated as mathematical reals",
          "ortools is replaced by an exact recorder: Solve() returns any point satisfying the recorded bounds and rows",
          "the process pool is replaced by in-process calls on deep copies; msgpack is the real one",
          "the initial level of a storage does not exceed its capacity, efficiencies are in [0,1], converter ratios are > 0"]


def _groups(groups, sks):
    def build(tier):
        return [Job("%s/%s" % ("+".join(groups), k), lp.h_groups(groups), (k,), trials=60, weight=lp.SK[k]["h"] * lp.SK[k]["scn"],
                    conformance=k in ("pair", "stor", "conv", "full", "sparse")) for k in pick(tier, sks)]

    return build


_meta = dict(bounds=BOUNDS_LP, outside=OUT_LP, assumptions=ASM_LP)
prop("C01", **_meta)(_groups(("balance",), list(lp.SK)))
prop("C02", **_meta)(_groups(("bounds",), list(lp.SK)))
prop("C03", **_meta)(_groups(("storage",), [k for k in lp.SK if any(m["stor"] for n in lp.SK[k]["nets"].values() for m in n.values())]))
prop("C04", **_meta)(_groups(("mix",), [k for k in lp.SK if lp.SK[k].get("convs")]))


def _w(k):
    return lp.SK[k]["h"] * lp.SK[k]["scn"]


@prop("C05", **_meta)
def _c05(tier):
    return [Job("optimal/%s" % k, lp.h_optimal, (k,), trials=300, weight=_w(k)) for k in pick(tier, lp.SK)]


@prop("C06", **_meta)
def _c06(tier):
    return [Job("solvable/%s" % k, lp.h_solvable, (k,), trials=60, weight=_w(k)) for k in pick(tier, lp.SK) if k != "overfull"] + [
        Job("infeasible/%d" % w, lp.h_infeasible, (w,), trials=10) for w in range(6)]


@prop("C07", **_meta)
def _c07(tier):
    return [Job("alone/%s" % k, lp.h_alone, (k,), trials=100, weight=_w(k)) for k in pick(tier, lp.SK) if lp.SK[k]["scn"] > 1 and k != "scn300"]


@prop("C28", **_meta)
def _c28(tier):
    ks = ("pair", "twonets", "stor", "conv", "full", "sparse", "names", "rnd0", "rnd1", "rnd2", "rnd3")
    return [Job("history/%s" % k, lp.h_history, (k,), trials=20, weight=_w(k)) for k in (ks if tier == "quick" else pick(tier, lp.SK)) if k not in ("week", "scn70", "scn300", "crowd")]
