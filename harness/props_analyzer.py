from .registry import prop, Job
from . import analyzer as an
from .studies import pick
from .props_lp import BOUNDS_LP
from .props_domain import ASM, OUT

ASM_A = ASM + ["pandas runs as is on columns that hold symbolic numbers (extension array); labels, filters and topology are concrete"]
KINDS = ("cons", "prod", "stor", "link", "src", "dest")
FEW = ("pair", "twonets", "stor", "conv", "full", "sparse", "chain", "names", "mesh", "rnd1", "rnd3", "wide")


def _m(bounds=BOUNDS_LP):
    return dict(bounds=bounds + "; results: every number an unconstrained real", outside=OUT, assumptions=ASM_A)


@prop("C13", **_m())
def _c13(tier):
    return [Job("tables/%s" % k, an.h_tables, (k, ("cons", "prod", "stor", "link"))) for k in pick(tier, an.SK)]


@prop("C14", **_m())
def _c14(tier):
    return [Job("conv_tables/%s" % k, an.h_tables, (k, ("src", "dest"))) for k in pick(tier, an.SK)]


@prop("C15", **_m(BOUNDS_LP + "; queries: all 24 orders of the four selectors are met, filters single/list/tuple/slice/open slice/none, with gaps, steps, unknown names, past the end"))
def _c15(tier):
    js = []
    for k in (FEW if tier == "quick" else pick(tier, an.SK)):
        for kind in KINDS:
            for i in range(1 if tier == "quick" else 8):
                js.append(Job("query/%s/%s/%d" % (k, kind, i), an.h_query, (k, kind, hash_(k, kind, i), 24 if tier == "quick" else 48),
                              conformance=k == "full"))
    for k in ("conv",):
        js.append(Job("twice/%s" % k, an.h_twice, (k,), max_paths=6000, budget_s=200))
    return js


def hash_(*a):
    import zlib

    return zlib.crc32(repr(a).encode()) % 1000


@prop("C16", **_m())
def _c16(tier):
    return [Job("cost/%s" % k, an.h_cost, (k,), timeout_ms=20000) for k in pick(tier, an.SK)]


@prop("C17", **_m())
def _c17(tier):
    return [Job("balance/%s" % k, an.h_balance, (k,)) for k in pick(tier, an.SK)]


@prop("C18", **_m())
def _c18(tier):
    return [Job("rac/%s" % k, an.h_rac, (k,)) for k in pick(tier, an.SK)]


@prop("C30", **_m())
def _c30(tier):
    from . import accounts as ac

    return [Job("accounts/%s" % k, ac.h_accounts, (k,), trials=20) for k in pick(tier, an.SK)]
