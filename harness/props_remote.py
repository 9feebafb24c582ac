from .registry import prop, Job
from . import remote as rm
from .props_domain import ASM, OUT


@prop("C24", bounds="up to 4 (thorough 7) polls with every sequence of server answers (HTTP 200/403/404/500/502; QUEUED/COMPUTING/TERMINATED/ERROR) "
                    "decided by symbolic choices; four topologies, every number of study and result an unconstrained real",
      outside=OUT + "; longer polling; connection failures raised by requests itself; error answers that carry a valid document",
      assumptions=ASM + ["requests delivers what it is given (Session.request is replaced by the server)", "waiting has no effect (time.sleep is a no-op)"])
def _c24(tier):
    js = []
    for i, k in enumerate(("pair", "conv", "sparse", "twonets") if tier == "quick" else rm.SK):
        url, token, job, pr = (("http://localhost:6984", None, 123, 1), ("https://srv.example/base", "se cret&", "ab-1", 5),
                               ("http://10.0.0.1", "", 0, 0), ("http://h.x:80/a-b/c.d/e", "t" * 300, 7, 2))[i % 4]
        js.append(Job("remote/%s" % k, rm.h_remote, (k, url, token, job, 3 if tier == "quick" else 6, pr), max_paths=3000, budget_s=200))
    w = [0, 1, 12, 130] if tier == "quick" else [0, 1, 12, 130, 2, 3, 60, 700]  # replays look choices up by position
    js.append(Job("long/pair", rm.h_long, ("pair", "http://h", "t", "j", 3, w), max_paths=3000, budget_s=200))
    js.append(Job("long/conv", rm.h_long, ("conv", "http://h:1", "none", 10 ** 6, 0, w), max_paths=3000, budget_s=200))
    for a, b, how in (("conv", "pair", "same"), ("pair", "twonets", "other"), ("sparse", "sparse", "same")):
        js.append(Job("again/%s/%s/%s" % (a, b, how), rm.h_again, (a, b, "http://h", "tok", how), max_paths=3000, budget_s=200))
    return js
