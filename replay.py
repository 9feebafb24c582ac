#!/opt/venv/bin/python
"""Replay witnesses on the unpatched code.

usage: replay.py WITNESS.json        exit 1: the property fails for this input; 0: it holds
The harness is the same program that was executed symbolically; here every number
is a float, the linear solver, the process pool and pandas are the real ones."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import env  # noqa: E402


def quiet():
    sys.stdout.flush()
    sys.stderr.flush()
    keep = os.dup(1), os.dup(2)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    os.close(nul)
    return keep


def loud(keep):
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(keep[0], 1)
    os.dup2(keep[1], 2)
    os.close(keep[0])
    os.close(keep[1])


def run_one(job, inputs, trials, seed=0, fine=False):
    """-> (failed labels or None, trial, inputs used, detail)"""
    from symx.concrete import ConcreteCtx, Stop
    import numpy as np

    last = None
    for trial in range(trials):
        ctx = ConcreteCtx(inputs, trial, seed)
        ctx.wide = trials <= 6 and not fine
        if fine:
            ctx.TOL, ctx.fine = 1e-9, True
        np.random.seed(trial)
        if job.stub_rng:
            env.RNG.reset(ctx)
        try:
            job.fn(ctx, *job.args)
        except Stop as ex:
            last = str(ex)
            continue
        except Exception as ex:
            return (["no unexpected exception"], trial, ctx.used,
                    "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-1500:])
        if ctx.failures:
            return (sorted(set(ctx.failures)), trial, ctx.used, "")
    return (None, trials, {}, last or "")


def run_exists(job, label, inputs, n=400, seconds=100):
    """the solver says no value makes `label` true: look for one on the real code"""
    from symx.concrete import ConcreteCtx, Stop
    import numpy as np
    import time

    end, evaluated = time.time() + seconds, 0
    for trial in range(n):
        if time.time() > end:
            break
        ctx = ConcreteCtx(inputs, trial, 1)
        ctx.randomize = True
        np.random.seed(trial)
        if job.stub_rng:
            env.RNG.reset(ctx)
        try:
            job.fn(ctx, *job.args)
        except Stop:
            continue
        if label in ctx.failures:
            return [label], trial, ctx.used, ""
        if ctx.seen.get(label):
            return None, trial, {}, "seen"
        evaluated += label in ctx.seen
    return ([label] if evaluated >= 50 else None), n, {}, "never true in %d runs" % evaluated


def main():
    wit = json.load(open(sys.argv[1]))
    env.base_setup()
    from harness import registry

    jobs = {j.name: j for j in registry.jobs(wit["property"], wit.get("tier", "quick"))}
    batch = wit["batch"] if "batch" in wit else [wit]
    rngs = {jobs[w["job"]].stub_rng for w in batch if w["job"] in jobs}
    if True in rngs:
        env.install_rng()
    import time

    time.sleep = lambda s: None
    bad = []
    for w in batch:
        job = jobs.get(w["job"])
        if job is None:
            continue
        keep = quiet()
        try:
            r = run_exists(job, w["label"], w["inputs"]) if w.get("exists") else run_one(job, w["inputs"], w.get("trials", 1), fine=w.get("fine", False))
        finally:
            loud(keep)
        if r[0]:
            bad.append(dict(job=w["job"], failed=r[0], trial=r[1], used=r[2], detail=r[3]))
    print(json.dumps(dict(reproduced=bool(bad), results=bad), indent=1, default=str))
    sys.stdout.flush()
    os._exit(1 if bad else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        os._exit(2)
