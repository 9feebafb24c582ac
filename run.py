#!/opt/venv/bin/python
"""Decide one property:  run.py C01 [--tier quick|thorough] [--job NAME]

Executes hadar's current source symbolically for every job (harness x bounds) of
the property, discharges the assertions with z3, replays every counterexample on
the unpatched code and writes evidence/<id>.json."""
import argparse
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
PROP = None
TIER = "quick"
ENDS = "the operation ends"


def watch_functions():
    """record which functions of the working tree are executed symbolically"""
    from symx import env

    mon = sys.monitoring
    funs = set()
    root = os.path.join(env.REPO, "hadar") + os.sep

    def on_start(code, off):
        f = code.co_filename
        if f.startswith(root) and not code.co_name.startswith("<"):
            funs.add("%s:%s" % (os.path.relpath(f, env.REPO), code.co_qualname))
        return mon.DISABLE

    if mon.get_tool(3) is None:
        mon.use_tool_id(3, "symx")
        mon.set_events(3, mon.events.PY_START)
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.restart_events()
    return funs


def work(item):
    """one job, in a worker process"""
    import io
    import contextlib
    from symx import core
    from harness import registry

    prop, tier, name = item
    job = {j.name: j for j in registry.jobs(prop, tier)}[name]
    t = time.time()
    funs = watch_functions()
    ctx = core.SymCtx(max_paths=job.max_paths, budget_s=job.budget_s, timeout_ms=job.timeout_ms)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.explore(lambda c: job.fn(c, *job.args))
        err = None
    except BaseException as ex:  # engine failure: inconclusive, never an alarm
        err = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-2000:]
    return dict(job=name, functions=sorted(funs), stats=ctx.stats, error=err, wall=time.time() - t,
                sample=getattr(ctx, "sample", None),
                cands=[dict(label=c.label, inputs=c.inputs, note=c.note) for c in ctx.candidates])


def replay(prop, tag, payload, timeout):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s.json" % (prop, tag))
    payload = dict(payload, property=prop, tier=TIER)
    json.dump(payload, open(path, "w"), indent=1)
    env = dict(os.environ, HADAR_LOG="ERROR", OMP_NUM_THREADS="1")
    p = subprocess.Popen([PY, os.path.join(HERE, "replay.py"), path], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, cwd=HERE, start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        return path, None, dict(error="timeout", after=timeout)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        out = json.loads(so.decode())
    except Exception:
        out = dict(error=se.decode()[-1500:])
    return path, p.returncode, out


def known(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                job, lab, what = [x.strip() for x in rest.split("|", 2)]
                out.append((job, lab, what))
    return out


def main():
    global PROP, TIER
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that the engine and the repository import")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    global TIER
    TIER = tier
    if a.selftest:
        from symx import env
        env.install_symbolic()
        import hadar, z3
        from harness import registry
        registry._load()
        print("z3 %s, hadar from %s, %d properties" % (z3.get_version_string(), hadar.__file__, len(registry.META)))
        os._exit(0)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    from symx import env

    import_error = None
    try:
        real_pool, real_sleep = env.install_symbolic()
    except Exception:
        import_error = traceback.format_exc()[-2000:]
        print("inconclusive: hadar could not be imported\n" + import_error)
    import z3
    from harness import registry

    jobs = registry.jobs(prop, tier)
    if a.job:
        jobs = [j for j in jobs if a.job in j.name]
    results = []
    byname = {j.name: j for j in jobs}
    # ---- counterexamples: replay on the real code
    violations, spurious, knownhits = [], [], []
    cands = []
    kn = known(prop)
    deadline = t0 + (registry.REPLAY_DEADLINE_QUICK if tier == "quick" else 3000)
    tried = [0]

    def confirm(batch):
        """replay candidates [(n, engine, job, cand)] on the unpatched code"""
        procs = []
        for n, _, jn, c in batch:
            c["tried"] = True
            procs.append((jn, c, "%s_%d" % ("".join(ch if ch.isalnum() else "-" for ch in jn)[:60], tried[0])))
            tried[0] += 1
        outs = run_parallel([(prop, tag, dict(job=jn, label=c["label"], note=c["note"], inputs=c["inputs"],
                                              exists=c["note"].startswith("impossible on every path"),
                                              trials=1 if c["label"] == ENDS else byname[jn].trials)) for jn, c, tag in procs],
                            timeout=max(30, min(90 if all(c["label"] == ENDS for _, _, _, c in batch) else 240, deadline - time.time())))
        for (jn, c, tag), (path, rc, out) in zip(procs, outs):
            if c["label"] == ENDS and rc is None and out.get("error") == "timeout" and out.get("after", 0) >= 60:
                # a concrete run takes a fraction of a second
                violations.append(dict(job=jn, label=ENDS, failed=[ENDS], replay=path,
                                       detail="not ended after %d s on the unpatched code" % out["after"]))
                continue
            if rc == 1 and out.get("results"):
                failed = out["results"][0]["failed"]
                hit = [w for (kj, kl, w) in kn if kj in jn and any(kl in f for f in failed)]
                if hit and all(any(kl in f for (kj, kl, w) in kn if kj in jn) for f in failed):
                    knownhits.append(hit[0])
                    continue
                w = json.load(open(path))
                w["reproduced"] = out["results"][0]
                json.dump(w, open(path, "w"), indent=1)
                violations.append(dict(job=jn, label=c["label"], failed=failed, replay=path,
                                       detail=out["results"][0].get("detail", "")[-600:]))
            else:
                spurious.append(dict(job=jn, label=c["label"], note=c["note"][:200], rc=rc,
                                     error=str(out.get("error", ""))[-200:]))
                if os.path.exists(path):
                    os.remove(path)

    unfinished = []
    if not import_error:
        jobs_sorted = sorted(jobs, key=lambda j: -j.weight)
        waiting = set(byname)
        # all jobs have finished long before; a tree on which they have not still gets an answer
        stop = t0 + (registry.STOP_QUICK if tier == "quick" else registry.STOP_THOROUGH)
        pool = real_pool(min(a.procs, len(jobs_sorted)), maxtasksperchild=None)
        it = pool.imap_unordered(work, [(prop, tier, j.name) for j in jobs_sorted], chunksize=1)
        while waiting and not violations:
            try:
                r = it.next(timeout=max(0.1, stop - time.time()))
            except multiprocessing.TimeoutError:
                break
            results.append(r)
            waiting.discard(r["job"])
            if a.v:
                st = r["stats"]
                print("  %-28s %.1fs paths=%d queries=%d checks=%d cands=%d trunc=%d %s" % (
                    r["job"], r["wall"], st["paths"], st["queries"], st["checks"], len(r["cands"]), st["truncated"],
                    st["degraded"][:2]), [(c["label"], c["note"][:160]) for c in r["cands"][:3]], flush=True)
                if st.get("tb"):
                    print(st["tb"])
                if r["error"]:
                    print(r["error"])
            seen = {}
            first = []
            for c in r["cands"]:
                n = seen.get(c["label"], 0)
                seen[c["label"]] = n + 1
                x = (n, c["label"].startswith("engine:"), r["job"], c)
                cands.append(x)
                if n == 0 and not x[1]:
                    first.append(x)
            if first and tried[0] < 16 and not a.v:
                confirm(first[:3])
        unfinished = sorted(waiting)
        pool.terminate()
    cands.sort(key=lambda x: (x[1], x[0]))
    todo = [x for x in cands if not x[3].get("tried")][:48]
    while todo and not violations and time.time() < deadline:
        confirm(todo[:8])
        todo = todo[8:]
    # ---- conformance of the encoding: one solver model per job runs on the unpatched code
    conf = dict(runs=0, failed=0)
    if not violations and not import_error:
        batch = [dict(job=r["job"], inputs=r["sample"], **(dict(trials=2, fine=True) if byname[r["job"]].trials <= 6 else dict(trials=1))) for r in results
                 if r["sample"] is not None and byname[r["job"]].conformance]
        groups = [[b for b in batch if byname[b["job"]].stub_rng is f] for f in (False, True)]
        chunks = [g[k::4] for g in groups for k in range(4) if g[k::4]]
        outs = run_parallel([(prop, "conf%d" % k, dict(batch=ch)) for k, ch in enumerate(chunks)], timeout=240)
        for ch, (path, rc, out) in zip(chunks, outs):
            conf["runs"] += len(ch)
            if rc == 1 and out.get("results"):
                for res in out["results"]:
                    hit = [w for (kj, kl, w) in kn if kj in res["job"] and any(kl in f for f in res["failed"])]
                    if hit:
                        knownhits.append(hit[0])
                        continue
                    conf["failed"] += 1
                    w = [x for x in ch if x["job"] == res["job"]][0]
                    p2 = path.replace(".json", "_%s.json" % "".join(c if c.isalnum() else "-" for c in res["job"])[:50])
                    json.dump(dict(w, property=prop, tier=TIER, label="conformance", reproduced=res), open(p2, "w"), indent=1)
                    violations.append(dict(job=res["job"], label="conformance", failed=res["failed"], replay=p2,
                                           detail=res.get("detail", "")[-600:]))
            elif rc not in (0, 1):
                conf["error"] = str(out.get("error", "")).strip()[-300:]
            if os.path.exists(path):
                os.remove(path)
    # ---- evidence
    tot = lambda k: sum(r["stats"][k] for r in results)
    incon = [] if violations else ["%s: not finished in time" % n for n in unfinished]
    for r in results:
        if r["error"]:
            incon.append("%s: engine error: %s" % (r["job"], r["error"].strip().splitlines()[-1]))
        for d in sorted(set(r["stats"]["degraded"]))[:5]:
            incon.append("%s: %s" % (r["job"], d[:200]))
        if r["stats"]["truncated"]:
            incon.append("%s: %d paths not explored (budget)" % (r["job"], r["stats"]["truncated"]))
        if r["stats"]["paths"] == 0:
            incon.append("%s: no feasible path reached the end" % r["job"])
    labels = {}
    for r in results:
        for l, (n, q) in r["stats"]["labels"].items():
            x = labels.setdefault(l.split(":")[0], [0, 0])
            x[0] += n
            x[1] += q
    meta = registry.META[prop]
    reached = {}
    for r in results:
        for l, n in r["stats"]["reached"].items():
            reached[l] = reached.get(l, 0) + n
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            technique="symbolic execution of the working tree's source (z3 %s), counterexamples replayed on the unpatched code" % z3.get_version_string(),
            explanation="symbolic bounded checking: `states` counts the fully explored symbolic paths (each stands for every "
                        "value of its symbols), `transitions` the branch and assertion queries z3 decided, "
                        "`traces_validated_against_impl` the solver models run on the unpatched code",
            states=tot("paths") if results else 0, transitions=tot("queries") if results else 0,
            traces_validated_against_impl=conf["runs"] + len(cands),
            samples=[dict(job=r["job"], inputs=dict(list((r["sample"] or {}).items())[:12])) for r in results[:3]],
            functions_encoded=sorted(set(f for r in results for f in r["functions"])), bounds=meta["bounds"], outside_bounds=meta["outside"],
            jobs=[dict(name=r["job"], paths=r["stats"]["paths"], queries=r["stats"]["queries"],
                       assertions=r["stats"]["checks"], solver_s=round(r["stats"]["solver_s"], 3),
                       wall_s=round(r["wall"], 2)) for r in results],
            infeasible_paths=tot("infeasible") if results else 0,
            solver_s=round(tot("solver_s"), 3) if results else 0,
            assertions=tot("checks") if results else 0, assertions_decided_by_simplification=tot("trivially_true") if results else 0,
            assertions_by_group={k: dict(total=v[0], sent_to_solver=v[1]) for k, v in sorted(labels.items())},
            reached=reached, vacuous_paths=tot("vacuous_paths") if results else 0,
            concretised_escapes=tot("concretised") if results else 0, solver_unknown=tot("unknown") if results else 0,
            inconclusive=incon, counterexamples=len(cands), spurious=spurious[:20], conformance=conf,
        ),
        wall_s=round(time.time() - t0, 2), assumptions=meta["assumptions"],
        violations=len(violations),
    )
    ev["coverage"]["violations"] = violations
    if import_error:
        ev["coverage"]["inconclusive"].append("import failed: " + import_error[-300:])
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)
    for w in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    print("%s %s: %d jobs, %d paths, %d queries, %d assertions, %.1fs solver, %.1fs wall, %d inconclusive, %d spurious" % (
        prop, tier, len(results), ev["coverage"]["states"], ev["coverage"]["transitions"], ev["coverage"]["assertions"],
        ev["coverage"]["solver_s"], time.time() - t0, len(incon), len(spurious)))
    if a.v:
        for x in incon:
            print("  inconclusive:", x)
        for x in spurious[:10]:
            print("  spurious:", x)
    if violations:
        v = violations[0]
        print("counterexample (%s): %s %s" % (v["job"], v["failed"][:5], v["detail"][-300:]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


def run_parallel(items, timeout):
    """replays in parallel subprocesses"""
    from threading import Thread

    outs = [None] * len(items)

    def go(i):
        try:
            outs[i] = replay(*items[i], timeout=timeout)
        except Exception as ex:
            outs[i] = ("", None, dict(error=repr(ex)))

    ths = [Thread(target=go, args=(i,)) for i in range(len(items))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return outs


if __name__ == "__main__":
    main()
