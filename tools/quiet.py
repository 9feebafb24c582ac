"""Refactorings that keep the behaviour: quiet.py [NAME...] [-p C01,C02] applies each /verif/quiet/NAME.py (EDITS, PROPS) to a
scratch copy of /repo, runs the stable tests and the checks it could disturb; every one has to stay quiet and conclusive."""
import glob, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
args = sys.argv[1:]
only = None
if "-p" in args:
    i = args.index("-p")
    only = args[i + 1].split(",")
    del args[i:i + 2]
names = args or sorted(os.path.basename(f)[:-3] for f in glob.glob(HERE + "/quiet/*.py"))
bad = 0
for name in names:
    spec = {}
    exec(open("%s/quiet/%s.py" % (HERE, name)).read(), spec)
    D = "/tmp/quiet.%d" % os.getpid()
    sh("rm -rf {0} {0}.ev; cp -a /repo {0}; sed 's#/repo#{0}#' /opt/vp/test.sh > {0}.test.sh".format(D))
    try:
        for f, old, new in spec["EDITS"]:
            s = open(D + "/" + f).read()
            assert s.count(old) >= 1, (name, f, old)
            open(D + "/" + f, "w").write(s.replace(old, new))
        sh("bash {0}.test.sh {0}.json".format(D))
        o, b = json.load(open(D + ".json")), json.load(open("/opt/vp/BASELINE.json"))
        miss = set(b["stable"]) - set(o["passed"])
        print(name, "tests missing:", miss or "none", flush=True)
        for p in only or spec["PROPS"].split():
            t = time.time()
            c = sh("cd {2} && HADAR_REPO={0} VERIF_EVIDENCE={0}.ev timeout 900 /opt/venv/bin/python run.py {1} --tier quick".format(D, p, HERE))
            ok = c.returncode == 0
            bad += not ok
            print("  %s rc=%d %.0fs %s" % (p, c.returncode, time.time() - t, "" if ok else c.stdout[-1500:]), flush=True)
    finally:
        sh("rm -rf {0} {0}.ev {0}.json {0}.test.sh".format(D))
sys.exit(bool(bad))
