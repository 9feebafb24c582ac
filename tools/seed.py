"""Helper to plant a bug: seed.py SPEC.py ; SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS.
Applies it to a scratch copy, runs the tests, the demo with and without, and the property's check."""
import json, os, subprocess, sys

spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, PROP = spec["ID"], spec["PROP"]
D = "/verif/seeded/" + ID
sh = lambda c: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
D0 = "/tmp/seedrepo.%d" % os.getpid()
sh("cp -a /repo " + D0)
sh("sed 's#/repo#%s#' /opt/vp/test.sh > %s.test.sh" % (D0, D0))
os.makedirs(D, exist_ok=True)
open(D + "/demo.py", "w").write(spec["DEMO"])
open(D + "/demo.sh", "w").write('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" HADAR_LOG=ERROR PYTHONDONTWRITEBYTECODE=1 '
                                'timeout 250 /opt/venv/bin/python "$d/demo.py" >/dev/null 2>&1\n')
json.dump(dict(property=PROP, needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(D + "/meta.json", "w"), indent=1)
ok = True
try:
    for f, old, new in spec["EDITS"]:
        s = open(D0 + "/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(D0 + "/" + f, "w").write(s.replace(old, new))
    open(D + "/patch.diff", "w").write(sh("git -C %s diff -- hadar" % D0).stdout)
    sh("bash %s.test.sh %s.json" % (D0, D0))
    o, b = json.load(open(D0 + ".json")), json.load(open("/opt/vp/BASELINE.json"))
    miss = set(b["stable"]) - set(o["passed"])
    r = sh("cd %s && bash %s/demo.sh" % (D0, D))
    print(ID, "tests missing:", miss or "none", "| demo with bug:", r.returncode)
    ok = not miss and r.returncode not in (0, 124)
    if "--nocheck" not in sys.argv:
        for p in [PROP] + spec.get("ALSO", []):
            c = sh("cd /verif && HADAR_REPO=%s VERIF_EVIDENCE=%s.ev /opt/venv/bin/python run.py %s --tier quick" % (D0, D0, p))
            print("  check %s: rc=%d %s" % (p, c.returncode, "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + p in c.stdout else "missed"),
                  c.stdout.strip().splitlines()[-3:] if "-v" in sys.argv else "")
finally:
    sh("rm -rf {0} {0}.ev {0}.json {0}.test.sh".format(D0))
r = sh("cd /repo && bash %s/demo.sh" % D)
print("  demo without bug:", r.returncode)
if not ok or r.returncode != 0:
    print("  !!! NOT VALID")
    print(sh("cd /repo && PYTHONPATH=/repo /opt/venv/bin/python %s/demo.py 2>&1 | tail -5" % D).stdout)
