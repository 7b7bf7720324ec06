#!/usr/bin/env python3
"""Dev tool: seedtest.py [--notest] ID... : confirm planted changes in the scratch copy /tmp/sw (build, stable tests, demo, checks)."""
import sys, os, subprocess, json, glob
SW = "/tmp/sw"; R = SW + "/repo"; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
args = sys.argv[1:]; notest = "--notest" in args; nocheck = "--nocheck" in args; ids = [a for a in args if a[0] != "-"]
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
print(sh("cd %s && git fetch -q /repo && git checkout -qf %s && bash %s/vp/build.sh | tail -1" % (R, head, SW)).stdout)
for i in ids:
    d = V + "/seeded/" + i; meta = json.load(open(d + "/meta.json"))
    t = "/tmp/sw/demo_" + i; sh("rm -rf /tmp/sw/demo_%s; cp -r %s %s; rm -f %s/*.diff %s/meta.json" % (i, d, t, t, t))
    def demo():
        p = sh("bash %s/demo.sh" % t, cwd=R, timeout=400); return p.returncode, p.stdout[-400:]
    a, ao = demo() if not nocheck or not notest else (0, "")
    p = sh("git apply %s/patch.diff" % d, cwd=R)
    if p.returncode: print(i, "PATCH DOES NOT APPLY", p.stdout); continue
    try:
        b = sh("bash %s/vp/build.sh" % SW)
        if b.returncode: print(i, "DOES NOT BUILD", b.stdout[-800:]); continue
        miss = None
        if not notest:
            sh("bash %s/vp/test.sh %s/out.json" % (SW, SW)); miss = stable - set(json.load(open(SW + "/out.json"))["passed"])
        c, co = demo()
        line = "%s demo clean=%s patched=%s tests_missing=%s" % (i, a, c, miss if miss is None or miss else "none")
        print(line); 
        if a: print(ao)
        if not c: print(co)
        if not nocheck:
            k = sh("VERIF_REPO=%s ./check.sh %s" % (R, meta["property"]), cwd=V); print("   check rc=%s" % k.returncode); print("   " + "\n   ".join(k.stdout.splitlines()[-10:]))
    finally:
        sh("git checkout -q -- . ", cwd=R)
    sys.stdout.flush()
sh("bash %s/vp/build.sh" % SW)
