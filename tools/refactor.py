#!/usr/bin/env python3
"""Applies behaviour-preserving edits one by one to /repo (and removes each again) and runs checks: all must stay quiet.
   refactor.py [id ...]          -- a development tool; no check uses it."""
import json, os, subprocess, sys
V = "/verif"; R = os.environ.get("VP_REPO", "/repo"); SRC = "src/resonanceReconstruction/"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_defs import REF
import refactor_defs2
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
want = sys.argv[1:]; assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo not clean"
for name, props, edits, slice_ in REF:
    if want and not any(name.startswith(w) for w in want): continue
    try:
        for f, a, b in edits:
            p = os.path.join(R, SRC + f); t = open(p).read()
            if callable(a): t = a(t)
            else:
                assert t.count(a) == 1, (name, f, a, t.count(a)); t = t.replace(a, b)
            open(p, "w").write(t)
        bad = []
        if slice_ and R == "/repo":
            sh("bash /opt/vp/test.sh /tmp/ref-out.json"); d = json.load(open("/tmp/ref-out.json")); bad = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in d["passed"]]
        out = []
        for q in props:
            x = sh("timeout 880 bash check %s" % q, cwd=V); und = x.stdout.count("UNDECIDED")
            out.append("%s:%s" % (q, "ALARM" if x.returncode == 1 else "quiet" if x.returncode == 0 and not und else "%d undecided" % und if x.returncode == 0 else "NO ANSWER %d" % x.returncode))
            if x.returncode or und: print(x.stdout[-1500:])
    finally: sh("git -C %s checkout -- ." % R)
    print("%-24s tests %s  %s" % (name, "pass" if not bad else "FAIL %s" % bad, " ".join(out)), flush=True)
if R == "/repo": sh("bash /opt/vp/build.sh")
