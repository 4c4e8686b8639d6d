#!/usr/bin/env python3
"""Plants the seeded bugs one by one in /repo (and removes each again): writes seeded/<id>/, confirms that the change builds,
passes the stable tests, that the demonstration fails with it and passes without it, and runs the property's check.
   seeds.py [id ...]   (default: all)          -- a development tool; no check uses it."""
import json, os, subprocess, sys, shutil
V = "/verif"; R = "/repo"; SRC = "src/resonanceReconstruction/"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_defs import SEEDS
DEMO = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken.  Run with cwd /repo after the build.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
/usr/bin/g++ -std=c++17 -O1 %s -I/repo/_build/gen -I/repo/src -I/usr/include/eigen3 %s -o "$T/demo" || exit 3
timeout 120 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable():
    sh("bash /opt/vp/test.sh /tmp/seed-out.json"); d = json.load(open("/tmp/seed-out.json")); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in b if t not in d["passed"]]
def main():
    want = sys.argv[1:]; assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo not clean"
    for s in SEEDS:
        if want and not any(s["id"].startswith(w) for w in want): continue
        d = os.path.join(V, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for n, body in s["files"].items(): open(os.path.join(d, n), "w").write(body)
        if "demo" in s: open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
        else: open(os.path.join(d, "demo.sh"), "w").write(DEMO % (s.get("flags", ""), " ".join('"$D/%s"' % n for n in s["files"] if n.endswith(".cpp"))))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("bash /opt/vp/build.sh"); before = sh("bash %s/demo.sh" % d, cwd=R); 
        try:
            for f, a, b in s["edits"]:
                p = os.path.join(R, SRC + f); t = open(p).read(); assert t.count(a) == 1, (s["id"], f, a, t.count(a)); open(p, "w").write(t.replace(a, b))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % R).stdout)
            bad = stable(); after = sh("bash %s/demo.sh" % d, cwd=R)
            c = {q: sh("bash check %s" % q, cwd=V) for q in [s["property"]] + s.get("also", [])}
        finally: sh("git -C %s checkout -- ." % R)
        hit = [q for q, x in c.items() if x.returncode == 1 and "VIOLATION property=%s" % q in x.stdout]
        print("%-28s tests %s, demo %d -> %d, %s" % (s["id"], "pass" if not bad else "FAIL %s" % bad, before.returncode, after.returncode, "caught by %s" % hit if hit else "NOT CAUGHT"), flush=True)
        if before.returncode != 0 or after.returncode == 0: print(before.stdout[-600:], after.stdout[-600:])
        if not hit: print("\n".join(x.stdout[-500:] for x in c.values()))
    sh("bash /opt/vp/build.sh")
main()
