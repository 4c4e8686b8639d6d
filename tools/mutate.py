"""Mutation campaign against copies of /repo/src: which single-token changes does no check notice?
usage: mutate.py COUNT SEED WORKERS OUT [path-substring ...]"""
import sys, os, re, random, shutil, json, time, signal, multiprocessing as mp, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/engine")
sys.setrecursionlimit(60000); threading.stack_size(512 * 1024 * 1024)
import ir as I, oblig, table, lints
OPS = [(r"(?<![\w.])(\d+)\.(\d*)(?=[^\w.]|$)", lambda m: "%s.%s" % (int(m.group(1)) + 1, m.group(2))), (r"(?<![\w.\[<])(\d+)(?=[\s;,)\]])", lambda m: str(int(m.group(1)) + 1)),
       (r" \+ ", lambda m: " - "), (r" - ", lambda m: " + "), (r" \* ", lambda m: " / "), (r" / ", lambda m: " * "), (r" < ", lambda m: " <= "), (r" > ", lambda m: " >= "), (r" <= ", lambda m: " < "), (r" >= ", lambda m: " > "),
       (r" == ", lambda m: " != "), (r" != ", lambda m: " == "), (r"&&|\band\b", lambda m: "||"), (r"\|\||\bor\b", lambda m: "&&"), (r"\bsin\(", lambda m: "cos("), (r"\bcos\(", lambda m: "sin("), (r"std::real\(", lambda m: "std::imag("), (r"std::imag\(", lambda m: "std::real("),
       (r"\.real\(\)", lambda m: ".imag()"), (r"std::conj\(", lambda m: "("), (r"std::abs\(", lambda m: "("), (r"std::sqrt\(", lambda m: "("), (r"\.front\(\)", lambda m: ".back()"), (r"\btrue\b", lambda m: "false"), (r"\bfalse\b", lambda m: "true"), (r"\bbegin\(\)", lambda m: "begin() + 1"),
       (r" \+= ", lambda m: " -= "), (r" -= ", lambda m: " += "), (r"(?<=[(=,]) ?-(?=[\w(])", lambda m: " "), (r"!(?=[\w(])", lambda m: ""), (r"^\s*[^{}#/]*;\s*$", lambda m: ""), (r"\( *(\w[\w.]*(?:\(\))?), (\w[\w.]*(?:\(\))?) *\)", lambda m: "( %s, %s )" % (m.group(2), m.group(1))), (r"\?([^:?]+):([^:?;]+)(?=[;)])", lambda m: "?%s:%s" % (m.group(2), m.group(1))),
       (r"(?<!\w)(elastic|capture|fission|competition|neutron|photon)(?=\w*(\(\)|\b))", lambda m: {"elastic": "capture", "capture": "fission", "fission": "elastic", "competition": "fission", "neutron": "photon", "photon": "neutron"}[m.group(1)]), (r"\bstd::get< *0 *>", lambda m: "std::get<1>"), (r"\bstd::get< *1 *>", lambda m: "std::get<0>")]
def sites(files):
    out = []
    for f in files:
        txt = open(f, errors="replace").read(); com = False; lines = txt.split("\n")
        for n, l in enumerate(lines):
            if "/*" in l: com = True
            code = l.split("//")[0]
            if not com and code.strip() and not code.lstrip().startswith(("#", "*", "using", "namespace", "throw", "Log::")) and "Log::" not in code:
                for k, (p, r) in enumerate(OPS):
                    for m in re.finditer(p, code):
                        new = code[:m.start()] + r(m) + code[m.end():]
                        if new != code: out.append((f, n, k, l, new))
            if "*/" in l: com = False
    return out
def cover():
    """obligation -> files of the functions it analysed, with its time"""
    ir = I.IR(I.extract(V + "/spec/all.cpp")); q = {}
    for f in ir.fn.values():
        if ir.isrepo(f): q.setdefault(f["q"], set()).add(os.path.realpath(ir.where(f["l"]).rsplit(":", 1)[0]) if ir.where(f["l"]).startswith("/") else ir.where(f["l"]).rsplit(":", 1)[0])
    import check
    box = {}
    res = check.run_obligations(ir, [o for o in table.OBS if not o.thorough], 1, False, 800)
    for o, r in zip([o for o in table.OBS if not o.thorough], res):
        fs = set()
        for x in r["functions"]: fs |= q.get(x, set())
        box[o.name] = (sorted(fs), r["row"].get("seconds", 1), o.prop)
    return box
def work(k, jobs, cov, out):
    root = "/tmp/mw/%d" % k; shutil.rmtree(root, ignore_errors=True); shutil.copytree("/repo/src", root + "/src")
    for f, n, op, old, new in jobs:
        rel = os.path.relpath(f, "/repo"); p = root + "/" + rel; src = open(p, errors="replace").read(); ls = src.split("\n"); ls[n] = new
        open(p, "w").write("\n".join(ls)); t0 = time.time()
        pid = os.fork()
        if pid == 0:
            def go():
                try: st = one(root, rel, cov)
                except SystemExit: st = "broken"
                except BaseException as e: st = "error %s %s" % (type(e).__name__, str(e)[:200])
                with open(out, "a") as o: o.write(json.dumps(dict(file=rel, line=n + 1, old=old.strip(), new=new.strip(), op=op, result=st, s=round(time.time() - t0, 1))) + "\n")
                os._exit(0)
            th = threading.Thread(target=go); th.start(); th.join(); os._exit(0)
        end = time.time() + 400
        while time.time() < end:
            if os.waitpid(pid, os.WNOHANG)[0]: break
            time.sleep(0.2)
        else:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
            with open(out, "a") as o: o.write(json.dumps(dict(file=rel, line=n + 1, old=old.strip(), new=new.strip(), op=op, result="timeout")) + "\n")
        open(p, "w").write(src)
    shutil.rmtree(root, ignore_errors=True)
def one(root, rel, cov):
    I.REPO = root; I.SRC = root + "/src"
    d = I.extract(V + "/spec/all.cpp")
    key = I.digest((V + "/spec/all.cpp",)); cf = V + "/.cache/all.cpp." + key[:24] + ".json"
    if os.path.exists(cf): os.unlink(cf)
    ir = I.IR(d)
    if any(x["level"] >= 3 for x in ir.diags): return "invalid"
    obs = [o for o in table.OBS if o.name in cov and rel in cov[o.name][0]]; obs.sort(key=lambda o: cov[o.name][1])
    und = []
    for o in obs:
        r = oblig.run(ir, o, 1, False, table.BYNAME)
        if r.status == "violated": return "caught %s %s" % (o.prop, o.name)
        if r.status == "known" and not any(e.get("obligation") == o.name for e in KN): return "caught %s %s" % (o.prop, o.name)
        if r.status == "undecided": und.append(o.name)
    for prop, ls in lints.LINTS.items():
        for name, f in ls:
            try: found, stats = f(ir)
            except Exception as e: und.append(name); continue
            if len(found) > LBASE.get((prop, name), 0): return "caught %s lint %s" % (prop, name)
    return "survived" + (" undecided %d/%d %s" % (len(und), len(obs), und[0]) if und else "") + " of %d" % len(obs)
KN = []; LBASE = {}
def main():
    n, seed, w, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]; pats = sys.argv[5:]
    import check
    cf = "/tmp/mw-cover.json"
    if os.path.exists(cf): cov = json.load(open(cf))
    else: cov = cover(); json.dump(cov, open(cf, "w"))
    for p in set(o.prop for o in table.OBS) | set(lints.LINTS): KN.extend(check.known_entries(p))
    ir = I.IR(I.extract(V + "/spec/all.cpp"))
    for prop, ls in lints.LINTS.items():
        for name, f in ls: LBASE[(prop, name)] = len(f(ir)[0])
    files = [f for f in I.repo_sources() if not pats or any(p in f for p in pats)]
    if not pats:
        covered = {x for v in cov.values() for x in v[0]}; files = [f for f in files if os.path.relpath(f, "/repo") in covered]
    s = sites(files); rnd = random.Random(seed); rnd.shuffle(s); s = s[:n]
    print(len(files), "files", len(s), "mutants"); ps = [mp.Process(target=work, args=(k, s[k::w], cov, out)) for k in range(w)]
    for p in ps: p.start()
    for p in ps: p.join()
th = threading.Thread(target=main); th.start(); th.join()
