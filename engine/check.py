"""check <property> [quick|thorough]: type-checks /repo's current sources, extracts the IR and decides one property."""
import sys, os, time, json, hashlib, threading, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir as I
CPUS = min(8, os.cpu_count() or 4)
TRUST = ["clang 18 front end (type checking, template instantiation, overload resolution)", "extractor/extract.cpp (AST to IR)", "engine/ (value-graph construction and comparison)", "stubs/ (interface models of the njoy libraries, Eigen and range-v3)", "spec/*.hpp (the specification scenarios)", "double arithmetic is read as real arithmetic: rounding is not modelled"]
_G = {}
def _one(k):
    import oblig
    box = {}
    def go():
        ob = _G["obs"][k]
        try: r = oblig.run(_G["ir"], ob, _G["seed"], _G["thorough"], _G["byname"])
        except BaseException as e:
            r = oblig.Result(ob); r.status, r.why = "undecided", "internal: %s: %s" % (type(e).__name__, e)
        box["r"] = dict(row=r.row(), status=r.status, why=r.why, witness=r.witness, anchor=ob.anchor, name=ob.name, methods=r.method, points=r.vals, instances=r.instances, functions=sorted(r.functions), uninterp=sorted(r.uninterp))
    th = threading.Thread(target=go); th.start(); th.join()
    return box["r"]
def _child(k, conn):
    threading.stack_size(512 * 1024 * 1024); sys.setrecursionlimit(60000)
    try: conn.send(_one(k))
    except BaseException as e: conn.send(None)
    conn.close(); os._exit(0)
def run_obligations(ir, obs, seed, thorough, budget):
    """each obligation in its own forked process; one that runs out of time or memory is undecided"""
    import table
    _G.update(ir=ir, obs=obs, seed=seed, thorough=thorough, byname=table.BYNAME)
    res, todo, live, t0 = [None] * len(obs), list(range(len(obs))), {}, time.time()
    ctx = mp.get_context("fork")
    from multiprocessing.connection import wait
    while todo or live:
        while todo and len(live) < CPUS:
            k = todo.pop(0); a, b = ctx.Pipe(False); p = ctx.Process(target=_child, args=(k, b)); p.start(); b.close(); live[a] = (k, p)
        left = budget - (time.time() - t0)
        if left <= 0:
            for a, (k, p) in live.items(): p.kill()
            break
        for a in wait(list(live), timeout=min(left, 5)):
            k, p = live.pop(a)
            try: res[k] = a.recv()
            except EOFError: res[k] = None
            p.join()
    for k, ob in enumerate(obs):
        if res[k] is None: res[k] = dict(row={"obligation": ob.name, "status": "undecided", "why": "time or memory budget"}, status="undecided", why="time or memory budget", witness=None, anchor=ob.anchor, name=ob.name, methods={}, points=0, instances=0, functions=[], uninterp=[])
    return res
def known_entries(prop):
    out = []
    try:
        for l in open(os.path.join(I.VERIF, "known_findings.jsonl")):
            l = l.strip()
            if not l or l.startswith("fixed:") or l.startswith("#"): continue
            d = json.loads(l)
            if d["property"] == prop: out.append(d)
    except OSError: pass
    return out
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); thorough = tier == "thorough"; t0 = time.time()
    ir = I.IR(I.extract(os.path.join(I.VERIF, "spec/all.cpp")))
    import table, lints
    obs = [o for o in table.OBS if (o.prop == prop or prop in o.also) and (thorough or not o.thorough)]
    res = run_obligations(ir, obs, seed, thorough, 10800 if thorough else 780)
    lint = []
    for name, f in lints.LINTS.get(prop, ()):
        try: found, stats = f(ir)
        except Exception as e:
            if "--debug" in sys.argv: raise
            found, stats = [], {"rule": name, "error": "%s: %s" % (type(e).__name__, e)}
        lint.append((name, found, stats))
    known = known_entries(prop); viol = []; seen_known = []; und = []
    for r in res:
        ks = [k for k in known if k.get("obligation") == r["name"]]
        if r["status"] == "known" and ks: seen_known.append((ks[0], r["why"]))
        elif r["status"] in ("violated", "known"): viol.append((r["name"], r["why"], r["witness"] or {}, r["anchor"]))
        elif r["status"] != "held": und.append((r["name"], r["why"]))
    for name, found, stats in lint:
        if stats.get("error"): und.append((name, stats["error"]))
        for key, where, msg in found:
            ks = [k for k in known if k.get("finding") == key]
            if ks: seen_known.append((ks[0], msg))
            else: viol.append((name, "%s: %s" % (where, msg), {"rule": stats.get("rule"), "construct": where, "message": msg, "key": key}, where))
    # reports
    for k, why in seen_known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, why in und: print("UNDECIDED property=%s %s: %s" % (prop, n, why[:400]))
    rep = os.path.join(I.VERIF, "evidence", "replay"); os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + "-"): os.unlink(os.path.join(rep, f))
    for name, why, wit, anchor in viol:
        p = os.path.join(rep, "%s-%s.json" % (prop, hashlib.sha1((name + why).encode()).hexdigest()[:10]))
        json.dump(dict(property=prop, check=name, message=why, anchor=anchor, witness=wit, rerun="bash check %s %s" % (prop, tier)), open(p, "w"), indent=1, default=str)
        print("  %s\n    anchored at %s" % (why, anchor))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    # evidence
    level = table.LEVEL.get(prop, "translation_validation" if obs else "other")
    inst = sum(r["instances"] for r in res); meth = {}
    for r in res:
        for k, v in r["methods"].items(): meth[k] = meth.get(k, 0) + v
    proved = sum(v for k, v in meth.items() if k != "identity test")
    fns = sorted({f for r in res for f in r["functions"]})
    cov = dict(rule="the gated value graph of each implementation scenario equals that of its specification scenario for every input of the domain; memory and initialisation side conditions hold" if obs else "; ".join(s.get("rule", "") for _, _, s in lint),
               obligations=inst + len(lint), discharged=inst - sum(1 for r in res if r["status"] not in ("held",)) + sum(1 for _, f, s in lint if not f and not s.get("error")),
               decided_by=meth, functions_analysed=fns, obligation_rows=[r["row"] for r in res], structural=[dict(analysis=n, findings=len(f), **s) for n, f, s in lint], undecided=["%s: %s" % u for u in und], known_findings=[k["what"] for k, _ in seen_known])
    if level == "proof": cov.update(checker_cmd="bash check %s %s" % (prop, tier), trusted_base=TRUST)
    elif level == "translation_validation":
        cov.update(programs=inst, disagreements_checked=sum(r["points"] for r in res) + proved,
                   samples=[dict(obligation=r["name"], anchor=r["anchor"], status=r["status"], instances=r["instances"], decided_by=r["methods"], points=r["points"], functions=r["functions"][:12]) for r in res][:8])
    if level == "other" or lint: cov["explanation"] = "; ".join("%s: %s -- %s" % (n, s.get("rule", ""), ", ".join("%s=%s" % (k, v) for k, v in s.items() if k != "rule")) for n, f, s in lint) or "value-graph obligations, see obligation_rows"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=TRUST, wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(I.VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d obligation instances (%s), %d structural analyses, %d undecided, %d known, %d violations, %.1f s" % (prop, tier, inst, ", ".join("%s %d" % kv for kv in meth.items()), len(lint), len(und), len(seen_known), len(viol), time.time() - t0))
    sys.exit(1 if viol else 0)
if __name__ == "__main__":
    sys.setrecursionlimit(60000); main()
