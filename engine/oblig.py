"""Value-graph obligations: the graph of an implementation scenario must equal the graph of its specification."""
import os, random, itertools, sys, time, traceback
from fractions import Fraction as Fr
import terms as t
from terms import T, num, sym, TRUE, FALSE, land, lnot, UNDEF
from values import *
from interp import Engine, Frame, State, Dead, Unsupported
import decide
from decide import Ev, Nan, Und, UNDEFV, concretise, differ, fmt, mpf

# ------------------------------------------------------------------ domains
class Real:
    def __init__(s, lo, hi, special=(), log=None): s.lo, s.hi, s.special = Fr(lo), Fr(hi), [Fr(x) for x in special]; s.log = log if log is not None else (s.lo > 0 and s.hi / s.lo > 50)
    def mk(s, name): return sym(name, "r"), {name: s}
    def __str__(s): return "[%g, %g]" % (s.lo, s.hi)
    ty = "r"
    def sample(s, rnd, i):
        if i < len(s.special): return mpfq(s.special[i])
        lo, hi = float(s.lo), float(s.hi)
        if hi > 0 and (s.log or hi - lo > 1e3 and rnd.random() < 0.8):
            import math
            v = math.exp(rnd.uniform(math.log(max(lo, 1e-4)), math.log(hi)))
            if lo < 0 and rnd.random() < 0.5: v = max(lo, -v)
        else: v = rnd.uniform(float(s.lo), float(s.hi))
        q = Fr(v).limit_denominator(4096) if abs(v) > 0.01 else Fr(v)
        if q < s.lo: q = s.lo
        if q > s.hi: q = s.hi
        return mpfq(q)
    def ok(s, v): return mpfq(s.lo) <= v <= mpfq(s.hi)
class Pick:
    """finite set of values, left symbolic"""
    def __init__(s, vals, ty="r"): s.vals, s.ty = [Fr(v) for v in vals], ty
    def mk(s, name): return sym(name, s.ty), {name: s}
    def sample(s, rnd, i):
        v = rnd.choice(s.vals); return int(v) if s.ty in t.INTS else mpfq(v)
    def ok(s, v): return any(mpfq(x) == v for x in s.vals)
class Int:
    def __init__(s, lo, hi, ty="u", samples=None): s.lo, s.hi, s.ty = lo, hi, ty; s.samples = samples
    def mk(s, name): return sym(name, s.ty), {name: s}
    def sample(s, rnd, i):
        if s.samples: return rnd.choice(s.samples)
        return rnd.randint(s.lo, s.hi)
    def ok(s, v): return s.lo <= v <= s.hi
class Bool:
    ty = "b"
    def mk(s, name): return sym(name, "b"), {name: s}
    def sample(s, rnd, i): return rnd.random() < 0.5
    def ok(s, v): return True
class Enum:
    """enumerated: one instance of the obligation per value"""
    def __init__(s, vals, ty="u"): s.vals, s.ty = list(vals), ty
class Str:
    ty = "s"
    def __init__(s, vals=None): s.vals = vals
    def mk(s, name): return sym(name, "s"), {name: s}
    def sample(s, rnd, i): return rnd.choice(s.vals) if s.vals else "id%d" % rnd.randint(0, 10**6)
    def ok(s, v): return True
class Vec:
    def __init__(s, elems): s.elems = elems
    def mk(s, name):
        d, xs = {}, []
        for i, e in enumerate(s.elems):
            v, q = e.mk("%s.%d" % (name, i)); xs.append(v); d.update(q)
        return Seq(xs), d
class Rec:
    """record of an external interface: accessor name -> domain"""
    def __init__(s, ty, **fields): s.ty, s.fields = ty, fields
    def mk(s, name):
        d, f = {}, {}
        for k, e in s.fields.items(): v, q = e.mk("%s.%s" % (name, k)); f[k] = v; d.update(q)
        return Obj(s.ty, f, s.ty), d
class Const:
    def __init__(s, v): s.v = v
    def mk(s, name): return s.v, {}
    def __str__(s): return "{%s}" % s.v
class CxD:
    def __init__(s, re, im): s.re, s.im = re, im
    def mk(s, name):
        a, d1 = s.re.mk(name + ".re"); b, d2 = s.im.mk(name + ".im"); d1.update(d2); return Cx(a, b), d1
def mpfq(q): return decide.q2m(q) if isinstance(q, Fr) else mpf(q)

class Ob:
    def __init__(s, prop, name, impl=None, spec=None, dom=None, pre=None, symloop=0, maxunroll=64, nval=24, anchor="", note="", issues=True, muiter=4000, abstract=None, thorough=False, contracts=(), known=None, also=(), confirm=False, tol=None, nf=True, cases=None, calm=None):
        s.confirm, s.at, s.calm = confirm, None, calm
        s.prop, s.name, s.impl, s.spec, s.dom, s.pre, s.symloop, s.maxunroll, s.nval, s.anchor, s.note, s.issues, s.muiter, s.thorough, s.abstract, s.contracts, s.known, s.also = prop, name, impl or "impl_" + name, spec or "spec_" + name, dom or {}, pre, symloop, maxunroll, nval, anchor, note, issues, muiter, thorough, abstract or {}, contracts, known, also; s.tol, s.nf = tol, nf; s.cases = cases or [{}]

class Result:
    def __init__(s, ob): s.ob = ob; s.status = "held"; s.why = ""; s.instances = 0; s.method = {}; s.vals = 0; s.functions = set(); s.loops = {}; s.witness = None; s.atoms = (0, 0); s.sec = 0; s.uninterp = set(); s.terms = 0; s.skipped = 0; s.undecided = 0; s.absseen = (set(), set())
    def row(s):
        return {"obligation": s.ob.name, "status": s.status, "why": s.why, "instances": s.instances, "decided_by": s.method, "points": s.vals, "functions": len(s.functions), "gates_seen_both_ways": "%d/%d" % s.atoms, "seconds": round(s.sec, 2), "terms": s.terms, "loops": s.loops, "undecided_instances": s.undecided}

def graph(ir, f, args, ob, ranges):
    eng = Engine(ir, symloop=ob.symloop, ranges=ranges, maxunroll=ob.maxunroll)
    eng.abstract = ob.abstract
    st = State({}, TRUE); top = Frame(None)
    locs = []
    for a, p in zip(args, f["ps"]): locs.append(eng.alloc(st, a))
    try: v = eng.invoke(f, locs, st, top)
    except Dead: return eng, None, TRUE
    except Unsupported as ex:
        ex.eng = eng
        if os.environ.get("VP_TRACE"): import traceback; traceback.print_exc()
        raise
    if isinstance(v, Loc): v = eng.read(st, v)
    th = FALSE
    for c in top.throws: th = t.lor(th, c)
    return eng, v, th

def run(ir, ob, seed=1, thorough=False, table=None):
    t0 = time.time(); r = attempt(ir, ob, seed, thorough)
    if r.status == "violated" and ob.confirm:
        import copy
        for k in range(8):
            o2 = copy.copy(ob); o2.abstract = {}; o2.at = r.env; r2 = attempt(ir, o2, seed, thorough); r2.ob = ob
            if r2.status == "violated" or time.time() - t0 > 240: break
            q = attempt(ir, ob, seed + 101 + k, thorough)
            if q.status == "violated": r = q
        if r2.status != "violated": r2.status = "undecided"; r2.why = "not shown: " + r.why + " (with the callees expanded: %s)" % (r2.why or "no failure at this point")
        r = r2
    elif r.status == "violated" and ob.abstract:
        # trusted only when both sides call the same uninterpreted callees and each callee meets its own contract
        bad = "calls differ" if r.absseen[0] != r.absseen[1] else None
        for c in ob.contracts if bad is None else ():
            q = run(ir, table[c], seed, False, table)
            if q.status != "held": bad = "contract %s is %s" % (c, q.status); break
        if bad:
            import copy
            o2 = copy.copy(ob); o2.abstract = {}; o2.nval = min(ob.nval, 16)
            if ob.calm: o2.dom = {**ob.dom, **ob.calm}
            r2 = attempt(ir, o2, seed, thorough); r2.ob = ob; r2.why = (r2.why + " " if r2.why else "") + "(callees expanded: %s)" % bad
            r = r2
    if r.status == "violated" and ob.known:
        import copy
        o2 = copy.copy(ob); o2.spec = ob.known; q = attempt(ir, o2, seed, thorough)
        if q.status == "held": q.ob = ob; q.why = r.why; q.witness = r.witness; q.status = "known"; r = q
    r.sec = time.time() - t0
    return r
def attempt(ir, ob, seed=1, thorough=False):
    r = Result(ob); t0 = time.time()
    try: _run(ir, ob, r, seed, thorough)
    except Unsupported as e: r.status, r.why = "undecided", "construct outside the analysis: %s" % e
    except Und as e: r.status, r.why = "undecided", str(e)
    except RecursionError: r.status, r.why = "undecided", "recursion limit"
    except Exception as e:
        r.status, r.why = "undecided", "internal: %s: %s" % (type(e).__name__, e)
        if "--debug" in sys.argv: traceback.print_exc()
    r.sec = time.time() - t0
    return r

def find(ir, name):
    for f in ir.byn.get(name, []):
        if f["q"].startswith("vspec::"): return f
    return None

def _run(ir, ob, r, seed, thorough):
    fi, fs = find(ir, ob.impl), find(ir, ob.spec)
    if fi is None or fs is None: r.status, r.why = "undecided", "scenario %s does not type-check against the current sources" % (ob.impl if fi is None else ob.spec); return
    names = [p["n"] for p in fi["ps"]]
    und = []
    for case, combo, enums, odom in ((c, combo, enums, dom) for c in ob.cases for dom in [{**ob.dom, **c}] for enums in [[(n, dom[n]) for n in names if isinstance(dom[n], Enum)]] for combo in itertools.product(*[d.vals for _, d in enums])):
        fixed = {n: (v, d.ty) for (n, d), v in zip(enums, combo)}
        vals, doms, ranges = [], {}, {}
        for n in names:
            d = odom[n]
            if isinstance(d, Enum):
                v = fixed[n][0]; vals.append(v if isinstance(v, (T, Seq, Obj, Cx, Var)) else t.string(v) if isinstance(v, str) else t.mk_bool(v) if isinstance(v, bool) else num(v, d.ty)); continue
            v, q = d.mk(n); vals.append(v); doms.update(q)
        for k, d in doms.items():
            if isinstance(d, Real): ranges[k] = (d.lo, d.hi)
            elif isinstance(d, Int): ranges[k] = (Fr(d.lo), Fr(d.hi))
            elif isinstance(d, Pick): ranges[k] = (min(d.vals), max(d.vals))
        label = ", ".join(["%s=%s" % (n, v) for (n, _), v in zip(enums, combo)] + ["%s in %s" % (n, d) for n, d in case.items()])
        r.instances += 1
        try: one(ir, ob, r, fi, fs, vals, doms, ranges, label, seed, thorough)
        except Unsupported as e: und.append("%s: %s" % (label, e)); r.undecided += 1; 
        except Und as e: und.append("%s: %s" % (label, e)); r.undecided += 1
        if r.status == "violated": return
    if und: r.status, r.why = "undecided", "; ".join(und[:3])

def one(ir, ob, r, fi, fs, vals, doms, ranges, label, seed, thorough):
    try: ea, va, ta = graph(ir, fi, vals, ob, ranges)
    except Unsupported as ex:
        # a read outside a sequence on every execution is a failure whatever follows it
        for kind, line, what, c in ex.eng.issues if ob.issues and not ob.pre else ():
            if kind == "out-of-bounds" and c is TRUE:
                r.status = "violated"; r.env = {}; where = "%s at %s: %s" % (kind, ir.where(line), what)
                r.witness = {"obligation": ob.name, "instance": label, "inputs": {k: "any value in its range" for k in doms}, "where": where, "implementation": "", "specification": "", "anchor": ob.anchor, "implementation_scenario": ob.impl, "specification_scenario": ob.spec, "functions_on_path": []}
                r.why = "%s%s: %s (for every input of this instance)" % (ob.name, " [" + label + "]" if label else "", where); return
        raise
    eb, vb, tb = graph(ir, fs, vals, ob, ranges)
    r.functions |= {ir.fn[i]["q"] for i in ea.fnseen if ir.isrepo(ir.fn[i])}
    for k, n in ea.loopstats.items(): r.loops[k] = r.loops.get(k, 0) + n
    r.uninterp |= set(ea.uninterp); r.absseen = (r.absseen[0] | ea.absseen, r.absseen[1] | eb.absseen)
    pre = TRUE
    if ob.pre:
        fp = find(ir, ob.pre); _, pre, _ = graph(ir, fp, vals, ob, ranges)
    opq = decide.find_opaque(va) if va is not None else None
    if opq: raise Und(opq)
    issues = [i for i in ea.issues if i[0] in ("out-of-bounds", "maybe-out-of-bounds", "uninitialised", "empty-optional", "no-return", "order")] if ob.issues else []
    skips = ea.skips + eb.skips
    def count(k): r.method[k] = r.method.get(k, 0) + 1
    nf = decide.NF()
    if not ob.nf: nf.equal = lambda a, b: a is b
    static_eq = (va is None and vb is None or va is not None and vb is not None and decide.equal_nf(va, vb, nf)) and nf.equal(ta, tb)
    if static_eq and not issues:
        count("identical graph" if va is vb or va is None or same(va, vb) else "canonical form"); return
    # identity testing
    decide.TOL = decide.mpf(10) ** -(ob.tol or 13); dps0 = decide.mp.dps = 40 if ob.tol is None else 2 * ob.tol
    rnd = random.Random("%s/%s/%s" % (seed, ob.name, label))
    n = ob.nval * (4 if thorough else 1)
    pts = []; names = list(doms)
    for i in range(n): pts.append({k: d.sample(rnd, i if rnd.random() < 0.75 else 10**9) for k, d in doms.items()})
    if not doms: pts = [{}]
    if ob.at is not None: pts = [ob.at]
    seen = {}
    last = {}
    def test(env, over=None):
        ev = Ev(env, ob.muiter); last["ev"] = ev
        if over: ev.over = over
        if pre is not TRUE:
            try:
                if ev(pre) is not True: return False
            except Nan: return False
        for c, w in skips:
            try:
                if ev(c) is True: r.skipped += 1; return False
            except Nan: pass
        r.vals += 1
        def truth(c):
            try: return ev(c)
            except Nan: return Nan
        tc, sc = truth(ta), truth(tb)
        wit = None
        for kind, line, what, c in issues:
            x = truth(c)
            if x is True: wit = ("%s at %s: %s" % (kind.replace("maybe-", ""), ir.where(line), what), "", ""); break
        if wit is None:
            if sc is Nan: pass
            elif (tc is True) != (sc is True): wit = ("outcome", "throws" if tc is True else "does not throw", "throws" if sc is True else "does not throw")
            elif sc is not True and va is not None and vb is not None:
                d = differ(concretise(va, ev), concretise(vb, ev), "result")
                if d:
                    decide.mp.dps = 110       # a difference that rounding in the analysis could explain disappears here
                    try:
                        e3 = Ev(env, ob.muiter); e3.over = over or e3.over
                        wit = differ(concretise(va, e3), concretise(vb, e3), "result")
                    except Nan: wit = d
                    finally: decide.mp.dps = dps0
        for k, (x, res, df) in ev.atoms.items():
            a = seen.setdefault(k, [x, set(), []]); a[1].add(bool(res)); a[2].append((dict(env), df))
            if len(a[2]) > 6: a[2].pop(rnd.randrange(6))
        if wit:
            r.status = "violated"
            r.witness = {"obligation": ob.name, "instance": label, "inputs": {k: fmt(v) for k, v in env.items()}, "where": str(wit[0]), "implementation": fmt(wit[1]), "specification": fmt(wit[2]), "anchor": ob.anchor, "implementation_scenario": ob.impl, "specification_scenario": ob.spec, "functions_on_path": sorted({ir.where(ir.fn[i]["l"]) + " " + ir.fn[i]["n"] for i in ea.fnseen if ir.isrepo(ir.fn[i])})[:40]}
            r.env = dict(env)
            if over: r.witness["callee_results"] = {"%s(%s)" % (k[0], ", ".join(k[1])): fmt(v) for k, v in over.items()}
            r.why = "%s%s: %s: code gives %s, specified %s (inputs %s)" % (ob.name, " [" + label + "]" if label else "", wit[0], fmt(wit[1]), fmt(wit[2]), ", ".join("%s=%s" % (k, fmt(v)) for k, v in env.items()))
            return True
        return False
    for p in pts:
        if test(p): return
    if ob.at is not None: return
    # boundary points of every gate condition
    done = set()
    for rounds in range(2):
        for k in list(seen):
            if k in done: continue
            done.add(k)
            x, outs, samples = seen[k]
            fv = t.free(x)
            cand = [d for d in names if t.sym(d, doms[d].ty if hasattr(doms[d], "ty") else "r").id in fv]
            for name in cand:
                d = doms[name]
                if isinstance(d, (Int,)):
                    for env, df in samples[:2]:
                        if df is None: continue
                        lo, hi = max(d.lo, -10**6), min(d.hi, 10**6)
                        def val(z):
                            e2 = dict(env); e2[name] = z; ev = Ev(e2, ob.muiter)
                            try: return ev(x.a[0]) - ev(x.a[1])
                            except (Nan, TypeError): return None
                        a, b = val(lo), val(hi)
                        if a is None or b is None or a * b > 0: continue
                        L, H = lo, hi
                        while H - L > 1:
                            m = (L + H) // 2; v = val(m)
                            if v is None: break
                            if v * a > 0: L = m
                            else: H = m
                        for z in (L - 1, L, H, H + 1):
                            if d.ok(z):
                                e2 = dict(env); e2[name] = z
                                if test(e2): return
                    continue
                if isinstance(d, Pick):
                    for env, df in samples[:2]:
                        for z in (d.vals if len(d.vals) <= 12 else rnd.sample(d.vals, 12)):
                            e2 = dict(env); e2[name] = int(z) if d.ty in t.INTS else mpfq(z)
                            if test(e2): return
                    continue
                if not isinstance(d, Real): continue
                for env, df in samples[:2]:
                    def val(z):
                        e2 = dict(env); e2[name] = z; ev = Ev(e2, ob.muiter)
                        try: return ev(x.a[0]) - ev(x.a[1])
                        except (Nan, TypeError): return None
                    z0, z1 = env[name], mpfq(d.lo) + (mpfq(d.hi) - mpfq(d.lo)) * mpf(rnd.randint(1, 99)) / 100
                    v0, v1 = val(z0), val(z1)
                    roots = []
                    if v0 is not None and v1 is not None and v0 != v1:
                        z = z0 - v0 * (z1 - z0) / (v1 - v0); roots.append(z)
                    ends = [(mpfq(d.lo), val(mpfq(d.lo))), (mpfq(d.hi), val(mpfq(d.hi))), (z0, v0), (z1, v1)]
                    pos = [e for e in ends if e[1] is not None and e[1] > 0]; neg_ = [e for e in ends if e[1] is not None and e[1] < 0]
                    if pos and neg_:
                        a, b = pos[0][0], neg_[0][0]
                        for _ in range(60):
                            m = (a + b) / 2; v = val(m)
                            if v is None or v == 0: roots.append(m); break
                            if v > 0: a = m
                            else: b = m
                        roots.append((a + b) / 2)
                    for z in roots:
                        q = Fr(str(decide.mpmath.nstr(z, 25))).limit_denominator(10**5); zz = mpfq(q) if abs(mpfq(q) - z) < mpf(10) ** -12 * (1 + abs(z)) else z
                        h = mpf(10) ** -6 * (1 + abs(zz))
                        for w in (zz, zz - h, zz + h):
                            if d.ok(w):
                                e2 = dict(env); e2[name] = w
                                if test(e2): return
    # gates inside loops: results of uninterpreted callees are moved onto the gate's border
    tried = 0
    cover, left = [], {(k, o) for k, a in seen.items() for o in a[1]}
    if ob.abstract and len(doms):
        cand = [(e, {k2 for k2, a2 in seen.items()}) for k, a in seen.items() for e, _ in a[2]]
        for e, _ in cand:
            ev = Ev(e, ob.muiter); got = set()
            for k, a in seen.items():
                try: got.add((k, bool(ev(a[0]))))
                except (Nan, Und): pass
            if got & left: cover.append(e); left -= got
            if not left or len(cover) >= 6: break
    cover += [p for p in pts if p not in cover][:max(0, 3 - len(cover))]
    # results of uninterpreted callees far above and far below one, as below a barrier; at small counts, where it decides most
    ints = [k for k, d in doms.items() if isinstance(d, Int) and d.hi - d.lo > 10]
    for q, p in enumerate(pts[:5] if ob.abstract and doms else ()):
        p = dict(p, **{k: max(doms[k].lo, 0) + q for k in ints})
        if test(p): return
        calls, byarg = dict(last["ev"].calls), {}
        for key, val in calls.items():
            if isinstance(val, mpf): byarg.setdefault(key[1], []).append(key)
        for sc in (7, -7) if byarg else ():
            if test(p, {key: calls[key] * mpf(10) ** sc for ks in byarg.values() for key in ks}): return
    for p in cover if ob.abstract else ():
        if test(p): return
        ev = last["ev"]; inner = {k: list(v) for k, v in ev.inner.items()}; calls = list(ev.calls.items())
        same_args = {}
        for key, val in calls:
            if isinstance(val, mpf): same_args.setdefault(key[1], []).append(key)
        for ks in list(same_args.values())[:2]:          # a callee that reports failure by zeros in all its results
            if len(ks) > 1 and test(p, {key: mpf(0) for key in ks}): return
        for k, occ in inner.items():
            for w in sorted({0, 1, len(occ) // 2, len(occ) - 1}):
                if not 0 <= w < len(occ) or tried > 200 * (1 + cover.index(p)): continue
                df, n = occ[w]
                for key, val in calls[max(0, n - 4):n]:
                    if not isinstance(val, mpf): continue
                    def probe(z):
                        nonlocal tried
                        tried += 1
                        if test(p, {key: z}): return True
                        o = last["ev"].inner.get(k, ())
                        return o[w][0] if w < len(o) else None
                    z0, z1 = val, val + mpf(1) / 7
                    v0, v1 = df, probe(z1)
                    if r.status == "violated": return
                    hit = None
                    for _ in range(3):
                        if v1 is None or v1 == v0: break
                        z2 = z1 - v1 * (z1 - z0) / (v1 - v0)
                        if abs(z2) > mpf(10) ** 60: break
                        z0, v0 = z1, v1; z1 = z2; v1 = probe(z1)
                        if r.status == "violated": return
                        hit = z1
                    if hit is not None:
                        for e in (-1, 1):
                            for q in (9, 4):
                                probe(hit + e * mpf(10) ** -q * (1 + abs(hit)))
                                if r.status == "violated": return
    r.atoms = (r.atoms[0] + sum(1 for a in seen.values() if len(a[1]) == 2), r.atoms[1] + len(seen))
    if r.vals == 0 : raise Und("no admissible point")
    count("identity test")
