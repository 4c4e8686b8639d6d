"""Translation of the type-checked AST into gated value graphs.

Every function body becomes one graph: control-flow joins become gates, loops become recurrences (or are
expanded when their trip count is a compile-time constant of the analysed shape), calls are expanded into
the callee's graph.  There is no path enumeration and no solver; inputs stay symbolic."""
import re, sys
from fractions import Fraction as Fr
import terms as t
from terms import T, num, sym, add, mul, sub, neg, div, power, fn, app, ite, cmp, lnot, land, lor, TRUE, FALSE, UNDEF, opaque, mk, isnum
from values import *
sys.setrecursionlimit(20000)

class Unsupported(Exception):
    def __init__(s, *a):
        super().__init__(*a); s.at = None

class Dead(Exception):
    def __init__(s):
        import traceback
        if DBG: traceback.print_stack()
DBG = False

class State:
    __slots__ = ("cells", "pc")
    def __init__(s, cells, pc): s.cells, s.pc = cells, pc
    def copy(s): return State(dict(s.cells), s.pc)

class Frame:
    __slots__ = ("vars", "this", "tenv", "rets", "throws", "loops", "base", "fn", "refret", "exc", "packs")
    def __init__(s, fn, tenv=None, this=None, base=TRUE, refret=False):
        s.vars, s.this, s.tenv, s.rets, s.throws, s.loops, s.base, s.fn, s.refret, s.exc, s.packs = {}, this, tenv or {}, [], [], [], base, fn, refret, None, {}

class LoopCtx:
    __slots__ = ("brk", "cont")
    def __init__(s): s.brk, s.cont = [], []

def conj(c): return c.a if c.op == "and" else (() if c is TRUE else (c,))

def short(n):
    """unqualified name of a printed type"""
    n = n.strip()
    for p in ("const ", "class ", "struct ", "typename "):
        if n.startswith(p): n = n[len(p):]
    n = n.rstrip("&* ")
    d = 0; cut = 0
    for i, ch in enumerate(n):
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif ch == ":" and d == 0 and n[i-1:i+1] == "::": cut = i + 1
    return n[cut:].strip()

def base_t(code):
    for p in ("c&", "&&", "&"):
        if code.startswith(p): return code[len(p):]
    return code

class Interp:
    def __init__(s, ir, symloop=0, ranges=None, maxunroll=64, inline_depth=60):
        s.ir = ir; s.symloop = symloop; s.ranges = ranges or {}; s.maxunroll = maxunroll; s.depth = 0; s.maxdepth = inline_depth
        s.ncell = 0; s.issues = []; s.unsup = []; s.skips = []; s.fnseen = set(); s.calls = 0; s.muctr = 0; s.steps = 0; s.loopstats = {"expanded": 0, "recurrence": 0}
        s.globcells = {}; s.units = {}; s.unitof = {}; s.uninterp = {}; s.abstract = {}; s.absseen = set(); s.curbase = TRUE; s.mub = {}; s.ovr = {}
        s.line = "?"
    # ---------------------------------------------------------------- interval facts about input symbols
    def bounds(s, x, d=0):
        if x.op == "num": return (x.d, x.d)
        if x.op == "bool": return (int(x.d), int(x.d))
        if s.ovr and x.id in s.ovr: return s.ovr[x.id]
        if d > 12: return (None, None)
        if x.op == "sym":
            r = s.ranges.get(x.d)
            if r: return r
            if str(x.d).startswith("unit:"): return (Fr(0), None)
            return (Fr(0), None) if x.ty == "u" else (None, None)
        if x.op == "mu": return s.mub.get(x.id, (Fr(0), None) if x.ty == "u" else (None, None))
        if x.op == "real": return s.bounds(x.a[0], d + 1)
        if x.op == "add":
            lo = hi = Fr(0)
            for y in x.a:
                a, b = s.bounds(y, d + 1)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if x.op == "mul":
            INF = float("inf"); lo = hi = Fr(1)
            def pr(p_, q_): return Fr(0) if p_ == 0 or q_ == 0 else p_ * q_ if not (isinstance(p_, float) or isinstance(q_, float)) else (INF if (p_ > 0) == (q_ > 0) else -INF)
            for y in x.a:
                a, b = s.bounds(y, d + 1)
                a = -INF if a is None else a; b = INF if b is None else b
                c4 = [pr(u_, v_) for u_ in (lo, hi) for v_ in (a, b)]; lo, hi = min(c4), max(c4)
            lo = None if isinstance(lo, float) else lo; hi = None if isinstance(hi, float) else hi
            return (lo, hi)
        if x.op == "pow":
            a, b = s.bounds(x.a[0], d + 1)
            if x.d == 2 and a is not None and a >= 0: return (a * a, None if b is None else b * b)
            if x.d.denominator == 1 and x.d % 2 == 0 and x.d > 0: return (Fr(0), None)
            if x.d == Fr(1, 2): return (Fr(0), None)
            if x.d == -1 and a is not None and (a > 0 or a == 0): return (Fr(0) if b is None else 1 / b, 1 / a if a > 0 else None) if b is None or b > 0 else (None, None)
        if x.op == "ite":
            c = x.a[0]; neg_ = c.op == "not"
            if neg_: c = c.a[0]
            p = q = None
            if c.op == "cmp" and d < 6:
                u, w = c.a; k = None
                if u.op == "num": u, w, k = w, u, {"<": ">", "<=": ">=", "==": "=="}[c.d]
                elif w.op == "num": k = c.d
                if k and u.op != "num":
                    lo, hi = s.bounds(u, d + 1); n = w.d; i = 1 if u.ty in t.INTS else 0
                    mx = lambda p_, v: v if p_ is None else max(p_, v)
                    mn = lambda p_, v: v if p_ is None else min(p_, v)
                    if k == "==": p, q = (n, n), (lo + i if lo == n else lo, hi - i if hi == n else hi)
                    elif k == "<": p, q = (lo, mn(hi, n - i)), (mx(lo, n), hi)
                    elif k == "<=": p, q = (lo, mn(hi, n)), (mx(lo, n + i), hi)
                    elif k == ">": p, q = (mx(lo, n + i), hi), (lo, mn(hi, n))
                    else: p, q = (mx(lo, n), hi), (lo, mn(hi, n - i))
                    if neg_: p, q = q, p
            def under(y, r):
                if r is None: return s.bounds(y, d + 1)
                old = s.ovr; s.ovr = dict(old); s.ovr[u.id] = r
                try: return s.bounds(y, d + 1)
                finally: s.ovr = old
            a, b = under(x.a[1], p); e, f = under(x.a[2], q)
            return (None if a is None or e is None else min(a, e), None if b is None or f is None else max(b, f))
        if x.op == "fn" and x.d in ("abs", "exp"): return (Fr(0), None)
        if x.op == "fn" and x.d == "log10":
            a, b = s.bounds(x.a[0], d + 1)
            def lg(v, e):
                import math
                if v is None or v <= 0: return None
                k = Fr(round(math.log10(v))); return k if Fr(10) ** int(k) == v else Fr(math.log10(v)) + e
            return (lg(a, -Fr(1, 10**12)), lg(b, Fr(1, 10**12)))
        if x.op == "fn" and x.d == "floor":
            a, b = s.bounds(x.a[0], d + 1); return (None if a is None else Fr(a.__floor__()), None if b is None else Fr(b.__floor__()))
        if x.op == "trunc":
            a, b = s.bounds(x.a[0], d + 1)
            return (None if a is None else Fr(int(a) if a >= 0 else -int(-a)), None if b is None else Fr(int(b) if b >= 0 else -int(-b)))
        if x.op == "wrap":
            bits, sg = x.d
            return (Fr(-(1 << (bits - 1))), Fr((1 << (bits - 1)) - 1)) if sg else (Fr(0), Fr((1 << bits) - 1))
        if x.op == "idiv":
            a, b = s.bounds(x.a[0], d + 1); e, f = s.bounds(x.a[1], d + 1)
            if a is not None and a >= 0 and e is not None and e == f and e > 0: return (Fr(int(a / e)), None if b is None else Fr(int(b / e)))
        if x.ty == "u": return (Fr(0), None)
        return (None, None)
    def fold(s, c, pc=TRUE):
        """decide a condition from the path condition and interval facts where possible"""
        if c.op == "bool": return c
        facts = set(id(x) for x in conj(pc))
        if id(c) in facts: return TRUE
        if id(lnot(c)) in facts: return FALSE
        if c.op == "not": return lnot(s.fold(c.a[0], pc))
        if c.op == "and":
            r = [s.fold(x, pc) for x in c.a]
            return land(*r)
        if c.op == "cmp":
            d = s.dimensionless(sub(c.a[0], c.a[1])); lo, hi = s.bounds(d)
            if c.d == "<":
                if hi is not None and hi < 0: return TRUE
                if lo is not None and lo >= 0: return FALSE
            elif c.d == "<=":
                if hi is not None and hi <= 0: return TRUE
                if lo is not None and lo > 0: return FALSE
            elif c.d == "==":
                if (hi is not None and hi < 0) or (lo is not None and lo > 0): return FALSE
                if isnum(d): return t.mk_bool(d.d == 0)
        return c
    def dimensionless(s, x):
        """a sum whose terms carry one common unit, without it (a unit is positive)"""
        parts = x.a if x.op == "add" else (x,)
        us = None
        for y in parts:
            u = sorted({z if z.op == "sym" else z.a[0]: z for z in (y.a if y.op == "mul" else (y,)) if t.isunit(z) or z.op == "pow" and t.isunit(z.a[0])}.items(), key=lambda p: p[0].id)
            if not u or us is not None and u != us: return x
            us = u
        return t.subst(x, {z: num(1) for z, _ in us})
    def refine(s, x, pc):
        """an index under the path condition: gates the path has decided are dropped"""
        while isinstance(x, T) and x.op == "ite":
            c = s.fold(x.a[0], pc)
            if c is TRUE: x = x.a[1]
            elif c is FALSE: x = x.a[2]
            else: break
        return x
    def ungated(s, loc, st, f):
        """f on the state, once per alternative of the gated value at loc"""
        v = s.read(st, loc) if isinstance(loc, Loc) else loc
        if not (isinstance(v, Gate) and isinstance(loc, Loc)): return f(st)
        def side(val, q): s.write(q, loc, val); return s.ungated(loc, q, f)
        c = s.fold(v.c, st.pc)
        if c.op == "bool": return side(v.a if c is TRUE else v.b, st)
        return s.evbranch(c, st, lambda q: side(v.a, q), lambda q: side(v.b, q))
    def refute(s, c, pc):
        """c, or FALSE when a path fact together with the interval facts excludes it"""
        c = s.fold(c, pc)
        if c.op != "cmp" or c.d == "==": return c
        d = sub(c.a[0], c.a[1])                      # c: d < 0 or d <= 0
        for f in conj(land(s.curbase, pc)):
            g = f.a[0] if f.op == "not" else f
            if g.op != "cmp" or g.a[0].ty not in t.INTS: continue
            if f.op == "not":
                if g.d == "==": continue
                e = sub(g.a[0], g.a[1]); strict = g.d == "<="     # not(a<=b): a-b>0 ; not(a<b): a-b>=0
            elif g.d == "==":
                for e in (sub(g.a[0], g.a[1]), sub(g.a[1], g.a[0])):
                    lo, _ = s.bounds(sub(d, e))
                    if lo is not None and (lo > 0 or lo == 0 and c.d == "<"): return FALSE
                continue
            else: e = sub(g.a[1], g.a[0]); strict = g.d == "<"
            lo, _ = s.bounds(sub(d, e))               # d >= e + lo
            if lo is not None:
                m = lo + (1 if strict else 0)
                if m > 0 or m == 0 and c.d == "<": return FALSE
        return c
    # ---------------------------------------------------------------- cells
    def alloc(s, st, v):
        s.ncell += 1; st.cells[s.ncell] = v; return Loc(s.ncell)
    def read(s, st, loc):
        if not isinstance(loc, Loc): return loc
        v = st.cells.get(loc.c, UNDEF)
        for step in loc.p: v = s.get(v, step, st)
        return v
    def get(s, v, step, st):
        k, x = step
        if isinstance(v, Gate): return merge(v.c, s.get(v.a, step, st), s.get(v.b, step, st))
        if k == "f":
            if isinstance(v, Obj):
                if x in v.f: return v.f[x]
                for b in ("base:" + q for q in ()): pass
                for kk, vv in v.f.items():
                    if kk.startswith("base:") and isinstance(vv, Obj):
                        r = s.get(vv, step, st)
                        if r is not None: return r
                return None if x.startswith("?") else UNDEF
            if isinstance(v, Seq) and x in ("first", "second"): return v.x[0 if x == "first" else 1]
            if v is UNDEF: return UNDEF
            if isinstance(v, T) and v.op == "opaque": return v
            if isinstance(v, T) and x == "value": return s.unitless(v)
            raise Unsupported("field %s of %s" % (x, type(v).__name__))
        if k == "i":
            if isinstance(v, Arr):
                s.oob(x, v.n, st)
                return sel(v.re, x) if v.im is None else Cx(sel(v.re, x), sel(v.im, x))
            if isinstance(v, Seq):
                if x.op == "num":
                    i = int(x.d)
                    if 0 <= i < len(v.x): return v.x[i]
                    s.issue("out-of-bounds", "index %d of a sequence of %d elements" % (i, len(v.x)), st); return UNDEF
                s.oob(x, len(v.x), st)
                if len(v.x) > 24:
                    a = to_arr(v)
                    if a is not None: return s.get(a, step, st)
                r = UNDEF if not v.x else v.x[-1]
                for i in range(len(v.x) - 2, -1, -1): r = merge(cmp("==", x, num(i, "i")), v.x[i], r)
                lo, hi = s.bounds(x)
                if hi is None or hi >= len(v.x): r = merge(cmp("<", x, num(len(v.x), "i")), r, UNDEF) if isinstance(r, T) else r
                return r
            if isinstance(v, Mat):
                if v.c == 1 and isnum(x): return v.x[int(x.d)][0]
                if v.r == 1 and isnum(x): return v.x[0][int(x.d)]
                if isnum(x):                 # linear access is column major
                    i = int(x.d)
                    if 0 <= i < v.r * v.c: return v.x[i % v.r][i // v.r]
                    s.issue("out-of-bounds", "element %d of a %dx%d matrix" % (i, v.r, v.c), st); return UNDEF
            if isinstance(v, MapV): return s.get(Seq([Seq([a, b], "pair") for a, b in v.x]), step, st)
            if v is UNDEF: return UNDEF
            if isinstance(v, T) and v.op == "opaque": return v
            raise Unsupported("index into %s" % type(v).__name__)
        if k == "m":
            i, j = x
            if isinstance(v, Mat) and isnum(i) and isnum(j):
                a, b = int(i.d), int(j.d)
                if 0 <= a < v.r and 0 <= b < v.c: return v.x[a][b]
                s.issue("out-of-bounds", "matrix element (%d,%d) of a %dx%d matrix" % (a, b, v.r, v.c), st); return UNDEF
            raise Unsupported("matrix element")
        if k == "o": return v.v if isinstance(v, Opt) else v
        if k == "v": return v.v if isinstance(v, Var) else v
        if k == "k":
            if isinstance(v, MapV):
                for kk, vv in v.x:
                    c = s.keyeq(kk, x)
                    if c is TRUE: return vv
                    if c is not FALSE: raise Unsupported("map lookup under a symbolic key equality")
            raise Unsupported("map lookup")
        raise Unsupported(str(step))
    def keyeq(s, a, b):
        if same(a, b): return TRUE
        la, lb = [], []
        if leaves(a, la) and leaves(b, lb) and len(la) == len(lb): return s.fold(land(*[cmp("==", x, y) for x, y in zip(la, lb)]))
        raise Unsupported("map key")
    def put(s, v, path, w, st):
        if not path: return w
        k, x = path[0]
        if isinstance(v, Gate): return merge(v.c, s.put(v.a, path, w, st), s.put(v.b, path, w, st))
        if k == "f":
            if isinstance(v, Obj):
                if x not in v.f:
                    for kk, vv in v.f.items():
                        if kk.startswith("base:") and isinstance(vv, Obj) and s.hasfield(vv, x): return v.set(kk, s.put(vv, path, w, st))
                return v.set(x, s.put(v.f.get(x, UNDEF), path[1:], w, st))
            if isinstance(v, Seq) and x in ("first", "second"): return s.put(v, (("i", num(0 if x == "first" else 1, "i")),) + path[1:], w, st)
            if isinstance(v, T) and x == "value": return s.put(v, path[1:], w, st)
            raise Unsupported("write to field of %s" % type(v).__name__)
        if k == "i":
            if isinstance(v, Seq):
                if x.op == "num":
                    i = int(x.d)
                    if not 0 <= i < len(v.x):
                        s.issue("out-of-bounds", "write to index %d of a sequence of %d elements" % (i, len(v.x)), st); return v
                    y = list(v.x); y[i] = s.put(y[i], path[1:], w, st); return Seq(y, v.kind)
                if len(v.x) <= 24:
                    s.oob(x, len(v.x), st)
                    return Seq([merge(cmp("==", x, num(i, "i")), s.put(e, path[1:], w, st), e) for i, e in enumerate(v.x)], v.kind)
                a = to_arr(v)
                if a is None: raise Unsupported("symbolic index write")
                v = a
            if isinstance(v, Arr):
                s.oob(x, v.n, st)
                if len(path) > 1: w = s.put(s.get(v, path[0], st), path[1:], w, st)
                if v.im is None and isinstance(w, Cx): raise Unsupported("complex into real array")
                return Arr(v.n, sto(v.re, x, w), None, v.ety) if v.im is None else Arr(v.n, sto(v.re, x, cx(w).re), sto(v.im, x, cx(w).im), v.ety)
            if isinstance(v, Mat):
                if not isnum(x): raise Unsupported("matrix element")
                i, j = (num(int(x.d) % v.r, "i"), num(int(x.d) // v.r, "i")) if v.r else (x, num(0, "i"))
                return s.put(v, (("m", (i, j)),) + path[1:], w, st)
            if isinstance(v, MapV) and isnum(x) and len(path) > 1:      # an entry reached through an iterator: only its second part can change
                i = int(x.d); q = path[1]
                if not 0 <= i < len(v.x):
                    s.issue("out-of-bounds", "write through an iterator past the last of %d map entries" % len(v.x), st); return v
                if q == ("f", "second") or q[0] == "i" and isnum(q[1]) and int(q[1].d) == 1:
                    out = list(v.x); out[i] = (out[i][0], s.put(out[i][1], path[2:], w, st)); return MapV(out, v.base)
        if k == "m" and isinstance(v, Mat):
            i, j = x
            if isnum(i) and isnum(j):
                a, b = int(i.d), int(j.d)
                if not (0 <= a < v.r and 0 <= b < v.c):
                    s.issue("out-of-bounds", "write to matrix element (%d,%d) of a %dx%d matrix" % (a, b, v.r, v.c), st); return v
                y = [list(r) for r in v.x]; y[a][b] = s.put(y[a][b], path[1:], w, st); return Mat(v.r, v.c, y)
        if k == "o" and isinstance(v, Opt): return Opt(TRUE, s.put(v.v, path[1:], w, st))
        if k == "v" and isinstance(v, Var): return Var(v.tag, s.put(v.v, path[1:], w, st))
        if k == "k" and isinstance(v, MapV):
            out = []
            for kk, vv in v.x:
                c = s.keyeq(kk, x)
                out.append((kk, s.put(vv, path[1:], w, st) if c is TRUE else vv if c is FALSE else merge(c, s.put(vv, path[1:], w, st), vv)))
            return MapV(out, v.base)
        if k == "re" or k == "im":
            v = cx(v); return Cx(w, v.im) if k == "re" else Cx(v.re, w)
        raise Unsupported("write through %s of %s" % (k, type(v).__name__))
    def hasfield(s, v, x): return x in v.f or any(k.startswith("base:") and isinstance(b, Obj) and s.hasfield(b, x) for k, b in v.f.items())
    def hasmethod(s, k, x):
        if not isinstance(k, dict): return False
        if x in s.ir.methods.get(k["id"], {}): return True
        return bool(k.get("inst")) and any(c2["l"] == k["l"] and not c2.get("inst") and x in s.ir.methods.get(c2["id"], {}) for c2 in s.ir.clsq.get(re.sub(r"<.*", "", k["q"]), []))
    def isfield(s, v, x):
        """the member x found first, from the derived class up, is a data member"""
        if x in v.f: return True
        if s.hasmethod(v.cls, x): return False
        return any(k.startswith("base:") and isinstance(b, Obj) and s.isfield(b, x) for k, b in v.f.items())
    def write(s, st, loc, w):
        if loc.c == "tmp": return
        if loc.p == (("f", "value"),) and isinstance(w, T) and isinstance(st.cells.get(loc.c), T):
            if loc.c not in s.unitof: raise Unsupported("number of a quantity set without its unit")
            w = mul(s.unitof[loc.c], w)
        st.cells[loc.c] = s.put(st.cells.get(loc.c, UNDEF), loc.p, w, st)
    def issue(s, kind, what, st, cond=TRUE):
        s.issues.append((kind, s.line, what, land(s.curbase, st.pc, cond)))
    def oob(s, x, n, st):
        lo, hi = s.bounds(x)
        bad = []
        if lo is None or lo < 0: bad.append(cmp("<", x, num(0, "i")))
        if hi is None or hi >= n: bad.append(cmp("<=", num(n, "i"), x))
        if bad:
            c = lor(*[q for q in (s.refute(y, st.pc) for y in bad) if q is not FALSE])
            if c is not FALSE: s.issue("maybe-out-of-bounds", "index %s of a sequence of %d elements" % (t.show(x)[:80], n), st, c)
    # ---------------------------------------------------------------- conversions
    def convert(s, v, code):
        code = base_t(code)
        if isinstance(v, Gate): return merge(v.c, s.convert(v.a, code), s.convert(v.b, code))
        if not isinstance(v, T) or not code: return v
        if v.op in ("opaque", "undef", "throw"): return v
        c = code[0]
        if c == "f" and code[1:].isdigit():
            if v.ty == "b": v = ite(v, num(1), num(0))
            elif v.ty in t.INTS: v = num(v.d, "r") if v.op == "num" else mk("real", (v,), None, "r") if v.op != "ite" else mk("real", (v,), None, "r")
            if code == "f32":
                if v.op == "num": 
                    import struct
                    return num(Fr(struct.unpack("f", struct.pack("f", float(v.d)))[0]))
                return mk("fn", (v,), "f32", "r")
            return v
        if c in "iu" and code[1:].isdigit():
            bits = int(code[1:]); sg = c == "i"
            if v.ty == "b": return ite(v, num(1, c), num(0, c))
            if v.ty not in t.INTS: v = t.trunc(v, c)
            lo, hi = s.bounds(v)
            if lo is not None and lo == hi and v.op == "trunc": return num(lo, c)
            L, H = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            if lo is not None and lo >= L and (hi is None or hi <= H): return v if v.ty == c or v.op != "num" else num(v.d, c)
            if v.op == "trunc": return v if sg else t.wrap(v, bits, sg)
            if sg and v.ty == "i": return v
            return t.wrap(v, bits, sg)
        if code == "b":
            if v.ty == "b": return v
            return lnot(cmp("==", v, num(0, v.ty if v.ty in t.INTS else "r")))
        return v
    def boolean(s, v):
        if isinstance(v, Gate): return merge(v.c, s.boolean(v.a), s.boolean(v.b))
        if isinstance(v, Opt): return v.has
        if isinstance(v, (Ptr, Closure)): return TRUE
        return s.convert(v, "b")
    # ---------------------------------------------------------------- arithmetic
    def arith(s, op, a, b, st, code=None):
        if isinstance(a, Gate): return merge(a.c, s.arith(op, a.a, b, st, code), s.arith(op, a.b, b, st, code))
        if isinstance(b, Gate): return merge(b.c, s.arith(op, a, b.a, st, code), s.arith(op, a, b.b, st, code))
        if isinstance(a, T) and a.op in ("opaque",): return a if op not in ("==", "!=", "<", ">", "<=", ">=") else opaque(a.d)
        if isinstance(b, T) and b.op in ("opaque",): return b
        if isinstance(a, T) and isinstance(b, T):
            if a is UNDEF or b is UNDEF: return UNDEF
            if a.ty == "s" or b.ty == "s":
                if op == "+": return s.cat(a, b)
                if op in ("==", "!=", "<", ">", "<=", ">="): return cmp(op, a, b)
            ints = a.ty in t.INTS + ("b",) and b.ty in t.INTS + ("b",)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                if a.ty == "b" and b.ty != "b": a = s.convert(a, "i32")
                if b.ty == "b" and a.ty != "b": b = s.convert(b, "i32")
                if a.ty == "b":
                    r = lor(land(a, b), land(lnot(a), lnot(b))) if op in ("==", "!=") else None
                    if r is not None: return s.fold(r if op == "==" else lnot(r), st.pc)
                return s.fold(cmp(op, a, b), st.pc)
            if a.ty == "b": a = s.convert(a, "i32")
            if b.ty == "b": b = s.convert(b, "i32")
            if op == "+": r = add(a, b)
            elif op == "-": r = sub(a, b)
            elif op == "*": r = mul(a, b)
            elif op == "/": r = t.idiv(a, b) if ints else div(a, b)
            elif op == "%": r = t.mod(a, b)
            elif op in ("&", "|", "^", "<<", ">>"):
                if a.op == "num" and b.op == "num":
                    x, y = int(a.d), int(b.d); r = num({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if y < 200 else 0, ">>": x >> y}[op], a.ty)
                else: r = app("bit" + op, a, b, ty=a.ty)
            else: raise Unsupported("operator " + op)
            if ints and code and base_t(code)[0] == "u" and base_t(code)[1:].isdigit():
                lo, hi = s.bounds(r); bits = int(base_t(code)[1:])
                if lo is None or lo < 0 or (hi is not None and hi >= 1 << bits): r = t.wrap(r, bits, False)
            elif ints and not code and op == "-" and "u" in (a.ty, b.ty):
                lo, hi = s.bounds(r)
                if lo is None or lo < 0: r = t.wrap(r, 64, False)
            if not ints and r.op == "num" and r.ty in t.INTS: r = num(r.d, "r")
            return r
        if isinstance(a, Cx) or isinstance(b, Cx):
            if isinstance(a, (Cx, T)) and isinstance(b, (Cx, T)):
                x, y = cx(a), cx(b)
                if op == "+": return Cx(add(x.re, y.re), add(x.im, y.im))
                if op == "-": return Cx(sub(x.re, y.re), sub(x.im, y.im))
                if op == "*":
                    if not isinstance(a, Cx): return Cx(mul(a, y.re), mul(a, y.im))
                    if not isinstance(b, Cx): return Cx(mul(x.re, b), mul(x.im, b))
                    return Cx(sub(mul(x.re, y.re), mul(x.im, y.im)), add(mul(x.re, y.im), mul(x.im, y.re)))
                if op == "/":
                    if not isinstance(b, Cx): return Cx(div(x.re, b), div(x.im, b))
                    d = add(mul(y.re, y.re), mul(y.im, y.im))
                    return Cx(div(add(mul(x.re, y.re), mul(x.im, y.im)), d), div(sub(mul(x.im, y.re), mul(x.re, y.im)), d))
                if op in ("==", "!="):
                    r = land(s.fold(cmp("==", x.re, y.re)), s.fold(cmp("==", x.im, y.im))); return r if op == "==" else lnot(r)
        if isinstance(a, Obj) and a.name == "vecref": a = s.vecref_get(a, st)
        if isinstance(b, Obj) and b.name == "vecref": b = s.vecref_get(b, st)
        if isinstance(a, Mat) or isinstance(b, Mat): return s.matop(op, a, b, st)
        if isinstance(a, It) and isinstance(b, T) and op in "+-": return It(a.loc, add(a.i, b) if op == "+" else sub(a.i, b), a.rev)
        if isinstance(a, It) and isinstance(b, It):
            if op == "-": return sub(a.i, b.i)
            if same_loc(a.loc, b.loc): return s.fold(cmp(op, a.i, b.i), st.pc)
        if isinstance(a, Ptr) and isinstance(b, T) and op in "+-" and a.idx is not None: return Ptr(a.loc, add(a.idx, b) if op == "+" else sub(a.idx, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc == b.loc and a.idx is not None and b.idx is not None:
            return sub(a.idx, b.idx) if op == "-" else s.fold(cmp(op, a.idx, b.idx), st.pc)
        if op in ("==", "!="):
            la, lb = [], []
            if isinstance(a, Seq) and isinstance(b, Seq) and len(a.x) != len(b.x): return t.mk_bool(op == "!=")
            if type(a) is type(b) and leaves(a, la) and leaves(b, lb) and len(la) == len(lb):
                r = land(*[s.fold(cmp("==", x, y), st.pc) for x, y in zip(la, lb)]); return r if op == "==" else lnot(r)
        if op == "<" and type(a) is type(b):
            la, lb = [], []
            if leaves(a, la) and leaves(b, lb) and len(la) == len(lb):
                r = FALSE
                for x, y in reversed(list(zip(la, lb))): r = lor(cmp("<", x, y), land(cmp("==", x, y), r))
                return r
        raise Unsupported("operator %s on %s and %s" % (op, type(a).__name__, type(b).__name__))
    def cat(s, a, b):
        xs = []
        for x in (a, b):
            xs += list(x.a) if x.op == "cat" else [x]
        out = []
        for x in xs:
            if x.op == "str" and out and out[-1].op == "str": out[-1] = t.string(out[-1].d + x.d)
            elif x.op == "str" and x.d == "": pass
            else: out.append(x)
        if not out: return t.string("")
        if len(out) == 1: return out[0]
        return mk("cat", out, None, "s")
    def matop(s, op, a, b, st):
        A = lambda o, x, y: s.arith(o, x, y, st)
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op in "+-":
                if (a.r, a.c) != (b.r, b.c): s.issue("out-of-bounds", "matrix shapes differ", st); return UNDEF
                return Mat(a.r, a.c, [[A(op, p, q) for p, q in zip(u, v)] for u, v in zip(a.x, b.x)])
            if op == "*":
                if a.c != b.r: s.issue("out-of-bounds", "matrix shapes do not match", st); return UNDEF
                out = []
                for i in range(a.r):
                    row = []
                    for j in range(b.c):
                        acc = num(0)
                        for k in range(a.c):
                            x, y = a.x[i][k], b.x[k][j]
                            if s.iszero(x) or s.iszero(y): continue
                            acc = A("+", acc, A("*", x, y))
                        row.append(acc)
                    out.append(row)
                return Mat(a.r, b.c, out)
        if isinstance(a, Mat) and op in "*/": return Mat(a.r, a.c, [[A(op, x, b) for x in r] for r in a.x])
        if isinstance(b, Mat) and op == "*": return Mat(b.r, b.c, [[A(op, a, x) for x in r] for r in b.x])
        raise Unsupported("matrix operator " + op)
    def iszero(s, x):
        if isinstance(x, Cx): return s.iszero(x.re) and s.iszero(x.im)
        return isinstance(x, T) and x.op == "num" and x.d == 0
    def inverse(s, m, st):
        n = m.r
        A = lambda o, x, y: s.arith(o, x, y, st)
        def minor(rows, cols):
            if not rows: return num(1)
            r = None; i = rows[0]
            for k, j in enumerate(cols):
                if s.iszero(m.x[i][j]): continue
                v = A("*", m.x[i][j], minor(rows[1:], cols[:k] + cols[k+1:]))
                if k % 2: v = A("*", num(-1), v)
                r = v if r is None else A("+", r, v)
            return num(0) if r is None else r
        idx = list(range(n)); det = minor(idx, idx); out = []
        for i in range(n):
            row = []
            for j in range(n):
                c = minor([r for r in idx if r != j], [q for q in idx if q != i])
                if (i + j) % 2: c = A("*", num(-1), c)
                row.append(A("/", c, det))
            out.append(row)
        return Mat(n, n, out)
    # ---------------------------------------------------------------- joins
    def join(s, sts):
        """gated merge of [(pc, cells, extra...)] where extra values are merged too"""
        if len(sts) == 1: return sts[0]
        common = set(conj(sts[0][0]))
        for q in sts[1:]: common &= set(conj(q[0]))
        acc = sts[-1]
        for q in reversed(sts[:-1]):
            g = land(*[x for x in conj(q[0]) if x not in common])
            cells = s.joincells(g, q[1], acc[1])
            acc = (lor(q[0], acc[0]), cells) + tuple(merge(g, a, b) if a is not None or b is not None else None for a, b in zip(q[2:], acc[2:]))
        # the disjunction of complementary branches is the common part
        pcs = [land(*[x for x in conj(q[0]) if x not in common]) for q in sts]
        rest = FALSE
        for p in pcs: rest = lor(rest, p)
        rest = s.cover(pcs, rest)
        return (land(*(list(common) + [rest])),) + acc[1:]
    def cover(s, pcs, rest):
        """recognise a partition c, !c&d, !c&!d ... as covering everything"""
        if rest is TRUE: return TRUE
        try:
            def red(ps):
                if any(p is TRUE for p in ps): return True
                if not ps: return False
                for x in conj(ps[0]):
                    atom = x.a[0] if x.op == "not" else x
                    pos, neg_ = [], []
                    for p in ps:
                        cs = conj(p)
                        if atom in cs: pos.append(land(*[y for y in cs if y is not atom]))
                        elif lnot(atom) in cs: neg_.append(land(*[y for y in cs if y is not lnot(atom)]))
                        else: pos.append(p); neg_.append(p)
                    if len(pos) < len(ps) and len(neg_) < len(ps): return red(pos) and red(neg_)
                return False
            if len(pcs) <= 14 and red(pcs): return TRUE
        except RecursionError: pass
        return rest
    def joincells(s, g, a, b):
        if a is b: return a
        out = {}
        for k in a.keys() | b.keys():
            x, y = a.get(k), b.get(k)
            out[k] = x if x is y else y if x is None else x if y is None else merge(g, x, y)
        return out
    # ---------------------------------------------------------------- statements
    def block(s, stmts, st, fr):
        for x in stmts:
            if not s.stmt(x, st, fr): return False
        return True
    def stmt(s, x, st, fr):
        """returns whether control continues after x"""
        if x is None: return True
        s.steps += 1
        k = x["k"]; s.line = x.get("l", s.line)
        try: return getattr(s, "s_" + k)(x, st, fr)
        except Dead: return False
    def s_block(s, x, st, fr): return s.block(x["a"], st, fr)
    def s_nop(s, x, st, fr): return True
    def s_using(s, x, st, fr):
        fr.tenv[x["n"]] = s.tsub(x.get("ts", x.get("t", "")), fr)
        m = re.match(r"decltype\(pow\(typename decltype\(1\.? \* (\w+)\)::Units\(\), Ratio<(-?\d+), (\d+)>\)\)$", x.get("ts", ""))
        if m:
            for p in fr.fn.get("ps", ()):
                if p["n"] == m.group(1) and p["id"] in fr.vars:
                    u = s.read(st, fr.vars[p["id"]])
                    if isinstance(u, T): s.units[x["n"]] = power(u, Fr(int(m.group(2)), int(m.group(3))))
        return True
    def s_expr(s, x, st, fr):
        s.ev(x["e"], st, fr, discard=True); return True
    def s_decl(s, x, st, fr):
        for v in x["a"]:
            if v is None: continue
            if v["k"] == "using": s.s_using(v, st, fr)
            elif v["k"] == "var": s.declare(v, st, fr)
        return True
    def declare(s, v, st, fr):
        s.line = v.get("l", s.line)
        code = v["t"]
        if v.get("static") and not v.get("const") and not v.get("constexpr"):
            s.issue("static", "function-local static " + v["n"], st)
        if v.get("bind"):
            val = s.ev(v["init"], st, fr) if code[:1] != "&" and not code.startswith("c&") else None
            loc = s.alloc(st, val) if val is not None else s.lv(v["init"], st, fr)
            fr.vars[v["id"]] = loc
            cur = s.read(st, loc)
            for i, b in enumerate(v["bind"]):
                if isinstance(cur, Obj):
                    names = [f["n"] for f in cur.cls["fields"]] if isinstance(cur.cls, dict) else list(cur.f)
                    fr.vars[b["id"]] = loc + ("f", names[i])
                else: fr.vars[b["id"]] = loc + ("i", num(i, "i"))
            return
        if code.startswith(("&", "c&")):
            if "init" not in v: fr.vars[v["id"]] = s.alloc(st, opaque("unbound reference")); return
            fr.vars[v["id"]] = s.lv(v["init"], st, fr); return
        if "init" in v: val = s.ev(v["init"], st, fr, want=code); val = s.coerce(val, code, v.get("ts", ""), fr, st)
        else: val = s.default(code, v.get("ts", ""), fr, st)
        fr.vars[v["id"]] = s.alloc(st, val)
        m = re.match(r"(?:const )?Quantity< ?(\w+) ?>$", v.get("ts", ""))
        if m and m.group(1) in s.units and "init" not in v or m and m.group(1) in s.units and not v["init"].get("a"): s.unitof[fr.vars[v["id"]].c] = s.units[m.group(1)]
    def coerce(s, v, code, ts, fr, st):
        """implicit conversion of an initialiser to a declared type that matters for the value"""
        c = base_t(code)
        if c.startswith("D:"):
            r = s.tsub(c[2:], fr)
            m = {"double": "f64", "float": "f32", "int": "i32", "unsigned int": "u32", "bool": "b", "std::size_t": "u64", "unsigned long": "u64", "long": "i64"}.get(r)
            if m: c = m
            elif r != c[2:] and isinstance(v, Seq) and v.kind == "ilist": c = r
        if isinstance(v, T): return s.convert(v, c)
        if isinstance(v, It) and c.startswith("p:"): return v
        if isinstance(v, Seq) and v.kind == "ilist" and c and not c.startswith(("std::", "D", "p:", "v")) and not re.match(r"a\d+:|[biufe]", c):
            k = s.find_class(c, fr)
            if k is not None: return s.construct(k, list(v.x), st, fr)
        if "complex<" in c and isinstance(v, T): return cx(v)
        if "optional<" in short(c)[:12] and not isinstance(v, (Opt, Gate)): return Opt(TRUE, v)
        return v
    def default(s, code, ts, fr, st):
        """value of a default-initialised variable"""
        c = base_t(code)
        if c.startswith("D"): return UNDEF
        if c[:1] in "biufpe" and (c == "b" or c[1:].isdigit() or c[:2] in ("p:", "e:")): return UNDEF
        m = re.match(r"a(\d+):(.*)", c)
        if m: return Seq([s.default(m.group(2), "", fr, st) for _ in range(min(int(m.group(1)), 4096))], "array")
        return s.make_default(c, st, fr)
    def make_default(s, c, st, fr):
        n = short(c)
        if n.startswith("complex<"): return Cx(num(0), num(0))
        if n.startswith(("vector<", "initializer_list<")): return Seq([])
        if n.startswith(("map<", "unordered_map<", "set<")): return MapV([])
        if n.startswith("basic_string") or n == "string": return t.string("")
        if n.startswith("optional<"): return Opt(FALSE, None)
        if n.startswith("Quantity<"): return num(0)
        if n.startswith("array<"):
            a = s.targs(c); return Seq([s.default(s.code_of(a[0]), "", fr, st) for _ in range(int(re.sub(r"\D", "", a[1])))], "array")
        if n.startswith(("tuple<", "pair<")): return Seq([s.zero(s.code_of(a)) for a in s.targs(c)], "tuple")
        if n.startswith(("Matrix<", "DiagonalMatrix<")): return Mat(0, 0, [])
        if n.startswith("Dim<"): return num(1)
        k = s.find_class(c, fr)
        if k is not None: return s.construct(k, [], st, fr)
        return Obj(c, {}, c)
    def code_of(s, ty):
        ty = ty.strip()
        return {"double": "f64", "float": "f32", "int": "i32", "unsigned int": "u32", "unsigned long": "u64", "long": "i64", "bool": "b"}.get(ty, ty)
    def zero(s, c):
        c = base_t(c)
        if c[:1] == "f" and c[1:].isdigit(): return num(0)
        if c[:1] in "iu" and c[1:].isdigit(): return num(0, c[0])
        if c == "b": return FALSE
        if c.startswith("e:"): return num(0, "i")
        if c.startswith("p:"): return num(0, "i")
        m = re.match(r"a(\d+):(.*)", c)
        if m: return Seq([s.zero(m.group(2)) for _ in range(int(m.group(1)))], "array")
        return s.make_default(c, None, None) if not c.startswith("D") else num(0)
    def targs(s, ty):
        """top-level template arguments of a printed type"""
        i = ty.find("<")
        if i < 0: return []
        out, d, cur = [], 0, ""
        for ch in ty[i + 1:]:
            if ch in "<(": d += 1
            if ch == ">" or ch == ")":
                if d == 0: break
                d -= 1
            if ch == "," and d == 0: out.append(cur.strip()); cur = ""
            else: cur += ch
        if cur.strip(): out.append(cur.strip())
        return out
    def s_return(s, x, st, fr):
        v = None
        if x.get("e") is not None:
            if fr.refret: v = s.lv(x["e"], st, fr)
            else: v = s.ev(x["e"], st, fr, want=fr.fn.get("rt") if fr.fn else None)
        fr.rets.append((st.pc, dict(st.cells), v)); return False
    def s_if(s, x, st, fr):
        if x.get("init"):
            if not s.stmt(x["init"], st, fr): return False
        if x.get("cv"): s.stmt(x["cv"], st, fr)
        c = s.fold(s.boolean(s.ev(x["c"], st, fr)), st.pc)
        if c.op == "opaque": raise Unsupported("condition: " + str(c.d))
        if c is UNDEF:
            s.issue("uninitialised", "branch on an indeterminate value", st); raise Unsupported("indeterminate branch condition")
        if c is TRUE: return s.stmt(x["x"], st, fr)
        if c is FALSE: return s.stmt(x.get("y"), st, fr) if x.get("y") else True
        return s.branch(c, st, lambda a: s.stmt(x["x"], a, fr), lambda b: s.stmt(x["y"], b, fr) if x.get("y") else True)
    def branch(s, c, st, f, g):
        a, b = st.copy(), st.copy()
        a.pc, b.pc = land(st.pc, c), land(st.pc, lnot(c)); pa, pb = a.pc, b.pc
        la, lb = f(a), g(b)
        if la and lb:
            st.cells = s.joincells(c, a.cells, b.cells)
            if not (a.pc is pa and b.pc is pb): st.pc = s.join([(a.pc, {}), (b.pc, {})])[0]
            return True
        if la: st.cells, st.pc = a.cells, a.pc; return True
        if lb: st.cells, st.pc = b.cells, b.pc; return True
        return False
    def s_break(s, x, st, fr): fr.loops[-1].brk.append((st.pc, dict(st.cells))); return False
    def s_continue(s, x, st, fr):
        for l in reversed(fr.loops):
            if l.cont is not None: l.cont.append((st.pc, dict(st.cells))); return False
        return False
    def s_label(s, x, st, fr): return s.stmt(x["s"], st, fr)
    def s_opaquestmt(s, x, st, fr): raise Unsupported("statement " + x.get("c", ""))
    def s_try(s, x, st, fr):
        n = len(fr.throws); alive = s.stmt(x["b"], st, fr)
        new = fr.throws[n:]
        if not new: return alive
        if all(s.rethrows(h["b"]) for h in x["h"]): return alive
        raise Unsupported("try/catch that swallows an exception")
    def rethrows(s, b):
        a = b.get("a", [])
        if not a: return False
        last = a[-1]
        return last.get("k") == "expr" and (last.get("e") or {}).get("k") == "throw" or last.get("k") == "block" and s.rethrows(last)
    def s_switch(s, x, st, fr):
        if x.get("i"): s.stmt(x["i"], st, fr)
        if x.get("cv"): s.stmt(x["cv"], st, fr)
        v = s.ev(x["c"], st, fr)
        if isinstance(v, T) and v.op == "opaque": raise Unsupported("switch: " + str(v.d))
        items = []
        def flat(n):
            if n is None: return
            if n["k"] in ("case", "default"): items.append(("label", n)); flat(n["s"])
            else: items.append(("stmt", n))
        for n in (x["b"]["a"] if x["b"]["k"] == "block" else [x["b"]]): flat(n)
        labels = [n for k, n in items if k == "label"]
        conds = {}
        rest = TRUE
        for n in labels:
            if n["k"] == "case":
                w = s.ev(n["v"], st, fr); c = s.arith("==", v, w, st)
                if n.get("v2"): c = land(s.arith("<=", w, v, st), s.arith("<=", v, s.ev(n["v2"], st, fr), st))
                conds[id(n)] = c; rest = land(rest, lnot(c))
        rest = s.fold(rest, st.pc)
        for n in labels:
            if n["k"] == "default": conds[id(n)] = rest
        ctx = LoopCtx(); ctx.cont = None; fr.loops.append(ctx)
        st0 = st.copy(); cur = None
        try:
            for k, n in items:
                if k == "label":
                    c = s.fold(conds[id(n)], st0.pc)
                    if c is FALSE: continue
                    inc = st0.copy(); inc.pc = land(st0.pc, c)
                    if cur is None: cur = inc
                    else:
                        pc, cells = s.join([(inc.pc, inc.cells), (cur.pc, cur.cells)]); cur = State(cells, pc)
                elif cur is not None:
                    if not s.stmt(n, cur, fr): cur = None
        finally: fr.loops.pop()
        ends = list(ctx.brk)
        if cur is not None: ends.append((cur.pc, cur.cells))
        if not any(n["k"] == "default" for n in labels) and rest is not FALSE: ends.append((land(st0.pc, rest), st0.cells))
        if not ends: return False
        st.pc, st.cells = s.join(ends)[:2]
        return True
    # ---------------------------------------------------------------- loops
    def s_for(s, x, st, fr):
        if x.get("i"):
            if not s.stmt(x["i"], st, fr): return False
        return s.loop(x, st, fr, lambda a: s.cond(x.get("c"), a, fr), x["b"], (lambda a: s.ev(x["n"], a, fr, discard=True)) if x.get("n") else None)
    def s_while(s, x, st, fr):
        if x.get("cv"): raise Unsupported("condition variable")
        return s.loop(x, st, fr, lambda a: s.cond(x["c"], a, fr), x["b"], None)
    def s_do(s, x, st, fr):
        return s.loop(x, st, fr, lambda a: s.cond(x["c"], a, fr), x["b"], None, post=True)
    def cond(s, e, st, fr):
        if e is None: return TRUE
        c = s.fold(s.boolean(s.ev(e, st, fr)), st.pc)
        if c.op == "opaque": raise Unsupported("loop condition: %s" % c.d)
        if c is UNDEF: raise Unsupported("indeterminate loop condition")
        return c
    def loop(s, x, st, fr, cond, body, inc, post=False):
        saved = st.copy(); nret, nthr, niss = len(fr.rets), len(fr.throws), len(s.issues)
        ends = []; n = 0; nsym = 0; conditional = False; first = post
        def restart():
            del fr.rets[nret:]; del fr.throws[nthr:]; del s.issues[niss:]
            st.cells, st.pc = saved.cells, saved.pc
            return s.recurrence(x, st, fr, cond, body, inc, post)
        while True:
            s.line = x.get("l", s.line)
            c = TRUE if first else cond(st)
            first = False
            if c is FALSE: ends.append((st.pc, st.cells)); break
            if c is not TRUE:
                if "--dl" in sys.argv: print("LOOPCOND", n, repr(c)[:600])
                if nsym >= s.symloop:
                    if s.symloop == 0 or n == 0: return restart()
                    s.skips.append((land(fr.base, st.pc, c), "loop bound %d at %s" % (s.symloop, s.ir.where(x["l"]))))
                    ends.append((land(st.pc, lnot(c)), st.cells)); break
                nsym += 1
                ends.append((land(st.pc, lnot(c)), dict(st.cells)))
                st.pc = land(st.pc, c)
            n += 1
            if n > s.maxunroll or (conditional and n > 14): return restart()
            ctx = LoopCtx(); fr.loops.append(ctx); r0 = len(fr.rets)
            try: alive = s.stmt(body, st, fr)
            finally: fr.loops.pop()
            if ctx.brk or len(fr.rets) > r0: conditional = True
            ends += ctx.brk
            nx = list(ctx.cont)
            if alive: nx.append((st.pc, st.cells))
            if not nx: break
            st.pc, st.cells = s.join(nx)[:2]
            if inc: inc(st)
        s.loopstats["expanded"] += 1
        ends = [e for e in ends if e[0] is not FALSE]
        if not ends: return False
        st.pc, st.cells = s.join(ends)[:2]
        return True
    def recurrence(s, x, st, fr, cond, body, inc, post):
        """loop as a system of recurrences over the cells it modifies"""
        where = s.ir.where(x["l"])
        pre = set(st.cells)
        W = set(); niss = len(s.issues)
        for _ in range(12):
            del s.issues[niss:]
            h, leafs = s.havoc(st, W)
            res = s.loop_body(h, fr, cond, body, inc, post)
            changed = {k for k in pre if k not in W and res["cells"].get(k) is not None and not (res["cells"][k] is st.cells[k] or same(res["cells"][k], st.cells[k]))}
            grown = {k for k in W if shape(res["cells"][k]) != shape(h.cells[k])}
            if grown:
                ok = True
                for k in grown:
                    v = st.cells[k]
                    if isinstance(v, Seq) and isinstance(res["cells"][k], Arr): st.cells[k] = to_arr(v)
                    elif isinstance(v, T) and v is UNDEF: st.cells[k] = s.undef_like(res["cells"][k])
                    elif isinstance(v, Seq) and shape(s.undef_fill(v, res["cells"][k])) == shape(res["cells"][k]): st.cells[k] = s.undef_fill(v, res["cells"][k])
                    else: ok = False
                if not ok: raise Unsupported("loop at %s changes the shape of a value" % where)
                continue
            if not changed: break
            W |= changed
        else: raise Unsupported("loop at %s" % where)
        s.loopstats["recurrence"] += 1
        order = sorted(W); head = res["cond"]     # the test itself must not use facts that only hold once it succeeded
        if W and len(s.issues) > niss or any(isinstance(st.cells[k], T) and st.cells[k].ty in t.INTS for k in W):
            out = s.induction(order, st, h, res, post)
            if out and len(s.issues) > niss:          # once more with the bounds of the induction variables known
                del s.issues[niss:]; res = s.loop_body(h, fr, cond, body, inc, post)
        else: out = {}
        inner = s.issues[niss:]; del s.issues[niss:]
        inits, lv, ups = [], [], []
        for k in order:
            a, b, c = [], [], []
            v0 = st.cells[k]
            if not (leaves(v0, a) and leaves(h.cells[k], b) and leaves(res["cells"][k], c)) or not len(a) == len(b) == len(c): raise Unsupported("loop state at %s" % where)
            inits += a; lv += b; ups += c
        # exit code: 0 keep going, 1 leave normally, 2+ return / throw
        code = res["exit"]
        ex = t.fresh("exit", "i"); inits.append(num(0, "i")); lv.append(ex); ups.append(code)
        rv = res["retval"]
        if rv is not None:
            a = []
            if not leaves(rv, a): raise Unsupported("returned value in loop at %s" % where)
            for q in a: y = t.fresh("ret", q.ty or "r"); inits.append(UNDEF); lv.append(y); ups.append(q)
        c = land(cmp("==", ex, num(0, "i")), head)
        if inner:
            iss = t.fresh("issue", "i"); up = num(0, "i")
            for n, (kind, line, what, q) in reversed(list(enumerate(inner))): up = ite(q, num(n + 1, "i"), up)
            inits.append(num(0, "i")); lv.append(iss); ups.append(ite(cmp("==", iss, num(0, "i")), up, iss))
        s.muctr += 1
        level = 1 + max([t.mulevel(u) for u in ups + [c]])
        canon = {l: sym("$%d.%d" % (level, i), l.ty) for i, l in enumerate(lv)}
        ups = [t.subst(u, canon) for u in ups]; c = t.subst(c, canon); lv = [canon[l] for l in lv]
        outs = [mk("mu", inits, (None, tuple(lv), tuple(ups), i, c), lv[i].ty) for i in range(len(lv))]
        for o in outs: t.MUWHERE[o.id] = where
        it = iter(outs); i0 = 0
        for k in order: st.cells[k] = rebuild(st.cells[k], it)
        exv = next(it); rvv = rebuild(rv, it) if rv is not None else None
        for k, b in out.items():
            if isinstance(st.cells[k], T): s.mub[st.cells[k].id] = b
        for n, (kind, line, what, q) in enumerate(inner):
            s.issues.append((kind, line, what, land(s.curbase, st.pc, cmp("==", outs[-1], num(n + 1, "i")))))
        live = st.pc
        if res["throw"]:
            q = cmp("==", exv, num(3, "i")); fr.throws.append(land(live, q)); live = land(live, lnot(q))
        if res["ret"]:
            q = cmp("==", exv, num(2, "i")); fr.rets.append((land(live, q), dict(st.cells), rvv)); live = land(live, lnot(q))
        if res["never"]: return False
        st.pc = live
        return True
    def induction(s, order, st, h, res, post):
        """interval facts about integer induction variables: bounds inside the body (recorded for the leaf) and on exit"""
        out = {}
        for _ in range(2):
            for k in order:
                v0, x, u = st.cells[k], h.cells[k], res["cells"][k]
                if not (isinstance(v0, T) and isinstance(x, T) and isinstance(u, T) and x.op == "sym" and x.ty in t.INTS): continue
                steps = []
                def walk(y):
                    if y.op == "ite": return walk(y.a[1]) and walk(y.a[2])
                    d = sub(y, x)
                    if d.op != "num": return False
                    steps.append(d.d); return True
                lo0, hi0 = s.bounds(v0) if v0 is not UNDEF else (None, None)
                lo = hi = elo = ehi = None
                if walk(u) and steps:
                    if all(q >= 0 for q in steps): lo = elo = lo0
                    if all(q <= 0 for q in steps): hi = ehi = hi0
                    big = max(abs(q) for q in steps)
                    for f in conj(res["cond"]) if not post else ():
                        g = f.a[0] if f.op == "not" else f
                        if g.op != "cmp" or g.d == "==" : 
                            continue
                        a, b = g.a
                        if f.op == "not": e = sub(a, b); strict = g.d == "<="
                        else: e = sub(b, a); strict = g.d == "<"
                        # e >= 0 (or > 0) holds inside the body; e = r - x or r + x
                        r = add(e, x)
                        if x.id not in t.free(r):
                            _, m = s.bounds(r)
                            if m is not None:
                                m = m - (1 if strict else 0); hi = m if hi is None else min(hi, m)
                                if all(q >= 0 for q in steps) and hi0 is not None: ehi = max(hi0, hi + big)
                        r = sub(e, x)
                        if x.id not in t.free(r):
                            _, m = s.bounds(r)
                            if m is not None:
                                m = -m + (1 if strict else 0); lo = m if lo is None else max(lo, m)
                                if all(q <= 0 for q in steps) and lo0 is not None: elo = min(lo0, lo - big)
                old = s.ranges.get(x.d, (Fr(0) if x.ty == "u" else None, None))
                lo = old[0] if lo is None else lo; hi = old[1] if hi is None else hi
                if lo is not None or hi is not None: s.ranges[x.d] = (lo, hi)
                if elo is not None or ehi is not None: out[k] = (elo, ehi)
        return out
    def undef_like(s, v):
        o = []; leaves(v, o); return rebuild(v, iter([UNDEF] * len(o)))
    def undef_fill(s, v, w):
        if v is UNDEF: return s.undef_like(w)
        if isinstance(v, Seq) and isinstance(w, Seq) and len(v.x) == len(w.x): return Seq([s.undef_fill(a, b) for a, b in zip(v.x, w.x)], v.kind)
        return v
    def havoc(s, st, W):
        h = st.copy(); h.pc = TRUE
        for k in W:
            o = []
            if not leaves(h.cells[k], o): raise Unsupported("loop state")
            fresh = [t.fresh("$l", q.ty if q.ty in ("r", "i", "u", "b", "arr", "s") else "r") for q in o]
            h.cells[k] = rebuild(h.cells[k], iter(fresh))
        return h, None
    def loop_body(s, h, fr, cond, body, inc, post):
        """one iteration from a general state"""
        save = (fr.rets, fr.throws, fr.loops); fr.rets, fr.throws, fr.loops = [], [], list(fr.loops)
        cb = s.curbase
        a = h.copy()
        try:
            c = TRUE
            if not post:
                c = cond(a.copy()); cond(a)  # side effects of the condition stay in the state
                s.curbase = land(cb, c)
            ctx = LoopCtx(); fr.loops.append(ctx)
            alive = s.stmt(body, a, fr); fr.loops.pop()
            nx = list(ctx.cont)
            if alive: nx.append((a.pc, a.cells))
            states = []
            if nx:
                pc, cells = s.join(nx)[:2]; a.pc, a.cells = pc, cells
                if inc: inc(a)
                code = num(0, "i")
                if post: code = ite(cond(a), code, num(1, "i"))
                states.append((a.pc, a.cells, code, None))
            for pc, cells in ctx.brk: states.append((pc, cells, num(1, "i"), None))
            rets = fr.rets; throws = fr.throws
            for pc, cells, v in rets: states.append((pc, cells, num(2, "i"), v))
            for pc in throws: states.append((pc, a.cells if nx else h.cells, num(3, "i"), None))
            if not states: raise Unsupported("loop body never completes")
            rvs = [q[3] for q in states if q[3] is not None]
            if rvs and not nx and not ctx.brk: pass
            if rvs:
                dummy = s.undef_like(rvs[0]) if isinstance(rvs[0], (T, Cx, Seq, Obj, Arr, Mat)) else rvs[0]
                states = [(p, ce, e, dummy if v is None else v) for p, ce, e, v in states]
            pc, cells, code, rv = s.join(states)[:4]
            return dict(cells=cells, exit=code, retval=rv, cond=c, ret=bool(rets), throw=bool(throws), never=False)
        finally: fr.rets, fr.throws, fr.loops = save; s.curbase = cb
    def s_rfor(s, x, st, fr):
        if x.get("i"): s.stmt(x["i"], st, fr)
        loc = s.lv(x["r"], st, fr)
        seq = s.read(st, loc)
        if isinstance(seq, Gate): return s.branch(seq.c, st, lambda a: s.rfor_on(x, s.force_gate(loc, a, True), a, fr), lambda b: s.rfor_on(x, s.force_gate(loc, b, False), b, fr))
        return s.rfor_on(x, loc, st, fr)
    def force_gate(s, loc, st, first):
        v = s.read(st, loc); return s.alloc(st, v.a if first else v.b)
    def rfor_on(s, x, loc, st, fr):
        seq = s.read(st, loc)
        if isinstance(seq, Gate): return s.branch(seq.c, st, lambda a: s.rfor_on(x, s.force_gate(loc, a, True), a, fr), lambda b: s.rfor_on(x, s.force_gate(loc, b, False), b, fr))
        if isinstance(seq, Arr): seq = Seq([s.get(seq, ("i", num(i, "i")), st) for i in range(seq.n)])
        if isinstance(seq, MapV): seq = Seq([Seq([k, v], "pair") for k, v in seq.x]); loc = s.alloc(st, seq)
        refs = None
        if isinstance(seq, Obj) and seq.name == "refview": refs = s.refview(seq, st); seq = s.seq(seq, st)
        if not isinstance(seq, Seq): raise Unsupported("range-for over %s" % type(seq).__name__)
        ends = []; v = x["v"]; n0 = len(seq.x)
        i = 0
        while True:
            cur = s.read(st, loc)
            if i >= n0: ends.append((st.pc, st.cells)); break
            if v["t"].startswith(("&", "c&")): fr.vars[v["id"]] = refs[i] if refs else loc + ("i", num(i, "i"))
            elif refs: fr.vars[v["id"]] = s.alloc(st, s.coerce(s.rd(refs[i], st), v["t"], v.get("ts", ""), fr, st))
            else: fr.vars[v["id"]] = s.alloc(st, s.coerce(s.get(cur, ("i", num(i, "i")), st), v["t"], v.get("ts", ""), fr, st))
            if v.get("bind"):
                bl = fr.vars[v["id"]]; bv = s.read(st, bl)
                for j, b in enumerate(v["bind"]):
                    fr.vars[b["id"]] = bl + (("f", list(bv.f)[j]) if isinstance(bv, Obj) else ("i", num(j, "i")))
            ctx = LoopCtx(); fr.loops.append(ctx)
            try: alive = s.stmt(x["b"], st, fr)
            finally: fr.loops.pop()
            ends += ctx.brk; nx = list(ctx.cont)
            if alive: nx.append((st.pc, st.cells))
            if not nx: break
            st.pc, st.cells = s.join(nx)[:2]
            i += 1
        s.loopstats["expanded"] += 1
        if not ends: return False
        st.pc, st.cells = s.join(ends)[:2]
        return True
    # ---------------------------------------------------------------- expressions
    def ev(s, e, st, fr, discard=False, want=None):
        v = s.ev0(e, st, fr, discard, want)
        if isinstance(v, Loc): v = s.read(st, v)
        return v
    def ev0(s, e, st, fr, discard=False, want=None):
        s.steps += 1
        if s.steps > 3000000: raise Unsupported("analysis budget exceeded")
        k = e["k"]
        if "l" in e and e["l"] != "?": s.line = e["l"]
        m = getattr(s, "e_" + k, None)
        if m is None: raise Unsupported("expression " + k + " " + str(e.get("c", "")))
        try: return m(e, st, fr) if k not in ("un", "bin", "ilist", "call", "opcall") else m(e, st, fr, discard) if k != "ilist" else m(e, st, fr, want)
        except Unsupported as x:
            if x.at is None and "l" in e and e["l"] != "?": x.at = s.ir.where(e["l"]); x.args = ("%s (%s)" % (x.args[0], x.at),)
            raise
    def lv(s, e, st, fr):
        """location of an expression (temporaries are materialised)"""
        v = s.ev0(e, st, fr)
        if isinstance(v, Loc): return v
        return s.alloc(st, v)
    def e_int(s, e, st, fr): return num(int(e["v"]), "u" if e["t"][0] == "u" else "i")
    def e_flt(s, e, st, fr):
        v = e["v"].replace("'", "").rstrip("fFlL") if not e["v"].lower().startswith("0x") else None
        try: r = num(Fr(v))
        except Exception: r = num(Fr(e["d"]))
        return s.convert(r, "f32") if e.get("t") == "f32" else r
    def e_bool(s, e, st, fr): return TRUE if e["v"] else FALSE
    def e_str(s, e, st, fr): return t.string(e["v"])
    def e_char(s, e, st, fr): return num(e["v"], "i")
    def e_null(s, e, st, fr): return num(0, "i")
    def e_zero(s, e, st, fr): return s.zero(e["t"]) if not e["t"].startswith("D") else num(0)
    def e_sizeof(s, e, st, fr):
        if "v" in e: return num(int(e["v"]), "u")
        raise Unsupported("sizeof")
    def e_defarg(s, e, st, fr): return s.ev(e["e"], st, fr)
    def e_definit(s, e, st, fr): return s.ev(e["e"], st, fr)
    def e_this(s, e, st, fr): return Ptr(fr.this)
    def e_icast(s, e, st, fr): return s.convert(s.ev(e["e"], st, fr), e["t"])
    def e_conv(s, e, st, fr):
        v = s.ev0(e["e"], st, fr); c = base_t(e["t"])
        if isinstance(v, Loc) and not (c[:1] in "biuf"): return v
        if isinstance(v, Loc): v = s.read(st, v)
        v = s.coerce(v, c, "", fr, st)
        return v
    def e_cast(s, e, st, fr):
        if e.get("constcast") or e.get("reinterpret"): s.issue("cast", "const/reinterpret cast", st)
        c = base_t(e["t"])
        if c == "v": s.ev(e["e"], st, fr); return None
        v = s.ev0(e["e"], st, fr)
        if isinstance(v, Loc) and e["t"].startswith(("&", "c&")):
            v = s.downcast(v, e, st, fr)
            if not isinstance(v, Loc): return v
            if c.startswith("D:"): return v
        if c[:1] in "biuf" and (c == "b" or c[1:].isdigit()):
            v = s.read(st, v) if isinstance(v, Loc) else v
            return s.boolean(v) if c == "b" else s.convert(v, c)
        if c.startswith("D:"): return s.coerce(s.read(st, v) if isinstance(v, Loc) else v, c, e.get("ts", ""), fr, st)
        if e.get("fn") and "complex<" in c: return cx(s.read(st, v) if isinstance(v, Loc) else v)
        return v
    def downcast(s, loc, e, st, fr):
        """reference cast from a base subobject to a class derived from it"""
        cur = s.read(st, loc)
        if not (isinstance(cur, Obj) and isinstance(cur.cls, dict)): return loc
        n = base_t(e["t"]); n = n[2:] if n.startswith("D:") else n
        n = re.sub(r"^const ", "", s.tsub(n, fr).strip()).rstrip(" &")
        head = re.sub(r"<.*", "", short(n))
        def isa(c, h): return re.sub(r"<.*", "", short(c["q"])) == h
        if loc.p and loc.p[-1][0] == "f" and str(loc.p[-1][1]).startswith("base:"):
            p = loc.p
            while p and p[-1][0] == "f" and str(p[-1][1]).startswith("base:"):
                p = p[:-1]; o = s.read(st, Loc(loc.c, p))
                if isinstance(o, Obj) and isinstance(o.cls, dict) and isa(o.cls, head): return Loc(loc.c, p)
            # the template parameter of a base that is not instantiated names the complete class
            if "::" not in n and s.find_class(n, fr) is None: return Loc(loc.c, p)
        k = s.find_class(n, fr)
        if k is None or k["id"] == cur.cls["id"] or re.sub(r"<.*", "", k["q"]) == re.sub(r"<.*", "", cur.cls["q"]): return loc
        for b in k["bases"]:
            kb = s.base_class(b, fr, k)
            if kb is not None and kb["q"] == cur.cls["q"] and not k["fields"]:      # a view of the same data with more member functions
                return s.alloc(st, Obj(k, {"base:" + short(kb["q"]): cur}, k["q"]))
        return loc
    def e_opaque(s, e, st, fr): raise Unsupported("expression " + e.get("c", "") + " " + e.get("s", "")[:60])
    def e_recovery(s, e, st, fr): raise Unsupported("expression that does not type-check")
    def e_throw(s, e, st, fr):
        fr.throws.append(st.pc); raise Dead()
    def e_cond(s, e, st, fr):
        c = s.fold(s.boolean(s.ev(e["c"], st, fr)), st.pc)
        if c is TRUE: return s.ev0(e["x"], st, fr)
        if c is FALSE: return s.ev0(e["y"], st, fr)
        if c.op == "opaque": raise Unsupported(str(c.d))
        if c is UNDEF: return UNDEF
        return s.evbranch(c, st, lambda a: s.ev(e["x"], a, fr), lambda b: s.ev(e["y"], b, fr))
    def evbranch(s, c, st, f, g):
        r = [None, None]
        def ff(a):
            try: r[0] = f(a); return True
            except Dead: return False
        def gg(b):
            try: r[1] = g(b); return True
            except Dead: return False
        a, b = st.copy(), st.copy(); a.pc, b.pc = land(st.pc, c), land(st.pc, lnot(c)); pa, pb = a.pc, b.pc
        la, lb = ff(a), gg(b)
        if la and lb:
            st.cells = s.joincells(c, a.cells, b.cells)
            if not (a.pc is pa and b.pc is pb): st.pc = s.join([(a.pc, {}), (b.pc, {})])[0]
            return merge(c, r[0], r[1])
        if la: st.cells, st.pc = a.cells, a.pc; return r[0]
        if lb: st.cells, st.pc = b.cells, b.pc; return r[1]
        raise Dead()
    def e_lambda(s, e, st, fr):
        cap = {}
        for c in e["caps"]:
            if c.get("this"): continue
            if c.get("init") is not None:
                cap[c["id"]] = s.lv(c["init"], st, fr) if c.get("byref") else s.alloc(st, s.ev(c["init"], st, fr))
            elif c["id"] in fr.vars:
                cap[c["id"]] = fr.vars[c["id"]] if c.get("byref") else s.alloc(st, s.read(st, fr.vars[c["id"]]))
        if e.get("default") or any(c.get("this") for c in e["caps"]):
            for k, l in fr.vars.items(): cap.setdefault(k, l)
        return Closure(e, cap, fr.this, dict(fr.tenv))
    def e_ref(s, e, st, fr):
        d = e["d"]; i = e["id"]
        if i in fr.vars: return fr.vars[i]
        if d in ("fun",):
            c = []
            for q in ("iid", "id", "pid"):
                if e.get(q) in s.ir.fn: c = [s.ir.fn[e[q]]]; break
            return Fn(e["q"], c, e.get("sa") or e.get("ta"))
        if d == "enum": return num(int(e["v"]), "i")
        if d == "tparam":
            v = fr.tenv.get(e["n"])
            if v is None: raise Unsupported("template parameter " + e["n"])
            return v if isinstance(v, (T, list)) else s.tval(v)
        if d in ("global", "static", "local", "param", "binding", "Var"): return s.global_(e, st, fr)
        return Fn(e["q"])
    def tval(s, v):
        v = str(v).strip()
        if re.fullmatch(r"-?\d+U?L*", v): return num(int(re.sub(r"[UL]", "", v)), "i")
        if v in ("true", "false"): return TRUE if v == "true" else FALSE
        return TypeV(v)
    def global_(s, e, st, fr):
        i, q = e["id"], e.get("q", "")
        if i in s.globcells: return s.globcells[i]
        g = s.ir.globals.get(i)
        if g is not None and "init" in g:
            f2 = Frame(None); v = s.ev(g["init"], st, f2); v = s.coerce(v, g["t"], g.get("ts", ""), f2, st)
            s.ncell += 1; loc = Loc(s.ncell); st.cells[loc.c] = v
            return loc
        if g is not None: return s.alloc(st, s.default(g["t"], "", fr, st))
        if e.get("cv") is not None: return (TRUE if int(e["cv"]) else FALSE) if base_t(e["t"])[:1] == "b" else num(int(e["cv"]), "u" if e["t"][0] == "u" else "i")
        return s.external_global(q, e, st)
    def unitless(s, v):
        """number of a quantity in its own unit: every unit symbol stands for one"""
        us = [x for x in t.walk(v) if x.op == "sym" and str(x.d).startswith("unit:")]
        if len(set(us)) > 1: raise Unsupported("number of a quantity in mixed units")
        return t.subst(v, {x: num(1) for x in us}) if us else v
    def external_global(s, q, e, st):
        n = q.split("::")[-1]
        u = UNITS.get(n)
        if u == "meter" and "dimwits" in q: return mul(num(10 ** 14), power(sym("unit:barn"), Fr(1, 2)))
        if u is not None and "dimwits" in q: return sym("unit:" + u)
        if "dimwits::constant" in q: return sym("unit:" + n)
        if q.startswith("std::") and n in ("nullopt",): return Opt(FALSE, None)
        return Fn(q)
    def e_dref(s, e, st, fr):
        ta = [s.tsub(x, fr) for x in e["ta"]] if e.get("ta") else None
        c = []
        for q in e.get("cands", []): c += s.ir.byq.get(q, [])
        if not c and not e.get("qual", "").startswith(("std::", "ranges::", "Eigen::", "dimwits::")):
            cq = e.get("qual", "").rstrip(":")
            k = s.find_class(cq, fr) if cq else None
            if k is not None:
                c = s.ir.methods.get(k["id"], {}).get(e["n"], [])
                g = s.ir.globq.get(k["q"] + "::" + e["n"])
                if not c and g is not None and "init" in g: return s.ev(g["init"], st, Frame(None))
        seen = {}; 
        for f in c: seen[f["id"]] = f
        name = (e["cands"][0] if e.get("cands") else e.get("qual", "") + e["n"])
        return Fn(name, list(seen.values()), ta)
    def tsub(s, txt, fr):
        """substitute bound template parameters in a printed type"""
        if not isinstance(txt, str): return txt
        def rep(m):
            v = fr.tenv.get(m.group(0))
            if isinstance(v, T): return t.show(v)
            return v if isinstance(v, str) else m.group(0)
        return re.sub(r"\b[A-Za-z_]\w*\b", rep, txt) if fr.tenv else txt
    def e_mem(s, e, st, fr):
        b = s.ev0(e["e"], st, fr)
        if e.get("arrow"):
            pv = s.read(st, b) if isinstance(b, Loc) else b
            b = s.deref(pv, st, fr)
        loc = b if isinstance(b, Loc) else s.alloc(st, b)
        if e.get("field"): return loc + ("f", e["n"])
        v = s.read(st, loc)
        if e.get("qual") and isinstance(v, Obj) and isinstance(v.cls, dict) and e["k"] == "mem":
            h = re.sub(r"<.*", "", e["qual"][:-2]).rsplit("::", 1)[-1]; bs = [k for k in v.f if k.startswith("base:")]
            if h != re.sub(r"<.*", "", short(v.cls["q"])):
                m = [k for k in bs if re.sub(r"<.*", "", k[5:]) == h]
                if m: loc = loc + ("f", m[0])
                elif len(bs) == 1 and not any(re.sub(r"<.*", "", short(q)) == h for q in s.ir.clsq): loc = loc + ("f", bs[0])        # an alias of the base
                v = s.read(st, loc)
        if e.get("dep") or "q" not in e:
            if isinstance(v, Obj) and s.isfield(v, e["n"]): return loc + ("f", e["n"])
            if isinstance(v, Seq) and e["n"] in ("first", "second"): return loc + ("f", e["n"])
            if isinstance(v, T) and v.ty == "r" and e["n"] == "value": return loc + ("f", "value")
            if isinstance(v, Gate):
                w = v
                while isinstance(w, Gate): w = w.a
                if isinstance(w, Obj) and s.isfield(w, e["n"]): return loc + ("f", e["n"])
        if e.get("pid") is None and "q" in e and not e.get("field"):   # static data member
            g = s.ir.globq.get(e["q"])
            if g is not None and "init" in g: return s.ev(g["init"], st, Frame(None))
        return Bound(loc, e["n"], [s.tsub(x, fr) for x in e["ta"]] if e.get("ta") else None, e)
    def e_sub(s, e, st, fr):
        x, y = s.ev0(e["x"], st, fr), s.ev(e["y"], st, fr)
        return s.subscript(x, y, st, fr)
    def subscript(s, x, y, st, fr):
        v = s.read(st, x) if isinstance(x, Loc) else x
        if isinstance(v, Ptr):
            base = v.loc; i = y if v.idx is None else add(v.idx, y)
            if v.idx is None:
                if isinstance(y, T) and y.op == "num" and y.d == 0: return base
                inner = s.read(st, base)
                if isinstance(inner, (Seq, Arr)): return base + ("i", i)
                raise Unsupported("pointer arithmetic")
            return base + ("i", i)
        if isinstance(v, It): return s.it_loc(It(v.loc, add(v.i, y), v.rev), st)
        if isinstance(v, Obj) and v.name == "vecref":
            if not isnum(y): raise Unsupported("matrix element")
            k = int(y.d)
            if not 0 <= k < len(v.f["ij"]): s.issue("out-of-bounds", "element %d of a row, column or diagonal of %d" % (k, len(v.f["ij"])), st); return s.alloc(st, UNDEF)
            i, j = v.f["ij"][k]; return v.f["loc"] + ("m", (num(i, "i"), num(j, "i")))
        loc = x if isinstance(x, Loc) else s.alloc(st, v)
        if isinstance(v, MapV): return s.map_sub(loc, v, y, st)
        if isinstance(v, Gate) and s.gate_kind(v, MapV): 
            def ins(w):
                if isinstance(w, Gate): return merge(w.c, ins(w.a), ins(w.b))
                if not isinstance(w, MapV): raise Unsupported("gated map")
                cs = [s.keyeq(kk, y) for kk, _ in w.x]
                if any(c is TRUE for c in cs): return w
                if any(c is not FALSE for c in cs): raise Unsupported("map subscript under a symbolic key equality")
                return MapV(w.x + ((y, num(0) if w.base is None else w.base(y)),), w.base)
            s.write(st, loc, ins(v)); return loc + ("k", y)
        return loc + ("i", y)
    def gate_kind(s, v, k):
        while isinstance(v, Gate): v = v.a
        return isinstance(v, k)
    def map_sub(s, loc, v, key, st):
        unknown = []
        for kk, _ in v.x:
            c = s.keyeq(kk, key)
            if c is TRUE: return loc + ("k", kk)
            if c is not FALSE: unknown.append((c, kk))
        if unknown: raise Unsupported("map subscript under a symbolic key equality")
        init = num(0) if v.base is None else v.base(key)
        s.write(st, loc, MapV(v.x + ((key, init),), v.base))
        return loc + ("k", key)
    def it_loc(s, it, st):
        if it.rev:
            base = s.read(st, it.loc) if isinstance(it.loc, Loc) else it.loc
            n = s.length(base)
            idx = sub(sub(n, num(1, "i")), it.i)
        else: idx = it.i
        loc = it.loc if isinstance(it.loc, Loc) else s.alloc(st, it.loc)
        base = s.read(st, loc)
        return loc + ("i", idx)
    def length(s, v):
        if isinstance(v, Gate): return merge(v.c, s.length(v.a), s.length(v.b))
        if isinstance(v, Seq): return num(len(v.x), "u")
        if isinstance(v, Arr): return num(v.n, "u")
        if isinstance(v, MapV): return num(len(v.x), "u")
        if isinstance(v, Mat): return num(v.r * v.c, "u")
        if isinstance(v, T) and v.ty == "s": return app("strlen", v, ty="u")
        raise Unsupported("length of %s" % type(v).__name__)
    def deref(s, v, st, fr):
        if isinstance(v, Gate):
            x = lambda q: s.read(st, s.deref(q, st, fr))
            return merge(v.c, x(v.a), x(v.b))
        if isinstance(v, Ptr): return v.loc if v.idx is None else v.loc + ("i", v.idx)
        if isinstance(v, It): return s.it_loc(v, st)
        if isinstance(v, Opt):
            if v.has is not TRUE:
                c = s.fold(v.has, st.pc)
                if c is not TRUE: s.issue("empty-optional", "dereference of an optional that may be empty", st, lnot(c))
            return v.v if v.v is not None else UNDEF
        if isinstance(v, (Obj, Seq, Closure)): return v
        raise Unsupported("dereference of %s" % type(v).__name__)
    def e_un(s, e, st, fr, discard=False):
        op = e["op"]
        if op == "&":
            l = s.ev0(e["e"], st, fr)
            if isinstance(l, Loc):
                if l.p and l.p[-1][0] == "i": return Ptr(Loc(l.c, l.p[:-1]), l.p[-1][1])
                return Ptr(l)
            if isinstance(l, (Bound, Fn, Closure)): return l
            return Ptr(s.alloc(st, l))
        if op == "*":
            v = s.ev0(e["e"], st, fr)
            if isinstance(v, Loc):
                w = s.read(st, v)
                if isinstance(w, Opt): return v + ("o", None)
                if isinstance(w, (Seq, Arr)): return v + ("i", num(0, "i"))
                v = w
            return s.deref(v, st, fr)
        if op in ("++", "--"):
            l = s.lv(e["e"], st, fr); old = s.read(st, l)
            new = s.incr(old, num(1 if op == "++" else -1, "i"), e.get("t"), st)
            s.write(st, l, new)
            return old if e.get("post") else l
        v = s.ev(e["e"], st, fr)
        if op == "!": return s.fold(lnot(s.boolean(v)), st.pc)
        if op == "-": return s.negate(v, st, e.get("t"))
        if op == "+": return s.convert(v, e["t"]) if isinstance(v, T) else v
        if op == "~" and isinstance(v, T): return app("bit~", v, ty=v.ty)
        raise Unsupported("unary " + op)
    def incr(s, old, d, code, st):
        if isinstance(old, Gate): return merge(old.c, s.incr(old.a, d, code, st), s.incr(old.b, d, code, st))
        if isinstance(old, It): return It(old.loc, add(old.i, d), old.rev)
        if isinstance(old, Ptr) and old.idx is not None: return Ptr(old.loc, add(old.idx, d))
        if isinstance(old, T):
            if old.op in ("opaque", "undef"): return old
            r = add(old, d)
            if old.ty == "u" and code: r = s.convert(r, code) if base_t(code)[:1] in "u" else r
            return r
        raise Unsupported("increment of %s" % type(old).__name__)
    def negate(s, v, st, code=None):
        if isinstance(v, Gate): return merge(v.c, s.negate(v.a, st, code), s.negate(v.b, st, code))
        if isinstance(v, T):
            if v.op in ("opaque", "undef"): return v
            if v.ty == "b": v = s.convert(v, "i32")
            r = neg(v)
            if v.ty == "u" and code and base_t(code)[:1] == "u": return s.convert(mk("id", (), None) if False else t.wrap(r, int(base_t(code)[1:]), False), code)
            return r
        if isinstance(v, Cx): return Cx(neg(v.re), neg(v.im))
        if isinstance(v, Mat): return Mat(v.r, v.c, [[s.negate(x, st) for x in r] for r in v.x])
        raise Unsupported("negation of %s" % type(v).__name__)
    def e_bin(s, e, st, fr, discard=False):
        op = e["op"]
        if op == ",":
            s.ev(e["x"], st, fr, discard=True); return s.ev0(e["y"], st, fr)
        if op in ("&&", "||"):
            a = s.fold(s.boolean(s.ev(e["x"], st, fr)), st.pc)
            if a.op == "opaque": raise Unsupported(str(a.d))
            if (op == "&&" and a is FALSE) or (op == "||" and a is TRUE): return a
            if a.op == "bool": return s.boolean(s.ev(e["y"], st, fr))
            if op == "&&": return s.evbranch(a, st, lambda q: s.boolean(s.ev(e["y"], q, fr)), lambda q: FALSE)
            return s.evbranch(a, st, lambda q: TRUE, lambda q: s.boolean(s.ev(e["y"], q, fr)))
        if op == "=":
            v = s.ev(e["y"], st, fr); l = s.ev0(e["x"], st, fr)
            if not isinstance(l, Loc): raise Unsupported("assignment to a temporary")
            s.write(st, l, v); return l
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            l = s.ev0(e["x"], st, fr)
            if not isinstance(l, Loc): raise Unsupported("assignment to a temporary")
            y = s.ev(e["y"], st, fr); x = s.read(st, l)
            if op == "|=" and not isinstance(x, T): s.write(st, l, s.rd(s.pipe(x, y, st, fr, e), st)); return l
            ct = e.get("ct", ""); 
            xx = s.convert(x, ct) if isinstance(x, T) and ct[:1] in "fiu" else x
            v = s.binop(op[:-1], xx, y, st, fr, ct)
            if isinstance(v, T) and not e["t"].startswith("D"): v = s.convert(v, e["t"])
            elif isinstance(v, T) and isinstance(x, T) and x.ty in t.INTS and v.ty not in t.INTS: v = t.trunc(v, x.ty)
            s.write(st, l, v); return l
        if op == "|":
            x, y = s.ev0(e["x"], st, fr), s.ev0(e["y"], st, fr)
            if not isinstance(s.rd(x, st), T): return s.pipe(x, y, st, fr, e)
            return s.binop(op, s.rd(x, st), s.rd(y, st), st, fr, e.get("t"))
        a = s.ev(e["x"], st, fr); b = s.ev(e["y"], st, fr)
        return s.binop(op, a, b, st, fr, e.get("t"))
    def binop(s, op, a, b, st, fr, code=None):
        if isinstance(a, Obj) or isinstance(b, Obj):
            r = s.user_op(op, a, b, st, fr)
            if r is not NotImplemented: return r
        return s.arith(op, a, b, st, code)
    def user_op(s, op, a, b, st, fr):
        if isinstance(a, Obj) and isinstance(a.cls, dict):
            c = s.find_method(a.cls, "operator" + op, 1)
            if c: return s.invoke(c, [b], st, fr, this=s.alloc(st, a))
        c = [f for f in s.ir.byn.get("operator" + op, []) if not f.get("cls") and len(f["ps"]) == 2 and "b" in f]
        for f in c:
            if all(s.accepts(p, v) for p, v in zip(f["ps"], (a, b))): return s.invoke(f, [a, b], st, fr)
        return NotImplemented
    def accepts(s, p, v):
        n = short(base_t(p["t"]).replace("D:", ""))
        if isinstance(v, Obj) and isinstance(v.cls, str) and "::" in v.name and not p["t"].lstrip("c&").startswith("D"):
            full = base_t(p["t"])
            while "<" in full: full, k = re.subn(r"<[^<>]*>", "", full); full = full if k else full.replace("<", "")
            return full.endswith(v.name)
        if isinstance(v, Obj) and isinstance(v.cls, dict) and not p["t"].lstrip("c&").startswith("D") and "::" in base_t(p["t"]):
            full = base_t(p["t"]); bare = strip_targs(full); own = strip_targs(v.cls["q"])
            if bare != own and not own.endswith("::" + bare) and not bare.endswith("::" + own): return False
            sp = [short(x) for x in (v.cls.get("spec") or ())]; want = [short(x) for x in s.targs(full)]
            return not sp or not want or sp == want
        if isinstance(v, Obj): return n.split("<")[0] == short(v.name).split("<")[0] or p["t"].lstrip("c&").startswith("D")
        if isinstance(v, T) and "Quantity<" in p["t"]: return True
        if isinstance(v, Var): return "variant<" in p["t"] or p["t"].lstrip("c&").startswith("D")
        if isinstance(v, T): return base_t(p["t"])[:1] in "biufD" and not isinstance(s.find_class(base_t(p["t"]), None), dict)
        return True
    def same_type(s, p, v):
        c = base_t(p["t"])
        if isinstance(v, T): return c == "f64" if v.ty == "r" else c == "i32" if v.ty == "i" else c[:1] == "u" if v.ty == "u" else False
        if isinstance(v, Obj): return isinstance(v.cls, dict) and (c == v.cls["q"] or c == v.name)
        return False
    # ---------------------------------------------------------------- construction
    def find_class(s, name, fr):
        if not name: return None
        n = base_t(name)
        if n.startswith("D:"): n = n[2:]
        if fr is not None: n = s.tsub(n, fr)
        n = re.sub(r"^(const|typename|class|struct) ", "", n.strip())
        if n.startswith("lambda"): return None
        head = re.sub(r"<.*", "", n)
        best = []
        for c in s.ir.clsq.get(n, []): best.append((3, c))
        if not best:
            sh = short(n); shh = re.sub(r"<.*", "", sh); args = [short(a) for a in s.targs(sh)]
            for q, cs in s.ir.clsq.items():
                qq = re.sub(r"<.*", "", short(q))
                if qq != shh: continue
                if "::" in head and not (q == head or re.sub(r"<.*", "", q).endswith(head) or re.sub(r"<[^:]*>", "", q).endswith(head)): continue
                for c in cs:
                    if c.get("spec"):
                        if [short(a) for a in c["spec"]] == args: best.append((4, c))
                        elif c.get("inst") and len(args) == 0: best.append((0, c))
                    elif not c.get("inst"): best.append((2 if c.get("tp") or not args else 1, c))
        if not best:
            a = s.ir.aliases.get(short(n))
            if a is not None and a.get("ts") and short(a["ts"]) != short(n) and not a.get("tp"): return s.find_class(a["ts"], fr)
            return None
        best.sort(key=lambda x: -x[0])
        top = [b for b in best if b[0] == best[0][0]]
        if len({b[1]["q"] for b in top}) > 1:
            # an unqualified name: the innermost enclosing scope that has such a class
            sc = ((fr.fn or {}).get("q") or "") if fr is not None else ""
            while True:
                m = [b for b in top if re.sub(r"<.*", "", b[1]["q"]).rsplit("::", 1)[0] == re.sub(r"<[^:]*>", "", sc)]
                if m: return m[0][1]
                if "::" not in sc: break
                sc = sc.rsplit("::", 1)[0]
            raise Unsupported("ambiguous class name " + n)
        return best[0][1]
    def bind_class(s, c, ty):
        env = {}
        if c.get("tp") and ty:
            a = s.targs(ty)
            for i, p in enumerate(c["tp"]):
                if p.get("pack"): env[p["n"]] = a[i:]; break
                if i < len(a): env[p["n"]] = a[i]
        return env
    def raw_obj(s, c, ty=None):
        return Obj(c, {}, c["q"])
    def construct(s, c, args, st, fr, fid=None, ty=None):
        """run a constructor of class c"""
        if args and c["bases"] and not c["fields"]:
            vals = [s.read(st, a) if isinstance(a, Loc) else a for a in args]
            if len(vals) == 1 and isinstance(vals[0], Seq): vals = list(vals[0].x)
            if vals and all(isinstance(v, Closure) for v in vals): return Obj("overload", {"f%d" % i: v for i, v in enumerate(vals)})
        ctors = [f for f in s.ir.methods.get(c["id"], {}).get(c["n"].split("<")[0], []) + s.ir.methods.get(c["id"], {}).get(c["n"], []) if f.get("ctor")]
        seen = {}; pat = None
        if c.get("inst") and not any("b" in f for f in ctors):
            # constructors the compiler did not instantiate (inherited ones): those of the pattern
            for c2 in sorted(s.ir.clsq.get(re.sub(r"<.*", "", c["q"]), []), key=lambda x: x["l"] != c["l"]):
                if not c2.get("inst") and (not c2.get("spec") or c2["l"] == c["l"]) and pat is None:
                    k = [f for n, fs in s.ir.methods.get(c2["id"], {}).items() for f in fs if f.get("ctor")]
                    if k: ctors = k; pat = c2
        for f in ctors: seen[f["id"]] = f
        ctors = list(seen.values())
        f = None
        for q in (fid if isinstance(fid, (list, tuple)) else [fid]):
            if q in s.ir.fn: f = s.ir.fn[q]; break
        if f is None and len(args) == 1:
            a0 = s.read(st, args[0]) if isinstance(args[0], Loc) else args[0]
            if isinstance(a0, Obj) and (a0.cls is c or short(a0.name) == short(c["q"])): return a0
        if f is None:
            cand = [g for g in ctors if self_arity(g, len(args)) and not g.get("copymove") and "b" in g]
            if len(cand) > 1:
                k = [g for g in cand if all(s.accepts(p, s.read(st, a) if isinstance(a, Loc) else a) for p, a in zip(g["ps"], args))]
                cand = k or cand
            if cand: f = cand[0]
        loc = s.alloc(st, s.raw_obj(c, ty))
        tenv = s.bind_class(c, ty)
        if pat is not None: tenv = s.bind_class(pat, "x<%s>" % ", ".join(map(str, c.get("spec") or [])))
        if f is None or f.get("defaulted"):
            if c.get("usings") or (not ctors and args):
                # inherited constructors or aggregate initialisation
                if not c["fields"] and c["bases"] or (c.get("usings") and c["bases"]):
                    b = s.base_class(c["bases"][0], Frame(None, tenv), c); o = s.raw_obj(c)
                    s.write(st, loc, o)
                    s.write(st, loc, o.set("base:" + short(b["q"]) if b else "base:", s.construct(b, args, st, fr)))
                    s.init_fields(c, loc, st, Frame(None, tenv, loc), {})
                    return s.read(st, loc)
                o = s.raw_obj(c); 
                vals = [s.read(st, a) if isinstance(a, Loc) else a for a in args]
                if len(vals) == 1 and isinstance(vals[0], Seq) and vals[0].kind == "ilist": vals = list(vals[0].x)
                for fd, v in zip(c["fields"], vals): o = o.set(fd["n"], s.convert(v, fd["t"]) if isinstance(v, T) else v)
                s.write(st, loc, o); s.init_fields(c, loc, st, Frame(None, tenv, loc), {x["n"] for x in c["fields"][:len(vals)]})
                return s.read(st, loc)
            for b in c["bases"]:
                k = s.base_class(b, Frame(None, tenv), c)
                if k is not None: s.write(st, loc, s.read(st, loc).set("base:" + short(k["q"]), s.construct(k, [], st, fr)))
            s.init_fields(c, loc, st, Frame(None, tenv, loc), set(), aggregate=not ctors)
            return s.read(st, loc)
        s.run_ctor(f, c, loc, args, st, fr, tenv)
        return s.read(st, loc)
    def base_class(s, b, fr, c):
        if b.get("id") in s.ir.cls: return s.ir.cls[b["id"]]
        # the name is looked up in the scope of the derived class
        f2 = Frame({"q": re.sub(r"<.*", "", c["q"])}, dict(fr.tenv) if fr is not None else {})
        return s.find_class(b["ts"], f2)
    def init_fields(s, c, loc, st, fr, done, aggregate=False):
        for fd in c["fields"]:
            if fd["n"] in done: continue
            if fd.get("init"): v = s.coerce(s.ev(fd["init"], st, fr, want=fd["t"]), fd["t"], fd.get("ts", ""), fr, st)
            else: v = s.default(fd["t"], fd.get("ts", ""), fr, st)
            s.write(st, loc + ("f", fd["n"]), v)
    def run_ctor(s, f, c, loc, args, st, fr, tenv):
        s.enter(f)
        f2 = Frame(f, dict(tenv), loc, land(fr.base if fr else TRUE, st.pc))
        saved = st.pc; st.pc = TRUE
        s.bind_params(f, args, st, f2, fr)
        s.depth += 1
        if s.depth > s.maxdepth: raise Unsupported("call depth")
        try:
            alive = True
            try:
                done = set()
                inits = f.get("inits", [])
                if any(i.get("deleg") for i in inits):
                    i = [i for i in inits if i.get("deleg")][0]
                    if i["e"]["k"] == "plist": v = s.construct(c, [s.ev0(a, st, f2) for a in s.expand(i["e"]["a"], st, f2)], st, f2)
                    else: v = s.ev(i["e"], st, f2)
                    s.write(st, loc, v)
                else:
                    ib = {}
                    for i in inits:
                        if i.get("f"): ib[i["f"]] = i
                    for i in inits:
                        if "base" in i:
                            s.line = i.get("l", s.line)
                            k = s.ir.cls.get(i.get("bid")) or s.find_class(i["base"], f2)
                            v = s.ev_init(i["e"], st, f2, k)
                            s.write(st, loc, s.read(st, loc).set("base:" + (short(k["q"]) if k else "?"), v))
                    have = {k for k in s.read(st, loc).f if k.startswith("base:")}
                    for b in c["bases"]:
                        k = s.base_class(b, f2, c)
                        if k is not None and "base:" + short(k["q"]) not in have: s.write(st, loc, s.read(st, loc).set("base:" + short(k["q"]), s.construct(k, [], st, f2)))
                    for fd in c["fields"]:
                        i = ib.get(fd["n"])
                        if i is None:
                            v = s.coerce(s.ev(fd["init"], st, f2, want=fd["t"]), fd["t"], fd.get("ts", ""), f2, st) if fd.get("init") else s.default(fd["t"], fd.get("ts", ""), f2, st)
                            s.write(st, loc + ("f", fd["n"]), v); continue
                        s.line = i.get("l", s.line)
                        if fd["t"].startswith(("&", "c&")): v = s.read(st, s.lv(i["e"], st, f2))
                        elif i["e"] is not None and i["e"]["k"] == "plist" and len(i["e"]["a"]) != 1:
                            k = s.find_class(fd["t"], f2)
                            v = s.construct(k, [s.ev0(a, st, f2) for a in i["e"]["a"]], st, f2, ty=s.tsub(fd["ts"], f2)) if k else s.builtin_ctor(s.tsub(fd["t"], f2), [s.ev(a, st, f2) for a in i["e"]["a"]], st, f2, i["e"])
                        else:
                            ie = i["e"]["a"][0] if i["e"] is not None and i["e"]["k"] == "plist" else i["e"]
                            v = s.ev(ie, st, f2, want=fd["t"]) if ie is not None else s.default(fd["t"], "", f2, st)
                            v = s.coerce(v, fd["t"], fd.get("ts", ""), f2, st)
                            k = s.find_class(fd["t"], f2) if isinstance(v, (T, Seq)) and not (isinstance(v, T) and v.op in ("opaque", "undef")) and not base_t(fd["t"])[:1] in "biuf" else None
                            if k is not None: v = s.construct(k, [v], st, f2)
                        s.write(st, loc + ("f", fd["n"]), v)
                alive = s.stmt(f["b"], st, f2) if f.get("b") else True
            except Dead: alive = False
            if alive: f2.rets.append((st.pc, dict(st.cells), None))
            s.finish(f2, st, saved, fr)
        finally: s.depth -= 1
    def ev_init(s, e, st, fr, k):
        if e is None: return s.construct(k, [], st, fr) if k else UNDEF
        if e["k"] == "plist":
            return s.construct(k, [s.ev0(a, st, fr) for a in e["a"]], st, fr)
        v = s.ev(e, st, fr)
        if k is not None and not (isinstance(v, Obj) and s.isa(v, k)): v = s.construct(k, [v], st, fr)
        return v
    def isa(s, v, k): return isinstance(v.cls, dict) and (v.cls is k or v.cls["q"] == k["q"])
    def e_ctor(s, e, st, fr):
        t0 = base_t(e["t"])
        args = e["a"]
        m = re.match(r"a(\d+):(.*)", t0)
        if m and all(a and a["k"] == "defarg" for a in args):
            if int(m.group(1)) > 4096: raise Unsupported("large array")
            el = dict(e, t=m.group(2))
            return Seq([s.e_ctor(el, st, fr) for _ in range(int(m.group(1)))], "array")
        args = [a for a in args if not (a and a["k"] == "defarg" and "allocator" in str((a.get("e") or {}).get("t", "")))]
        k = s.ir.cls.get(e.get("clsid")) or None
        if k is None and not t0.startswith(("std::", "ranges::", "Eigen::", "dimwits::", "lambda")): k = s.find_class(t0, fr)
        if e.get("copy") and len(args) == 1:
            v = s.ev(args[0], st, fr, want=e["t"])
            return s.slice_base(v, k)
        if k is not None:
            return s.construct(k, [s.ev0(a, st, fr) for a in args], st, fr, fid=[e.get("iid"), e.get("fid")], ty=t0)
        if e.get("il") and args and args[0]["k"] == "ilist": vals = [Seq([s.ev(x, st, fr) for x in s.expand(args[0]["a"], st, fr)], "ilist")]
        else: vals = [s.ev(a, st, fr) for a in args]
        return s.builtin_ctor(t0, vals, st, fr, e)
    def slice_base(s, v, k):
        if k is not None and isinstance(v, Obj) and isinstance(v.cls, dict) and v.cls is not k and v.cls["q"] != k["q"]:
            b = v.f.get("base:" + short(k["q"]))
            if b is not None: return b
        return v
    def expand(self, nodes, st, fr):
        out = []
        for a in nodes:
            if a is not None and a["k"] == "expand": out += self.unpack(a["e"], fr); continue
            out.append(a)
        return out
    def unpack(self, e, fr):
        """one copy of the pattern per element of the parameter pack it names"""
        ids = set()
        def find(x):
            if isinstance(x, dict):
                if x.get("k") == "ref" and "packn:%s" % x.get("id") in fr.vars: ids.add(x["id"])
                for v in x.values(): find(v)
            elif isinstance(x, list):
                for v in x: find(v)
        find(e)
        ns = {fr.vars["packn:%s" % i] for i in ids}
        if len(ns) != 1: raise Unsupported("pack expansion in a template pattern")
        def sub(x, i):
            if isinstance(x, dict):
                if x.get("k") == "ref" and x.get("id") in ids: return dict(x, id="pack:%s:%d" % (x["id"], i))
                return {k: sub(v, i) for k, v in x.items()}
            if isinstance(x, list): return [sub(v, i) for v in x]
            return x
        return [sub(e, i) for i in range(ns.pop())]
    def e_expand(s, e, st, fr): raise Unsupported("pack expansion in a template pattern")
    def e_fold(s, e, st, fr): raise Unsupported("fold expression in a template pattern")
    def e_sizeofpack(s, e, st, fr):
        for i in (e.get("id"),):
            if "packn:%s" % i in fr.vars: return num(fr.vars["packn:%s" % i], "u")
        raise Unsupported("sizeof... in a template pattern")
    def declty(s, txt, st, fr):
        """decltype of a parameter holding an object: the object's class"""
        def rep(m):
            for p in fr.fn.get("ps", ()):
                if p["n"] == m.group(1) and p["id"] in fr.vars:
                    v = s.read(st, fr.vars[p["id"]])
                    if isinstance(v, Obj): return v.name
            return m.group(0)
        return re.sub(r"decltype\((\w+)\)", rep, txt)
    def e_uctor(s, e, st, fr):
        ty = s.tsub(s.declty(e["ts"], st, fr), fr) if base_t(e["t"]).startswith("D") else base_t(e["t"])
        vals = [s.ev0(a, st, fr) for a in e["a"]]
        k = s.find_class(ty, fr)
        if k is not None:
            if e.get("list") and len(vals) == 1 and e["a"][0].get("k") == "ilist" and isinstance(vals[0], Seq): vals = list(vals[0].x)
            return s.construct(k, vals, st, fr, ty=ty)
        return s.builtin_ctor(ty, [s.read(st, v) if isinstance(v, Loc) else v for v in vals], st, fr, e)
    def e_plist(s, e, st, fr):
        if len(e["a"]) == 1: return s.ev0(e["a"][0], st, fr)
        return Seq([s.ev(a, st, fr) for a in e["a"]], "ilist")
    def e_ilist(s, e, st, fr, want=None):
        t0 = base_t(e["t"])
        k = s.ir.cls.get(-1) if False else (s.find_class(t0, fr) if not t0.startswith("std::") and not re.match(r"a\d+:|D|v$", t0) else None)
        m = re.match(r"a(\d+):", t0)
        if not e["a"] and re.match(r"std::(logical_(or|and|not)|plus|minus|multiplies|divides|less|greater|(not_)?equal_to|(less|greater)_equal|negate)\b", t0): return Obj(t0, {})
        vals = []
        for a in e["a"]:
            vals.append(s.ev(a, st, fr))
        if m:
            n = int(m.group(1))
            el = t0[m.end():]
            while len(vals) < n: vals.append(s.zero(el))
            vals = [s.coerce(v, el, "", fr, st) for v in vals]
            return Seq(vals, "array")
        if k is not None and k["bases"] and not k["fields"] and vals and all(isinstance(v, Closure) for v in vals):
            return Obj("overload", {"f%d" % i: v for i, v in enumerate(vals)})
        if k is not None:
            o = s.raw_obj(k)
            loc = s.alloc(st, o)
            i = 0
            for b in k["bases"]:
                kb = s.base_class(b, fr, k)
                if i < len(vals) and kb is not None: s.write(st, loc, s.read(st, loc).set("base:" + short(kb["q"]), vals[i])); i += 1
            for fd in k["fields"]:
                if i < len(vals): v = s.coerce(vals[i], fd["t"], fd.get("ts", ""), fr, st); i += 1
                elif fd.get("init"): v = s.ev(fd["init"], st, Frame(None, {}, loc))
                else: v = s.zero(fd["t"])
                s.write(st, loc + ("f", fd["n"]), v)
            return s.read(st, loc)
        n = short(t0)
        if n.startswith("array<"):
            a = s.targs(t0); cnt = int(re.sub(r"\D", "", a[1]))
            if len(vals) == 1 and isinstance(vals[0], Seq) and not (cnt == 1 and vals[0].kind != "array"): vals = list(vals[0].x)
            el = s.code_of(a[0])
            vals = [s.coerce(v, el, "", fr, st) for v in vals]
            while len(vals) < cnt: vals.append(s.zero(el))
            return Seq(vals, "array")
        if t0[:1] in "biuf" and len(vals) == 1: return vals[0]
        if (t0.startswith("D") or t0 in ("v", "")) and want and base_t(want).startswith("D"):
            kk = s.find_class(want, fr)
            if kk is not None: return s.construct(kk, vals, st, fr, ty=s.tsub(base_t(want)[2:], fr))
        if (t0.startswith("D") or t0 in ("v", "")) and want and not base_t(want).startswith("D"):
            kk = s.find_class(want, fr)
            if kk is not None: return s.construct(kk, vals, st, fr, ty=base_t(want))
            return s.builtin_ctor(base_t(want), [Seq(vals, "ilist")], st, fr, e)
        return Seq(vals, "ilist")
    def e_new(s, e, st, fr):
        if e.get("place"):
            raise Unsupported("placement new")
        if e.get("array"):
            n = s.ev(e["n"], st, fr)
            if not isnum(n) or n.d > 4096: raise Unsupported("symbolic allocation")
            c = base_t(e["t"])
            if c.startswith("std::complex"): v = Seq([Cx(num(0), num(0))] * int(n.d), "array")
            else: v = Seq([s.default(c, "", fr, st) for _ in range(int(n.d))], "array")
            return Ptr(s.alloc(st, v), num(0, "i"))
        v = s.ev(e["init"], st, fr) if e.get("init") else s.default(e["t"], "", fr, st)
        return Ptr(s.alloc(st, v))
    def e_delete(s, e, st, fr): s.ev(e["e"], st, fr); return None
    # ---------------------------------------------------------------- calls
    def enter(s, f):
        s.calls += 1
        if f["id"] not in s.fnseen:
            s.fnseen.add(f["id"]); e = s.ir.broken(f) if s.ir.errs else None
            if e: raise Unsupported("does not type-check against the interface models: " + e)
    def bind_params(s, f, args, st, f2, fr):
        ps = f["ps"]
        if ps and ps[-1].get("pack"):
            k = ps[-1]; m = max(0, len(args) - len(ps) + 1); f2.vars["packn:%s" % k["id"]] = m
            ps = ps[:-1] + [dict(k, id="pack:%s:%d" % (k["id"], j)) for j in range(m)]
        for i, p in enumerate(ps):
            if i >= len(args):
                if p.get("def") is not None:
                    v = s.ev(p["def"], st, f2)
                    if isinstance(v, Seq) and v.kind == "ilist": v = s.coerce(v, p["t"], p.get("ts", ""), f2, st)
                else: v = opaque("missing argument " + p["n"])
                f2.vars[p["id"]] = s.alloc(st, v); continue
            a = args[i]
            if p["t"].startswith(("&", "c&")):
                if isinstance(a, Loc):
                    want = base_t(p["t"])
                    f2.vars[p["id"]] = a
                    if p["t"].startswith("c&") or p["t"].startswith("&&"):
                        cur = s.read(st, a)
                        k = s.convertible(want, cur, f2)
                        if k is not None: f2.vars[p["id"]] = s.alloc(st, s.construct(k, [cur], st, fr or f2))
                else:
                    a = s.coerce(a, p["t"], p.get("ts", ""), f2, st); k = s.convertible(base_t(p["t"]), a, f2)
                    f2.vars[p["id"]] = s.alloc(st, s.construct(k, [a], st, fr or f2) if k is not None else a)
            else:
                v = s.read(st, a) if isinstance(a, Loc) else a
                if base_t(p["t"]).startswith("p:") and isinstance(a, Loc) and isinstance(v, (Seq, Arr)): v = Ptr(a, num(0, "i"))   # array decays to a pointer
                v = s.coerce(v, p["t"], p.get("ts", ""), f2, st); k = s.convertible(base_t(p["t"]), v, f2)
                f2.vars[p["id"]] = s.alloc(st, s.construct(k, [v], st, fr or f2) if k is not None else v)
    def convertible(s, want, v, fr):
        return None
    def invoke(s, f, args, st, fr, this=None, tenv=None, ta=None):
        if "b" not in f:
            if f.get("defaulted"): raise Unsupported("defaulted function " + f["n"])
            raise Unsupported("no body: " + f["q"])
        f = s.specialise(f, ta, args, st)
        if f["ps"] and f["ps"][-1].get("pack") and not f.get("inst"):
            # a variadic template: the compiler's instantiation for these argument types, where there is one
            for g in s.ir.instat.get(f["l"], ()):
                if "b" in g and len(g["ps"]) == len(args) and all(s.same_type(p, s.rd(a, st)) for p, a in zip(g["ps"], args)): f = g; break
        if f["n"] in s.abstract: return s.abstract_call(f, args, st)
        s.enter(f)
        env = dict(tenv or {})
        if ta and f.get("tp"):
            for i, p in enumerate(f["tp"]):
                if p.get("pack"): break
                if i < len(ta): env[p["n"]] = ta[i]
        s.deduce(f, args, st, env)
        refret = f.get("rt", "").startswith(("&", "c&")) and not f.get("rt", "").startswith("&&")
        f2 = Frame(f, env, this, land(fr.base if fr else TRUE, st.pc), refret)
        saved = st.pc; st.pc = TRUE
        s.bind_params(f, args, st, f2, fr)
        s.depth += 1
        if s.depth > s.maxdepth: s.depth -= 1; raise Unsupported("call depth at " + f["q"])
        cb = s.curbase; s.curbase = land(cb, saved)
        try:
            alive = s.stmt(f["b"], st, f2)
            if alive:
                if f.get("rt") not in ("v", None) and not f.get("rt", "").startswith("D") and not f.get("ctor"):
                    s.issue("no-return", "control reaches the end of %s" % f["q"], st)
                    f2.rets.append((st.pc, dict(st.cells), UNDEF))
                else: f2.rets.append((st.pc, dict(st.cells), None))
            v = s.finish(f2, st, saved, fr)
        finally: s.depth -= 1; s.curbase = cb
        if isinstance(v, T) and not refret: v = s.convert(v, f.get("rt", "D")) if not f.get("rt", "D").startswith("D") else v
        return v
    def abstract_call(s, f, args, st):
        """a callee kept uninterpreted: its results are unknown functions of its inputs"""
        nm, spec = s.abstract[f["n"]]; outs = dict(spec); s.absseen.add(nm)
        key = []
        for i, a in enumerate(args):
            if i in outs: continue
            v = s.rd(a, st)
            if isinstance(v, Gate) or not leaves(v, key): raise Unsupported("argument of " + f["n"])
        key = [s.convert(k, p["t"]) if len(f["ps"]) == len(args) == len(key) + len([o for o in outs if o != "ret"]) and isinstance(k, T) else k for k, p in zip(key, [p for i, p in enumerate(f["ps"]) if i not in outs])] if len(key) == len([p for i, p in enumerate(f["ps"]) if i not in outs]) else key
        def val(tag, kind):
            if kind == "c": return Cx(app("%s:%s.re" % (nm, tag), *key), app("%s:%s.im" % (nm, tag), *key))
            return app("%s:%s" % (nm, tag), *key, ty=kind)
        r = None
        for o, kind in spec:
            if o == "ret": r = val("ret", kind); continue
            loc = args[o]
            if isinstance(loc, Ptr): loc = loc.loc
            s.write(st, loc, val(o, kind))
        return r
    def finish(s, f2, st, saved, fr):
        tc = FALSE
        for c in f2.throws: tc = lor(tc, c)
        rets = [r for r in f2.rets if r[0] is not FALSE]
        if not rets:
            st.pc = saved
            if fr is not None: fr.throws.append(saved)
            raise Dead()
        vals = [r[2] for r in rets]
        if any(isinstance(v, Loc) for v in vals) and len(rets) > 1 and not all(v == vals[0] for v in vals):
            rets = [(r[0], r[1], s.read(State(r[1], TRUE), r[2]) if isinstance(r[2], Loc) else r[2]) for r in rets]
        if all(isinstance(v, Loc) for v in vals) and all(v == vals[0] for v in vals):
            j = s.join([(r[0], r[1]) for r in rets]); v = vals[0]
        else:
            j = s.join(rets); v = j[2]
        st.cells = j[1]
        if tc is not FALSE:
            if fr is not None: fr.throws.append(land(saved, tc))
            st.pc = land(saved, lnot(tc))
        else: st.pc = saved
        return v
    def specialise(s, f, ta, args, st):
        if f.get("inst") or not f.get("tp") or not ta: return f
        for g in s.ir.byq.get(f["q"], []):
            if g.get("spec") and not g.get("inst") and "b" in g:
                sp = [short(x) for x in g["spec"]]
                if sp[:len(ta)] == [short(str(x)) for x in ta][:len(sp)] and len(g["ps"]) == len(f["ps"]): return g
        return f
    def deduce(s, f, args, st, env):
        if f.get("inst"): return
        for p, a in zip(f["ps"], args):
            v = s.read(st, a) if isinstance(a, Loc) else a
            ty = base_t(p["t"])
            if ty.startswith("D:"):
                ty = ty[2:].strip()
                if re.fullmatch(r"\w+", ty) and any(q["n"] == ty for q in f.get("tp", [])) and ty not in env:
                    if isinstance(v, TypeV): env[ty] = v.n
                    elif isinstance(v, Obj): env[ty] = v.name
        for p in f["ps"][len(args):]:
            ty = base_t(p["t"])
            for q in f.get("tp") or ():
                if ty == "D:" + q["n"] and q.get("def") and q["n"] not in env: env[q["n"]] = q["def"]
    def call_fn(s, f, args, st, fr):
        """call a callable value"""
        if isinstance(f, Loc): f = s.read(st, f)
        if isinstance(f, Gate):
            return s.evbranch(f.c, st, lambda a: s.rd(s.call_fn(f.a, args, a, fr), a), lambda b: s.rd(s.call_fn(f.b, args, b, fr), b))
        if isinstance(f, Closure): return s.call_closure(f, args, st, fr)
        if isinstance(f, Ptr): return s.call_fn(s.deref(f, st, fr), args, st, fr)
        if isinstance(f, Bound): return s.method(f, args, st, fr)
        if isinstance(f, Fn):
            return s.call_named(f, args, st, fr)
        if isinstance(f, Obj):
            if isinstance(f.cls, dict):
                c = s.find_method(f.cls, "operator()", len(args))
                if c: return s.invoke(c, args, st, fr, this=s.alloc(st, f), tenv=s.bind_class(f.cls, f.name))
            return s.builtin_call_obj(f, args, st, fr)
        if isinstance(f, View): return f.f(s.rd(args[0], st), st)
        raise Unsupported("call of %s" % type(f).__name__)
    def rd(s, v, st): return s.read(st, v) if isinstance(v, Loc) else v
    def call_closure(s, c, args, st, fr):
        lam = c.lam
        f2 = Frame(lam, dict(c.tenv), c.this, land(fr.base if fr else TRUE, st.pc), (lam.get("rt") or "").startswith(("&", "c&")))
        f2.vars.update(c.cap)
        saved = st.pc; st.pc = TRUE
        s.bind_params({"ps": lam["ps"]}, args, st, f2, fr)
        s.depth += 1
        if s.depth > s.maxdepth: s.depth -= 1; raise Unsupported("call depth")
        try:
            alive = s.stmt(lam["b"], st, f2)
            if alive: f2.rets.append((st.pc, dict(st.cells), None))
            v = s.finish(f2, st, saved, fr)
        finally: s.depth -= 1
        if isinstance(v, T) and lam.get("rt") and not lam["rt"].startswith("D"): v = s.convert(v, lam["rt"])
        elif lam.get("rt") and not f2.refret and v is not None: v = s.coerce(v, lam["rt"], lam.get("rts", ""), f2, st)
        return v
    def call_named(s, f, args, st, fr):
        if f.cands:
            c = f.cands
            if len(c) > 1:
                k = [g for g in c if self_arity(g, len(args)) and not g.get("spec")] or [g for g in c if self_arity(g, len(args))]
                if len(k) > 1:
                    k2 = [g for g in k if all(s.accepts(p, s.rd(a, st)) for p, a in zip(g["ps"], args))]
                    k = k2 or k
                if len(k) > 1:      # the more specialised overload: fewest parameters of a deduced type
                    loose = lambda g: sum(1 for p in g["ps"] if p["t"].lstrip("c&").startswith("D"))
                    m = min(loose(g) for g in k); k = [g for g in k if loose(g) == m]
                if k and not f.ta and not k[0].get("spec"):     # an explicit specialisation for these argument types
                    D = [i for i, p in enumerate(k[0]["ps"]) if p["t"].lstrip("c&").startswith("D")]
                    for g in c:
                        if D and g.get("spec") and self_arity(g, len(args)) and all(isinstance(s.rd(args[i], st), Obj) and not g["ps"][i]["t"].lstrip("c&").startswith("D") and s.accepts(g["ps"][i], s.rd(args[i], st)) for i in D if i < len(args)): k = [g]; break
                c = k
            if not c: raise Unsupported("no matching overload of " + f.name)
            g = c[0]
            if g.get("cls") and not g.get("static") and fr is not None and fr.this is not None: return s.invoke(g, args, st, fr, this=fr.this, ta=f.ta)
            return s.invoke(g, args, st, fr, ta=f.ta)
        return s.builtin(f, args, st, fr)
    def find_method(s, c, name, n):
        seen = set()
        def go(k):
            if k is None or k["id"] in seen: return None
            seen.add(k["id"])
            ms = [f for f in s.ir.methods.get(k["id"], {}).get(name, []) if self_arity(f, n) and ("b" in f)]
            if ms:
                ins = [f for f in ms if f.get("inst")]
                return (ins or ms)[0]
            if k.get("inst"):
                # the pattern of an instantiated class whose method was not instantiated
                for c2 in sorted(s.ir.clsq.get(re.sub(r"<.*", "", k["q"]), []), key=lambda x: x["l"] != k["l"]):
                    if not c2.get("inst") and c2["id"] not in seen:
                        r = go(c2)
                        if r: return r
            for b in k["bases"]:
                r = go(s.base_class(b, None, k))
                if r: return r
            return None
        return go(c)
    def e_call(s, e, st, fr, discard=False):
        f = e["f"]
        # direct member call on a class of the analysed code
        if f["k"] == "mem":
            callee = s.ev0(f, st, fr)
            args = [s.ev0(a, st, fr) for a in s.expand(e["a"], st, fr)]
            if isinstance(callee, Bound):
                g = None
                for q in (e.get("iid"), f.get("iid"), e.get("fid"), f.get("pid")):
                    if q in s.ir.fn: g = s.ir.fn[q]; break
                return s.method(callee, args, st, fr, g, e)
            if not args:                # accessor of a record of an external interface
                v = s.rd(callee, st)
                if isinstance(v, (T, Seq, Opt, Var)) or isinstance(v, Obj) and isinstance(v.cls, str): return callee
            return s.call_fn(callee, args, st, fr)
        if f["k"] == "ref" and f.get("d") == "fun":
            g = None
            for q in (f.get("iid"), e.get("iid"), f.get("id"), f.get("pid")):
                if q in s.ir.fn and "b" in s.ir.fn[q]: g = s.ir.fn[q]; break
            args = [s.ev0(a, st, fr) for a in s.expand(e["a"], st, fr)]
            if g is not None:
                if g.get("cls") and not g.get("static"): return s.invoke(g, args, st, fr, this=fr.this)
                return s.invoke(g, args, st, fr, ta=f.get("ta") or f.get("sa"))
            return s.builtin(Fn(f["q"], [], f.get("sa") or f.get("ta")), args, st, fr, e)
        callee = s.ev0(f, st, fr)
        args = [s.ev0(a, st, fr) for a in s.expand(e["a"], st, fr)]
        return s.call_fn(callee, args, st, fr)
    def method(s, b, args, st, fr, g=None, e=None):
        loc = b.obj
        v = s.read(st, loc)
        if isinstance(v, Ptr): loc = s.deref(v, st, fr); v = s.rd(loc, st)
        if isinstance(v, Gate) and s.gate_kind(v, Obj):
            # dispatch separately when the alternatives are objects
            def side(q, val):
                l = s.alloc(q, val); return s.rd(s.method(Bound(l, b.name, b.ta, b.node), args, q, fr, g, e), q)
            return s.evbranch(v.c, st, lambda q: side(q, v.a), lambda q: side(q, v.b))
        if g is not None and "b" in g:
            if isinstance(v, Obj): loc = s.upcast(loc, v, g)
            return s.invoke(g, args, st, fr, this=loc, tenv=s.bind_class(v.cls, v.name) if isinstance(v, Obj) and isinstance(v.cls, dict) else None, ta=b.ta)
        if isinstance(v, Obj) and isinstance(v.cls, dict):
            if s.isfield(v, b.name): return s.call_fn(s.rd(loc + ("f", b.name), st), args, st, fr)
            m = s.find_method(v.cls, b.name, len(args))
            if m is not None: return s.invoke(m, args, st, fr, this=s.upcast(loc, v, m), ta=b.ta)
            if b.name.startswith("~"): return None
            if b.name == "operator=":
                s.write(st, loc, s.rd(args[0], st)); return loc
        return s.builtin_method(loc, v, b, args, st, fr, e)
    def upcast(s, loc, v, m):
        """location of the base subobject a method belongs to"""
        q = m.get("cls")
        if not q or not isinstance(v.cls, dict): return loc
        if re.sub(r"<.*", "", v.cls["q"]) == re.sub(r"<.*", "", q): return loc
        for k, b in v.f.items():
            if k.startswith("base:") and isinstance(b, Obj):
                if isinstance(b.cls, dict) and re.sub(r"<.*", "", b.cls["q"]) == re.sub(r"<.*", "", q): return loc + ("f", k)
                r = s.upcast(loc + ("f", k), b, m)
                if r != loc + ("f", k): return r
        return loc
    def e_opcall(s, e, st, fr, discard=False):
        op = e["op"]; a = e["a"]
        g = None
        for q in (e.get("iid"), e.get("fid")):
            if q in s.ir.fn and "b" in s.ir.fn[q]: g = s.ir.fn[q]; break
        if op == "()":
            c = s.ev0(a[0], st, fr); args = [s.ev0(x, st, fr) for x in s.expand(a[1:], st, fr)]
            if g is not None and g.get("cls") and isinstance(s.rd(c, st), Obj):
                loc = c if isinstance(c, Loc) else s.alloc(st, c)
                return s.invoke(g, args, st, fr, this=s.upcast(loc, s.rd(loc, st), g))
            return s.call_value(c, args, st, fr, e)
        if g is not None:
            vals = [s.ev0(x, st, fr) for x in a]
            if g.get("cls"):
                loc = vals[0] if isinstance(vals[0], Loc) else s.alloc(st, vals[0])
                if isinstance(s.rd(loc, st), Obj): return s.invoke(g, vals[1:], st, fr, this=s.upcast(loc, s.rd(loc, st), g))
            else: return s.invoke(g, vals, st, fr)
        if op in ("++", "--") or (op in ("*", "-", "+", "!", "~") and len(a) == 1):
            x = {"k": "un", "op": op, "e": a[0], "t": e.get("t", "D"), "l": e["l"]}
            if op in ("++", "--") and len(a) == 2: x["post"] = True
            return s.e_un(x, st, fr)
        if op == "->":
            return s.ev0(a[0], st, fr)
        if op == "[]":
            x = s.ev0(a[0], st, fr); y = s.ev(a[1], st, fr); return s.subscript(x, y, st, fr)
        if op == "=":
            y = s.ev(a[1], st, fr, want=e.get("t")); l = s.ev0(a[0], st, fr)
            return s.assign(l, y, st, fr, e)
        if op == "|" :
            x = s.ev0(a[0], st, fr); y = s.ev0(a[1], st, fr); return s.pipe(x, y, st, fr, e)
        if op == "|=":
            l = s.lv(a[0], st, fr); y = s.ev0(a[1], st, fr)
            s.write(st, l, s.rd(s.pipe(s.read(st, l), y, st, fr, e), st)); return l
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            l = s.ev0(a[0], st, fr)
            if not isinstance(l, Loc): raise Unsupported("assignment to a temporary")
            y = s.ev(a[1], st, fr); s.write(st, l, s.binop(op[:-1], s.read(st, l), y, st, fr)); return l
        if op in ("&&", "||", ","): return s.e_bin({"k": "bin", "op": op, "x": a[0], "y": a[1], "t": "b", "l": e["l"]}, st, fr)
        if op in ("<<", ">>"):
            x = s.ev0(a[0], st, fr); y = s.ev(a[1], st, fr); return s.stream(op, x, y, st, fr)
        x, y = s.ev(a[0], st, fr), s.ev(a[1], st, fr)
        return s.binop(op, x, y, st, fr)
    def assign(s, l, y, st, fr, e):
        if not isinstance(l, Loc):
            if isinstance(l, Obj) and l.name == "tri": return s.tri_assign(l, y, st)
            if isinstance(l, Obj) and l.name == "vecref": return s.vecref_set(l, y, st)
            raise Unsupported("assignment to a temporary")
        x = s.read(st, l)
        if isinstance(x, Cx) and isinstance(y, T): y = cx(y)
        if isinstance(x, Opt) and not isinstance(y, (Opt, Gate)): y = Opt(TRUE, y)
        if isinstance(x, Obj) and x.name == "tri": return s.tri_assign(x, y, st)
        if isinstance(x, Obj) and x.name == "vecref": return s.vecref_set(x, y, st)
        if isinstance(y, Seq) and y.kind == "ilist" and isinstance(e.get("t"), str):
            k = s.find_class(e["t"], fr)
            if k is not None: y = s.construct(k, list(y.x), st, fr)
            else: y = Seq(y.x, "vector")
        s.write(st, l, y); return l

def strip_targs(q):
    while "<" in q:
        q, k = re.subn(r"<[^<>]*>", "", q)
        if not k: q = q.replace("<", "")
    return q
def self_arity(f, n):
    ps = f["ps"]
    if any(p.get("pack") for p in ps): return n >= len(ps) - 1
    req = sum(1 for p in ps if p.get("def") is None)
    return req <= n <= len(ps)

UNITS = {}
for a in ("electronVolt", "barn", "meter", "second", "kelvin", "coulomb", "dalton", "gram", "farad"):
    UNITS[a] = a; UNITS[a + "s"] = a

from builtins_model import Builtins  # noqa: E402
class Engine(Builtins, Interp): pass
