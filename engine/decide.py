"""Deciding equality of two value graphs: structural identity, canonical rational form, and identity testing
of the extracted expressions at exact points (high precision), including points on every gate boundary."""
import random, math, hashlib, time
from fractions import Fraction as Fr
import mpmath
from mpmath import mp, mpf
import terms as t
from terms import T
from values import *
mp.dps = 40
# a unit is a positive number: its physical magnitude in (eV, root barn, 1e-22 s, elementary charge), moved a little so that a result with the wrong dimension or unit differs
UNITSCALE = {"unit:" + k: mpf(v) for k, v in dict(electronVolt=1, barn=1, second=10**22, coulomb="6.24e18", farad="6.24e18", gram="6.24e31", dalton="1.036e8", kelvin=1, dirac="6.58e6", elementaryCharge=1, lightSpeed="3.0").items()}

class Und(Exception):
    """the graph has a part the analysis does not model"""
class Nan(Exception): pass
UNDEFV = "<indeterminate>"

def q2m(x): return mpf(x.numerator) / x.denominator if isinstance(x, Fr) else mpf(x)

class Ev:
    """value of a term under an assignment of its input symbols"""
    def __init__(s, env, muiter=4000, parent=None, bound=None):
        s.env = env; s.memo = {}; s.muiter = muiter; s.mumemo = {}; s.atoms = {} if parent is None else parent.atoms; s.parent = parent; s.bound = bound
        s.over = parent.over if parent else {}; s.calls = parent.calls if parent else {}; s.inner = parent.inner if parent else {}
    def __call__(s, x):
        if s.parent is not None and not (t.free(x) & s.bound): return s.parent(x)
        m = s.memo
        r = m.get(x.id)
        if r is not None: 
            if r is Nan: raise Nan()
            return r
        try: r = s.ev(x)
        except Nan: m[x.id] = Nan; raise
        m[x.id] = r
        return r
    def num(s, v): return v
    def ev(s, x):
        o = x.op
        if o == "num":
            if x.ty in t.INTS: return int(x.d)
            return q2m(x.d)
        if o == "sym":
            if x.d in s.env: return s.env[x.d]
            if str(x.d).startswith("unit:"): return (mpf(1) + mpf(sum(map(ord, x.d)) % 97) / 1024) * UNITSCALE.get(x.d, 1)
            raise Und("free symbol " + str(x.d))
        if o == "add":
            r = 0
            for y in x.a:
                v = s(y)
                if v is UNDEFV: return UNDEFV
                r = r + (int(v) if isinstance(v, bool) else v)
            return r
        if o == "mul":
            r = 1
            for y in x.a:
                v = s(y)
                if v is UNDEFV: return UNDEFV
                r = r * v
            return r
        if o == "pow":
            b = s(x.a[0])
            if b is UNDEFV: return b
            e = x.d
            if e < 0 and b == 0: raise Nan()
            if e.denominator == 1:
                if isinstance(b, int) and e < 0: b = mpf(b)
                return b ** int(e)
            if b < 0: raise Nan()
            if e == Fr(1, 2): return mpmath.sqrt(b)
            if e == Fr(-1, 2): return 1 / mpmath.sqrt(b)
            return mpf(b) ** q2m(e)
        if o == "real":
            v = s(x.a[0]); return v if v is UNDEFV else mpf(int(v))
        if o == "trunc":
            v = s(x.a[0])
            if v is UNDEFV: return v
            return int(v)
        if o == "wrap":
            v = s(x.a[0])
            if v is UNDEFV: return v
            bits, sg = x.d; v = int(v) % (1 << bits)
            return v - (1 << bits) if sg and v >= 1 << (bits - 1) else v
        if o in ("idiv", "mod"):
            a, b = s(x.a[0]), s(x.a[1])
            if a is UNDEFV or b is UNDEFV: return UNDEFV
            a, b = int(a), int(b)
            if b == 0: raise Nan()
            q = abs(a) // abs(b); q = q if (a >= 0) == (b > 0) else -q
            return q if o == "idiv" else a - q * b
        if o == "bool": return x.d
        if o == "cmp":
            a, b = s(x.a[0]), s(x.a[1])
            if a is UNDEFV or b is UNDEFV: return UNDEFV
            if isinstance(a, str) != isinstance(b, str): a, b = str(a), str(b)
            r = a < b if x.d == "<" else a <= b if x.d == "<=" else a == b
            if s.bound is not None and not isinstance(a, str):
                k = s.inner.setdefault(x.id, []); 
                if len(k) < 64: k.append((a - b, len(s.calls)))
            if s.bound is None: s.atoms[x.id] = (x, r, None if isinstance(a, str) else a - b)
            return bool(r)
        if o == "not":
            v = s(x.a[0]); return v if v is UNDEFV else not v
        if o == "and":
            nan = False
            for y in x.a:
                try: v = s(y)
                except Nan: nan = True; continue
                if v is UNDEFV: return v
                if not v: return False
            if nan: raise Nan()
            return True
        if o == "ite":
            c = s(x.a[0])
            if c is UNDEFV: return c
            return s(x.a[1] if c else x.a[2])
        if o == "undef": return UNDEFV
        if o == "str": return x.d
        if o == "cat":
            vs = [s(y) for y in x.a]
            if UNDEFV in vs: return UNDEFV
            return "".join(map(str, vs))
        if o == "tostr":
            v = s(x.a[0])
            if v is UNDEFV: return v
            return str(v) if isinstance(v, int) else "%.6f" % float(v)
        if o == "fn": return s.fn(x)
        if o == "app": return s.app(x)
        if o == "opaque": raise Und(str(x.d))
        if o == "lit": return tuple(y for y in x.a) and _Lit({i: y for i, y in enumerate(x.a)}, s)
        if o == "sto":
            a = s(x.a[0]); i = s(x.a[1])
            if a is UNDEFV: return UNDEFV
            return a.set(i, s(x.a[2]))
        if o == "sel":
            a = s(x.a[0]); i = s(x.a[1])
            if a is UNDEFV or i is UNDEFV: return UNDEFV
            return a.get(i)
        if o == "mu": return s.mu(x)
        raise Und("term " + o)
    def fn(s, x):
        a = [s(y) for y in x.a]
        if UNDEFV in a: return UNDEFV
        n = x.d
        try:
            if n == "abs": return abs(a[0])
            if n == "f32":
                import struct
                try: return mpf(struct.unpack("f", struct.pack("f", float(a[0])))[0])
                except OverflowError: raise Nan()
            if n in ("sin", "cos", "tan", "atan", "exp", "sinh", "cosh", "tanh", "expm1", "log1p", "erf", "erfc", "cbrt", "asinh"):
                if n == "cbrt": return mpmath.sign(a[0]) * mpmath.root(abs(a[0]), 3)
                if n == "exp" and a[0] > 5000: raise Nan()
                return getattr(mpmath, n)(a[0])
            if n in ("asin", "acos"):
                if abs(a[0]) > 1: raise Nan()
                return getattr(mpmath, n)(a[0])
            if n in ("log", "log10", "log2"):
                if a[0] <= 0: raise Nan()
                return mpmath.log(a[0]) if n == "log" else mpmath.log10(a[0]) if n == "log10" else mpmath.log(a[0], 2)
            if n == "exp2": return mpf(2) ** a[0]
            if n == "atan2":
                if a[0] == 0 and a[1] == 0: return mpf(0)
                return mpmath.atan2(a[0], a[1])
            if n == "pow":
                b, e = a
                if b == 0: 
                    if e > 0: return mpf(0)
                    if e == 0: return mpf(1)
                    raise Nan()
                if b < 0:
                    if e == int(e): return b ** int(e)
                    raise Nan()
                if abs(e) > 1000: raise Nan()
                return mpf(b) ** e
            if n == "floor": return mpf(int(mpmath.floor(a[0])))
            if n == "ceil": return mpf(int(mpmath.ceil(a[0])))
            if n in ("round", "lround", "llround"):
                v = a[0]; r = int(mpmath.floor(abs(v) + mpf(1) / 2)); r = r if v >= 0 else -r
                return r if n != "round" else mpf(r)
            if n in ("rint", "nearbyint"): return mpf(int(mpmath.nint(a[0])))
            if n == "copysign": return abs(a[0]) if a[1] >= 0 else -abs(a[0])
            if n == "fmod":
                if a[1] == 0: raise Nan()
                q = int(a[0] / a[1]); return a[0] - q * a[1]
            if n == "isnan" or n == "isinf": return False
            if n == "isfinite": return True
            if n == "signbit": return a[0] < 0
            if n in ("tgamma",): return mpmath.gamma(a[0])
            if n in ("lgamma",): return mpmath.loggamma(a[0]).real
            if n == "acosh" or n == "atanh": return mpmath.re(getattr(mpmath, n)(a[0]))
        except (ValueError, ZeroDivisionError, OverflowError): raise Nan()
        raise Und("function " + n)
    def app(s, x):
        a = [s(y) for y in x.a]
        if UNDEFV in a: return UNDEFV
        if x.d == "NaN": raise Nan()
        if x.d == "inf": return mpf(10) ** 400
        if x.d == "strlen": return len(a[0])
        if str(x.d).startswith("bit"):
            op = x.d[3:]; u = int(a[0])
            if op == "~": return ~u
            v = int(a[1]); return {"&": u & v, "|": u | v, "^": u ^ v, "<<": u << min(v, 200), ">>": u >> v}[op]
        h = lambda *k: int.from_bytes(hashlib.md5(repr(k).encode()).digest()[:6], "big")
        if x.ty == "s": return "%s(%s)" % (x.d, ",".join(_strs(v) for v in a))
        if x.ty in t.INTS: return h(x.d, [_strs(v) for v in a]) % 7
        if x.ty == "b": return bool(h(x.d, [_strs(v) for v in a]) & 1)
        signed = str(x.d).endswith((".re", ".im"))
        key = (x.d, tuple(_strs(v) for v in a))
        if key in s.over: s.calls.setdefault(key, s.over[key]); return s.over[key]
        r = s.app1(x, a, h, signed); s.calls.setdefault(key, r); return r
    def app1(s, x, a, h, signed):
        if signed and h(x.d.split(":")[0], [_strs(v) for v in a]) % 9 == 0: return mpf(0)
        co = _APP.get((x.d, len(a)))
        if co is None: co = _APP[(x.d, len(a))] = (h(x.d) % 1000 / 1000, [(1 + h(x.d, i) % 500 / 1000, h(x.d, i, 1) % 1000 / 1000) for i in range(len(a))])
        r = co[0]
        for i, v in enumerate(a):
            if isinstance(v, str): r += h(x.d, i, v) % 1000 / 1000
            else:
                v = float(v) if abs(v) < 10 ** 15 else float(mpmath.log(abs(v)))
                r += math.sin(v * co[1][i][0] + co[1][i][1])
        return mpf(r - 0.5) if signed else mpf(2 + len(a) + r)
    def mu(s, x):
        _, lv, ups, proj, cond = x.d
        where = t.MUWHERE.get(x.id, "?")
        key = (tuple(y.id for y in x.a), lv, ups, cond)
        r = s.mumemo.get(key)
        if r is None:
            cur = []
            for y in x.a:
                try: cur.append(s(y))
                except Nan: cur.append(Nan)
            n = 0; bound = frozenset(l.id for l in lv)
            while True:
                e2 = Ev(_Chain(s.env, {l.d: v for l, v in zip(lv, cur)}), s.muiter, s, bound)
                c = e2(cond)
                if c is UNDEFV: cur = [UNDEFV] * len(cur); break
                if not c: break
                n += 1
                if n > s.muiter: raise Und("loop at %s does not settle within %d steps" % (where, s.muiter))
                nx = []
                for u in ups:
                    try: nx.append(e2(u))
                    except Nan: nx.append(Nan)
                cur = nx
            r = s.mumemo[key] = cur
        v = r[proj]
        if v is Nan: raise Nan()
        return v

_APP = {}
class _Chain:
    def __init__(s, a, b): s.a, s.b = a, b
    def __contains__(s, k): return k in s.b or k in s.a
    def __getitem__(s, k):
        v = s.b[k] if k in s.b else s.a[k]
        if v is Nan: raise Nan()
        return v
class _Lit:
    def __init__(s, d, ev): s.d, s.ev = d, ev
    def set(s, i, v): d = dict(s.d); d[int(i)] = v; return _Lit(d, s.ev)
    def get(s, i):
        v = s.d.get(int(i), UNDEFV)
        return s.ev(v) if isinstance(v, T) else v
def _strs(v):
    if isinstance(v, str): return v
    if isinstance(v, int): return str(v)
    try: return "%.12g" % float(v)
    except OverflowError: return mpmath.nstr(v, 12)

def concretise(v, ev):
    """structured value under an assignment"""
    if isinstance(v, T):
        try: r = ev(v)
        except Nan: return Nan
        return r
    if isinstance(v, Cx): return ("cx", concretise(v.re, ev), concretise(v.im, ev))
    if isinstance(v, Seq): return ["seq"] + [concretise(x, ev) for x in v.x]
    if isinstance(v, Arr): return ["seq"] + [concretise(sel(v.re, t.num(i, "i")), ev) if v.im is None else ("cx", concretise(sel(v.re, t.num(i, "i")), ev), concretise(sel(v.im, t.num(i, "i")), ev)) for i in range(v.n)]
    if isinstance(v, Obj): return {"": v.name, **{k: concretise(x, ev) for k, x in v.f.items()}}
    if isinstance(v, Mat): return ["mat", v.r, v.c] + [concretise(x, ev) for r in v.x for x in r]
    if isinstance(v, Opt):
        h = concretise(v.has, ev)
        return ("opt", h, concretise(v.v, ev) if h is True else None)
    if isinstance(v, Gate):
        c = concretise(v.c, ev)
        if c is Nan or c is UNDEFV: return UNDEFV
        return concretise(v.a if c else v.b, ev)
    if isinstance(v, MapV): return ("map", sorted([(concretise(k, ev), concretise(w, ev)) for k, w in v.x], key=lambda p: repr(p[0])))
    if isinstance(v, Var): return ("var", v.tag, concretise(v.v, ev))
    if v is None: return None
    raise Und("value of kind " + type(v).__name__)

TOL = mpf(10) ** -9
def close(a, b, scale=0):
    if isinstance(a, (int, mpf)) and isinstance(b, (int, mpf)) and not isinstance(a, bool) and not isinstance(b, bool):
        if isinstance(a, int) and isinstance(b, int): return a == b
        d = abs(a - b); return d <= TOL * max(abs(a), abs(b), scale) + mpf(10) ** (-60 if mp.dps > 100 else -45)
    return a == b
def differ(a, b, path=""):
    """first place where the implementation's value a differs from the specification's b; None if none"""
    if b is UNDEFV or b is Nan: return None
    if a is Nan: return (path, "undefined (division by zero or argument outside the function's domain)", b)
    if a is UNDEFV: return (path, "an indeterminate value", b)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("cx",) and b[:1] == ("cx",):
        if Nan in b or UNDEFV in b: return None
        sc = max(abs(b[1]), abs(b[2])) if Nan not in a and UNDEFV not in a else 0
        for i, n in ((1, ".real"), (2, ".imag")):
            if a[i] is Nan or a[i] is UNDEFV or not close(a[i], b[i], sc): return (path + n, a[i], b[i])
        return None
    if isinstance(a, tuple) and a[:1] == ("cx",) and isinstance(b, (int, mpf)): return differ(a, ("cx", b, mpf(0)), path)
    if isinstance(b, tuple) and b[:1] == ("cx",) and isinstance(a, (int, mpf)): return differ(("cx", a, mpf(0)), b, path)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return (path + ".size()", len(a) - 1, len(b) - 1)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "%s[%d]" % (path, i - 1))
            if d: return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "%s" % path)
            if d: return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b): return (path, "object with %d fields" % len(a), "object with %d fields" % len(b))
        ka, kb = [k for k in a if k], [k for k in b if k]
        if set(ka) == set(kb): ka = kb
        for x, y in zip(ka, kb):
            d = differ(a[x], b[y], path + "." + y)
            if d: return d
        return None
    if isinstance(a, bool) or isinstance(b, bool): return None if bool(a) == bool(b) and type(a) in (bool, int) else (path, a, b)
    if type(a) is type(b) or isinstance(a, (int, mpf)) and isinstance(b, (int, mpf)): return None if close(a, b) else (path, a, b)
    return (path, a, b)

def fmt(v):
    if isinstance(v, mpf): return mpmath.nstr(v, 15)
    if v is Nan: return "undefined"
    if isinstance(v, (list, tuple)): return "[" + ", ".join(fmt(x) for x in (v[1:] if v and v[0] in ("seq", "cx") else v)) + "]"
    if isinstance(v, dict): return "{" + ", ".join("%s=%s" % (k, fmt(x)) for k, x in v.items() if k) + "}"
    return str(v)

# ------------------------------------------------------------------ canonical rational form
class NF:
    """quotient of polynomials over atoms; None when the canonical form gets too large"""
    LIM = 4000; deadline = float("inf")
    def __init__(s): s.memo = {}; s.atoms = {}
    def atom(s, key):
        i = s.atoms.get(key)
        if i is None: i = s.atoms[key] = len(s.atoms)
        return ({((i, 1),): Fr(1)}, {(): Fr(1)})
    @staticmethod
    def pmul(a, b):
        r = {}
        if len(a) * len(b) > NF.LIM * 4 or time.time() > NF.deadline: raise OverflowError
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = dict(m1)
                for v, e in m2: d[v] = d.get(v, 0) + e
                m = tuple(sorted(d.items())); c = r.get(m, 0) + c1 * c2
                if c: r[m] = c
                else: r.pop(m, None)
        if len(r) > NF.LIM: raise OverflowError
        return r
    @staticmethod
    def padd(a, b):
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + c
            if x: r[m] = x
            else: r.pop(m, None)
        return r
    def key(s, x):
        n, d = s.nf(x)
        return (tuple(sorted(n.items())), tuple(sorted(d.items())))
    def norm(s, n, d):
        if not n: return ({}, {(): Fr(1)})
        if len(d) == 1:
            (m, c), = d.items()
            if not m: return ({k: v / c for k, v in n.items()}, {(): Fr(1)})
        lead = d[min(d)]
        return ({k: v / lead for k, v in n.items()}, {k: v / lead for k, v in d.items()})
    def nf(s, x):
        r = s.memo.get(x.id)
        if r is None:
            if time.time() > NF.deadline: raise OverflowError
            r = s.memo[x.id] = s.norm(*s.go(x))
        return r
    def go(s, x):
        one = {(): Fr(1)}
        if x.op == "num": return ({(): x.d} if x.d else {}, one)
        if x.op == "add":
            n, d = {}, one
            for y in x.a:
                a, b = s.nf(y)
                if b == d: n = s.padd(n, a)
                else: n = s.padd(s.pmul(n, b), s.pmul(a, d)); d = s.pmul(d, b)
            return n, d
        if x.op == "mul":
            n, d = one, one
            for y in x.a:
                a, b = s.nf(y); n = s.pmul(n, a); d = s.pmul(d, b)
            return n, d
        if x.op == "pow" and x.d.denominator == 1 and abs(x.d) <= 40:
            a, b = s.nf(x.a[0])
            if x.d < 0: a, b = b, a
            n, d = one, one
            for _ in range(abs(int(x.d))): n = s.pmul(n, a); d = s.pmul(d, b)
            if not d: raise OverflowError
            return n, d
        if x.op == "real": return s.nf(x.a[0])
        if x.op in ("sym", "undef", "str", "bool", "opaque"): return s.atom(("leaf", x.id))
        if x.op == "mu": return s.atom(("leaf", x.id))
        return s.atom((x.op, x.d, tuple(s.key(y) for y in x.a)))
    def equal(s, a, b):
        """equality of the two graphs under every outcome of their gates (Shannon expansion over the gate conditions)"""
        s.budget = 400; NF.deadline = time.time() + 20
        try: return s.split(a, b, 8)
        finally: NF.deadline = float("inf")
    def split(s, a, b, depth):
        if s.equal1(a, b): return True
        if depth == 0 or s.budget <= 0 or time.time() > NF.deadline: return False
        s.budget -= 1
        at = gate_atom(a) or gate_atom(b)
        if at is None: return False
        for v in (True, False):
            m = {at: t.mk_bool(v)}
            a2, b2 = rewrite(a, m), rewrite(b, m)
            if v and at.d == "==":
                l, r = at.a
                if l.op == "num": l, r = r, l
                if l.op == "sym" and r.op == "num": a2, b2 = t.subst(a2, {l: r}), t.subst(b2, {l: r})
            if not s.split(a2, b2, depth - 1): return False
        return True
    def equal1(s, a, b):
        if a is b: return True
        try:
            an, ad = s.nf(a); bn, bd = s.nf(b)
            if ad == bd: return an == bn
            return s.pmul(an, bd) == s.pmul(bn, ad)
        except (OverflowError, RecursionError): return False

def gate_atom(x):
    """a comparison that gates part of the term and has no gate inside itself"""
    seen = set(); stack = [x]; found = None
    while stack:
        y = stack.pop()
        if y.id in seen or y.op == "mu": continue
        seen.add(y.id)
        if y.op == "ite":
            for z in t.walk(y.a[0]):
                if z.op == "cmp" and not any(w.op in ("ite", "mu") for w in t.walk(z)):
                    if found is None or z.id < found.id: found = z
        stack.extend(y.a)
    if found is None and x.ty == "b":
        for z in t.walk(x):
            if z.op == "cmp" and not any(w.op in ("ite", "mu") for w in t.walk(z)) and (found is None or z.id < found.id): found = z
    return found
def rewrite(x, m):
    memo = {}
    def go(x):
        if x in m: return m[x]
        r = memo.get(x.id)
        if r is not None: return r
        if not x.a or x.op == "mu": r = x
        else:
            a = [go(y) for y in x.a]
            if all(p is q for p, q in zip(a, x.a)): r = x
            elif x.op == "add": r = t.add(*a)
            elif x.op == "mul": r = t.mul(*a)
            elif x.op == "pow": r = t.power(a[0], x.d)
            elif x.op == "cmp": r = t.cmp(x.d, *a)
            elif x.op == "not": r = t.lnot(a[0])
            elif x.op == "and": r = t.land(*a)
            elif x.op == "ite": r = t.ite(*a)
            elif x.op == "idiv": r = t.idiv(*a)
            elif x.op == "mod": r = t.mod(*a)
            elif x.op == "trunc": r = t.trunc(a[0], x.ty)
            elif x.op == "wrap": r = t.wrap(a[0], *x.d)
            elif x.op == "fn": r = t.fn(x.d, *a, ty=x.ty)
            else: r = t.mk(x.op, a, x.d, x.ty)
        memo[x.id] = r
        return r
    return go(x)

def equal_nf(a, b, nf):
    if a is b or same(a, b): return True
    if isinstance(a, T) and isinstance(b, T): return nf.equal(a, b)
    if isinstance(a, (Cx, T)) and isinstance(b, (Cx, T)):
        x, y = cx(a), cx(b); return nf.equal(x.re, y.re) and nf.equal(x.im, y.im)
    if isinstance(a, Seq) and isinstance(b, Seq): return len(a.x) == len(b.x) and all(equal_nf(p, q, nf) for p, q in zip(a.x, b.x))
    if isinstance(a, Obj) and isinstance(b, Obj): return len(a.f) == len(b.f) and all(equal_nf(p, q, nf) for p, q in zip(a.f.values(), b.f.values()))
    if isinstance(a, Mat) and isinstance(b, Mat): return (a.r, a.c) == (b.r, b.c) and all(equal_nf(p, q, nf) for u, v in zip(a.x, b.x) for p, q in zip(u, v))
    if isinstance(a, Gate) and isinstance(b, Gate): return nf.equal(a.c, b.c) and equal_nf(a.a, b.a, nf) and equal_nf(a.b, b.b, nf)
    if isinstance(a, Opt) and isinstance(b, Opt): return nf.equal(a.has, b.has) and (a.v is None and b.v is None or a.v is not None and b.v is not None and equal_nf(a.v, b.v, nf))
    return False

def find_opaque(v):
    ls = []
    try: leaves(v, ls)
    except Exception: return None
    seen = set()
    for l in ls:
        for x in t.walk(l, seen):
            if x.op == "opaque": return x.d
    return None
