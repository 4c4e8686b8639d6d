"""Hash-consed value-graph terms.

A term is a node of a gated value graph: numbers, symbols (free inputs), arithmetic, comparisons, gates
(`ite`), uninterpreted applications, comprehensions/sums/folds over bounded index ranges and `mu` nodes
for loops whose trip count is not an affine counter.  Nothing here executes program code."""
from fractions import Fraction as Fr
import itertools

class T:
    __slots__ = ("op", "a", "d", "ty", "id", "fv", "__weakref__")
    def __repr__(s): return show(s)

_table = {}
_ctr = itertools.count(1)

def mk(op, a=(), d=None, ty=None):
    key = (op, tuple(x.id for x in a), d, ty)
    t = _table.get(key)
    if t is None:
        t = T(); t.op = op; t.a = tuple(a); t.d = d; t.ty = ty; t.id = next(_ctr); t.fv = None
        _table[key] = t
    return t

# ---- constructors -------------------------------------------------------------------------
def num(v, ty="r"):
    if isinstance(v, bool): return TRUE if v else FALSE
    return mk("num", (), Fr(v), ty)
def sym(name, ty="r"): return mk("sym", (), name, ty)
TRUE = mk("bool", (), True, "b"); FALSE = mk("bool", (), False, "b")
I = mk("I", (), None, "c")
_fresh = itertools.count(1)
def fresh(prefix, ty="r"): return sym("%s#%d" % (prefix, next(_fresh)), ty)
def opaque(reason): return mk("opaque", (), "%s" % reason, None)

def isnum(t): return isinstance(t, T) and t.op == "num"
INTS = ("i", "u")
def isint(ty): return ty in INTS

def _jty(a, b):
    if a == "c" or b == "c": return "c"
    if a in INTS and b in INTS: return "u" if "u" in (a, b) else "i"
    if a == "b" and b == "b": return "i"
    if a in INTS + ("b",) and b in INTS + ("b",): return a if a in INTS else b
    if a is None and b is None: return None
    return "r"

def add(*xs):
    flat, c, ty = [], Fr(0), None
    tys = [x.ty for x in xs]
    ty = tys[0]
    for u in tys[1:]: ty = _jty(ty, u)
    for x in xs:
        if x.op == "add": flat += list(x.a)
        else: flat.append(x)
    out = []
    for x in flat:
        if x.op == "num": c += x.d
        elif x.op == "bool": c += 1 if x.d else 0
        else: out.append(x)
    if len(out) > 1:
        seen = {}; dup = False
        for x in out:
            k, q = (x, Fr(1))
            if x.op == "mul":
                nums = [y for y in x.a if y.op == "num"]
                if nums:
                    q = nums[0].d; rest = [y for y in x.a if y.op != "num"]
                    k = mk("mul", rest, None, x.ty) if len(rest) > 1 else rest[0]
            if k.id in seen: seen[k.id][1] += q; dup = True
            else: seen[k.id] = [k, q, x]
        if dup:
            out = [x if (k if q == 1 else None) is x or _coef(x) == q else mul(num(q, k.ty if k.ty in INTS else "r"), k) for k, q, x in seen.values() if q != 0]
    if not out: return num(c, ty if ty in INTS else "r")
    if c != 0: out.append(num(c, ty if ty in INTS else "r"))
    if len(out) == 1: return out[0]
    return mk("add", sorted(out, key=lambda t: t.id), None, ty)

def _coef(x):
    if x.op == "mul":
        for y in x.a:
            if y.op == "num": return y.d
    return Fr(1)
def mul(*xs):
    flat, c = [], Fr(1)
    ty = xs[0].ty
    for u in xs[1:]: ty = _jty(ty, u.ty)
    for x in xs:
        if x.op == "mul": flat += list(x.a)
        else: flat.append(x)
    out = []; un = None
    for x in flat:
        if x.op == "num": c *= x.d
        elif isunit(x) or x.op == "pow" and isunit(x.a[0]): un = un or {}; b, e = (x, 1) if x.op == "sym" else (x.a[0], x.d); un[b] = un.get(b, 0) + e
        else: out.append(x)
    if un:      # units are positive: their powers combine
        for b, e in un.items():
            if e != 0: out.append(power(b, e))
    if c == 0 and not any(x.op == "opaque" for x in out): return num(0, ty if ty in INTS else "r")
    if not out: return num(c, ty if ty in INTS else "r")
    if c != 1 and len(out) == 1 and out[0].op == "add" and ty in INTS: return add(*[mul(num(c, ty), y) for y in out[0].a])
    if c != 1: out.append(num(c, ty if ty in INTS else "r"))
    if len(out) == 1: return out[0]
    return mk("mul", sorted(out, key=lambda t: t.id), None, ty)

def neg(x): return mul(num(-1, "i"), x)
def sub(x, y): return add(x, neg(y))
def isunit(x): return x.op == "sym" and isinstance(x.d, str) and x.d.startswith("unit:")
def power(x, e):
    """x to a constant rational power"""
    e = Fr(e)
    if e == 1: return x
    if e == 0: return num(1)
    if x.op == "num" and e.denominator == 1 and (x.d != 0 or e > 0): return num(x.d ** int(e), x.ty if e > 0 else "r")
    if x.op == "num" and x.d == 0 and e > 0: return num(0, "r")
    if x.op == "pow" and e.denominator == 1: return power(x.a[0], x.d * e)
    if x.op == "mul" and any(isunit(y) or y.op == "pow" and isunit(y.a[0]) for y in x.a):
        us = [y for y in x.a if isunit(y) or y.op == "pow" and isunit(y.a[0])]; rest = [y for y in x.a if not (isunit(y) or y.op == "pow" and isunit(y.a[0]))]
        us = [power(y, e) if y.op == "sym" else power(y.a[0], y.d * e) for y in us]
        return mul(*us, power(mul(*rest), e)) if rest else (mul(*us) if len(us) > 1 else us[0])
    ty = x.ty if x.ty == "c" or (e > 0 and e.denominator == 1) else ("r" if x.ty != "c" else "c")
    return mk("pow", (x,), e, ty)
def div(x, y):
    r = mul(x, power(y, -1)) if not (x.op == "num" and x.d == 1) else power(y, -1)
    if r.ty in INTS and r.op == "num": return num(r.d, "r")
    return r
def fn(name, *args, ty="r"):
    if name == "abs" and args[0].op == "num": return num(abs(args[0].d), args[0].ty)
    return mk("fn", args, name, ty)
def app(name, *args, ty=None): return mk("app", args, name, ty)
def idiv(x, y):
    if x.op == "num" and y.op == "num" and y.d != 0:
        q = abs(x.d) // abs(y.d); return num(q if (x.d >= 0) == (y.d > 0) else -q, _jty(x.ty, y.ty))
    return mk("idiv", (x, y), None, _jty(x.ty, y.ty))
def mod(x, y):
    if x.op == "num" and y.op == "num" and y.d != 0:
        q = idiv(x, y).d; return num(x.d - q * y.d, _jty(x.ty, y.ty))
    return mk("mod", (x, y), None, _jty(x.ty, y.ty))
def trunc(x, ty="i"):
    if x.ty in INTS: return x
    if x.op == "num":
        n = abs(x.d).__floor__(); return num(n if x.d >= 0 else -n, ty)
    return mk("trunc", (x,), None, ty)
def wrap(x, bits, signed):
    """reduction modulo 2^bits; folded for constants"""
    if x.op == "num" and x.d.denominator == 1:
        v = int(x.d) % (1 << bits)
        if signed and v >= 1 << (bits - 1): v -= 1 << bits
        return num(v, "i" if signed else "u")
    if x.op == "wrap" and x.d[0] >= bits: return wrap(x.a[0], bits, signed)
    return mk("wrap", (x,), (bits, signed), "i" if signed else "u")

def cmp(op, x, y):
    if op == ">": return cmp("<", y, x)
    if op == ">=": return cmp("<=", y, x)
    if op == "!=": return lnot(cmp("==", x, y))
    if x.op in ("num", "bool") and y.op in ("num", "bool"):
        a, b = Fr(x.d), Fr(y.d)
        return mk_bool({"<": a < b, "<=": a <= b, "==": a == b}[op])
    if x is y and x.op != "opaque": return mk_bool(op != "<")
    if x.op == "str" and y.op == "str" and op == "==": return mk_bool(x.d == y.d)
    if op == "==":
        # comparing a gate with a constant: push the comparison in
        for u, v in ((x, y), (y, x)):
            if u.op == "ite" and v.op in ("num", "bool", "str"):
                return ite(u.a[0], cmp("==", u.a[1], v), cmp("==", u.a[2], v))
        if x.id > y.id: x, y = y, x
    return mk("cmp", (x, y), op, "b")
def mk_bool(b): return TRUE if b else FALSE
def string(s): return mk("str", (), s, "s")
def lnot(x):
    if x.op == "bool": return mk_bool(not x.d)
    if x.op == "not": return x.a[0]
    return mk("not", (x,), None, "b")
def land(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in (x.a if x.op == "and" else (x,)):
            if y not in out: out.append(y)
    for y in out:
        if lnot(y) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", sorted(out, key=lambda t: t.id), None, "b")
def lor(*xs): return lnot(land(*[lnot(x) for x in xs]))
def ite(c, x, y):
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    if c.op == "not": return ite(c.a[0], y, x)
    if x is TRUE and y is FALSE: return c
    if x is FALSE and y is TRUE: return lnot(c)
    if x.ty == "b" and y.ty == "b":
        if x is TRUE: return lor(c, y)
        if x is FALSE: return land(lnot(c), y)
        if y is TRUE: return lor(lnot(c), x)
        if y is FALSE: return land(c, x)
    if x.op == "ite" and x.a[0] is c: return ite(c, x.a[1], y)
    if y.op == "ite" and y.a[0] is c: return ite(c, x, y.a[2])
    ty = x.ty if x.ty == y.ty else (_jty(x.ty, y.ty) if x.ty in ("r", "c", "i", "u", "b") and y.ty in ("r", "c", "i", "u", "b") else (x.ty or y.ty))
    return mk("ite", (c, x, y), None, ty)
THROW = mk("throw", (), None, "throw")
UNDEF = mk("undef", (), None, None)

def sum_(k, n, body):
    if body.op == "num" and body.d == 0: return num(0)
    if isnum(n) and n.d <= 0: return num(0)
    return mk("sum", (n, body), k, body.ty)

# ---- traversal ----------------------------------------------------------------------------
def children(t):
    if t.op in ("fold", "mu"): return t.a + tuple(t.d[2]) + ((t.d[4],) if t.op == "mu" else ())
    return t.a
def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); yield x
        st.extend(children(x))
MUWHERE, _lev = {}, {}
def mulevel(t):
    """nesting level of the recurrences inside a term"""
    r = _lev.get(t.id)
    if r is None:
        r = max([mulevel(x) for x in children(t)], default=0) + (1 if t.op == "mu" else 0); _lev[t.id] = r
    return r
def contains(t, pred): return any(pred(x) for x in walk(t))
_fvcache = {}
def free(t):
    """ids of free symbols"""
    r = _fvcache.get(t.id)
    if r is not None: return r
    if t.op == "sym": r = frozenset((t.id,))
    elif t.op == "sum": r = free(t.a[0]) | (free(t.a[1]) - {t.d.id})
    elif t.op == "fold":
        k, leaves, ups, proj = t.d
        r = frozenset().union(*[free(x) for x in t.a]) if t.a else frozenset()
        b = frozenset().union(*[free(u) for u in ups]) - {k.id} - {l.id for l in leaves}
        r = r | b
    elif t.op == "mu":
        _, leaves, ups, proj, cond = t.d
        r = frozenset().union(*[free(x) for x in t.a]) if t.a else frozenset()
        b = frozenset().union(free(cond), *[free(u) for u in ups]) - {l.id for l in leaves}
        r = r | b
    elif t.op == "comp":   # comprehension term [body for k < n]
        r = free(t.a[0]) | (free(t.a[1]) - {t.d.id})
    else:
        r = frozenset().union(*[free(x) for x in t.a]) if t.a else frozenset()
    _fvcache[t.id] = r
    return r

def subst(t, m, memo=None):
    """capture-free because bound symbols are globally fresh"""
    if not m: return t
    memo = {} if memo is None else memo
    keys = {k.id for k in m}
    def go(x):
        if x.id in memo: return memo[x.id]
        if not (free(x) & keys): memo[x.id] = x; return x
        if x in m: r = m[x]
        elif x.op == "add": r = add(*[go(y) for y in x.a])
        elif x.op == "mul": r = mul(*[go(y) for y in x.a])
        elif x.op == "pow": r = power(go(x.a[0]), x.d)
        elif x.op == "cmp": r = cmp(x.d, go(x.a[0]), go(x.a[1]))
        elif x.op == "not": r = lnot(go(x.a[0]))
        elif x.op == "and": r = land(*[go(y) for y in x.a])
        elif x.op == "ite": r = ite(*[go(y) for y in x.a])
        elif x.op == "idiv": r = idiv(go(x.a[0]), go(x.a[1]))
        elif x.op == "mod": r = mod(go(x.a[0]), go(x.a[1]))
        elif x.op == "trunc": r = trunc(go(x.a[0]), x.ty)
        elif x.op == "wrap": r = wrap(go(x.a[0]), *x.d)
        elif x.op == "sum": r = sum_(x.d, go(x.a[0]), go(x.a[1]))
        elif x.op == "fold":
            k, leaves, ups, proj = x.d
            r = mk("fold", [go(y) for y in x.a], (k, leaves, tuple(go(u) for u in ups), proj), x.ty)
        elif x.op == "mu":
            tag, leaves, ups, proj, cond = x.d
            r = mk("mu", [go(y) for y in x.a], (tag, leaves, tuple(go(u) for u in ups), proj, go(cond)), x.ty)
            if x.id in MUWHERE: MUWHERE[r.id] = MUWHERE[x.id]
        else: r = mk(x.op, [go(y) for y in x.a], x.d, x.ty)
        memo[x.id] = r
        return r
    return go(t)

def show(t, depth=0):
    if not isinstance(t, T): return repr(t)
    if depth > 12: return "..."
    s = lambda x: show(x, depth + 1)
    o = t.op
    if o == "num":
        if t.d.denominator == 1: return str(t.d)
        f = float(t.d); return "%.12g" % f
    if o == "sym": return str(t.d).split("#")[0] if not str(t.d).startswith("$") else str(t.d)
    if o == "add": return "(" + " + ".join(map(s, t.a)) + ")"
    if o == "mul": return "*".join(map(s, t.a))
    if o == "pow": return "%s^%s" % (s(t.a[0]), t.d if t.d.denominator == 1 else "(%s)" % t.d)
    if o in ("fn", "app"): return "%s(%s)" % (t.d, ", ".join(map(s, t.a)))
    if o == "cmp": return "(%s %s %s)" % (s(t.a[0]), t.d, s(t.a[1]))
    if o == "not": return "!" + s(t.a[0])
    if o == "and": return "(" + " && ".join(map(s, t.a)) + ")"
    if o == "ite": return "(%s ? %s : %s)" % tuple(map(s, t.a))
    if o == "bool": return "true" if t.d else "false"
    if o == "sum": return "Sum[%s<%s](%s)" % (s(t.d), s(t.a[0]), s(t.a[1]))
    if o == "str": return '"%s"' % t.d
    if o == "opaque": return "<opaque:%s>" % t.d
    if o in ("fold", "mu"): return "%s[%s](%s)" % (o, ", ".join(map(s, t.d[2])), ", ".join(map(s, t.a)))
    return o + ("(" + ", ".join(map(s, t.a)) + ")" if t.a else "")
