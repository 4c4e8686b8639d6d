"""Structured values of the gated value graph (scalars are terms)."""
import terms as t
from terms import T, num, ite, lnot, land, opaque, UNDEF

class Cx:
    __slots__ = ("re", "im")
    def __init__(s, re, im): s.re, s.im = re, im
    def __repr__(s): return "cx(%r,%r)" % (s.re, s.im)
class Obj:
    """class instance; cls is an IR class record (or a builtin name), fields maps names to values"""
    __slots__ = ("cls", "f", "name")
    def __init__(s, cls, f, name=None): s.cls, s.f = cls, f; s.name = name or (cls["q"] if isinstance(cls, dict) else cls)
    def set(s, k, v): g = dict(s.f); g[k] = v; return Obj(s.cls, g, s.name)
    def __repr__(s): return "%s{%s}" % (s.name.split("::")[-1], ", ".join("%s:%r" % i for i in s.f.items()))
class Seq:
    """sequence with a known number of elements (vector, array, tuple, pair, view)"""
    __slots__ = ("x", "kind")
    def __init__(s, x, kind="vector"): s.x, s.kind = tuple(x), kind
    def __repr__(s): return "[%s]" % ", ".join(map(repr, s.x))
class Arr:
    """array leaf of a loop: select/store terms"""
    __slots__ = ("n", "re", "im", "ety")
    def __init__(s, n, re, im=None, ety="r"): s.n, s.re, s.im, s.ety = n, re, im, ety
    def __repr__(s): return "arr"
class Mat:
    __slots__ = ("r", "c", "x", "diag")
    def __init__(s, r, c, x): s.r, s.c, s.x = r, c, tuple(tuple(q) for q in x)
    def __repr__(s): return "mat%dx%d" % (s.r, s.c)
class MapV:
    """associative container: ordered list of (key, value); keys are terms"""
    __slots__ = ("x", "base")
    def __init__(s, x, base=None): s.x, s.base = tuple(x), base
    def __repr__(s): return "map%r" % (s.x,)
class Opt:
    __slots__ = ("has", "v")
    def __init__(s, has, v): s.has, s.v = has, v
    def __repr__(s): return "opt(%r,%r)" % (s.has, s.v)
class Var:
    """std::variant holding a known alternative"""
    __slots__ = ("tag", "v")
    def __init__(s, tag, v): s.tag, s.v = tag, v
class Closure:
    __slots__ = ("lam", "cap", "this", "tenv", "fr")
    def __init__(s, lam, cap, this, tenv): s.lam, s.cap, s.this, s.tenv = lam, cap, this, tenv
    def __repr__(s): return "lambda@%s" % s.lam["l"]
class Fn:
    """reference to a (set of) function(s) or builtin"""
    __slots__ = ("name", "cands", "ta", "extra")
    def __init__(s, name, cands=(), ta=None, extra=None): s.name, s.cands, s.ta, s.extra = name, list(cands), ta, extra
    def __repr__(s): return "fn:" + s.name
class Bound:
    __slots__ = ("obj", "name", "ta", "node")
    def __init__(s, obj, name, ta=None, node=None): s.obj, s.name, s.ta, s.node = obj, name, ta, node
class Loc:
    __slots__ = ("c", "p")
    def __init__(s, c, p=()): s.c, s.p = c, p
    def __add__(s, step): return Loc(s.c, s.p + (step,))
    def __eq__(s, o): return isinstance(o, Loc) and s.c == o.c and s.p == o.p
    def __hash__(s): return hash((s.c, s.p))
    def __repr__(s): return "@%s%s" % (s.c, "".join("." + str(x[1]) for x in s.p))
class Ptr:
    """pointer: a location; idx is an element offset when it points into a sequence"""
    __slots__ = ("loc", "idx")
    def __init__(s, loc, idx=None): s.loc, s.idx = loc, idx
    def __repr__(s): return "ptr(%r,%r)" % (s.loc, s.idx)
class It:
    """iterator into a sequence location (or a temporary sequence value)"""
    __slots__ = ("loc", "i", "rev")
    def __init__(s, loc, i, rev=False): s.loc, s.i, s.rev = loc, i, rev
    def __repr__(s): return "it(%r,%r%s)" % (s.loc, s.i, ",rev" if s.rev else "")
class View:
    """partially applied range adaptor, waiting for its range; ref: the closure of a transform yielding references"""
    __slots__ = ("f", "ref")
    def __init__(s, f, ref=None): s.f, s.ref = f, ref
class Gate:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
    def __repr__(s): return "gate(%r,%r,%r)" % (s.c, s.a, s.b)
class TypeV:
    """a type used as a value (tag arguments)"""
    __slots__ = ("n",)
    def __init__(s, n): s.n = n

def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, T): return False
    if isinstance(a, Cx): return a.re is b.re and a.im is b.im
    if isinstance(a, Seq): return len(a.x) == len(b.x) and all(same(p, q) for p, q in zip(a.x, b.x))
    if isinstance(a, Obj): return a.name == b.name and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Mat): return (a.r, a.c) == (b.r, b.c) and all(same(p, q) for u, v in zip(a.x, b.x) for p, q in zip(u, v))
    if isinstance(a, Arr): return a.re is b.re and a.im is b.im
    if isinstance(a, (Ptr,)): return a.loc == b.loc and (a.idx is b.idx)
    if isinstance(a, It): return same_loc(a.loc, b.loc) and a.i is b.i and a.rev == b.rev
    if isinstance(a, Opt): return a.has is b.has and same(a.v, b.v)
    if isinstance(a, MapV): return len(a.x) == len(b.x) and a.base is b.base and all(same(p[0], q[0]) and same(p[1], q[1]) for p, q in zip(a.x, b.x))
    if isinstance(a, Gate): return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Closure): return a.lam is b.lam and a.cap.keys() == b.cap.keys() and all(a.cap[k] == b.cap[k] for k in a.cap)
    if isinstance(a, Var): return a.tag == b.tag and same(a.v, b.v)
    if isinstance(a, TypeV): return a.n == b.n
    if isinstance(a, Fn): return a.name == b.name
    return False
def same_loc(a, b): return a == b if isinstance(a, Loc) else same(a, b)

def merge(c, a, b):
    """gated join of two values"""
    if c is t.TRUE: return a
    if c is t.FALSE: return b
    if a is b or same(a, b): return a
    if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        if isinstance(a, (Cx, T)) and isinstance(b, (Cx, T)):
            x, y = cx(a), cx(b); return Cx(ite(c, x.re, y.re), ite(c, x.im, y.im))
    if type(a) is type(b):
        if isinstance(a, Seq) and len(a.x) == len(b.x): return Seq([merge(c, p, q) for p, q in zip(a.x, b.x)], a.kind)
        if isinstance(a, Obj) and a.name == b.name and a.f.keys() == b.f.keys(): return Obj(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f}, a.name)
        if isinstance(a, Mat) and (a.r, a.c) == (b.r, b.c): return Mat(a.r, a.c, [[merge(c, p, q) for p, q in zip(u, v)] for u, v in zip(a.x, b.x)])
        if isinstance(a, Arr) and a.n == b.n and (a.im is None) == (b.im is None): return Arr(a.n, ite(c, a.re, b.re), None if a.im is None else ite(c, a.im, b.im), a.ety)
        if isinstance(a, It) and same_loc(a.loc, b.loc) and a.rev == b.rev: return It(a.loc, ite(c, a.i, b.i), a.rev)
        if isinstance(a, Ptr) and a.loc == b.loc and a.idx is not None and b.idx is not None: return Ptr(a.loc, ite(c, a.idx, b.idx))
        if isinstance(a, Opt):
            v = a.v if b.v is None or b.has is t.FALSE else b.v if a.v is None or a.has is t.FALSE else merge(c, a.v, b.v)
            return Opt(ite(c, a.has, b.has), v)
        if isinstance(a, MapV) and a.base is b.base and len(a.x) == len(b.x) and all(same(p[0], q[0]) for p, q in zip(a.x, b.x)):
            return MapV([(p[0], merge(c, p[1], q[1])) for p, q in zip(a.x, b.x)], a.base)
        if isinstance(a, MapV) and a.base is b.base and len(a.x) == len(b.x):
            m = [next((q for q in b.x if same(p[0], q[0])), None) for p in a.x]
            if all(m): return MapV([(p[0], merge(c, p[1], q[1])) for p, q in zip(a.x, m)], a.base)
    if isinstance(a, Seq) and isinstance(b, Arr): return merge(c, to_arr(a), b)
    if isinstance(a, Arr) and isinstance(b, Seq): return merge(c, a, to_arr(b))
    if a is UNDEF and not isinstance(b, T): return Gate(c, a, b)
    if isinstance(b, Gate) and b.c is c: return merge(c, a, b.b)
    if isinstance(a, Gate) and a.c is c: return merge(c, a.a, b)
    return Gate(c, a, b)

def lift(f, v, *more):
    """apply f through gates"""
    if isinstance(v, Gate): return merge(v.c, lift(f, v.a, *more), lift(f, v.b, *more))
    return f(v, *more)

def cx(v):
    if isinstance(v, Cx): return v
    return Cx(v, num(0))

def sel(a, i):
    while True:
        if a.op == "lit" and i.op == "num":
            k = int(i.d); return a.a[k] if 0 <= k < len(a.a) else UNDEF
        if a.op == "sto":
            if a.a[1] is i: return a.a[2]
            if a.a[1].op == "num" and i.op == "num": a = a.a[0]; continue
            d = t.sub(a.a[1], i)
            if d.op == "num" and d.d != 0: a = a.a[0]; continue
        if a.op == "ite" and (a.a[1].op in ("sto", "lit") or a.a[2].op in ("sto", "lit")):
            return ite(a.a[0], sel(a.a[1], i), sel(a.a[2], i))
        return t.mk("sel", (a, i), None, "r")
def sto(a, i, v):
    if a.op == "lit" and i.op == "num" and 0 <= int(i.d) < len(a.a):
        x = list(a.a); x[int(i.d)] = v; return t.mk("lit", x, None, "arr")
    if a.op == "sto" and a.a[1] is i: a = a.a[0]
    return t.mk("sto", (a, i, v), None, "arr")
def to_arr(s):
    if isinstance(s, Arr): return s
    if not s.x: return None
    if any(isinstance(x, Cx) for x in s.x):
        if not all(isinstance(x, (Cx, T)) for x in s.x): return None
        cs = [x if isinstance(x, Cx) else (Cx(UNDEF, UNDEF) if x is UNDEF else cx(x)) for x in s.x]
        return Arr(len(s.x), t.mk("lit", [x.re for x in cs], None, "arr"), t.mk("lit", [x.im for x in cs], None, "arr"), "c")
    if not all(isinstance(x, T) for x in s.x): return None
    return Arr(len(s.x), t.mk("lit", s.x, None, "arr"), None, next((x.ty for x in s.x if x.ty), "r"))

def leaves(v, out):
    """flatten into terms; returns False when the value has a part that is not a term"""
    if isinstance(v, T): out.append(v); return True
    if isinstance(v, Cx): out += [v.re, v.im]; return True
    if isinstance(v, Seq): return all([leaves(x, out) for x in v.x])
    if isinstance(v, Obj): return all([leaves(v.f[k], out) for k in sorted(v.f)])
    if isinstance(v, Mat): return all([leaves(x, out) for r in v.x for x in r])
    if isinstance(v, Arr):
        out.append(v.re)
        if v.im is not None: out.append(v.im)
        return True
    if isinstance(v, Opt): out.append(v.has); return v.v is None or leaves(v.v, out)
    if isinstance(v, MapV):
        r = True
        for k, w in v.x: r = leaves(k, out) and leaves(w, out) and r
        return r and v.base is None
    if isinstance(v, Gate): out.append(v.c); return leaves(v.a, out) and leaves(v.b, out)
    if isinstance(v, It): out.append(v.i); return True
    if isinstance(v, Ptr): out.append(v.idx if v.idx is not None else num(0, "i")); return True
    if v is None: return True
    return False
def rebuild(v, it):
    """inverse of leaves for the same shape"""
    if isinstance(v, T): return next(it)
    if isinstance(v, Cx): return Cx(next(it), next(it))
    if isinstance(v, Seq): return Seq([rebuild(x, it) for x in v.x], v.kind)
    if isinstance(v, Obj): return Obj(v.cls, {k: rebuild(v.f[k], it) for k in sorted(v.f)}, v.name)
    if isinstance(v, Mat): return Mat(v.r, v.c, [[rebuild(x, it) for x in r] for r in v.x])
    if isinstance(v, Arr): return Arr(v.n, next(it), None if v.im is None else next(it), v.ety)
    if isinstance(v, Opt): return Opt(next(it), None if v.v is None else rebuild(v.v, it))
    if isinstance(v, It): return It(v.loc, next(it), v.rev)
    if isinstance(v, Ptr): x = next(it); return Ptr(v.loc, None if v.idx is None else x)
    if isinstance(v, MapV): return MapV([(rebuild(k, it), rebuild(w, it)) for k, w in v.x], v.base)
    if v is None: return None
    raise ValueError("shape")
def shape(v):
    if isinstance(v, T): return "t"
    if isinstance(v, Cx): return "c"
    if isinstance(v, Seq): return ("s", tuple(shape(x) for x in v.x))
    if isinstance(v, Obj): return ("o", v.name, tuple((k, shape(v.f[k])) for k in sorted(v.f)))
    if isinstance(v, Arr): return ("a", v.n, v.im is None)
    if isinstance(v, Mat): return ("m", v.r, v.c)
    if isinstance(v, It): return ("it", repr(v.loc), v.rev)
    if isinstance(v, Ptr): return ("p", repr(v.loc), v.idx is None)
    if isinstance(v, Opt): return ("opt", shape(v.v))
    if isinstance(v, MapV): return ("map", tuple((shape(k), shape(w)) for k, w in v.x))
    if v is None: return None
    return ("?", type(v).__name__)
