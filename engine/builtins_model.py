"""Value-graph semantics of the external callees the library uses (C++ standard library, range-v3, Eigen,
dimwits, elementary).  Anything not listed becomes an uninterpreted application of its arguments."""
import re
from fractions import Fraction as Fr
import terms as t
from terms import T, num, sym, add, mul, sub, neg, div, power, fn, app, ite, cmp, lnot, land, lor, TRUE, FALSE, UNDEF, opaque, mk, isnum
from values import *

REALFN = {"atan", "tan", "acos", "asin", "cos", "sin", "exp", "log", "log10", "sinh", "cosh", "tanh", "atan2", "copysign", "floor", "ceil", "round", "lround", "fmod", "hypot", "cbrt", "tgamma", "lgamma", "expm1", "log1p", "erf", "erfc", "trunc", "log2", "exp2", "nearbyint", "rint", "isnan", "isinf", "isfinite", "signbit", "remainder", "asinh", "acosh", "atanh"}
TORET = {"lround": "i", "llround": "i", "isnan": "b", "isinf": "b", "isfinite": "b", "signbit": "b"}

def un(): from interp import Unsupported; return Unsupported
PREFIX = {k: Fr(10) ** e for k, e in dict(kilo=3, mega=6, giga=9, centi=-2, milli=-3, micro=-6, nano=-9, pico=-12, femto=-15).items()}
class Builtins:
    # ------------------------------------------------------------------ helpers
    def over(s, v, st, f):
        if isinstance(v, Loc): v = s.read(st, v)
        if isinstance(v, Gate): return s.evbranch(v.c, st, lambda a: s.over(v.a, a, f), lambda b: s.over(v.b, b, f))
        return f(v, st)
    def refview(s, v, st):
        """the locations a view of references ranges over"""
        n = len(s.seq(s.read(st, v.f["base"]), st).x)
        return [s.call_fn(v.f["g"], [v.f["base"] + ("i", num(i, "i"))], st, None) for i in range(n)]
    def seq(s, v, st):
        if isinstance(v, Loc): v = s.read(st, v)
        if isinstance(v, Seq): return v
        if isinstance(v, Arr): return Seq([s.get(v, ("i", num(i, "i")), st) for i in range(v.n)])
        if isinstance(v, MapV): return Seq([Seq([k, w], "pair") for k, w in v.x])
        if isinstance(v, Obj) and v.name == "refview": return Seq([s.rd(l, st) for l in s.refview(v, st)], "view")
        if isinstance(v, Obj) and v.name == "vecref": v = s.vecref_get(v, st)
        if isinstance(v, Mat) and (1 in (v.r, v.c) or v.r == 0 or v.c == 0): return Seq([x for r in v.x for x in r])
        raise un()("range over %s %s" % (type(v).__name__, str(v)[:80]))
    def real(s, v):
        if isinstance(v, T) and v.ty in t.INTS + ("b",): return s.convert(v, "f64")
        return v
    def fold_expr(s, op, xs, st, fr):
        pass
    # ------------------------------------------------------------------ free functions
    def builtin(s, f, args, st, fr, e=None):
        q = f.name; n = q.split("::")[-1] if "<" not in q else re.sub(r"<.*>", "", q).split("::")[-1]
        vals = lambda: [s.rd(a, st) for a in args]
        if q.startswith(("ranges::views::", "ranges::view::", "ranges::actions::", "ranges::action::")): return s.range_fn(q, args, st, fr, e)
        if q.startswith("njoy::Log::") or q.startswith("Log::"): vals(); return None
        if n == "resolve" and len(args) == 3:    # the residual nucleus is determined by the incident particle, the target and the reaction
            a = vals()
            return t.string("residual(%s,%s,%s)" % tuple(x.d for x in a)) if all(isinstance(x, T) and (x.op == "str" or isnum(x)) for x in a) else app("resolve", *a, ty="s")
        if n in ("move", "forward", "as_const", "ref", "cref", "identity", "move_if_noexcept"): return args[0]
        if n in ("__builtin_expect",): return args[0]
        if n in ("begin", "cbegin", "end", "cend", "rbegin", "crbegin", "rend", "crend"): return s.iter_of(args[0], n, st)
        if n in ("size", "ssize") and len(args) == 1: return s.over(args[0], st, lambda v, q: s.length(v))
        if n == "get" and (q.startswith("std::") or q == "get"): return s.b_get(f, args, st, fr, e)
        if n in ("make_tuple", "make_pair", "tie", "forward_as_tuple", "tuple"): return Seq(vals(), "tuple")
        if n == "make_optional": return Opt(TRUE, s.rd(args[0], st))
        if n in ("make_shared", "make_unique"): return s.b_make_shared(f, args, st, fr, e)
        if n == "visit": return s.b_visit(args, st, fr)
        if n == "swap" and len(args) == 2:
            a, b = s.read(st, args[0]), s.read(st, args[1]); s.write(st, args[0], b); s.write(st, args[1], a); return None
        if n == "exchange" and len(args) == 2:
            a = s.read(st, args[0]); s.write(st, args[0], s.rd(args[1], st)); return a
        if n in ("distance",):
            a = vals()
            if len(a) == 1: return s.over(a[0], st, lambda v, q: s.length(v))
            return s.over(a[0], st, lambda x, st1: s.over(a[1], st1, lambda y, st2: sub(s.itpos(y), s.itpos(x))))
        if n in ("next", "prev"):
            a = vals(); d = a[1] if len(a) > 1 else num(1, "i")
            return s.incr(a[0], d if n == "next" else neg(d), None, st)
        if n == "advance":
            v = s.read(st, args[0]); s.write(st, args[0], s.incr(v, s.rd(args[1], st), None, st)); return None
        if n in ("find_if", "find_if_not", "find", "lower_bound", "upper_bound", "sort", "stable_sort", "accumulate", "any_of", "all_of", "none_of", "for_each", "transform", "reverse", "unique", "min_element", "max_element", "copy", "fill", "iota", "count_if", "inner_product", "partial_sum", "is_sorted", "binary_search", "copy_if", "remove_if", "generate", "rotate", "equal", "count", "fill_n", "copy_n", "for_each_n"):
            return s.algorithm(n, args, st, fr, e)
        if n in ("make_iterator_range", "make_subrange", "subrange"):
            a = vals(); return s.slice(a[0], a[1], st)
        if n == "to_string": return s.over(args[0], st, lambda v, q: t.mk("tostr", (v,), None, "s") if not isnum(v) or v.ty not in t.INTS else t.string(str(int(v.d))))
        if n in ("to", "to_"): return View(lambda v, q: Seq(s.seq(v, q).x, "vector"))
        if n == "bind" or n == "function": raise un()("std::" + n)
        if n == "tuple_cat": return Seq([x for a in vals() for x in a.x], "tuple")
        if n in ("apply", "invoke"):
            if n == "apply": return s.call_fn(s.rd(args[0], st), list(s.rd(args[1], st).x), st, fr)
            return s.call_fn(s.rd(args[0], st), args[1:], st, fr)
        if n == "holds_alternative":
            v = s.rd(args[0], st)
            ta = [x for x in (f.ta or [])]
            if isinstance(v, Var) and ta: return t.mk_bool(s.tagmatch(v.tag, ta[0]))
        if n == "Ratio" : return num(1)
        if n in ("Identity", "Zero", "Ones", "Constant") and "Eigen" in q:
            a = vals()
            m = re.search(r"Matrix<[^<>]*(?:<[^<>]*>)?[^<>]*?, *(-?\d+), *(-?\d+)", q)
            if len(a) == 2: r, c = s.cint(a[0]), s.cint(a[1])
            elif len(a) == 1: r, c = s.cint(a[0]), 1
            else: r, c = int(m.group(1)), int(m.group(2))
            return Mat(r, c, [[num(1) if (n == "Identity" and i == j) or n == "Ones" else num(0) for j in range(c)] for i in range(r)])
        if n in ("min", "max") and len(args) >= 1:
            a = vals()
            if len(a) == 1: a = list(s.seq(a[0], st).x)
            if len(a) == 3 and not isinstance(a[2], T): raise un()("min/max with a comparator")
            r = a[0]
            for b in a[1:]:
                c = s.arith("<", r, b, st) if n == "max" else s.arith("<", b, r, st)
                r = merge(c, b, r)
            return r
        if n == "clamp" and len(args) == 3:
            a = vals(); return merge(s.arith("<", a[0], a[1], st), a[1], merge(s.arith("<", a[2], a[0], st), a[2], a[0]))
        if n in ("fmin", "fmax"):
            a = [s.real(v) for v in vals()]; return merge(s.arith("<", a[0], a[1], st), *( (a[1], a[0]) if n == "fmax" else (a[0], a[1]) ))
        if n == "modf":
            x = s.rd(args[0], st); p = s.rd(args[1], st)
            r = mk("real", (t.trunc(x, "i"),), None, "r") if not isnum(x) else num(t.trunc(x).d)
            l = s.deref(p, st, fr); s.write(st, l, r); return sub(x, r)
        if n in PREFIX and "dimwits" in q and len(args) == 1:
            x = vals()[0]
            if isinstance(x, T) and x.ty == "r": return mul(num(PREFIX[n]), x)
        m = s.math(n, vals(), st)
        if m is not None: return m
        if n in ("terminate", "abort", "exit", "quick_exit"): return s.e_throw({}, st, fr)
        if n == "declval": raise un()("declval")
        a = vals()
        if n in ("quiet_NaN", "signaling_NaN"): return app("NaN")
        if n in ("infinity",): return app("inf", ty="r")
        if n in ("epsilon", "min", "max", "lowest", "denorm_min"): 
            return app("limits." + q[-60:], ty="r")
        return s.uninterpreted(q, a, st, e)
    def uninterpreted(s, q, a, st, e):
        ls = []
        if not all(leaves(x, ls) if x is not None else True for x in a): raise un()("external function " + q[:60])
        s.uninterp[q] = s.uninterp.get(q, 0) + 1
        ty = base_t_(e["t"]) if e is not None and e.get("t") else "D"
        k = {"f64": "r", "i32": "i", "u32": "u", "u64": "u", "i64": "i", "b": "b"}.get(ty, "s" if "basic_string" in ty else "r")
        r = app(q, *ls, ty=k)
        if "complex<" in ty: return Cx(app(q + ".re", *ls, ty="r"), app(q + ".im", *ls, ty="r"))
        return r
    def cint(s, v):
        if isinstance(v, T) and isnum(v): return int(v.d)
        raise un()("symbolic dimension")
    def math(s, n, a, st):
        if n.startswith("__builtin_"): n = n[10:]
        if len(n) > 2 and n[-1] in "fl" and n[:-1] in REALFN | {"sqrt", "pow", "fabs"}: n = n[:-1]
        if any(isinstance(x, Gate) for x in a):
            k = [i for i, x in enumerate(a) if isinstance(x, Gate)][0]; g = a[k]
            return merge(g.c, s.math(n, a[:k] + [g.a] + a[k+1:], st), s.math(n, a[:k] + [g.b] + a[k+1:], st))
        if any(x is UNDEF for x in a) and n in REALFN | {"sqrt", "pow", "abs", "fabs"}: return UNDEF
        for x in a:
            if isinstance(x, T) and x.op == "opaque": return x
        if n in ("abs", "fabs", "labs"):
            x = a[0]
            if isinstance(x, Cx): return power(add(mul(x.re, x.re), mul(x.im, x.im)), Fr(1, 2))
            if isinstance(x, T):
                lo, hi = s.bounds(x)
                if lo is not None and lo >= 0: return x if n == "abs" or x.ty not in t.INTS else s.real(x)
                if n == "fabs": x = s.real(x)
                return fn("abs", x, ty=x.ty if x.ty in t.INTS else "r")
        if n == "sqrt":
            x = a[0]
            if isinstance(x, T): return power(s.real(x), Fr(1, 2))
            if isinstance(x, Cx): return Cx(app("csqrt.re", x.re, x.im, ty="r"), app("csqrt.im", x.re, x.im, ty="r"))
        if n == "pow":
            x, y = a
            if isinstance(y, T) and y.op == "num":
                if y.d.denominator == 1 and abs(y.d) <= 64 and isinstance(x, Cx):
                    r = Cx(num(1), num(0))
                    for _ in range(abs(int(y.d))): r = s.arith("*", r, x, st)
                    return r if y.d >= 0 else s.arith("/", num(1), r, st)
                if isinstance(x, T): return power(s.real(x), y.d)
            if isinstance(x, T) and isinstance(y, T): return fn("pow", s.real(x), s.real(y))
            return None
        if n == "norm" and isinstance(a[0], (Cx, T)):
            x = cx(a[0]); return add(mul(x.re, x.re), mul(x.im, x.im))
        if n == "conj" and isinstance(a[0], (Cx, T)): x = cx(a[0]); return Cx(x.re, neg(x.im))
        if n == "real" and isinstance(a[0], (Cx, T)): return cx(a[0]).re
        if n == "imag" and isinstance(a[0], (Cx, T)): return cx(a[0]).im
        if n == "arg" and isinstance(a[0], (Cx, T)): x = cx(a[0]); return fn("atan2", x.im, x.re)
        if n == "polar" and len(a) == 2: return Cx(mul(a[0], fn("cos", a[1])), mul(a[0], fn("sin", a[1])))
        if n == "exp" and isinstance(a[0], Cx):
            x = a[0]; m = fn("exp", x.re) if not (isnum(x.re) and x.re.d == 0) else num(1)
            return Cx(mul(m, fn("cos", x.im)), mul(m, fn("sin", x.im)))
        if n == "div" and False: return None
        if n in REALFN and all(isinstance(x, T) for x in a):
            a = [s.real(x) for x in a]
            if n in ("sin", "tan", "atan", "asin", "sinh", "tanh") and isnum(a[0]) and a[0].d == 0: return num(0)
            if n in ("cos", "exp", "cosh") and isnum(a[0]) and a[0].d == 0: return num(1)
            if n == "log" and isnum(a[0]) and a[0].d == 1: return num(0)
            if n == "floor" and isnum(a[0]): return num(a[0].d.__floor__())
            if n == "hypot" and len(a) == 2: return power(add(mul(a[0], a[0]), mul(a[1], a[1])), Fr(1, 2))
            if n == "trunc": return num(t.trunc(a[0]).d) if isnum(a[0]) else mk("real", (t.trunc(a[0], "i"),), None, "r")
            if n == "lround" and isnum(a[0]): return t.trunc(num(a[0].d + (Fr(1, 2) if a[0].d >= 0 else Fr(-1, 2))))
            return fn(n, *a, ty=TORET.get(n, "r"))
        return None
    def itpos(s, v):
        if isinstance(v, It): return v.i
        if isinstance(v, Ptr) and v.idx is not None: return v.idx
        if isinstance(v, T): return v
        raise un()("iterator position")
    def iter_of(s, a, n, st):
        loc = a if isinstance(a, Loc) else s.alloc(st, a)
        v = s.read(st, loc)
        if isinstance(v, Ptr): loc = v.loc; v = s.read(st, loc)
        rev = "r" == n.lstrip("c")[0] and "begin" in n or n.lstrip("c").startswith("rend")
        if "begin" in n: return It(loc, num(0, "i"), rev)
        k = s.length(v)
        return It(loc, num(k.d, "i") if isnum(k) else k, rev)
    def slice(s, a, b, st):
        if isinstance(a, Ptr) and a.idx is not None: a = It(a.loc, a.idx)
        if isinstance(b, Ptr) and b.idx is not None: b = It(b.loc, b.idx)
        if isinstance(a, Gate): return s.evbranch(a.c, st, lambda q: s.slice(a.a, b, q), lambda q: s.slice(a.b, b, q))
        if isinstance(b, Gate): return s.evbranch(b.c, st, lambda q: s.slice(a, b.a, q), lambda q: s.slice(a, b.b, q))
        if isinstance(a, It) and isinstance(b, It):
            base = s.read(st, a.loc) if isinstance(a.loc, Loc) else a.loc
            if isinstance(base, Gate) and isinstance(a.loc, Loc): return s.ungated(a.loc, st, lambda q: s.slice(a, b, q))
            a, b = It(a.loc, s.refine(a.i, st.pc), a.rev), It(b.loc, s.refine(b.i, st.pc), b.rev)
            base = Seq([base.x[i][j] for j in range(base.c) for i in range(base.r)]) if isinstance(base, Mat) else s.seq(base, st)
            xs = list(base.x)[::-1] if a.rev else list(base.x)
            def go(i, j, q):
                if isnum(i) and isnum(j):
                    if not 0 <= int(i.d) <= int(j.d) <= len(xs): s.issue("out-of-bounds", "range [%d,%d) of a sequence of %d elements" % (int(i.d), int(j.d), len(xs)), q); return Seq([UNDEF] * min(max(0, int(j.d) - int(i.d)), 64))
                    return Seq(xs[int(i.d):int(j.d)])
                if not isnum(i):
                    r = None
                    for k in range(len(xs), -1, -1):
                        v = go(num(k, "i"), j, q); r = v if r is None else merge(cmp("==", i, num(k, "i")), v, r)
                    return r
                r = None
                for k in range(len(xs), -1, -1):
                    v = go(i, num(k, "i"), q); r = v if r is None else merge(cmp("==", j, num(k, "i")), v, r)
                return r
            return go(a.i, b.i, st)
        raise un()("iterator range")
    def tagmatch(s, tag, want):
        if isinstance(tag, tuple): tag = tag[0]
        return short_(str(tag)) == short_(str(want))
    def b_get(s, f, args, st, fr, e):
        ta = f.ta or []
        a = args[0]; v = s.rd(a, st)
        key = ta[0] if ta else None
        loc = a if isinstance(a, Loc) else s.alloc(st, a)
        if isinstance(key, str) and not re.fullmatch(r"\d+U?L*", key):
            kt = s.tval(s.tsub(key, fr)) if isinstance(key, str) else key
            key = kt
        elif isinstance(key, str): key = num(int(re.sub(r"\D", "", key)), "i")
        if isinstance(v, Ptr): loc = v.loc; v = s.read(st, loc)
        if isinstance(v, Var):
            if isinstance(key, TypeV):
                if s.tagmatch(v.tag, key.n): return loc + ("v", None)
                fr.throws.append(st.pc); from interp import Dead; raise Dead()
            if isinstance(key, T) and isnum(key):
                if isinstance(v.tag, tuple) and v.tag[1] is not None:
                    if v.tag[1] == int(key.d): return loc + ("v", None)
                return loc + ("v", None)
        if isinstance(v, Seq) and isinstance(key, T) and isnum(key): return loc + ("i", num(int(key.d), "i"))
        if isinstance(v, Seq) and isinstance(key, TypeV):
            for i, x in enumerate(v.x):
                if isinstance(x, Obj) and s.tagmatch(x.name, key.n): return loc + ("i", num(i, "i"))
            raise un()("std::get by type")
        if isinstance(v, Obj) and "data" in v.f: return s.b_get(f, [loc + ("f", "data")], st, fr, e)
        if isinstance(v, Gate): return s.evbranch(v.c, st, lambda q: s.rd(s.b_get(f, [v.a], q, fr, e), q), lambda q: s.rd(s.b_get(f, [v.b], q, fr, e), q))
        if isinstance(v, T) and v.op == "opaque": return v
        raise un()("std::get on %s" % type(v).__name__)
    def b_make_shared(s, f, args, st, fr, e):
        ty = (f.ta or [""])[0]
        k = s.find_class(s.tsub(ty, fr), fr)
        v = s.construct(k, args, st, fr) if k is not None else s.builtin_ctor(s.tsub(ty, fr), [s.rd(a, st) for a in args], st, fr, e)
        return Ptr(s.alloc(st, v))
    def b_visit(s, args, st, fr):
        f = args[0]; vs = []
        def go(i, st):
            if i == len(args):
                return s.call_fn(f, list(vs), st, fr)
            a = args[i]; v = s.rd(a, st)
            if isinstance(v, Gate):
                def side(val, q):
                    args2 = list(args); args2[i] = s.alloc(q, val)
                    return s.rd(s.b_visit(args2, q, fr), q)
                return s.evbranch(v.c, st, lambda q: side(v.a, q), lambda q: side(v.b, q))
            loc = a if isinstance(a, Loc) else s.alloc(st, v)
            vs.append(loc + ("v", None) if isinstance(v, Var) else loc)
            return go(i + 1, st)
        return go(1, st)
    # ------------------------------------------------------------------ algorithms
    def ordered_insert(s, xs, less, st=None):
        """sorting network on the graph: insertion by compare-exchange"""
        xs = list(xs)
        if st is not None and len(xs) > 1:
            c = less(xs[0], xs[0])
            if c is not FALSE: s.issue("order", "a comparison that holds for an element and itself is used to sort", st, c)
        for i in range(1, len(xs)):
            for j in range(i, 0, -1):
                c = less(xs[j], xs[j-1])
                a, b = xs[j-1], xs[j]
                xs[j-1], xs[j] = merge(c, b, a), merge(c, a, b)
        return xs
    def lessf(s, cmpf, st, fr):
        if cmpf is None: return lambda a, b: s.fold(s.binop("<", a, b, st, fr), st.pc)
        return lambda a, b: s.fold(s.boolean(s.rd(s.call_fn(cmpf, [a, b], st, fr), st)), st.pc)
    def algorithm(s, n, args, st, fr, e):
        vals = [s.rd(a, st) for a in args]
        isit = lambda v: isinstance(v, (It, Ptr)) or isinstance(v, Gate) and isit(v.a)
        if vals and isit(vals[0]):
            if n in ("fill_n", "copy_n", "for_each_n"): raise un()(n)
            a, b = vals[0], vals[1]; rest = vals[2:]
            if isinstance(a, Ptr): a = It(a.loc, a.idx)
            if isinstance(b, Ptr): b = It(b.loc, b.idx)
            if not isinstance(a, It) or not isinstance(b, It): raise un()("algorithm %s on gated iterators" % n)
            if isinstance(a.loc, Loc) and isinstance(s.read(st, a.loc), Gate): return s.ungated(a.loc, st, lambda q: s.algorithm(n, args, q, fr, e))
            a, b = It(a.loc, s.refine(a.i, st.pc), a.rev), It(b.loc, s.refine(b.i, st.pc), b.rev)
            if not (isnum(a.i) and isnum(b.i)): raise un()("algorithm %s on a symbolic range %s" % (n, str(a.i)[:900]))
            base = s.seq(a.loc, st); xs = list(base.x)[::-1] if a.rev else list(base.x)
            lo, hi = int(a.i.d), int(b.i.d)
            part = xs[lo:hi]; mkit = lambda k: It(a.loc, num(lo + k, "i"), a.rev)
            def store(new, q=None):
                ys = xs[:lo] + list(new) + xs[hi:]
                s.write(q or st, a.loc, Seq(ys[::-1] if a.rev else ys, base.kind))
        else:
            base = s.seq(vals[0], st) if not isinstance(vals[0], Gate) else None
            if base is None: return s.evbranch(vals[0].c, st, lambda q: s.algorithm(n, [vals[0].a] + args[1:], q, fr, e), lambda q: s.algorithm(n, [vals[0].b] + args[1:], q, fr, e))
            part = list(base.x); rest = vals[1:]; lo = 0
            loc = args[0] if isinstance(args[0], Loc) else s.alloc(st, base)
            mkit = lambda k: It(loc, num(k, "i"))
            def store(new, q=None):
                if isinstance(args[0], Loc): s.write(q or st, args[0], Seq(new, base.kind))
        def pred(p, x): return s.fold(s.boolean(s.rd(s.call_fn(p, [x], st, fr), st)), st.pc)
        def first(cs):
            r = mkit(len(cs))
            for i in range(len(cs) - 1, -1, -1): r = merge(cs[i], mkit(i), r)
            return r
        if n in ("find_if", "find_if_not"):
            cs = [pred(rest[0], x) for x in part]
            return first(cs if n == "find_if" else [lnot(c) for c in cs])
        if n == "find": return first([s.fold(s.binop("==", x, rest[0], st, fr), st.pc) for x in part])
        if n == "lower_bound":
            l = s.lessf(rest[1] if len(rest) > 1 else None, st, fr)
            return first([lnot(l(x, rest[0])) for x in part])
        if n == "upper_bound":
            l = s.lessf(rest[1] if len(rest) > 1 else None, st, fr)
            return first([l(rest[0], x) for x in part])
        if n in ("sort", "stable_sort"):
            store(s.ordered_insert(part, s.lessf(rest[0] if rest else None, st, fr), st)); return None
        if n == "is_sorted":
            l = s.lessf(rest[0] if rest else None, st, fr)
            return land(*[lnot(l(b, a)) for a, b in zip(part, part[1:])])
        if n == "accumulate":
            acc = rest[0]
            for x in part:
                if len(rest) > 2: x = s.rd(s.call_fn(rest[2], [x], st, fr), st)
                acc = s.rd(s.call_fn(rest[1], [acc, x], st, fr), st) if len(rest) > 1 else s.binop("+", acc, x, st, fr)
            return acc
        if n in ("any_of", "all_of", "none_of"):
            cs = [pred(rest[0], x) for x in part]
            return lor(*cs) if n == "any_of" else land(*cs) if n == "all_of" else land(*[lnot(c) for c in cs])
        if n in ("count_if", "count"):
            cs = [pred(rest[0], x) if n == "count_if" else s.binop("==", x, rest[0], st, fr) for x in part]
            return add(num(0, "i"), *[ite(c, num(1, "i"), num(0, "i")) for c in cs])
        if n == "for_each":
            for k in range(len(part)):
                if isinstance(args[0], Loc) and not isit(vals[0]): s.call_fn(rest[0], [args[0] + ("i", num(k, "i"))], st, fr)
                elif isit(vals[0]): s.call_fn(rest[0], [s.it_loc(mkit(k), st)], st, fr)
                else: s.call_fn(rest[0], [part[k]], st, fr)
            return None
        if n in ("transform", "copy", "copy_if", "partial_sum"):
            out = rest[0]
            if n == "transform" and len(rest) == 3:
                it2 = rest[0]; other = [s.rd(s.it_loc(It(it2.loc, add(it2.i, num(k, "i")), it2.rev), st), st) for k in range(len(part))]; out = rest[1]
                new = [s.rd(s.call_fn(rest[2], [x, y], st, fr), st) for x, y in zip(part, other)]
            elif n == "transform": new = [s.rd(s.call_fn(rest[1], [x], st, fr), st) for x in part]
            elif n == "copy": new = part
            elif n == "partial_sum":
                new = []
                for x in part: new.append(x if not new else s.binop("+", new[-1], x, st, fr))
            else: raise un()("copy_if")
            if isinstance(out, Obj) and out.name == "back_inserter":
                l = out.f["loc"]
                for x in new: s.vec_push(l, x, st)
                return out
            for k, x in enumerate(new): s.write(st, s.it_loc(It(out.loc, add(out.i if isinstance(out, It) else out.idx, num(k, "i")), getattr(out, "rev", False)), st), x)
            return s.incr(out, num(len(new), "i"), None, st)
        if n == "inner_product":
            it2 = rest[0]; acc = rest[1]
            for k, x in enumerate(part):
                y = s.rd(s.it_loc(It(it2.loc, add(it2.i, num(k, "i")), it2.rev), st), st)
                p = s.rd(s.call_fn(rest[3], [x, y], st, fr), st) if len(rest) > 3 else s.binop("*", x, y, st, fr)
                acc = s.rd(s.call_fn(rest[2], [acc, p], st, fr), st) if len(rest) > 2 else s.binop("+", acc, p, st, fr)
            return acc
        if n == "reverse": store(part[::-1]); return None
        if n == "fill": store([rest[0]] * len(part)); return None
        if n == "iota": store([s.arith("+", rest[0], num(k, "i"), st) for k in range(len(part))]); return None
        if n in ("min_element", "max_element"):
            l = s.lessf(rest[0] if rest else None, st, fr)
            bi, bv = num(0, "i"), part[0]
            for k in range(1, len(part)):
                c = l(part[k], bv) if n == "min_element" else l(bv, part[k])
                bi, bv = ite(c, num(k, "i"), bi), merge(c, part[k], bv)
            return It(mkit(0).loc, add(num(lo, "i"), bi), getattr(mkit(0), "rev", False))
        if n == "unique":
            eq = (lambda a, b: s.boolean(s.rd(s.call_fn(rest[0], [a, b], st, fr), st))) if rest else (lambda a, b: s.binop("==", a, b, st, fr))
            cs = [s.fold(eq(a, b), st.pc) for a, b in zip(part, part[1:])]
            if all(c is FALSE for c in cs): return mkit(len(part))
            if all(c.op == "bool" for c in cs):
                new = [part[0]] + [x for x, c in zip(part[1:], cs) if c is FALSE]
                store(new + part[len(new):]); return mkit(len(new))
            if len(part) > 9: raise un()("unique on many symbolic values")
            def go(k, kept, q):
                if k == len(part): store(kept + part[len(kept):], q); return mkit(len(kept))
                c = s.fold(s.boolean(s.rd(s.call_fn(rest[0], [kept[-1], part[k]], q, fr), q)) if rest else s.binop("==", kept[-1], part[k], q, fr), q.pc)
                if c.op == "bool": return go(k + 1, kept if c is TRUE else kept + [part[k]], q)
                return s.evbranch(c, q, lambda u: go(k + 1, kept, u), lambda u: go(k + 1, kept + [part[k]], u))
            return go(1, part[:1], st)
        if n == "equal": 
            b2 = rest[0]; return land(*[s.binop("==", x, s.rd(s.it_loc(It(b2.loc, add(b2.i, num(k, "i")), b2.rev), st), st), st, fr) for k, x in enumerate(part)])
        raise un()("algorithm " + n)
    # ------------------------------------------------------------------ containers
    def vec_push(s, loc, v, st):
        cur = s.read(st, loc)
        def go(c):
            if isinstance(c, Gate): return merge(c.c, go(c.a), go(c.b))
            if isinstance(c, Seq): return Seq(c.x + (v,), c.kind)
            raise un()("push_back on %s" % type(c).__name__)
        s.write(st, loc, go(cur))
    def elem_type(s, e):
        """element type printed in the type of the container expression"""
        return None
    def builtin_method(s, loc, v, b, args, st, fr, e):
        n = b.name
        if isinstance(v, Gate):
            def side(val, q):
                # evaluate on each alternative; mutations are merged by writing back
                s.write(q, loc, val); return s.rd(s.builtin_method(loc, val, b, args, q, fr, e), q)
            if isinstance(loc, Loc): return s.evbranch(v.c, st, lambda q: side(v.a, q), lambda q: side(v.b, q))
        A = lambda i: s.rd(args[i], st)
        bt = (b.node or {}).get("bt", "") if isinstance(b.node, dict) else ""
        if n.startswith("operator ") and not args:
            what = n[9:]
            if isinstance(v, Opt): return v.has
            if what == "bool": return s.boolean(v)
            return v
        if n == "particles" and not args and isinstance(v, T): return Seq([t.string("particle(%s)" % v.d) if v.op == "str" or isnum(v) else app("particle", v, ty="s")])
        if isinstance(v, T) and v.op == "opaque": return v
        if isinstance(v, (T, Cx)) and ("complex<" in bt or isinstance(v, Cx)) and n in ("real", "imag"):
            w = cx(v) if v is not UNDEF else Cx(UNDEF, UNDEF)
            if args:
                x = s.real(A(0)); s.write(st, loc, Cx(x, w.im) if n == "real" else Cx(w.re, x)); return None
            return w.re if n == "real" else w.im
        if isinstance(v, Cx) and n in ("operator=", "operator+=", "operator-=", "operator*=", "operator/="):
            x = A(0); s.write(st, loc, cx(x) if n == "operator=" else s.arith(n[8:-1], v, x, st)); return loc
        if isinstance(v, (Seq, Arr)):
            if n in ("size", "length"): return s.length(v)
            if n in ("empty",): return s.fold(cmp("==", s.length(v), num(0, "u")))
            if n in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend"): return s.iter_of(loc, n, st)
            if n in ("front", "back"):
                k = s.cint(s.length(v))
                if k == 0:
                    s.issue("out-of-bounds", "%s() of an empty sequence" % n, st); return UNDEF
                return loc + ("i", num(0 if n == "front" else k - 1, "i"))
            if n in ("at", "operator[]"):
                i = A(0)
                if n == "at" and isnum(i) and not 0 <= int(i.d) < s.cint(s.length(v)): return s.e_throw({}, st, fr)
                return loc + ("i", i)
            if n == "data": return Ptr(loc, num(0, "i"))
            if n in ("reserve", "shrink_to_fit"): return None
            if n == "clear": s.write(st, loc, Seq([], "vector")); return None
            if n in ("push_back", "emplace_back", "push_front"):
                x = s.element(loc, v, args, b, st, fr, e)
                if n == "push_front": s.write(st, loc, Seq((x,) + s.seq(v, st).x)); return None
                s.vec_push(loc, x, st)
                return loc + ("i", num(len(s.read(st, loc).x) - 1, "i"))
            if n == "pop_back": s.write(st, loc, Seq(v.x[:-1], v.kind)); return None
            if n == "resize":
                k = s.cint(A(0)); xs = list(v.x)[:k]
                fill = A(1) if len(args) > 1 else s.zero(s.code_of((s.targs(bt) or ["double"])[0]))
                xs += [fill] * (k - len(xs)); s.write(st, loc, Seq(xs, v.kind)); return None
            if n == "assign":
                if isinstance(A(0), It): s.write(st, loc, s.slice(A(0), A(1), st))
                else: s.write(st, loc, Seq([A(1)] * s.cint(A(0))))
                return None
            if n == "fill": s.write(st, loc, Seq([A(0)] * s.cint(s.length(v)), getattr(v, "kind", "array"))); return None
            if n == "swap" : 
                o = s.read(st, args[0]); s.write(st, args[0], v); s.write(st, loc, o); return None
            if n in ("insert", "emplace"):
                p = A(0); xs = s.seq(v, st).x
                if len(args) == 2: new = list(A(1).x) if isinstance(A(1), Seq) and A(1).kind == "ilist" else [A(1)]
                elif isinstance(A(1), It): new = s.slice(A(1), A(2), st)
                else: new = [A(2)] * s.cint(A(1))
                def ins(w):
                    if isinstance(w, Gate): return merge(w.c, ins(w.a), ins(w.b))
                    ys = list(w.x if isinstance(w, Seq) else w)
                    def at(i):
                        if isinstance(i, T) and isnum(i): k = int(i.d); return Seq(list(xs[:k]) + ys + list(xs[k:]), "vector")
                        r = None
                        for k in range(len(xs), -1, -1): r = at(num(k, "i")) if r is None else merge(cmp("==", i, num(k, "i")), at(num(k, "i")), r)
                        return r
                    return at(s.itpos(p))
                s.write(st, loc, ins(new)); return It(loc, s.itpos(p))
            if n == "erase":
                xs = s.seq(v, st).x
                i = s.refine(s.itpos(A(0)), st.pc); j = s.refine(s.itpos(A(1)), st.pc) if len(args) > 1 else add(i, num(1, "i"))
                def at(a, c):
                    if isnum(a) and isnum(c): return Seq(list(xs[:int(a.d)]) + list(xs[int(c.d):]), "vector")
                    r = None
                    if not isnum(a):
                        for k in range(len(xs), -1, -1): r = at(num(k, "i"), t.subst(c, {}) if isnum(c) else s.fold(c)) if r is None else merge(cmp("==", a, num(k, "i")), at(num(k, "i"), c), r)
                        return r
                    for k in range(len(xs), -1, -1): r = at(a, num(k, "i")) if r is None else merge(cmp("==", c, num(k, "i")), at(a, num(k, "i")), r)
                    return r
                s.write(st, loc, at(i, j)); return It(loc, i)
            if n == "operator=": s.write(st, loc, A(0)); return loc
            if n == "operator()" : return loc + ("i", A(0))
            if n == "swap": raise un()("swap")
        if isinstance(v, MapV):
            if n in ("size",): return s.length(v)
            if n == "empty": return t.mk_bool(not v.x)
            if n in ("begin", "end", "cbegin", "cend"): return s.iter_of(loc, n, st)
            if n == "find":
                key = A(0); cs = [s.keyeq(k, key) for k, _ in v.x]; r = It(loc, num(len(cs), "i"))
                for i in range(len(cs) - 1, -1, -1): r = merge(cs[i], It(loc, num(i, "i")), r)
                return r
            if n == "count" or n == "contains":
                c = lor(*[s.keyeq(k, A(0)) for k, _ in v.x]) if v.x else FALSE
                return ite(c, num(1, "u"), num(0, "u")) if n == "count" else c
            if n == "at":
                for k, _ in v.x:
                    c = s.keyeq(k, A(0))
                    if c is TRUE: return loc + ("k", k)
                    if c is not FALSE: raise un()("map at under a symbolic key")
                return s.e_throw({}, st, fr)
            if n == "operator[]": return s.map_sub(loc, v, A(0), st)
            if n in ("try_emplace", "emplace", "insert", "insert_or_assign"):
                if n == "insert" or (n == "emplace" and len(args) == 1): key, val = A(0).x
                else:
                    key = A(0); mt = (s.targs(short_(s.base_type(b))) + ["", ""])[1]
                    if len(args) == 2 and not mt.startswith("std::vector<"): val = A(1)
                    elif mt and not mt.startswith("D"): val = s.builtin_ctor(mt, [s.rd(a, st) for a in args[1:]], st, fr, e)
                    elif len(args) == 1: val = num(0)
                    else: raise un()("try_emplace of an unknown mapped type")
                present = FALSE; out = []
                for k, w in v.x:
                    c = s.keyeq(k, key); present = lor(present, c)
                    out.append((k, merge(c, val, w) if n == "insert_or_assign" else w))
                if present is TRUE: new = MapV(out, v.base)
                elif present is FALSE: new = MapV(s.sorted_keys(out + [(key, val)], st, fr), v.base)
                else: new = Gate(present, MapV(out, v.base), MapV(s.sorted_keys(out + [(key, val)], st, fr), v.base))
                s.write(st, loc, new)
                pos = [i for i, (k, _) in enumerate(new.x) if s.keyeq(k, key) is TRUE] if isinstance(new, MapV) else []
                return Seq([It(loc, num(pos[0], "i")) if pos else opaque("map position"), lnot(present)], "pair")
            if n == "clear": s.write(st, loc, MapV([])); return None
            if n == "operator=": s.write(st, loc, A(0)); return loc
        if isinstance(v, Opt):
            if n == "has_value": return v.has
            if n == "value":
                c = s.fold(v.has, st.pc)
                if c is FALSE: return s.e_throw({}, st, fr)
                if c is not TRUE: fr.throws.append(land(st.pc, lnot(c))); st.pc = land(st.pc, c)
                return loc + ("o", None)
            if n == "value_or": return merge(v.has, v.v, A(0)) if v.v is not None else A(0)
            if n == "reset": s.write(st, loc, Opt(FALSE, None)); return None
            if n in ("operator*",): return loc + ("o", None)
            if n == "operator=": x = A(0); s.write(st, loc, x if isinstance(x, Opt) else Opt(TRUE, x)); return loc
            if n == "emplace": s.write(st, loc, Opt(TRUE, A(0))); return loc + ("o", None)
            if n == "operator->": return loc + ("o", None)
        if isinstance(v, Var) and n == "index":
            if isinstance(v.tag, tuple) and v.tag[1] is not None: return num(v.tag[1], "u")
            raise un()("variant index")
        if isinstance(v, Ptr) and n in ("get", "operator->", "operator*"): return v if n == "get" else v.loc
        if isinstance(v, Mat): return s.mat_method(loc, v, n, args, b, st, fr)
        if isinstance(v, T) and v.ty == "s":
            if n in ("size", "length"): return app("strlen", v, ty="u")
            if n == "empty": return cmp("==", v, t.string(""))
            if n in ("operator+=", "append"): x = s.cat(v, A(0)); s.write(st, loc, x); return loc
            if n in ("c_str", "data", "str"): return v
            if n == "push_back":
                def ch(c):
                    if c.op == "num": return t.string(chr(int(c.d)))
                    if c.op == "ite": return t.ite(c.a[0], ch(c.a[1]), ch(c.a[2]))
                    raise un()("string push_back")
                s.write(st, loc, s.cat(v, ch(A(0)))); return None
            if n == "operator=": s.write(st, loc, A(0)); return loc
            if n == "symbol": return v if v.op == "str" else app("symbol", v, ty="s")
            if n in ("particle", "residual") and v.op == "str" and v.d.count(",") == 1: return t.string(v.d.split(",")[n == "residual"])
        if isinstance(v, T):
            if n == "symbol": return app("symbol", v, ty="s")
            if n in ("particle", "residual"): return app(n, v, ty="s")
            if n in ("operator=",): s.write(st, loc, A(0)); return loc
            if n in ("operator+=", "operator-=", "operator*=", "operator/="):
                s.write(st, loc, s.arith(n[8:-1], v, A(0), st)); return loc
            if n == "value" and not args: return v
            a = [v] + [A(i) for i in range(len(args))]
            return s.uninterpreted(n, a, st, e)
        if isinstance(v, Obj):
            if not isinstance(v.cls, dict):
                if v.name == "vecref": return s.vecref_method(v, n, args, b, st, fr)
                if n in v.f and not args: return loc + ("f", n)
                if n in v.f: 
                    x = v.f[n]
                    return s.call_fn(x, args, st, fr)
                if v.name == "vecref": return s.vecref_method(v, n, args, b, st, fr)
                if v.name.startswith("tri"): raise un()(n)
                if "what" == n: return t.string("")
                if n == "operator()": return s.builtin_call_obj(v, args, st, fr)
            if n in v.f: return loc + ("f", n)
            if n == "operator=" : s.write(st, loc, A(0)); return loc
        if isinstance(v, (Closure, Fn)) and n == "operator()": return s.call_fn(v, args, st, fr)
        if isinstance(v, It) and n == "base": return v
        raise un()("method %s on %s" % (n, type(v).__name__ + (" " + v.name[-60:] if isinstance(v, Obj) else "")))
    def sorted_keys(s, out, st, fr):
        if len(out) < 2: return out
        try:
            for i in range(len(out) - 1, 0, -1):
                c = s.fold(s.binop("<", out[i][0], out[i-1][0], st, fr), st.pc)
                if c is TRUE: out[i-1], out[i] = out[i], out[i-1]
                elif c is FALSE: break
                else: break
        except Exception: pass
        return out
    def base_type(s, b):
        """static type of the object a member call is made on"""
        nd = b.node if isinstance(b.node, dict) else {}
        return nd.get("bt") or (nd.get("e") or {}).get("t") or ""
    def element(s, loc, v, args, b, st, fr, e):
        """value stored by push_back/emplace_back"""
        bt = s.base_type(b)
        ts = s.targs(short_(bt)) if bt else []
        el = ts[0] if ts else None
        if el is not None and not el.startswith("D"):
            if len(args) == 1:
                x = s.rd(args[0], st)
                c = s.code_of(el)
                x = s.coerce(x, c, "", fr, st)
                if short_(el).startswith("variant<"): return s.mk_variant(el, x, st, fr)
                if not isinstance(x, Obj):
                    k = s.find_class(el, fr) if not el.startswith(("std::", "dimwits::", "njoy::elementary")) else None
                    if k is not None: return s.construct(k, [args[0]], st, fr)
                    if isinstance(x, T) and "complex<" in el: return cx(x)
                return x
            k = s.find_class(el, fr) if not el.startswith(("std::", "dimwits::")) else None
            if k is not None: return s.construct(k, args, st, fr)
            return s.builtin_ctor(el, [s.rd(a, st) for a in args], st, fr, e)
        if len(args) == 1: return s.rd(args[0], st)
        raise un()("emplace_back into an unknown element type")
    def mk_variant(s, ty, x, st, fr):
        if isinstance(x, (Var, Gate)): return x
        alts = s.targs(short_(ty) if not ty.strip().startswith("std::variant") else ty)
        nm = x.name if isinstance(x, Obj) else None
        idx = None
        if nm is not None:
            strip = lambda q: re.sub(r"<.*", "", q)
            cand = [i for i, a in enumerate(alts) if strip(a) == strip(nm)]
            sp = [short_(z) for z in (x.cls.get("spec") or ())] if isinstance(x.cls, dict) else []
            if len(cand) > 1 and sp: cand = [i for i in cand if [short_(z) for z in s.targs(alts[i])] == sp]
            if len(cand) == 1: idx = cand[0]
            if idx is None:
              for i, a in enumerate(alts):
                if short_(a) == short_(nm) or short_(a).split("<")[0] == short_(nm).split("<")[0] and a == nm: idx = i; break
        elif isinstance(x, (Closure, Fn)):
            for i, a in enumerate(alts):
                if "lambda" in a or "radius(" in a: idx = i; break
        elif isinstance(x, T):
            for i, a in enumerate(alts):
                if "Quantity" in a or a in ("double", "int"): idx = i; break
        return Var((nm or "", idx), x)
    # ------------------------------------------------------------------ matrices
    def mat_method(s, loc, m, n, args, b, st, fr):
        A = lambda i: s.rd(args[i], st)
        if n in ("operator()", "coeff", "coeffRef"):
            if len(args) == 2: return loc + ("m", (A(0), A(1)))
            return loc + ("i", A(0))
        if n == "operator[]": return loc + ("i", A(0))
        if n in ("rows", "cols", "size"): return num({"rows": m.r, "cols": m.c, "size": m.r * m.c}[n], "i")
        if n == "setZero":
            if args: r, c = (s.cint(A(0)), s.cint(A(1)) if len(args) > 1 else 1)
            else: r, c = m.r, m.c
            s.write(st, loc, Mat(r, c, [[num(0)] * c for _ in range(r)])); return loc
        if n == "resize": r, c = s.cint(A(0)), s.cint(A(1)); s.write(st, loc, Mat(r, c, [[UNDEF] * c for _ in range(r)])); return None
        if n == "inverse":
            if m.r > 3: raise un()("inverse of a large matrix")
            if (m.r and m.r == m.c): return s.inverse(m, st)
        if n == "transpose": return Mat(m.c, m.r, [[m.x[i][j] for i in range(m.r)] for j in range(m.c)])
        if n == "adjoint": return Mat(m.c, m.r, [[s.math("conj", [m.x[i][j]], st) for i in range(m.r)] for j in range(m.c)])
        if n in ("conjugate",): return Mat(m.r, m.c, [[s.math("conj", [x], st) for x in r] for r in m.x])
        if n in ("row", "col", "diagonal"):
            if n == "diagonal": ij = [(k, k) for k in range(min(m.r, m.c))]
            else:
                i = s.cint(A(0))
                if not 0 <= i < (m.r if n == "row" else m.c): return s.badmat(st)
                ij = [(i, k) for k in range(m.c)] if n == "row" else [(k, i) for k in range(m.r)]
            return Obj("vecref", {"loc": loc if isinstance(loc, Loc) else s.alloc(st, m), "ij": tuple(ij), "row": n == "row"})
        if n == "data": return Ptr(loc if isinstance(loc, Loc) else s.alloc(st, m), num(0, "i"))
        if n == "triangularView": return Obj("tri", {"loc": loc, "mode": str(b.ta or (b.node or {}).get("ta") or "")})
        if n in ("eval", "matrix", "array", "derived", "noalias", "asDiagonal", "toDenseMatrix"): return loc
        if n == "real": return Mat(m.r, m.c, [[cx(x).re for x in r] for r in m.x])
        if n == "imag": return Mat(m.r, m.c, [[cx(x).im for x in r] for r in m.x])
        if n == "operator=": s.write(st, loc, A(0)); return loc
        if n in ("operator+=", "operator-=", "operator*=", "operator/="): s.write(st, loc, s.matop(n[8:-1], m, A(0), st)); return loc
        if n in ("sum",):
            r = num(0)
            for q in m.x:
                for x in q: r = s.arith("+", r, x, st)
            return r
        raise un()("matrix method " + n)
    def vecref_get(s, v, st):
        x = [s.read(st, v.f["loc"] + ("m", (num(i, "i"), num(j, "i")))) for i, j in v.f["ij"]]
        return Mat(1, len(x), [x]) if v.f["row"] else Mat(len(x), 1, [[y] for y in x])
    def vecref_set(s, v, y, st):
        if isinstance(y, Obj) and y.name == "vecref": y = s.vecref_get(y, st)
        z = s.seq(y, st).x if not isinstance(y, T) else [y] * len(v.f["ij"])
        for (i, j), w in zip(v.f["ij"], z): s.write(st, v.f["loc"] + ("m", (num(i, "i"), num(j, "i"))), w)
        return v
    def vecref_method(s, v, n, args, b, st, fr):
        if n == "setZero": return s.vecref_set(v, num(0), st)
        if n in ("setConstant", "fill"): return s.vecref_set(v, s.rd(args[0], st), st)
        if n == "setOnes": return s.vecref_set(v, num(1), st)
        if n in ("operator()", "operator[]", "coeffRef", "coeff"): return s.subscript(v, s.rd(args[0], st), st, fr)
        if n == "operator=": return s.vecref_set(v, s.rd(args[0], st), st)
        if n in ("operator+=", "operator-=", "operator*=", "operator/="): return s.vecref_set(v, s.arith(n[8:-1], s.vecref_get(v, st), s.rd(args[0], st), st), st)
        m = s.vecref_get(v, st); return s.mat_method(s.alloc(st, m), m, n, args, b, st, fr)
    def badmat(s, st): s.issue("out-of-bounds", "matrix row or column", st); return UNDEF
    def tri_assign(s, l, y, st):
        loc = l.f["loc"]; m = s.read(st, loc)
        if isinstance(y, Obj) and y.name == "tri": y = s.read(st, y.f["loc"])
        mode = l.f["mode"]
        strict = any(k in mode for k in ("Strictly", "10", "9")) and "Lower" in mode or mode in ("['9']", "['10']")
        # Eigen enumerators: Lower=1 Upper=2 UnitDiag=4 ZeroDiag=8 StrictlyLower=9 StrictlyUpper=10
        num_ = re.search(r"\d+", mode); k = int(num_.group(0)) if num_ else (("Upper" in mode) * 2 + ("Lower" in mode) * 1 + ("Strictly" in mode) * 8)
        x = [list(r) for r in m.x]
        for i in range(m.r):
            for j in range(m.c):
                if (k & 1 and i > j) or (k & 2 and i < j) or (i == j and not k & 12): x[i][j] = y.x[i][j]
        s.write(st, loc, Mat(m.r, m.c, x)); return loc
    # ------------------------------------------------------------------ construction of library types
    def builtin_ctor(s, ty, vals, st, fr, e):
        ty = re.sub(r"^(const|typename|class|struct) ", "", str(ty).strip()); ty = base_t_(ty)
        if ty.startswith("D:"): ty = ty[2:]
        n = short_(ty)
        v0 = vals[0] if vals else None
        if n.startswith("complex<"):
            if not vals: return Cx(num(0), num(0))
            if isinstance(v0, Seq) and v0.kind == "ilist": vals = list(v0.x); v0 = vals[0] if vals else num(0)
            if len(vals) == 1: return v0 if isinstance(v0, Gate) else cx(s.real(v0))
            return Cx(s.real(vals[0]), s.real(vals[1]))
        if n.startswith(("vector<", "deque<", "list<")):
            el = s.code_of((s.targs(n) or ["double"])[0])
            cv = lambda x: s.to_elem(x, el, st, fr)
            if not vals: return Seq([])
            if isinstance(v0, Seq): return Seq([cv(x) for x in v0.x], "vector")
            if isinstance(v0, Gate): return s.over(v0, st, lambda v, q: s.builtin_ctor(ty, [v] + vals[1:], q, fr, e))
            if isinstance(v0, (It, Ptr)) and len(vals) >= 2: return s.over(s.slice(vals[0], vals[1], st), st, lambda v, q: Seq([cv(x) for x in v.x], "vector"))
            if isinstance(v0, T) and isnum(v0) and (len(vals) == 1 or len(vals) >= 2):
                fill = cv(vals[1]) if len(vals) > 1 and not (isinstance(vals[1], Obj) and "alloc" in vals[1].name) else s.zero(el)
                return Seq([fill] * int(v0.d), "vector")
            if isinstance(v0, Arr): return s.seq(v0, st)
            raise un()("vector of symbolic length")
        if n.startswith("array<"):
            if len(vals) == 1 and isinstance(v0, Seq): return Seq(v0.x, "array")
            if not vals: return s.make_default(ty, st, fr)
            return Seq(vals, "array")
        if n.startswith("basic_string") or n in ("string", "string_view"):
            if not vals: return t.string("")
            if len(vals) > 1 and isinstance(vals[0], It): raise un()("string range")
            return v0
        if n.startswith(("tuple<", "pair<")):
            if len(vals) == 1 and isinstance(v0, Seq): v0 = Seq(v0.x, "tuple"); vals = list(v0.x)
            elif not vals: return s.make_default(ty, st, fr)
            ts = s.targs(n)
            return Seq([s.to_elem(x, s.code_of(a), st, fr) for x, a in zip(vals, ts)] if len(ts) == len(vals) else vals, "tuple")
        if n.startswith("optional<"):
            if not vals: return Opt(FALSE, None)
            if isinstance(v0, Opt): return v0
            if isinstance(v0, Gate): return v0 if s.gate_kind(v0, Opt) else Opt(TRUE, v0)
            if isinstance(v0, Fn) and "nullopt" in v0.name: return Opt(FALSE, None)
            el = (s.targs(n) or [""])[0]
            return Opt(TRUE, s.to_elem(v0, s.code_of(el), st, fr))
        if n.startswith(("map<", "unordered_map<")):
            if not vals: return MapV([])
            if isinstance(v0, MapV): return v0
            if isinstance(v0, Seq):
                out = []
                for p in v0.x: out = s.sorted_keys(out + [(p.x[0], p.x[1])], st, fr)
                return MapV(out)
        if n.startswith("variant<"):
            if isinstance(v0, (Var, Gate)): return v0
            return s.mk_variant(ty, v0, st, fr)
        if n.startswith("Quantity<"):
            if not vals: return num(0)
            return s.real(v0)
        m = re.match(r"decltype\(\s*(?:\w+::)*make<\s*(Histogram|LinearLinear|LinearLogarithmic|LogarithmicLinear|LogarithmicLogarithmic)\s*>\(", ty)
        if m and len(vals) == 1 and isinstance(v0, Seq) and len(v0.x) == 2: vals = list(v0.x)
        if m and len(vals) == 2 and all(isinstance(x, Seq) for x in vals): return Obj("interp", {"law": t.string(m.group(1)), "x": Seq(vals[0].x), "y": Seq(vals[1].x)})
        if "interpolation::" in ty and n.startswith("Table<"):
            if len(vals) == 1 and isinstance(v0, Seq) and v0.kind == "ilist" and len(v0.x) <= 2 and "table::Vector<" not in ty: vals = list(v0.x); v0 = vals[0] if vals else None
            if len(vals) == 2 and all(isinstance(x, Seq) for x in vals):
                m = re.search(r"interpolation::(Histogram|LinearLinear|LinearLogarithmic|LogarithmicLinear|LogarithmicLogarithmic)\b", ty)
                return Obj("interp", {"law": t.string(m.group(1) if m else "?"), "x": Seq(vals[0].x), "y": Seq(vals[1].x)})
            if len(vals) == 1 and isinstance(v0, Obj) and v0.name == "interp" and ("table::Vector<" not in ty or "t" in v0.f): return v0
            if len(vals) == 1 and isinstance(v0, Gate) and "table::Vector<" not in ty: return v0
            if len(vals) == 1 and isinstance(v0, Seq): return Obj("interp", {"law": t.string("regions"), "t": Seq(v0.x)})
            raise un()("interpolation table from %s" % [type(x).__name__ + ":" + str(x)[:60] for x in vals])
        if n.startswith("Dim<") : return num(1) if not vals else v0
        if n.startswith(("shared_ptr<", "unique_ptr<")): return v0 if vals else num(0, "i")
        if n in ("exception", "runtime_error", "logic_error", "domain_error", "invalid_argument", "out_of_range", "length_error", "range_error", "bad_alloc", "overflow_error", "underflow_error"): return Obj(ty, {})
        if n in ("ParticleID", "ParticlePairID", "ReactionID", "ReactionType"):
            if len(vals) == 1 and isinstance(v0, Seq) and v0.kind == "ilist": vals = list(v0.x); v0 = vals[0] if vals else None
            if len(vals) == 1: return v0
            if all(isinstance(x, T) and x.op == "str" for x in vals):    # identifiers are determined by their parts
                d = [x.d for x in vals]
                if n == "ParticlePairID": return t.string(d[0] + "," + d[1])
                if n == "ReactionID" and len(d) == 2: return t.string(d[0] + "->" + d[1])
                if n == "ReactionID" and len(d) == 3: return t.string(d[0] + "," + d[1] + "->" + (d[0] + "," + d[1] if d[2] == "elastic" else d[2]))
            return app(n, *[x for x in vals], ty="s") if all(isinstance(x, T) for x in vals) else Seq(vals)
        if n.startswith(("Matrix<", "DiagonalMatrix<", "Array<")):
            a = s.targs(n)
            if vals and isinstance(v0, (Mat, Gate)): return v0
            if n.startswith("DiagonalMatrix"):
                k = int(a[1]) if not vals else s.cint(v0)
                return Mat(k, k, [[UNDEF if i == j else num(0) for j in range(k)] for i in range(k)])
            r, c = int(a[1]), int(a[2])
            if vals and all(isinstance(x, T) and isnum(x) for x in vals) and -1 in (r, c):
                r = s.cint(v0); c = s.cint(vals[1]) if len(vals) > 1 else 1
            if r < 0: r, c = 0, max(c, 0)
            if c < 0: c = 0
            return Mat(r, c, [[UNDEF] * c for _ in range(r)])
        if n.startswith(("integral_constant", "integer_sequence", "allocator", "nullopt_t", "in_place", "piecewise", "integer_sequence<")): return TypeV(ty)
        if n.startswith("function<"): return v0
        if n.startswith("reverse_iterator<") or "iterator" in n: return v0 if vals else UNDEF
        if n in ("double", "float", "int", "unsigned int", "long", "unsigned long", "bool", "size_t"):
            return s.convert(v0, s.code_of(n)) if vals else s.zero(s.code_of(n))
        if len(vals) == 1: return v0 if not (isinstance(v0, Seq) and v0.kind == "ilist" and len(v0.x) == 1) else v0.x[0]
        return Obj(ty, {"#%d" % i: v for i, v in enumerate(vals)}, ty)
    def to_elem(s, x, el, st, fr):
        if isinstance(x, Gate): return merge(x.c, s.to_elem(x.a, el, st, fr), s.to_elem(x.b, el, st, fr))
        if isinstance(x, T):
            c = s.convert(x, el) if el[:1] in "biuf" else x
            if "complex<" in el[:16]: return cx(c)
            if short_(el).startswith("optional<"): return Opt(TRUE, c)
            return c
        if short_(el).startswith("variant<"): return s.mk_variant(el, x, st, fr)
        if isinstance(x, Seq) and x.kind == "ilist" and el.startswith("std::"): return s.builtin_ctor(el, [x], st, fr, None)
        return x
    # ------------------------------------------------------------------ calls of values
    def call_value(s, c, args, st, fr, e):
        v = s.rd(c, st)
        if isinstance(v, Gate): return s.evbranch(v.c, st, lambda a: s.rd(s.call_value(v.a, args, a, fr, e), a), lambda b: s.rd(s.call_value(v.b, args, b, fr, e), b))
        if isinstance(v, Mat):
            loc = c if isinstance(c, Loc) else s.alloc(st, v)
            if len(args) == 2: return loc + ("m", (s.rd(args[0], st), s.rd(args[1], st)))
            return loc + ("i", s.rd(args[0], st))
        if isinstance(v, Ptr): return s.call_value(s.deref(v, st, fr), args, st, fr, e)
        if isinstance(v, Fn) and not v.cands: return s.range_fn(v.name, args, st, fr, e)
        if isinstance(v, T): return s.uninterpreted("call", [v] + [s.rd(a, st) for a in args], st, e)
        if isinstance(v, Obj) and not isinstance(v.cls, dict):
            return s.builtin_call_obj(v, args, st, fr)
        return s.call_fn(c, args, st, fr)
    def builtin_call_obj(s, v, args, st, fr):
        a = [s.rd(x, st) for x in args]
        n = short_(v.name)
        base = n.split("<")[0]
        if base in ("plus", "minus", "multiplies", "divides", "less", "greater", "equal_to", "not_equal_to", "less_equal", "greater_equal") and len(a) == 2:
            op = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "less": "<", "greater": ">", "equal_to": "==", "not_equal_to": "!=", "less_equal": "<=", "greater_equal": ">="}[base]
            return s.binop(op, a[0], a[1], st, fr)
        if base == "negate": return s.negate(a[0], st)
        if base in ("logical_or", "logical_and") and len(a) == 2: return (lor if base == "logical_or" else land)(s.boolean(a[0]), s.boolean(a[1]))
        if base == "logical_not" and len(a) == 1: return lnot(s.boolean(a[0]))
        if base == "identity": return a[0]
        if v.name == "interp":
            ls = []
            if not leaves(v, ls): raise un()("call of " + v.name[:40])
            y = v.f.get("y")
            if y is not None and "Log" not in str(v.f["law"]) and y.x and all(isnum(q) and q.d == 0 for q in y.x): return num(0)
            return s.uninterpreted("interp", ls + a, st, {"t": "f64"})
        if "Table" in v.name or v.name == "table" or "fn" in v.f:
            if "fn" in v.f: return s.uninterpreted("table:" + str(v.f["fn"]), [x for x in a], st, {"t": "f64"})
            ls = []
            if not leaves(v, ls): raise un()("call of " + v.name[:40])
            return s.uninterpreted("table", ls + a, st, {"t": "f64"})
        if v.name == "overload":
            k = [c for c in v.f.values() if len(c.lam["ps"]) == len(a) and all(s.accepts(p, x) for p, x in zip(c.lam["ps"], a))]
            exact = [c for c in k if not any(p["t"].lstrip("c&").startswith("D") for p in c.lam["ps"])]
            k = exact or k
            if len(k) == 1: return s.call_closure(k[0], args, st, fr)
            raise un()("overload set with %d candidates" % len(k))
        raise un()("call of object " + v.name[:60])
    def range_fn(s, q, args, st, fr, e):
        n = q.split("::")[-1]; n0 = n
        if n.endswith("_fn"): n = n[:-3]
        if args and isinstance(s.rd(args[0], st), Gate) and n not in ("transform", "filter", "remove_if"):
            v = s.rd(args[0], st)
            return s.evbranch(v.c, st, lambda a: s.rd(s.range_fn(q, [v.a] + list(args[1:]), a, fr, e), a), lambda b: s.rd(s.range_fn(q, [v.b] + list(args[1:]), b, fr, e), b))
        vals = [s.rd(a, st) for a in args]
        vals = [s.seq(v, st) if isinstance(v, Obj) and v.name == "refview" else v for v in vals]
        isrange = lambda v: isinstance(v, (Seq, Arr, MapV)) or isinstance(v, Gate) and isrange(v.a)
        def view(f):
            if vals and isrange(vals[0]) and len(vals) == 2: return f(vals[0], vals[1], st)
            return View(lambda r, q: f(r, vals[0] if vals else None, q))
        if n in ("transform",):
            def f(r, g, q):
                return s.over(r, q, lambda v, q2: Seq([s.rd(s.call_fn(g, [x], q2, fr), q2) for x in s.seq(v, q2).x], "view"))
            if len(vals) == 1 and isinstance(vals[0], Closure) and (vals[0].lam.get("rt") or "").startswith("&"): return View(lambda r, q: f(r, vals[0], q), vals[0])
            if len(vals) == 3: # two-range transform
                return Seq([s.rd(s.call_fn(vals[2], [x, y], st, fr), st) for x, y in zip(s.seq(vals[0], st).x, s.seq(vals[1], st).x)], "view")
            return view(f)
        if n in ("filter", "remove_if"):
            def f(r, g, q):
                def one(v, q2):
                    acc = Seq([], "view")
                    for x in s.seq(v, q2).x:
                        c = s.fold(s.boolean(s.rd(s.call_fn(g, [x], q2, fr), q2)), q2.pc)
                        if n == "remove_if": c = lnot(c)
                        def ext(w):
                            if isinstance(w, Gate): return merge(w.c, ext(w.a), ext(w.b))
                            return Seq(w.x + (x,), "view")
                        acc = ext(acc) if c is TRUE else acc if c is FALSE else merge(c, ext(acc), acc)
                    return acc
                return s.over(r, q, one)
            return view(f)
        if n in ("take", "take_exactly", "drop", "drop_exactly"):
            def f(r, k, q):
                return s.over(r, q, lambda v, q2: Seq(s.seq(v, q2).x[:s.cint(k)] if n.startswith("take") else s.seq(v, q2).x[s.cint(k):], "view"))
            return view(f)
        if n == "stride": return view(lambda r, k, q: s.over(r, q, lambda v, q2: Seq(s.seq(v, q2).x[::s.cint(k)], "view")))
        if n == "chunk":
            return view(lambda r, k, q: s.over(r, q, lambda v, q2: Seq([Seq(s.seq(v, q2).x[i:i + s.cint(k)], "view") for i in range(0, len(s.seq(v, q2).x), s.cint(k))], "view")))
        if n == "group_by":
            def f(r, g, q):
                def one(v, q2):
                    xs = s.seq(v, q2).x; groups = Seq([], "view")
                    def add_(gs, x, q3):
                        if isinstance(gs, Gate): return s.evbranch(gs.c, q3, lambda a: add_(gs.a, x, a), lambda b: add_(gs.b, x, b))
                        if not gs.x: return Seq([Seq([x], "view")], "view")
                        c = s.fold(s.boolean(s.rd(s.call_fn(g, [gs.x[-1].x[0], x], q3, fr), q3)), q3.pc)
                        return merge(c, Seq(gs.x[:-1] + (Seq(gs.x[-1].x + (x,), "view"),), "view"), Seq(gs.x + (Seq([x], "view"),), "view"))
                    for x in xs: groups = add_(groups, x, q2)
                    return groups
                return s.over(r, q, one)
            return view(f)
        if n == "all": return vals[0]
        if n == "reverse": return s.over(vals[0], st, lambda v, q: Seq(s.seq(v, q).x[::-1], "view"))
        if n == "join": return s.over(vals[0], st, lambda v, q: s.join_view(v, q))
        if n in ("iota", "indices", "ints", "closed_indices", "closed_iota"):
            if n in ("indices", "closed_indices") and len(vals) == 1: a, b = num(0, vals[0].ty), vals[0]
            elif len(vals) == 2: a, b = vals
            else: return Obj("iota", {"from": vals[0]})
            lo, hi = s.cint(a), s.cint(b) + (1 if n.startswith("closed") else 0)
            return Seq([num(k, a.ty if a.ty in t.INTS else "i") for k in range(lo, hi)], "view")
        if n == "repeat_n": return Seq([vals[0]] * s.cint(vals[1]), "view")
        if n == "single": return Seq([vals[0]], "view")
        if n == "concat":
            def go(i, acc, q):
                if i == len(vals): return Seq(acc, "view")
                return s.over(vals[i], q, lambda v, q2: go(i + 1, acc + list(s.seq(v, q2).x), q2))
            return go(0, [], st)
        if n in ("zip", "zip_with"):
            rs = vals if n == "zip" else vals[1:]
            def go(i, acc, q):
                if i == len(rs):
                    m = min([len(a) for a in acc if a is not None] or [0])
                    acc = [a if a is not None else None for a in acc]
                    rows = []
                    for k in range(m): rows.append([a[k] if a is not None else s.arith("+", rs[j].f["from"], num(k, "i"), q) for j, a in enumerate(acc)])
                    if n == "zip": return Seq([Seq(r, "tuple") for r in rows], "view")
                    return Seq([s.rd(s.call_fn(vals[0], r, q, fr), q) for r in rows], "view")
                if isinstance(rs[i], Obj) and rs[i].name == "iota": return go(i + 1, acc + [None], q)
                return s.over(rs[i], q, lambda v, q2: go(i + 1, acc + [list(s.seq(v, q2).x)], q2))
            return go(0, [], st)
        if n == "linear_distribute":
            a, b, k = vals; k = s.cint(k)
            if k == 1: return Seq([b], "view")
            return Seq([s.arith("+", a, s.arith("/", s.arith("*", s.arith("-", b, a, st), num(i), st), num(k - 1), st), st) for i in range(k)], "view")
        if n in ("accumulate", "for_each", "any_of", "all_of", "none_of", "find_if", "count_if", "distance", "min", "max"):
            return s.builtin(Fn("ranges::" + n), args, st, fr, e)
        if n in ("to_vector",): return s.over(vals[0], st, lambda v, q: Seq(s.seq(v, q).x, "vector"))
        if n in ("sort", "unique", "stable_sort"):
            if vals and isrange(vals[0]): return s.action(n, vals[0], st, fr, *vals[1:2])
            return View(lambda r, q: s.action(n, r, q, fr, *vals[:1]))
        if n in ("plus", "minus", "multiplies"): return s.builtin_call_obj(Obj("ranges::" + n, {}), args, st, fr)
        if n in ("cartesian_product",) and len(vals) == 2:
            return Seq([Seq([x, y], "tuple") for x in s.seq(vals[0], st).x for y in s.seq(vals[1], st).x], "view")
        return s.builtin(Fn(q), args, st, fr, e)
    def join_view(s, v, st):
        def go(i, acc, q):
            xs = s.seq(v, q).x
            if i == len(xs): return Seq(acc, "view")
            return s.over(xs[i], q, lambda w, q2: go(i + 1, acc + list(s.seq(w, q2).x), q2))
        return go(0, [], st)
    def action(s, n, r, st, fr, rel=None):
        def one(v, q):
            xs = list(s.seq(v, q).x)
            if n in ("sort", "stable_sort"): return Seq(s.ordered_insert(xs, s.lessf(rel, q, fr), q), "vector")
            acc = Seq(xs[:1], "vector")
            def add_(w, x):
                if isinstance(w, Gate): return merge(w.c, add_(w.a, x), add_(w.b, x))
                c = s.fold(s.binop("==", w.x[-1], x, q, fr), q.pc) if rel is None else s.fold(s.boolean(s.rd(s.call_fn(rel, [w.x[-1], x], q, fr), q)), q.pc)
                return merge(c, w, Seq(w.x + (x,), "vector"))
            for x in xs[1:]: acc = add_(acc, x)
            return acc
        return s.over(r, st, one)
    def pipe(s, x, y, st, fr, e):
        v = s.rd(x, st); f = s.rd(y, st)
        if isinstance(v, Obj) and v.name == "refview": v = s.seq(v, st)
        if isinstance(f, View) and f.ref and isinstance(x, Loc) and isinstance(v, Seq): return Obj("refview", {"g": f.ref, "base": x})
        if isinstance(v, (View, Fn)) or isinstance(v, Obj) and not isinstance(v.cls, dict) and re.search(r"(^|::)(actions|views?|action|view)::|_fn\b", v.name):
            return View(lambda r, q: s.pipe(s.pipe(r, v, q, fr, e), f, q, fr, e))      # adaptors composed before they meet a range
        if isinstance(f, View): return f.f(v, st)
        if isinstance(f, Fn):
            n = f.name.split("::")[-1]
            if n.endswith("_fn"): n = n[:-3]
            if n in ("sort", "unique", "stable_sort"): return s.action(n, v, st, fr)
            return s.range_fn(f.name, [v], st, fr, e)
        if isinstance(f, Obj) and not isinstance(f.cls, dict):
            n = short_(f.name).replace("_fn", "")
            if n in ("sort", "unique"):
                return s.action(n, v, st, fr)
            return s.range_fn(n, [v], st, fr, e)
        return s.binop("|", v, f, st, fr)
    def stream(s, op, x, y, st, fr):
        v = s.rd(x, st)
        if isinstance(v, T) and v.ty in t.INTS: return s.arith(op, v, y, st)
        raise un()("stream operator")

def short_(n):
    from interp import short; return short(n)
def base_t_(c):
    from interp import base_t; return base_t(c)
