"""Structural analyses over the type-checked program.  Each returns (findings, stats); a finding is (key, location, message)."""
import re
SCALAR = re.compile(r"^(c)?(f32|f64|f80|i8|i16|i32|i64|u8|u16|u32|u64|bool|p:.*)$")

def kids(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if isinstance(v, (dict, list)): yield from kids_(v)
def kids_(v):
    if isinstance(v, dict): yield v
    else:
        for x in v:
            if isinstance(x, dict): yield x
            elif isinstance(x, list): yield from kids_(x)
def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x or "e" in x or "b" in x or "a" in x or "init" in x: yield x
            st.extend(kids(x))
def bodies(f):
    for i in f.get("inits", ()):
        if i.get("e"): yield i["e"]
    if f.get("b"): yield f["b"]

# ---------------------------------------------------------------- C10
def odr(ir):
    out, n, nv = [], 0, 0
    for f in ir.d["functions"]:
        if not ir.isrepo(f) or f.get("inst"): continue
        n += 1
        if f.get("linkage") != "ext" or f.get("inline") or f.get("constexpr") or f.get("tp") or f.get("templated") or f.get("deleted") or f.get("defaulted"): continue
        out.append(("odr:" + f["q"], ir.where(f["l"]), "%s%s has external linkage and is not inline: two translation units that include it do not link" % (f["q"], "<%s>" % ", ".join(f["spec"]) if f.get("spec") else "")))
    for g in ir.d["globals"]:
        if not ir.isrepo(g) or g.get("inst"): continue
        nv += 1
        if g.get("linkage") == "ext" and g.get("def") and not g.get("inline") and not g.get("constexpr") and not g.get("tmpl"):
            out.append(("odr:" + g["q"], ir.where(g["l"]), "variable %s has external linkage and is not inline" % g["q"]))
    nd = 0
    for x in ir.diags:
        if x["level"] >= 4 and "redefinition" in x["msg"] and x.get("file", "").startswith(ir.src):
            out.append(("odr:redefinition:%s" % x["msg"], "%s:%s" % (x["file"], x["line"]), "defined twice when the header is included twice: " + x["msg"])); nd += 1
    return out, {"functions": n, "variables": nv, "rule": "every definition with external linkage is inline, constexpr or templated"}

# ---------------------------------------------------------------- C11
def initialised(ir):
    out, nc, nf, nfun = [], 0, 0, 0
    ctors = {}
    for f in ir.d["functions"]:
        if f.get("ctor") and ir.isrepo(f): ctors.setdefault(f["clsid"], []).append(f)
    for c in ir.d["classes"]:
        if not ir.isrepo(c): continue
        need = [x for x in c["fields"] if x.get("trivial") and not x.get("init")]
        nf += len(c["fields"])
        for f in ctors.get(c["id"], ()):
            if f.get("deleted") or f.get("defaulted"): continue
            if any(i.get("deleg") for i in f.get("inits", ())): continue
            nc += 1
            done = {i.get("f") for i in f.get("inits", ()) if i.get("f") and i.get("e")}
            for b in bodies(f):
                for x in walk(b):
                    if x.get("k") == "mem" and (x.get("e") or {}).get("k") == "this": done.add(x["n"]) if b is f.get("b") else None
            for x in need:
                if x["n"] not in done: out.append(("init:%s::%s" % (c["q"], x["n"]), ir.where(f["l"]), "constructor of %s leaves data member %s (%s) indeterminate" % (c["q"], x["n"], ir.where(x["l"]))))
    seen = set()
    for x in ir.diags:
        if x["level"] == 3 and x["flag"] in ("uninitialized", "sometimes-uninitialized", "return-type", "return-stack-address", "dangling", "dangling-field") and x.get("file", "").startswith(ir.src):
            k = (x["file"], x["line"], x["msg"])
            if k not in seen: seen.add(k); out.append(("init:%s" % x["msg"], "%s:%s" % (x["file"], x["line"]), x["msg"]))
    # locals read although no assignment reaches the read on any path
    for f in ir.d["functions"]:
        if not ir.isrepo(f) or not f.get("b"): continue
        nfun += 1
        for b in [f["b"]]:
            for v, line in Unassigned(b).run(): out.append(("init:%s:%s" % (f["q"], v), ir.where(line), "%s reads local variable %s before anything is assigned to it" % (f["q"], v)))
    uniq = {(k, w): (k, w, m) for k, w, m in out}
    return list(uniq.values()), {"constructors": nc, "data_members": nf, "functions": nfun, "rule": "every trivially constructible member is initialised by each constructor; no read of an unassigned local (definite-assignment dataflow; clang's CFG uninitialised-value analysis)"}
class Unassigned:
    """may-assigned dataflow over the structured program; reads outside it are definite errors"""
    def __init__(s, b): s.b = b; s.track = {}; s.found = []
    def run(s):
        s.st(s.b, set()); return s.found
    def assigns(s, n):
        r = set()
        for x in walk(n):
            k = x.get("k")
            if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "<=", ">=", "!="): r |= s.refs(x["x"])
            elif k == "un" and x["op"] in ("&", "++", "--"): r |= s.refs(x["e"])
            elif k in ("call", "opcall", "ctor", "uctor", "lambda", "ilist", "opaque"): r |= s.refs(x)
            elif k == "var": r.add(x["id"])
        return r
    def refs(s, n): return {x["id"] for x in walk(n) if x.get("k") == "ref" and "id" in x} if isinstance(n, dict) else set()
    def ex(s, e, a):
        """reads, then writes, of an expression; a is extended in place"""
        if not isinstance(e, dict): return
        k = e.get("k")
        if k == "ref":
            if e.get("id") in s.track and e["id"] not in a: s.found.append((s.track[e["id"]], e["l"])); a.add(e["id"])
            return
        if k == "bin":
            op = e["op"]
            if op == "=":
                s.ex(e["y"], a)
                if (e["x"] or {}).get("k") == "ref": a.add(e["x"].get("id"))
                else: s.lv(e["x"], a)
                return
            if op in ("&&", "||"):
                s.ex(e["x"], a); b = set(a); s.ex(e["y"], b); a |= b; return
            s.ex(e["x"], a); s.ex(e["y"], a); return
        if k == "un" and e["op"] == "&": a |= s.refs(e["e"]); return
        if k == "cond":
            s.ex(e["c"], a); b, c = set(a), set(a); s.ex(e["x"], b); s.ex(e["y"], c); a |= b | c; return
        if k in ("call", "opcall", "ctor", "uctor", "lambda", "opaque", "recovery", "sub", "mem", "new"):
            a |= s.refs(e); return          # may be bound to a reference and assigned there
        for x in kids(e): s.ex(x, a)
    def lv(s, e, a): a |= s.refs(e)
    def st(s, n, a):
        if not isinstance(n, dict): return
        k = n.get("k")
        if k == "decl":
            for v in n["a"]:
                if v.get("k") != "var": continue
                if v.get("init"): s.ex(v["init"], a); a.add(v["id"])
                elif SCALAR.match(v["t"]) and not v.get("static"): s.track[v["id"]] = v["n"]; a.discard(v["id"])
                else: a.add(v["id"])
            return
        if k == "block":
            for x in n["a"]: s.st(x, a)
            return
        if k == "expr": s.ex(n["e"], a); return
        if k == "return": s.ex(n.get("e"), a); return
        if k == "if":
            s.st(n.get("init"), a); s.st(n.get("cv"), a); s.ex(n["c"], a); b, c = set(a), set(a); s.st(n["x"], b); s.st(n.get("y"), c); a |= b | c; return
        if k in ("for", "while", "do", "rfor"):
            if k in ("for", "rfor"): s.st(n.get("i"), a)
            if k == "rfor": s.ex(n.get("r"), a); a.add(n["v"]["id"])
            a |= s.assigns(n)                # the previous iteration
            s.st(n.get("cv"), a); s.ex(n.get("c"), a); s.st(n["b"], a); 
            if k == "for": s.ex(n.get("n"), a)
            return
        if k == "switch": a |= s.assigns(n["b"]); s.ex(n["c"], a); s.st(n["b"], a); return
        if k in ("case", "default", "label"): s.st(n["s"], a); return
        if k == "try":
            a |= s.assigns(n["b"]); s.st(n["b"], a)
            for h in n["h"]: s.st(h["b"], a)

# ---------------------------------------------------------------- C12
TRIV = re.compile(r"^(c|&|c&|&&)*(f32|f64|f80|i8|i16|i32|i64|u8|u16|u32|u64|bool|p:|dimwits::|std::complex<)")
def is_move(e):
    if not isinstance(e, dict) or e.get("k") != "call" or len(e.get("a", ())) != 1: return None
    f = e.get("f") or {}
    if f.get("q") == "std::move" or (f.get("k") == "dref" and f.get("n") == "move" and "std" in f.get("qual", "")):
        x = e["a"][0]
        if isinstance(x, dict) and x.get("k") == "ref" and x.get("d") in ("param", "local", "binding") and not TRIV.match(x.get("t", "")): return x
    return None
class Moved:
    def __init__(s): s.found = []; s.moves = 0
    def ex(s, e, m, unseq=None):
        if not isinstance(e, dict): return
        x = is_move(e)
        if x is not None:
            s.moves += 1
            if x["id"] in m: s.found.append((x["n"], e["l"], m[x["id"]]))
            m[x["id"]] = e["l"]; return
        k = e.get("k")
        if k == "ref":
            if e.get("id") in m: s.found.append((e["n"], e["l"], m[e["id"]]))
            return
        if k == "bin" and e["op"] == "=" or k == "opcall" and e.get("op") == "=":
            l, r = (e["x"], e["y"]) if k == "bin" else (e["a"] + [None, None])[:2]
            s.ex(r, m)
            if (l or {}).get("k") == "ref": m.pop(l.get("id"), None)
            else: s.ex(l, m)
            return
        if k == "bin" and e["op"] in ("&&", "||"): s.ex(e["x"], m); b = dict(m); s.ex(e["y"], b); m.update(b); return
        if k == "cond":
            s.ex(e["c"], m); b, c = dict(m), dict(m); s.ex(e["x"], b); s.ex(e["y"], c); m.update(b); m.update(c); return
        if k == "lambda":
            for c in e["caps"]:
                if c.get("init"): s.ex(c["init"], m)
                elif c.get("id") in m and not c.get("byref"): s.found.append((c["n"], e["l"], m[c["id"]]))
            b = dict(m); s.st(e["b"], b); return
        if k == "call" and (e.get("f") or {}).get("k") == "mem" and e["f"]["n"] in ("clear", "assign", "reset") and (e["f"].get("e") or {}).get("k") == "ref":
            for x in e["a"]: s.ex(x, m)
            m.pop(e["f"]["e"].get("id"), None); return
        if k in ("call", "ctor", "opcall", "uctor", "plist"):
            args = list(e.get("a", ()))
            if k == "call": s.ex(e.get("f"), m)
            before = dict(m)
            for x in args:          # std::move only casts: the object is emptied when the callee takes it, after all arguments are evaluated
                b = dict(before); s.ex(x, b)
                for i, w in b.items():
                    if i not in before: m[i] = w
            return
        for x in kids(e): s.ex(x, m)
    def st(s, n, m):
        """returns False when control cannot pass on"""
        if not isinstance(n, dict): return True
        k = n.get("k")
        if k == "decl":
            for v in n["a"]:
                if v.get("k") == "var":
                    s.ex(v.get("init"), m); m.pop(v["id"], None)
            return True
        if k == "block":
            for x in n["a"]:
                if not s.st(x, m): return False
            return True
        if k == "expr":
            s.ex(n["e"], m); return not (isinstance(n["e"], dict) and n["e"].get("k") == "throw")
        if k == "return": s.ex(n.get("e"), m); return False
        if k == "if":
            s.st(n.get("init"), m); s.st(n.get("cv"), m); s.ex(n["c"], m); b, c = dict(m), dict(m)
            x = s.st(n["x"], b); y = s.st(n.get("y"), c)
            m.clear()
            if x: m.update(b)
            if y: m.update(c)
            return x or y
        if k in ("for", "while", "do", "rfor"):
            if k in ("for", "rfor"): s.st(n.get("i"), m)
            if k == "rfor": s.ex(n.get("r"), m)
            for _ in range(2):               # second pass: moved by the previous iteration
                b = dict(m); nf = len(s.found)
                s.ex(n.get("c"), b) if k != "do" else None
                if k == "rfor": b.pop(n["v"]["id"], None)
                go = s.st(n["b"], b)
                if k == "for" and go: s.ex(n.get("n"), b)
                if k == "do": s.ex(n.get("c"), b)
                if not go: break
                m.update(b)
            return True
        if k == "switch":
            s.ex(n["c"], m); base = dict(m); cur = dict(m); acc = dict(m)
            for x in (n["b"] or {}).get("a", ()):
                while isinstance(x, dict) and x.get("k") in ("case", "default"): cur = dict(base); x = x["s"]
                if isinstance(x, dict) and x.get("k") == "break": acc.update(cur); continue
                if s.st(x, cur): acc.update(cur)
            m.update(acc); return True
        if k in ("case", "default", "label"): return s.st(n["s"], m)
        if k == "try":
            b = dict(m); s.st(n["b"], b)
            for h in n["h"]: c = dict(m); s.st(h["b"], c); m.update(c)
            m.update(b); return True
        if k in ("break", "continue"): return True
        return True
def moved(ir):
    out, n, mv = [], 0, 0
    for f in ir.d["functions"]:
        if not ir.isrepo(f) or f.get("inst"): continue
        n += 1; M = Moved(); m = {}
        for i in f.get("inits", ()): M.ex(i.get("e"), m)
        M.st(f.get("b"), m); mv += M.moves
        for v, line, at in M.found: out.append(("moved:%s:%s" % (f["q"], v), ir.where(line), "%s reads %s after it was moved from at %s" % (f["q"], v, ir.where(at))))
    return list({(k, w): (k, w, x) for k, w, x in out}.values()), {"functions": n, "moves": mv, "rule": "no read of an object on a path after std::move of it (forward dataflow, member initialisers in declaration order)"}

# ---------------------------------------------------------------- C13
def hidden_state(ir):
    out, n, nv = [], 0, 0
    for c in ir.d["classes"]:
        if not ir.isrepo(c): continue
        for x in c["fields"]:
            nv += 1
            if x.get("mutable"): out.append(("state:%s::%s" % (c["q"], x["n"]), ir.where(x["l"]), "mutable data member %s::%s" % (c["q"], x["n"])))
    for g in ir.d["globals"]:
        if not ir.isrepo(g): continue
        nv += 1
        if not g.get("const") and not g.get("constexpr"): out.append(("state:" + g["q"], ir.where(g["l"]), "writable variable %s outside any object" % g["q"]))
    for f in ir.d["functions"]:
        if not ir.isrepo(f): continue
        n += 1
        for b in bodies(f):
            for x in walk(b):
                if x.get("k") == "var" and (x.get("static") or x.get("tls")) and not x.get("const") and not x.get("constexpr"): out.append(("state:%s:%s" % (f["q"], x["n"]), ir.where(x["l"]), "static local variable %s of %s keeps its value between calls" % (x["n"], f["q"])))
                if x.get("k") == "cast" and x.get("constcast"): out.append(("state:%s:const_cast" % f["q"], ir.where(x["l"]), "const_cast in %s" % f["q"]))
                if x.get("k") == "lambda" and x.get("mutable"): out.append(("state:%s:mutable-lambda" % f["q"], ir.where(x["l"]), "mutable lambda in %s" % f["q"]))
    return list({(k, w): (k, w, x) for k, w, x in out}.values()), {"functions": n, "variables": nv, "rule": "no writable static, global, thread-local or mutable member, no const_cast, no stateful lambda"}

# ---------------------------------------------------------------- C16
def dimensions(ir):
    out = []
    for x in ir.diags:
        if x["level"] >= 4 and "DIMENSION-MISMATCH" in x["msg"]:
            out.append(("dim:%s" % x["msg"], "%s:%s" % (x.get("file"), x.get("line")), x["msg"]))
    return out, {"functions": sum(1 for f in ir.d["functions"] if ir.isrepo(f)), "rule": "type-level dimensional analysis"}

# ---------------------------------------------------------------- C06
def leaks(ir):
    """an owning raw allocation must not exist: any exception between new and delete loses it"""
    out, n, na = [], 0, 0
    for f in ir.d["functions"]:
        if not ir.isrepo(f): continue
        n += 1
        for b in bodies(f):
            news = [x for x in walk(b) if x.get("k") == "new" and not x.get("place")]
            calls_alloc = [x for x in walk(b) if x.get("k") == "call" and (x.get("f") or {}).get("q") in ("malloc", "calloc", "std::malloc", "std::calloc", "realloc", "std::realloc")]
            na += len(news) + len(calls_alloc)
            if not news and not calls_alloc: continue
            for x in news + calls_alloc:
                v = owner(b, x)
                if v is None: continue       # handed straight to a smart pointer or returned
                if leaky(f, b, x, v): out.append(("leak:" + f["q"], ir.where(x["l"]), "%s: memory allocated here is lost when a later call throws or control leaves before it is released" % f["q"]))
    return list({(k, w): (k, w, x) for k, w, x in out}.values()), {"functions": n, "allocations": na, "rule": "every owning allocation is released on every path, including exceptional ones"}
def owner(b, new):
    for x in walk(b):
        if x.get("k") == "var" and x.get("init") is new: return x["id"] if x["t"].startswith(("p:", "cp:")) else None
        if x.get("k") == "bin" and x["op"] == "=" and x.get("y") is new and (x.get("x") or {}).get("k") == "ref": return x["x"]["id"]
        if x.get("k") in ("cast", "icast") and x.get("e") is new: return owner(b, x)
    return None
PURE = re.compile(r"^(std::)?(sqrt|exp|log|sin|cos|tan|atan|atan2|asin|acos|pow|abs|fabs|fmax|fmin|real|imag|complex)$")
def leaky(f, b, new, v):
    """walk the statements after the allocation in order: anything that may throw, return or fall off the end before delete v"""
    state = {"on": False, "bad": False}
    def maythrow(x):
        k = x.get("k")
        if k == "throw": return True
        if k == "new": return True
        if k in ("call", "opcall", "ctor"):
            q = (x.get("f") or {}).get("q", x.get("q", ""))
            if k == "ctor": return not x.get("t", "").startswith(("std::complex", "f64", "i32"))
            return not PURE.match(q) and not q.startswith(("std::complex", "std::operator"))
        return False
    def ex(e):
        if not isinstance(e, dict) or state["bad"]: return
        for y in kids(e): ex(y)
        if e is new: state["on"] = True; return
        if e.get("k") == "delete" and any(z.get("k") == "ref" and z.get("id") == v for z in walk(e)): state["on"] = False; return
        if state["on"] and maythrow(e): state["bad"] = True
    def st(n, tried):
        if not isinstance(n, dict) or state["bad"]: return
        k = n.get("k")
        if k == "return":
            ex(n.get("e")); 
            if state["on"]: state["bad"] = not any(z.get("k") == "ref" and z.get("id") == v for z in walk(n.get("e") or {}))
            return
        if k == "try":
            if any("v" not in h and any(z.get("k") == "delete" for z in walk(h["b"])) for h in n["h"]): return
            st(n["b"], tried); return
        if k == "expr": ex(n["e"]); return
        if k == "decl":
            for x in n["a"]: ex(x)
            return
        for x in kids(n): st(x, tried) if x.get("k") in ("block", "if", "for", "while", "do", "rfor", "switch", "case", "default", "decl", "expr", "return", "try", "label") else ex(x)
    st(b, False)
    return state["bad"] or state["on"]
# ---------------------------------------------------------------- C30
def falls(ir):
    """no function that returns a value lets control reach its end, and no switch group runs on into the next one"""
    out, nf, ns = [], 0, 0
    throwers = set()
    def alltrue(c):
        while isinstance(c, dict) and c.get("k") in ("cast", "icast", "paren"): c = c.get("e")
        return isinstance(c, dict) and (c.get("k") in ("bool", "lit", "int") and c.get("v") in (True, 1, "1", "true"))
    def leaves(e):
        """an expression that never completes normally"""
        if not isinstance(e, dict): return False
        k = e.get("k")
        if k == "throw": return True
        if k in ("cast", "icast", "paren"): return leaves(e.get("e"))
        if k == "call":
            f = e.get("f") or {}; q = f.get("q") or f.get("n") or ""
            return f.get("id") in throwers or q.lstrip(":") in ("std::terminate", "std::abort", "abort", "std::exit", "exit", "std::rethrow_exception", "std::throw_with_nested", "__builtin_unreachable")
        return False
    def flow(n, brk):
        """can control leave statement n normally?  brk: list receiving True when a break is reached"""
        if not isinstance(n, dict): return True
        k = n.get("k")
        if k == "block":
            on = True
            for x in n["a"]:
                if isinstance(x, dict) and x.get("k") in ("case", "default", "label"): on = True
                if on: on = flow(x, brk)
            return on
        if k == "return": return False
        if k == "break": brk.append(True); return False
        if k == "continue": return False
        if k == "expr": return not leaves(n.get("e"))
        if k == "if":
            a = flow(n.get("x"), brk)
            b = flow(n["y"], brk) if n.get("y") else True
            if alltrue(n.get("c")): return a
            return a or b
        if k in ("case", "default", "label"): return flow(n.get("s"), brk)
        if k in ("while", "for"):
            b = []; flow(n.get("b"), b)
            never = alltrue(n.get("c")) if k == "while" else (n.get("c") is None or alltrue(n["c"]))
            return bool(b) or not never
        if k == "do":
            b = []; flow(n.get("b"), b); return bool(b) or not alltrue(n.get("c"))
        if k == "rfor": flow(n.get("b"), []); return True
        if k == "switch":
            b = []; end = flow(n.get("b"), b)
            return end or bool(b) or not hasdefault(n.get("b"))
        if k == "try":
            r = flow(n.get("b"), brk)
            for h in n.get("h", ()): r = flow(h.get("b"), brk) or r
            return r
        return True
    def inner(n):
        """statements and expressions of n outside nested lambdas and nested switches"""
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, list): st.extend(x); continue
            if not isinstance(x, dict): continue
            yield x
            for v in x.values():
                if isinstance(v, list): st.extend(y for y in v if not (isinstance(y, dict) and y.get("k") in ("lambda", "switch")))
                elif isinstance(v, dict) and v.get("k") not in ("lambda", "switch"): st.append(v)
    def hasdefault(b): return any(x.get("k") == "default" for x in inner(b))
    def labels(x):
        """statements under the labels of x, and whether x is labelled"""
        lab = False
        while isinstance(x, dict) and x.get("k") in ("case", "default"): lab = True; x = x.get("s")
        return lab, x
    def lambdas(b): return [x for x in walk(b) if x.get("k") == "lambda"]
    def returns(b):
        st = [b]
        while st:
            x = st.pop()
            if isinstance(x, list): st.extend(x); continue
            if not isinstance(x, dict) or x.get("k") == "lambda": continue
            if x.get("k") == "return" and x.get("e"): yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
    def switches(b, q):
        nonlocal ns
        for sw in walk(b):
            if sw.get("k") != "switch": continue
            ns += 1
            body = sw.get("b") or {}; on = False; last = None
            for x in (body["a"] if body.get("k") == "block" else [body]):
                lab, y = labels(x)
                if lab and on and not (isinstance(last, dict) and last.get("k") == "nop" and last.get("ft")): out.append(("case:%s" % q, ir.where(x.get("l", "")), "%s: the statements of one case run on into the next case" % q))
                if lab: on = True
                if on: on = flow(y, [])
                last = y
    def check(b, q, l, void):
        nonlocal nf
        nf += 1
        if not void and next(returns(b), None) is not None and flow(b, []): out.append(("end:%s" % q, ir.where(l), "%s returns a value on some paths, and control can reach its end on others (no return and no exception)" % q))
    fs = [f for f in ir.d["functions"] if ir.isrepo(f) and not f.get("inst") and f.get("b")]
    # functions that never return normally: throw on every path
    for _ in range(3):
        for f in fs:
            if f["id"] not in throwers and next(returns(f["b"]), None) is None and not f.get("ctor") and not flow(f["b"], []): throwers.add(f["id"])
    seen = set()
    for f in fs:
        rts = f.get("rts") or ""
        switches(f["b"], f["q"])
        check(f["b"], f["q"], f["l"], f.get("ctor") or rts == "void")
        if rts not in ("void", "") and not f.get("ctor") and next(returns(f["b"]), None) is None and flow(f["b"], []) and "auto" not in rts and f["n"] != "main" and not f["n"].startswith("~"): out.append(("end:%s" % f["q"], ir.where(f["l"]), "%s is declared to return %s and never does" % (f["q"], rts)))
        for x in lambdas(f["b"]):
            if x.get("id") in seen: continue
            seen.add(x.get("id")); check(x.get("b"), f["q"] + "::lambda", x.get("l", f["l"]), x.get("rts") == "void")
    uniq = {(k, w): (k, w, m) for k, w, m in out}
    return list(uniq.values()), {"functions": nf, "switches": ns, "rule": "control never reaches the end of a function or closure that returns a value, and no non-empty case group runs on into the next one"}

LINTS = {"C06": [("leaks", leaks)], "C10": [("one-definition rule", odr)], "C11": [("initialisation", initialised)], "C12": [("use after move", moved)], "C13": [("hidden state", hidden_state)], "C16": [("dimensions", dimensions)], "C30": [("missing results", falls)]}
