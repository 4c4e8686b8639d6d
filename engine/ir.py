"""Front end driver: type-checks /repo's current sources (plus the specification headers) with clang and
loads the extracted intermediate representation."""
import json, os, re, subprocess, sys, tempfile, shutil, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CLANG_RES = "/usr/lib/llvm-18/lib/clang/18"

def repo_sources():
    out = []
    for d, ds, fs in os.walk(SRC):
        ds[:] = sorted(x for x in ds if x != "test")
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".hpp", ".h", ".cpp"))]
    return out

def digest(extra=()):
    h = hashlib.sha256()
    for f in repo_sources():
        h.update(f.encode()); h.update(open(f, "rb").read())
    for root in ("stubs", "spec", "extractor"):
        for d, ds, fs in os.walk(os.path.join(VERIF, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    for e in extra: h.update(e.encode())
    return h.hexdigest()

def ensure_extractor():
    r = subprocess.run(["bash", os.path.join(VERIF, "build_extractor.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-2000:]); print("ANALYSIS-BROKEN: the extractor does not build"); sys.exit(2)

def forward_headers(dst):
    """one forwarding header per range-v3 header the sources name"""
    names = {"range/v3/all.hpp"}
    for f in repo_sources():
        for m in re.finditer(r'#\s*include\s*[<"](range/v3/[^>"]+)[>"]', open(f, errors="replace").read()): names.add(m.group(1))
    for n in names:
        p = os.path.join(dst, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as o: o.write('#pragma once\n#include "range_model.hpp"\n')

def extract(source, keep=False, defs=()):
    """source: path of the translation unit below /verif; returns the IR dictionary"""
    ensure_extractor()
    cache = os.path.join(VERIF, ".cache"); os.makedirs(cache, exist_ok=True)
    key = digest((source,) + tuple(defs)); cf = os.path.join(cache, os.path.basename(source) + "." + key[:24] + ".json")
    if os.path.exists(cf):
        try: return json.load(open(cf))
        except Exception: pass
    tmp = tempfile.mkdtemp(prefix="vp-ir-")
    try:
        fwd = os.path.join(tmp, "fwd"); os.makedirs(fwd); forward_headers(fwd)
        out = os.path.join(tmp, "ir.json")
        cmd = [os.path.join(VERIF, "build", "extract"), out, source, SRC + "/," + os.path.join(VERIF, "spec") + "/", "--",
               "-std=c++17", "-ferror-limit=0", "-Wno-everything", "-Wuninitialized", "-Wsometimes-uninitialized", "-Wreturn-type", "-Wreturn-stack-address", "-Wdangling", "-Wreorder-ctor", "-I" + fwd, "-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(VERIF, "spec"),
               "-I/usr/include/eigen3", "-I" + SRC, "-resource-dir", CLANG_RES] + ["-D" + x for x in defs]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        if not os.path.exists(out):
            print("ANALYSIS-BROKEN: clang front end produced no intermediate representation"); sys.stderr.write(r.stderr[-3000:]); sys.exit(2)
        d = json.load(open(out))
        try:
            for f in os.listdir(cache):
                if f.startswith(os.path.basename(source) + "."): os.unlink(os.path.join(cache, f))
            shutil.copy(out, cf + ".tmp"); os.replace(cf + ".tmp", cf)
        except OSError: pass
        return d
    finally: shutil.rmtree(tmp, ignore_errors=True)

class IR:
    def __init__(s, d):
        s.d = d; s.files = d["files"]; s.src = SRC + "/"
        roots = [k for k, f in enumerate(s.files) if f.startswith((SRC + "/", os.path.join(VERIF, "spec") + "/"))]
        roots = {"%d" % k for k in roots}
        for key in ("functions", "classes", "globals"): d[key] = [x for x in d[key] if x["l"].split(":")[0] in roots]
        s.fn = {f["id"]: f for f in d["functions"]}
        s.byq, s.byn, s.methods, s.instat = {}, {}, {}, {}
        for f in d["functions"]:
            if f.get("inst"): 
                s.instat.setdefault(f["l"], []).append(f)
                if f.get("clsid"): s.methods.setdefault(f["clsid"], {}).setdefault(f["n"], []).append(f)
                continue
            s.byq.setdefault(f["q"], []).append(f); s.byn.setdefault(f["n"], []).append(f)
            if f.get("clsid"): s.methods.setdefault(f["clsid"], {}).setdefault(f["n"], []).append(f)
        s.cls = {c["id"]: c for c in d["classes"]}
        s.clsq = {}
        for c in d["classes"]: s.clsq.setdefault(c["q"], []).append(c)
        s.globals = {g["id"]: g for g in d["globals"]}
        s.globq = {}
        for g in d["globals"]: s.globq.setdefault(g["q"], g)
        s.aliases = {}
        for a in d["aliases"]: s.aliases.setdefault(a["n"], a)
        s.diags = d["diags"]
        s.errs = {}
        for x in s.diags:
            if x["level"] >= 4: s.errs.setdefault(x["file"], []).append((x["line"], x["msg"]))
    def broken(s, f):
        """a type error inside the body of f (clang drops such statements, so the body must not be trusted)"""
        try:
            k, a = f["lb"].split(":"); k2, b = f["le"].split(":")
            if k != k2: return None
            for line, msg in s.errs.get(s.files[int(k)], ()):
                if int(a) <= line <= int(b): return "%s:%d: %s" % (s.files[int(k)], line, msg)
        except (KeyError, ValueError): pass
        return None
    def where(s, l):
        try:
            k, n = l.split(":"); f = s.files[int(k)]
            for r in (REPO + "/", VERIF + "/"):
                if f.startswith(r): f = f[len(r):]
            return "%s:%s" % (f, n)
        except Exception: return "?"
    def infile(s, x, sub):
        try: return sub in s.files[int(x["l"].split(":")[0])]
        except Exception: return False
    def isrepo(s, x): return s.infile(x, SRC + "/")
