import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading; threading.stack_size(512 * 1024 * 1024); sys.setrecursionlimit(60000)
def main():
    import ir as I, oblig, table
    t0 = time.time(); d = I.extract(os.path.join(I.VERIF, "spec/all.cpp")); ir = I.IR(d)
    print("extract", round(time.time() - t0, 1), "diags", len(ir.diags)); 
    for x in ir.diags[:12]: print("  ", x)
    pat = [a for a in sys.argv[1:] if not a.startswith("-")]
    for o in table.OBS:
        if pat and not any(o.prop == p or o.name.startswith(p) for p in pat): continue
        r = oblig.run(ir, o, thorough="--thorough" in sys.argv, table=table.BYNAME)
        print("%-4s %-28s %-10s inst=%d %s pts=%d gates=%s %.2fs %s" % (o.prop, o.name, r.status, r.instances, r.method, r.vals, r.atoms, r.sec, r.why))
        if "-v" in sys.argv and r.witness: print(r.witness)
        if "-u" in sys.argv: print(r.uninterp, r.loops)
th = threading.Thread(target=main); th.start(); th.join()
