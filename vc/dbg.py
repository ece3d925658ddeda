import sys, glob, time
sys.path.insert(0, '/verif/vc')
sys.setrecursionlimit(20000)
import ir, engine, prover, terms, loops
import contracts
def prog(d='/tmp/w/ir'):
    p = ir.Program()
    for f in sorted(glob.glob(d + '/*.json')):
        p.load(f)
    return p
def run(pat, prop=None, p=None, timeout=10, show=True):
    p = p or prog()
    reg, lem = contracts.load()
    d = {}
    for c in reg:
        if c.sig in p.funcs:
            c.bound = c.sig
            d.setdefault(c.sig, []).append(c)
        else:
            print("UNBOUND", c.sig)
    for c in reg:
        if pat not in c.sig or c.bound is None or c.callonly: continue
        own = {k: [x for x in v if x is not c] for k, v in d.items()}
        e = engine.Engine(p, own)
        t0 = time.time()
        try:
            obls = e.verify(c, prop)
        except engine.Unsupported as ex:
            print("UNSUPPORTED", c.sig, ex); 
            if '-v' in sys.argv: raise
            continue
        t1 = time.time()
        print("==", c.sig, len(obls), "obligations gen %.1fs" % (t1 - t0), "loops", e.loops)
        for o in obls:
            t2 = time.time()
            st, info = prover.prove(o.hyps, o.goal, timeout)
            dt = time.time() - t2
            if st != "proved" or dt > 2 or '-a' in sys.argv:
                print("   ", st, "%.2fs" % dt, o.kind, o.name, "line", o.line)
                if st != "proved" and show:
                    print("      ", info["subgoal"][:500].replace("\n", " "), info["why"])
        print("   done %.1fs" % (time.time() - t1))
if __name__ == '__main__':
    run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != '-' else None)
