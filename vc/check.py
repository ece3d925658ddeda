"""Decides one property of /repo:  check.py PROPERTY [quick|thorough]

 1. extract the IR of every translation unit of /repo (tool/extract.cpp, on this run)
 2. generate and discharge every obligation of every contract the property depends on (the contracts
    tagged with it, its lemmas, and transitively every contract a verified body relies on)
 3. compile /repo's sources with the property's replay harness and run it: it turns a failed obligation
    into a concrete failing input where it can, and stands in (labelled bounded) for a function that
    could not be brought within the verifier's reach
 4. write evidence/<property>.json, print VIOLATION / KNOWN-FINDING lines, exit 0 or 1"""
import glob
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait as mpwait

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/CoarseGrainSites/src/libmythical"
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
REQUIRED = ["charge_transport/cuboid_lattice.cpp", "charge_transport/marcus.cpp", "queue.cpp", "walker.cpp", "rate_container.cpp",
            "site_container.cpp", "cluster_container.cpp", "topologyfeatures/topology_feature.cpp", "topologyfeatures/site.cpp",
            "topologyfeatures/cluster.cpp"]
INC = ["-I" + SRC, "-I" + SRC + "/topologyfeatures", "-I" + REPO + "/CoarseGrainSites/include", "-I" + REPO + "/CoarseGrainSites/src"]


def log(*a):
    print(*a, flush=True)


def build_extractor():
    exe, src = ROOT + "/build/extract", ROOT + "/tool/extract.cpp"
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(ROOT + "/build", exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    subprocess.run(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                    "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"], check=True)
    os.rename(tmp, exe)
    return exe


def sources():
    """every translation unit of the library that compiles here (the ones that need the absent submodule do not)"""
    out = []
    for f in sorted(glob.glob(SRC + "/**/*.cpp", recursive=True)):
        r = os.path.relpath(f, SRC)
        if "tests" in r.split(os.sep) or os.path.basename(f) in ("coarsegrainsystem.cpp", "basin_explorer.cpp", "graph_library_adapter.cpp"):
            continue
        out.append(f)
    return out


def extract(exe, work):
    procs = []
    for i, f in enumerate(sources()):
        out = os.path.join(work, "%03d_%s.json" % (i, os.path.basename(f)))
        procs.append((f, out, subprocess.Popen([exe, REPO + "/", f, "-std=c++14"] + INC, stdout=open(out, "w"), stderr=subprocess.PIPE)))
    bad = []
    for f, out, p in procs:
        err = p.communicate()[1]
        if p.returncode != 0:
            bad.append((os.path.relpath(f, SRC), err.decode(errors="replace")[-2000:]))
            os.unlink(out)
    return bad


# ---------------------------------------------------------------------------------- proofs
class Job:
    def __init__(self, key, fn, args, limit):
        self.key, self.fn, self.args, self.limit = key, fn, args, limit


def child(conn, fn, args):
    try:
        r = fn(*args)
    except BaseException:
        r = {"status": "error", "why": traceback.format_exc()[-3000:]}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


class Pool:
    def __init__(self, n):
        self.n, self.q, self.run, self.done = n, [], {}, {}

    def add(self, job):
        self.q.append(job)

    def step(self):
        while self.q and len(self.run) < self.n:
            j = self.q.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(b, j.fn, j.args))
            p.start()
            b.close()
            self.run[a] = (j, p, time.time())
        if not self.run:
            return []
        out = []
        for c in mpwait(list(self.run), timeout=1.0):
            j, p, t0 = self.run.pop(c)
            try:
                r = c.recv()
            except Exception:
                r = {"status": "error", "why": "worker ended (memory or crash)"}
            c.close()
            p.join()
            r["wall"] = time.time() - t0
            out.append((j, r))
        for c, (j, p, t0) in list(self.run.items()):
            if time.time() - t0 > j.limit:
                p.kill()
                p.join()
                c.close()
                del self.run[c]
                out.append((j, {"status": "timeout", "why": "time limit of %d s" % j.limit, "wall": time.time() - t0}))
        return out

    def idle(self):
        return not self.q and not self.run

    def stop(self):
        for c, (j, p, t0) in self.run.items():
            p.kill()
            p.join()
        self.run, self.q = {}, []


def discharge(obls, tmo, shard, nsh, cases=False):
    import prover
    res = []
    for n, o in enumerate(obls):
        if n % nsh != shard:
            continue
        t0 = time.time()
        st, info = prover.prove(o.hyps, o.goal, tmo, budget=5 if cases else None)
        if st != "proved" and cases:
            st, info = prover.prove_cases(o.hyps, o.goal, tmo, 60)
        if st != "proved":
            st, info = prover.prove(o.hyps, o.goal, tmo * 4)
        d = {"fn": o.fn, "name": o.name, "kind": o.kind, "line": o.line, "status": st, "time": time.time() - t0}
        if st != "proved":
            d["info"] = {"subgoal": str(info.get("subgoal"))[:1500], "why": str(info.get("why"))[:200], "model": str(info.get("model"))[:3000]}
        res.append(d)
    return res


def do_contract(prog, reg, idx, prop, inline, tmo, shard, nsh):
    import engine
    import loops
    import prover
    import z3
    con = reg[idx]
    d = {}
    for c in reg:
        if c.bound and c is not con and c.sig not in inline:
            d.setdefault(c.bound, []).append(c)
    e = engine.Engine(prog, d)
    e.force_inline = set(x for x in inline)
    t0 = time.time()
    try:
        obls = e.verify(con, prop)
    except engine.Unsupported as ex:
        return {"status": "unsupported", "why": str(ex)}
    except (z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError, RecursionError, NotImplementedError):
        return {"status": "unsupported", "why": traceback.format_exc()[-1500:]}
    gen = time.time() - t0
    out = {"gen": gen, "used": sorted(c.sig for c in e.used_contracts), "inlined": sorted(e.inlined), "assumed": sorted(map(str, e.assumed)),
           "loops": len(e.loops), "trivial": e.trivial if shard == 0 else 0}
    s = prover.z3.Solver()
    s.set("timeout", 2000)
    s.add([h for h in e.prehyps if not z3.is_quantifier(h)])
    out["vacuous"] = s.check() == z3.unsat
    res = discharge(obls, con.timeout or tmo, shard, nsh, con.loopinv is not None)
    out["obls"] = res
    bad = [x for x in res if x["status"] != "proved"]
    out["status"] = "failed" if bad else "proved"
    return out


def do_lemma(lem, tmo):
    obls = lem.obligations()
    res = discharge(obls, lem.timeout or tmo, 0, 1)
    bad = [x for x in res if x["status"] != "proved"]
    return {"status": "failed" if bad else "proved", "obls": res, "used": [], "inlined": [], "assumed": [], "loops": 0, "gen": 0, "vacuous": False}


def bind(reg, prog):
    """signature -> function of the extracted program; a changed parameter list falls back to the qualified name"""
    un = []
    for c in reg:
        c.bound = None
        if c.sig in prog.funcs:
            c.bound = c.sig
            continue
        q = c.sig.split("(")[0]
        cand = prog.byname.get(q, [])
        others = set(x.sig for x in reg)
        cand = [s for s in cand if s not in others]
        same = [x for x in reg if x.sig.split("(")[0] == q and x.sig not in prog.funcs]
        if len(cand) == 1 and len(same) == 1:
            c.bound = cand[0]
        else:
            un.append(c)
    return un


def callees(prog, sigs):
    """contracts named in the body of a function"""
    memo = {}

    def of(sig):
        if sig not in memo:
            out = set()
            st = [prog.funcs[sig]] if sig in prog.funcs else []
            while st:
                o = st.pop()
                if isinstance(o, dict):
                    st.extend(v for v in o.values() if isinstance(v, (dict, list, str)))
                elif isinstance(o, list):
                    st.extend(o)
                elif o in sigs and o != sig:
                    out.add(o)
            memo[sig] = out
        return memo[sig]
    return of


def prove_all(prog, reg, lemmas, prop, tier, deadline, failing=lambda: False):
    tmo = 8 if tier == "quick" else 30
    limit = 500 if tier == "quick" else 3000
    unbound = bind(reg, prog)
    by = {}
    for i, c in enumerate(reg):
        by.setdefault(c.sig, []).append(i)
    inline = set(c.sig for c in unbound)
    notes = []
    final = {}
    within = callees(prog, set(c.sig for c in reg))
    hurried = False
    for rnd in range(3):
        pool = Pool(NCPU)
        seen, results, elsewhere = set(), {}, set()

        def need(i):
            c = reg[i]
            if i in seen or c.callonly or c.sig in inline:
                return
            if c.modular and prop not in c.tags:
                elsewhere.add(c.sig)
                return
            seen.add(i)
            n = getattr(c, "shards", 1)
            for k in range(n):
                pool.add(Job(("c", i, k), do_contract, (prog, reg, i, prop, inline, tmo, k, n), limit))
            if c.bound:
                for s in within(c.bound):     # most of what the proof will ask for is known before it ends
                    for q in by.get(s, []):
                        if reg[q].bound:
                            need(q)

        for i, c in enumerate(reg):
            if prop in c.tags and c.bound:
                need(i)
        for n, l in enumerate(lemmas):
            if prop in l.tags:
                pool.add(Job(("l", n, 0), do_lemma, (l, tmo), limit))
        while not pool.idle():
            for j, r in pool.step():
                results[j.key] = r
                for s in r.get("used", []):
                    for i in by.get(s, []):
                        need(i)
            if not hurried and failing():
                # a failing input is at hand: what is left of the proof only names the obligation
                hurried = True
                deadline = min(deadline, time.time() + 45)
            if time.time() > deadline:
                for c, (j, p, t0) in pool.run.items():
                    results[j.key] = {"status": "timeout", "why": "deadline"}
                for j in pool.q:
                    results[j.key] = {"status": "timeout", "why": "deadline"}
                pool.stop()
        final = results
        # a private helper whose contract no longer fits: check its callers against its body instead
        badpriv = set(reg[k[1]].sig for k, r in results.items() if k[0] == "c" and r["status"] != "proved" and reg[k[1]].private)
        if not badpriv or rnd == 2 or hurried or time.time() > deadline:
            break
        notes.append("private contracts replaced by the bodies: " + ", ".join(sorted(badpriv)))
        inline |= badpriv
    return final, unbound, notes, sorted(elsewhere)


# ---------------------------------------------------------------------------------- replay harness
def harness(prop, tier, seed, work):
    """-> (status, text): ok / fail / absent / nobuild.  The harness of a property is harness/<prop>.cpp"""
    src = ROOT + "/harness/%s.cpp" % prop
    if not os.path.exists(src):
        return "absent", "", 0
    objs, procs = [], []
    flags = ["-std=c++14", "-O1", "-g", "-fno-strict-aliasing", "-w", "-I" + ROOT + "/harness"] + INC
    for i, f in enumerate(sources() + [src]):
        o = os.path.join(work, "h%03d.o" % i)
        objs.append(o)
        procs.append((f, subprocess.Popen(["g++"] + flags + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    err = ""
    use = []
    for (f, p), o in zip(procs, objs):
        t = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            err += f + "\n" + t[-1500:]
        else:
            use.append(o)
    exe = os.path.join(work, "harness")
    r = subprocess.run(["g++", "-o", exe] + use, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return "nobuild", err + r.stdout.decode(errors="replace")[-3000:], 0
    sw = os.path.join(work, "run")
    os.makedirs(sw, exist_ok=True)
    n = 1 if tier == "quick" else 20
    try:
        r = subprocess.run([exe, str(seed), str(n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120 if tier == "quick" else 1200, cwd=sw)
    except subprocess.TimeoutExpired as ex:
        return "fail", "the harness did not end within its time limit (a call into the library does not return)\n" + (ex.stdout or b"").decode(errors="replace")[-3000:], 0
    t = r.stdout.decode(errors="replace")
    cases = 0
    for ln in t.splitlines():
        if ln.startswith("CASES "):
            cases = int(ln.split()[1])
    if r.returncode == 0:
        return "ok", t[-3000:], cases
    return "fail", "exit %d\n" % r.returncode + t[-6000:], cases


def known_findings():
    out = []
    try:
        for ln in open(ROOT + "/known_findings.jsonl"):
            ln = ln.strip()
            if ln:
                out.append(json.loads(ln))
    except OSError:
        pass
    return out


STD_ASSUMPTIONS = [
    "double arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN or infinity)",
    "int arithmetic is treated as unbounded; unsigned and narrowing conversions of in-range values only",
    "partial correctness: termination of loops is not proved",
    "standard library containers, algorithms and <random>/<cmath> functions behave as their assumed contracts in vc/lib.py say",
    "the extractor (tool/extract.cpp, clang 18 AST) and the engine (vc/*.py) translate C++ faithfully; z3 is sound",
]


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build_extractor()
        return 0
    if prop == "--harness":
        prop, tier, seed, work, hout = sys.argv[2:7]
        r = harness(prop, tier, int(seed), work)
        with open(hout + ".tmp", "w") as fh:
            json.dump(r, fh)
        os.rename(hout + ".tmp", hout)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (640 if tier == "quick" else 6000)
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return run(prop, tier, seed, t0, deadline, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, t0, deadline, work):
    # the replay harness runs at the same time, in a process of its own
    hout = os.path.join(work, "harness.json")
    hp = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--harness", prop, tier, str(seed), work, hout])
    exe = build_extractor()
    irdir = os.path.join(work, "ir")
    os.makedirs(irdir)
    bad = extract(exe, irdir)
    import ir
    import contracts
    prog = ir.Program()
    for f in sorted(glob.glob(irdir + "/*.json")):
        prog.load(f)
    reg, lemmas = contracts.load()
    missing = [b for b in bad if b[0] in REQUIRED]

    def hres():
        if hp.poll() is None:
            return None
        try:
            return json.load(open(hout))
        except (OSError, ValueError):
            return ["nobuild", "the harness process ended without a result", 0]
    results, unbound, notes, elsewhere = prove_all(prog, reg, lemmas, prop, tier, deadline, lambda: (hres() or ["ok"])[0] == "fail")
    hp.wait()
    hs, htext, hcases = hres()

    nobl = ndis = ntriv = nloops = 0
    failed, bounded, functions, inlined, assumed, nl = [], [], [], set(), set(), []
    ztime = 0.0
    vac = []
    for k, r in sorted(results.items(), key=lambda kv: str(kv[0])):
        name = reg[k[1]].sig if k[0] == "c" else "lemma " + lemmas[k[1]].name
        for o in r.get("obls", []):
            nobl += 1
            ztime += o["time"]
            if o["status"] == "proved":
                ndis += 1
            else:
                failed.append(o)
        if r["status"] in ("proved", "failed"):
            if k[2] == 0:
                (functions if k[0] == "c" else nl).append(name)
            inlined |= set(r["inlined"])
            ntriv += r.get("trivial", 0)
            nloops += r.get("loops", 0) if k[2] == 0 else 0
            assumed |= set(r["assumed"])
            if r.get("vacuous"):
                vac.append(name)
        else:
            bounded.append((name, r["status"] + ": " + r.get("why", "")))
    for c in unbound:
        if prop in c.tags and not c.private:
            bounded.append((c.sig, "not found in the current source"))

    log("property %s: %d contracts verified, %d lemmas, %d/%d obligations discharged, solver %.1f s, wall %.1f s" %
        (prop, len(functions), len(nl), ndis, nobl, ztime, time.time() - t0))
    for n in notes:
        log("note: " + n)
    for n, w in bounded:
        log("not decided by proof: %s (%s)" % (n, w.strip().splitlines()[-1] if w.strip() else ""))
    for v in vac:
        log("vacuous precondition: " + v)
    for o in failed:
        log("failed obligation: [%s] %s  (%s, line %s, %s, %.1f s)" % (o["fn"], o["name"], o["kind"], o["line"], o["status"], o["time"]))
    log("replay harness: %s, %d cases" % (hs, hcases))
    if hs in ("fail", "nobuild"):
        log(htext[-1500:])

    # verdict
    kf = [f for f in known_findings() if f.get("property") == prop and f.get("status") == "known"]
    for f in kf:
        log("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    violation = bool(failed) or hs == "fail"
    rp = None
    if violation:
        os.makedirs(ROOT + "/evidence/replay", exist_ok=True)
        rp = ROOT + "/evidence/replay/%s.txt" % prop
        with open(rp, "w") as fh:
            fh.write("property %s violated on the current working tree of %s\n\n" % (prop, REPO))
            for o in failed:
                fh.write("failed obligation: function %s\n  obligation: %s (%s) at line %s\n  verifier: %s after %.1f s\n  subgoal: %s\n  model: %s\n\n" %
                         (o["fn"], o["name"], o["kind"], o["line"], o["status"], o["time"], o["info"]["subgoal"], o["info"]["model"]))
            if hs == "fail":
                fh.write("failing input on the real code (harness/%s.cpp, seed %d):\n%s\n" % (prop, seed, htext))
            fh.write("\nreproduce: cd /verif && VERIF_SEED=%d python3-vt vc/check.py %s %s\n" % (seed, prop, tier))
    level = "proof"
    cov = {
        "obligations": nobl, "discharged": ndis, "discharged_by_simplification_alone": ntriv, "loops_summarised": nloops,
        "checker_cmd": "python3-vt vc/check.py %s %s" % (prop, tier),
        "trusted_base": ["z3 (python3-vt z3-solver)", "vc/engine.py, vc/loops.py, vc/lib.py, vc/prover.py", "tool/extract.cpp on clang 18"],
        "functions_under_contract": functions, "lemmas": nl, "functions_inlined": sorted(inlined),
        "contracts_relied_on_and_verified_by_other_checks": elsewhere,
        "library_contracts_assumed": sorted(assumed),
        "back_end": "z3", "solver_time_s": round(ztime, 2),
        "not_proved_bounded_stand_in": [{"function": n, "reason": w[:300]} for n, w in bounded],
        "failed_obligations": [{"function": o["fn"], "obligation": o["name"], "status": o["status"]} for o in failed],
        "vacuous_preconditions": vac,
        "replay_harness": {"status": hs, "cases": hcases, "label": "bounded: randomized concrete runs of the compiled /repo sources; not counted as proof"},
        "notes": notes,
        "samples": [("%s: %s" % (o["fn"], o["name"])) for r in list(results.values())[:6] for o in r.get("obls", [])[:1]],
    }
    if nobl == 0:
        level = "exploration"
        cov.update({"evaluations": hcases, "distinct_nontrivial": hcases, "rule": "every harness case calls the property's entry points with generated inputs"})
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": STD_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    with open(ROOT + "/evidence/%s.json" % prop, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    if violation:
        log("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if hs == "fail" else " no-failing-input-found"))
        return 1
    if missing and hs == "nobuild":
        log("the tree does not compile: %s" % missing[0][1][-500:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
