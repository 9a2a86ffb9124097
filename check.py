#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources to LLVM IR, executes the harnesses
symbolically (engine/symx, Z3), replays every counterexample on a native sanitizer build.

  check.py ID [--tier quick|thorough]
exit 0: held on everything explored, 1: VIOLATION, 2: the check itself could not run
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props
REPO = os.environ.get("SYMX_REPO", "/repo")
SYMX = f"{V}/build/engine/symx"
CLANG, GXX, LINK = "clang++-18", "g++", "llvm-link-18"
BC = "-std=c++20 -O1 -g1 -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 -w -emit-llvm -c".split()
UB = ("-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,null,return,unreachable,bool,enum "
      "-fsanitize-trap=all").split()
NAT = "-std=c++20 -O1 -g1 -w -fsanitize=address,undefined -fsanitize=float-cast-overflow -fno-sanitize-recover=all -c".split()
# UBSan's vptr/alignment/pointer-overflow checks stay on natively; they only matter for confirming a solver counterexample
T0 = time.time()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def die(msg):
    print(msg); sys.exit(2)

def engine():
    srcs = [f"{V}/engine/{f}" for f in sorted(os.listdir(f"{V}/engine"))]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest()
    stamp = f"{V}/build/engine/stamp"
    if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == h: return
    os.makedirs(f"{V}/build/engine", exist_ok=True)
    import fcntl
    with open(f"{V}/build/engine/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == h: return
        r = sh(["bash", f"{V}/engine/build.sh", f"{V}/build/engine"])
        if r.returncode: die("cannot build the symbolic executor:\n" + r.stdout[-3000:])
        open(stamp, "w").write(h)

class Ctx: pass

# the library groups need stand-ins for third-party headers (shim/); their native side is built by clang (faster for this code)
NATC = "-std=c++20 -O0 -g1 -w -fsanitize=address,undefined -fsanitize=float-cast-overflow -fno-sanitize=function -fno-sanitize-recover=all -c".split()
TSAN = "-std=c++20 -O1 -g1 -w -fsanitize=thread -c".split()   # native side of the harnesses with two threads
def natcc(group, san=None): return [CLANG, *TSAN] if san else [CLANG, *NATC] if props.GROUPS[group].get("shim") else [GXX, *NAT]
def natld(group, san=None): return CLANG if san or props.GROUPS[group].get("shim") else GXX

def incs(group):
    g = props.GROUPS[group]
    return [x for i in g.get("shim", []) for x in (f"-I{V}/{i}", "-include", f"{V}/{i}/prelude.h")] + [f"-I{REPO}/include", f"-I{V}/rt", f"-I{V}/h"] + g.get("defs", [])

def treehash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for r, _, fs in sorted(os.walk(d)):
            for f in sorted(fs): h.update((r + f).encode()); h.update(open(f"{r}/{f}", "rb").read())
    return h.hexdigest()
def cached(cmd, work):
    """compiles; during development only (SYMX_CACHE=DIR) results are kept, keyed by the command and all sources"""
    c = os.environ.get("SYMX_CACHE")
    if not c: return sh(cmd)
    global TH
    if "TH" not in globals(): TH = (treehash([f"{REPO}/src", f"{REPO}/include", f"{V}/rt", f"{V}/shim"]), treehash([f"{V}/h"]))
    key = hashlib.sha256((" ".join(cmd).replace(work, "") + TH[0] + (TH[1] if "/verif/h/" in " ".join(cmd[-3:-2]) else "")).encode()).hexdigest()
    os.makedirs(c, exist_ok=True); f = f"{c}/{key}"
    if os.path.exists(f): shutil.copy(f, cmd[-1]); return subprocess.CompletedProcess(cmd, 0, "", "")
    r = sh(cmd)
    if not r.returncode: shutil.copy(cmd[-1], f + ".tmp"); os.replace(f + ".tmp", f)
    return r

def build(prop, work):
    """returns {harness name: (bitcode, native binary)}"""
    jobs = {}   # output -> command
    def add(out, cmd): jobs.setdefault(out, cmd)
    plan = {}
    for hn, h in prop["harnesses"].items():
        g = props.GROUPS[h["group"]]; ub = h.get("ub", False); tag = h["group"] + ("_ub" if ub else "")
        nocc = ["-fno-access-control"] if h.get("noaccess") else []
        bcs, obs = [], []
        for s in g["srcs"]:
            b = s.replace("/", "_"); san = h.get("san")
            o = f"{work}/{tag}_{b}.bc"; add(o, [CLANG, *BC, *(UB if ub else []), *incs(h["group"]), f"{REPO}/{s}", "-o", o]); bcs.append(o)
            o = f"{work}/{h['group']}{san or ''}_{b}.o"; add(o, [*natcc(h["group"], san), *incs(h["group"]), f"{REPO}/{s}", "-o", o]); obs.append(o)
        o = f"{work}/rt.bc"; add(o, [CLANG, *BC, "-fno-access-control", f"-I{V}/rt", f"{V}/rt/rt.cpp", "-o", o]); bcs.append(o)
        o = f"{work}/native_{natld(h['group'], san)}{san or ''}.o"; add(o, [natld(h["group"], san), "-std=c++20", "-O1", "-w", "-fsanitize=" + (san or "address,undefined"), "-c", f"-I{V}/rt", f"{V}/rt/native.cpp", "-o", o]); obs.append(o)
        d = [f"-D{x}" for x in h.get("defs", [])]
        o = f"{work}/h_{hn}.bc"; add(o, [CLANG, *BC, *(UB if ub else []), *nocc, *incs(h["group"]), *d, f"{V}/h/{h['src']}", "-o", o]); bcs.append(o)
        o = f"{work}/h_{hn}.o"; add(o, [*natcc(h["group"], san), *nocc, *incs(h["group"]), *d, f"{V}/h/{h['src']}", "-o", o]); obs.append(o)
        plan[hn] = (bcs, obs)
    slow = lambda kv: 0 if "simfil.cpp" in kv[0] else 1 if "function.cpp" in kv[0] or "json" in kv[0] else 2
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        res = list(ex.map(lambda kv: (kv[0], cached(kv[1], work)), sorted(jobs.items(), key=slow)))
    bad = [(o, r) for o, r in res if r.returncode]
    if bad: die("compilation failed: " + bad[0][0] + "\n" + bad[0][1].stdout[-3000:])
    out = {}
    def link(hn):
        bcs, obs = plan[hn]
        a = sh([LINK, *bcs, "-o", f"{work}/{hn}.bc"])
        h = prop["harnesses"][hn]; b = sh([natld(h["group"], h.get("san")), "-fsanitize=" + (h.get("san") or "address,undefined"), *obs, "-o", f"{work}/{hn}.exe"])
        return hn, a, b
    with cf.ThreadPoolExecutor(4) as ex:
        for hn, a, b in ex.map(link, plan):
            if a.returncode: die("bitcode link failed\n" + a.stdout[-2000:])
            if b.returncode: die("native link failed\n" + b.stdout[-2000:])
            out[hn] = (f"{work}/{hn}.bc", f"{work}/{hn}.exe")
    return out

NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=23:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=24", TSAN_OPTIONS="exitcode=66:halt_on_error=1")

def confirm(exe, path, steps):
    """replays a counterexample on the native build; returns (reproduced, output)"""
    try:
        r = sh([exe, "replay", path], env=NENV, timeout=90)
    except subprocess.TimeoutExpired:
        return True, "the native run does not terminate"
    return r.returncode not in (0, 77), f"exit {r.returncode}\n" + r.stdout[-3000:]

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id", nargs="?"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("-v", action="store_true"); ap.add_argument("--only")
    a = ap.parse_args(); tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.setup: engine(); print("engine ready"); return 0
    P = {p["id"]: p for p in props.PROPS}
    if a.id not in P or not P[a.id].get("harnesses"): die("unknown property " + a.id)
    p = P[a.id]
    if a.only: p = dict(p, harnesses={k: v for k, v in p["harnesses"].items() if k in a.only.split(",")})
    engine()
    work = tempfile.mkdtemp(prefix=f"symx_{a.id}_")
    try: return run(p, tier, seed, work, a.v)
    finally:
        if not os.environ.get("SYMX_KEEP"): shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)

def run(p, tier, seed, work, verbose):
    pid = p["id"]
    bins = build(p, work)
    tb = time.time() - T0
    cap = 2400 if tier == "thorough" else 420
    tasks = []
    for hn, h in p["harnesses"].items():
        cfgs = h["quick"] if tier == "quick" else h.get("thorough", h["quick"])
        for i, c in enumerate(cfgs): tasks.append((hn, h, i, c))
    par = min(4, len(tasks)); jobs = max(2, (os.cpu_count() or 8) * 3 // 2 // par) if par > 1 else (os.cpu_count() or 8)
    deadline = T0 + cap
    def one(t):
        hn, h, i, c = t; out = f"{work}/{hn}.{i}.json"
        left = max(10, min(h.get("time", 300 if tier == "quick" else 1500), deadline - time.time()))
        cmd = [SYMX, bins[hn][0], "--out", out, "--jobs", str(jobs), "--time", str(int(left)), "--seed", str(seed), "--samples", str(h.get("samples", 6)),
               "--max-steps", str(h.get("max_steps", 20000000)), "--max-conc", str(h.get("max_conc", 4096)), "--solver-timeout", str(h.get("solver_ms", 30000))]
        for z in h.get("zero", []): cmd += ["--zero", z]
        for k, v in c.items(): cmd += ["--param", f"{k}={v}"]
        try: r = sh(cmd, timeout=left + 120)
        except subprocess.TimeoutExpired: return t, None, "timeout"
        try: return t, json.load(open(out)), r.stdout
        except Exception: return t, None, f"exit {r.returncode}: " + r.stdout[-2000:]
    results = []
    with cf.ThreadPoolExecutor(par) as ex:
        for t, j, o in ex.map(one, tasks):
            results.append((t, j, o))
            if verbose and j: print(f"  {t[0]} {t[3]}: paths {j['paths']} assumed {j['assumed']} queries {j['solver']['queries']} unk {j['solver']['unknown']} incomplete {j['incomplete']} wall {j['wall_s']:.1f}s reach {j['reach']} violations {len(j['violations'])} timed_out {j['timed_out']}")
            if verbose and not j: print("  ", t[0], t[3], o)
    # --- violations: only those that reproduce on the real code
    known = [k for k in props.known_findings() if k["property"] == pid]
    viol, notes, seenKnown = [], [], set()
    os.makedirs(f"{V}/build/replay", exist_ok=True)
    n = 0
    for (hn, h, i, c), j, o in results:
        if not j: continue
        for v in j["violations"]:
            n += 1; rp = f"{V}/build/replay/{pid}-{n}.txt"
            open(rp, "w").write(v["replay"])
            ok, txt = confirm(bins[hn][1], rp, v["kind"] == "steps")
            with open(rp, "a") as f:
                f.write(f"# property {pid}, harness {hn} ({h['src']}), bounds {c}\n# {v['kind']}: {v['msg']}\n# at {v['where']}\n")
                for k, x in v["inputs"]: f.write(f"# input {k} = {x}\n")
                for x in v["trace"]: f.write(f"#   {x}\n")
                f.write("# native replay: " + ("reproduced" if ok else "NOT reproduced") + "\n" + "".join(f"#   {l}\n" for l in txt.splitlines()))
            rec = dict(harness=hn, params=c, kind=v["kind"], msg=v["msg"], inputs=v["inputs"], replay=rp, reproduced=ok)
            if not ok: notes.append(f"counterexample of {hn} did not reproduce natively ({v['kind']}: {v['msg']}), see {rp}"); continue
            k = next((k for k in known if k["harness"] == hn and k["msg"] == v["msg"]), None)
            if k: seenKnown.add(k["what"]); continue
            viol.append(rec)
    # --- conformance: sampled symbolic paths must behave the same natively
    traces = bad = 0; samples = []
    for (hn, h, i, c), j, o in results:
        if not j or not j["samples"]: continue
        fn = f"{work}/{hn}.{i}.batch"
        with open(fn, "w") as f:
            for s in j["samples"]: f.write("=== " + " ".join(f"{x:x}" for x in s["log"]) + "\n" + s["replay"])
        try: r = sh([bins[hn][1], "batch", fn], env=NENV, timeout=120)
        except subprocess.TimeoutExpired: notes.append(f"native validation of {hn} timed out"); continue
        m = re.search(r"BATCH ok=(\d+) bad=(\d+)", r.stdout)
        if m: traces += int(m[1]); bad += int(m[2])
        if not m or int(m[2]): notes.append(f"symbolic and native run differ for {hn} {c}: " + r.stdout[-600:])
        for s in j["samples"][:2]:
            if len(samples) < 8: samples.append({"harness": hn, "input": s["replay"].strip().replace("\n", "; "), "observed": s["log"][:24]})
    # --- coverage
    tot = lambda f: sum(f(j) for _, j, _ in results if j)
    incomplete = {}; dead = []; missing = []; timed = False
    for (hn, h, i, c), j, o in results:
        if not j: dead.append(f"{hn} {c}: {o[:500]}"); continue
        for k, x in j["incomplete"].items(): incomplete[k] = incomplete.get(k, 0) + x
        timed |= j["timed_out"]
    for hn, h in p["harnesses"].items():
        seen = set()
        for t, j, o in results:
            if t[0] == hn and j: seen |= set(j["reach"])
        for w in h.get("reach", []):
            if w not in seen: missing.append(f"{hn}:{w}")
    unknown = tot(lambda j: j["solver"]["unknown"]); mism = tot(lambda j: j["solver"]["mismatches"])
    complete = not dead and not incomplete and not timed and not unknown and not missing and not bad and not mism and not [x for x in notes if "did not reproduce" in x]
    fns = sorted({f for _, j, _ in results if j for f in j["functions"] if "simfil" in f and not f.startswith("_")})
    per = [dict(harness=t[0], params=t[3], paths=j["paths"], infeasible_or_assumed_away=j["assumed"], branches=j["branches"], assertions=j["asserts"], queries=j["solver"]["queries"], unsat=j["solver"]["unsat"], solver_s=round(j["solver"]["time_s"], 2), wall_s=round(j["wall_s"], 2), reach=j["reach"], incomplete=j["incomplete"], timed_out=j["timed_out"]) for t, j, _ in results if j]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(viol),
        assumptions=p.get("assumptions", []) + props.assumptions_of(p),
        coverage=dict(states=int(tot(lambda j: j["forks"] + 1)), transitions=int(tot(lambda j: j["steps"])), traces_validated_against_impl=traces, samples=samples,
            exhaustive=bool(complete), rule="states: symbolic states (path prefixes) explored; transitions: LLVM instructions executed symbolically; every completed path covers all inputs satisfying its path condition",
            bounds=p.get("bounds", "") + (" " + p["bounds_thorough"] if tier == "thorough" and p.get("bounds_thorough") else ""),
            paths=int(tot(lambda j: j["paths"])), branch_decisions=int(tot(lambda j: j["branches"])), assertions_checked=int(tot(lambda j: j["asserts"])),
            assertions_discharged_by_solver=int(tot(lambda j: j["assert_queries"])), assertions_discharged_by_simplifier=int(tot(lambda j: j["asserts_by_simplification"])),
            solver=dict(queries=tot(lambda j: j["solver"]["queries"]), sat=tot(lambda j: j["solver"]["sat"]), unsat=tot(lambda j: j["solver"]["unsat"]), unknown=unknown,
                decided_by_exact_byte_domains_intervals_and_linear_forms=tot(lambda j: j["solver"]["domain_decided"]), cross_checked_with_z3=tot(lambda j: j["solver"]["cross_checked"]), model_mismatches=mism,
                time_s=round(tot(lambda j: j["solver"]["time_s"]), 2), max_query_s=round(max([j["solver"]["max_query_s"] for _, j, _ in results if j] or [0]), 3)),
            functions_encoded=fns, harness_runs=per, incomplete=incomplete, not_run=dead, missing_witnesses=missing, notes=notes, traces_differing=bad, build_s=round(tb, 1)),
        findings=viol)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for x in notes: print("note:", x)
    if incomplete: print("note: paths not completed:", incomplete)
    if missing: print("note: witnesses not reached:", missing)
    if timed: print("note: time budget used up before all paths were explored")
    for k in known:
        if k["what"] in seenKnown or True: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        for v in viol[:5]: print(f"VIOLATION property={pid} replay={v['replay']}  [{v['harness']}: {v['msg']}] " + " ".join(f"{k}={x}" for k, x in v["inputs"][:4]))
        return 1
    if dead and len(dead) == len(results): print("no harness could be executed:", dead[0]); return 2
    for d in dead: print("note: not run:", d)
    c = ev["coverage"]
    print(f"{pid} held: {c['paths']} paths, {c['assertions_checked']} assertions, {c['solver']['queries']} solver queries, {traces} traces replayed, exhaustive within bounds: {complete}, {ev['wall_s']} s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
