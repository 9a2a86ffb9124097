#!/usr/bin/env python3
"""mkseed.py SPEC.py : plants the bugs described in SPEC.py (list SEEDS of dicts id, property, file, old, new, demo, needs, breaks[, srcs]) as seeded/<id>/,
after confirming in a scratch copy that each builds, passes the stable tests, and is shown by its demonstration only."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
# exit 0: the property holds for this input; run with cwd /repo
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -g %(flags)s -Iinclude -I"$D" %(extra)s "$D/demo.cpp" %(srcs)s -o "$T/demo" %(libs)s || exit 3
timeout 60 "$T/demo"
'''
# the whole library, with the single-header stand-ins of /verif/shim beside the demonstration
LIB = '''#!/bin/bash
# exit 0: the property holds for this input; run with cwd /repo
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export D T F="%(flags)s"
printf '%%s\\n' %(srcs)s "$D/demo.cpp" | xargs -P 8 -I{} bash -c 'g++ -std=c++20 -O0 -g -w $F -DSIMFIL_WITH_MODEL_JSON=1 -Iinclude -I"$D/shim" -include "$D/shim/prelude.h" -c "$1" -o "$T/$(basename "$1").o"' _ {} || exit 3
g++ $F "$T"/*.o -o "$T/demo" %(libs)s || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$T/demo"
'''
ALL = " ".join("src/" + f for f in "token.cpp exception-handler.cpp environment.cpp parser.cpp simfil.cpp function.cpp types.cpp value.cpp overlay.cpp model/model.cpp model/nodes.cpp model/string-pool.cpp model/json.cpp".split())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    w = tempfile.mkdtemp(prefix="seed_"); R = f"{w}/repo"
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    ok = True
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    for f, o, n in edits:
        t = open(f"{R}/{f}").read()
        if t.count(o) != 1: print(s["id"], "pattern count", t.count(o), repr(o)[:80]); ok = False; break
        open(f"{R}/{f}", "w").write(t.replace(o, n))
    if not ok: shutil.rmtree(w); continue
    d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
    open(f"{d}/demo.cpp", "w").write(s["demo"])
    for src, dst in s.get("files", []): shutil.copytree(src, f"{d}/{dst}", dirs_exist_ok=True) if os.path.isdir(src) else shutil.copy(src, f"{d}/{dst}")
    if s.get("lib"): shutil.copytree(f"{V}/shim", f"{d}/shim", dirs_exist_ok=True); open(f"{d}/demo.sh", "w").write(LIB % dict(srcs=s.get("srcs", ALL), flags=s.get("flags", ""), libs=s.get("libs", "")))
    else: open(f"{d}/demo.sh", "w").write(DEMO % dict(srcs=s.get("srcs", "src/token.cpp src/exception-handler.cpp"), flags=s.get("flags", "-fsanitize=address,undefined -fno-sanitize-recover=all"), extra=s.get("extra", ""), libs=s.get("libs", "")))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    a = sh(f"bash {d}/demo.sh", cwd="/repo"); b = sh(f"bash {d}/demo.sh", cwd=R)
    # stable tests: same sources and flags as the pinned build, against the patched copy
    bt = sh(f"rm -rf {R}/_build; sed 's#/repo#{R}#g' /opt/vp/build.sh > {w}/build.sh; sed 's#/repo#{R}#g; s#/opt/vp/build.sh#{w}/build.sh#g' /opt/vp/test.sh > {w}/test.sh; bash {w}/test.sh {w}/out.json", cwd=R)
    try: tj = json.load(open(f"{w}/out.json")); tests = f"passed {len(tj['passed'])} failed {tj['failed']}"
    except Exception: tests = "NO TEST RESULT " + bt.stdout[-600:]
    if tests.startswith("passed 0"): tests += bt.stdout[-800:]
    print(s["id"], "clean", a.returncode, "bug", b.returncode, "tests:", tests, "" if a.returncode == 0 and b.returncode not in (0, 3) else (a.stdout[-800:] + b.stdout[-800:]))
    shutil.rmtree(w)
