"""The properties, and the harnesses and bounds that decide them."""
import os
V = os.path.dirname(os.path.abspath(__file__))
SHIM = ["the third-party headers sfl (segmented_vector, small_vector), fmt and bitsery are not installed; small stand-ins in shim/ provide the parts simfil uses (8-element segments, out-of-range access traps)"]
ALL = ["src/" + f for f in "token.cpp exception-handler.cpp environment.cpp parser.cpp simfil.cpp function.cpp types.cpp value.cpp overlay.cpp model/model.cpp model/nodes.cpp model/string-pool.cpp".split()]
GROUPS = {
    "tok": dict(srcs=["src/token.cpp", "src/exception-handler.cpp"]),
    "arena": dict(srcs=["src/exception-handler.cpp"], shim=["shim"], assumptions=SHIM),
    "pool": dict(srcs=["src/exception-handler.cpp", "src/model/string-pool.cpp"], shim=["shim"], defs=["-DSX_SHIM_STREAMS"], assumptions=SHIM),
    "core": dict(srcs=["src/exception-handler.cpp", "src/model/string-pool.cpp", "src/model/nodes.cpp", "src/model/model.cpp", "src/types.cpp", "src/value.cpp", "src/overlay.cpp"], shim=["shim"], defs=["-DSX_SHIM_STREAMS"], assumptions=SHIM),
    "lib": dict(srcs=ALL, shim=["shim"], assumptions=SHIM),
    "json": dict(srcs=ALL + ["src/model/json.cpp"], shim=["shim"], defs=["-DSIMFIL_WITH_MODEL_JSON=1"], assumptions=SHIM),
}
COMMON_ASSUMPTIONS = [
    "libstdc++'s out-of-line code and libc are replaced by the models in rt/rt.cpp and engine/builtins.cpp (allocation never fails, C locale); headers and templates are executed as compiled",
    "clang 18 -O1 IR stands for the code; g++ builds the native replays",
]
def assumptions_of(p):
    out = list(COMMON_ASSUMPTIONS)
    for g in sorted({h["group"] for h in (p["harnesses"] or {}).values()}): out += GROUPS[g].get("assumptions", [])
    return out
def known_findings():
    out = []
    f = f"{V}/KNOWN_FINDINGS.txt"
    for l in open(f) if os.path.exists(f) else []:
        l = l.strip()
        if not l.startswith("known:"): continue
        d = dict(x.strip().split("=", 1) for x in l[6:].split(";") if "=" in x)
        out.append(dict(property=d["property"], harness=d["harness"], msg=d["msg"], what=d["what"]))
    return out
def N(**k): return k
HASH0 = ["_ZNK6simfil6detail19CaseInsensitiveHashclE"]   # a constant hash is a sound abstraction where P03 shows it consistent with equality
PROPS = []
def prop(id, title, statement, over, qtext, why, files, mechanism, harnesses, bounds, bounds_thorough="", assumptions=(), observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, harnesses=harnesses,
                      bounds=bounds, bounds_thorough=bounds_thorough, assumptions=list(assumptions), observe=list(observe), na=na))
TF = ["src/token.cpp", "include/simfil/token.h"]
def H(src, quick, thorough=None, group="tok", **k):
    d = dict(src=src, group=group, quick=quick, thorough=thorough if thorough is not None else quick); d.update(k); return d

exec(open(f"{V}/props_tok.py").read())
for _f in ("props_rest.py", "props_model.py", "props_conc.py"):
    if os.path.exists(f"{V}/{_f}"): exec(open(f"{V}/{_f}").read())
LARGE = {   # one larger, mostly fixed, input in addition to the small ones with every value free
    "T02": "also after 300 and 66000 blanks", "T05": "also with many digits", "T06": "also among 700 and 66000 plain characters", "T07": "also after 700 plain characters", "T11": "also with 300 and 5000 blanks", "T14": "also after 300 blanks",
    "F03": "also a text of 1200 parts", "F04": "also 300 arguments and the keys of 300 fields", "Q03": "also 300 values", "N01": "also names with 40 to 70 more characters", "M01": "also 300 strings and nodes", "O08": "also strings longer by 33000 characters",
    "J01": "also a document of 300 members and elements", "J02": "also a model of 300 members and elements", "M03": "also a model of 300 nodes", "V01": "also 300 overlaid fields", "Q07": "also values from 1000 and from 70000, evaluated before small ones", "X02": "and operands of every kind on both sides of each binary operator"}
for _p in PROPS:
    if _p["id"] in LARGE: _p["bounds"] += "; " + LARGE[_p["id"]]
