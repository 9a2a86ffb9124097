#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props*.py"""
import json, os
import props
V = props.V
LEVEL = ("Bounded proof by symbolic execution of the compiler's IR of the real sources: for every input within the stated bounds the solver (Z3, preceded by exact byte domains, "
         "intervals and linear normal forms) shows that no path violates the property; counterexamples are reported only if they reproduce on a native sanitizer build. Bounds: ")
with open(f"{V}/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"] or ["returned values and thrown errors of the public functions"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[], notes="See DESIGN.md. No hooks in /repo are needed.")
for p in props.PROPS:
    if p["na"]: m["not_applicable"].append(dict(property=p["id"], reason=p["na"])); continue
    m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        technique="symbolic execution of LLVM IR (symx + Z3)", level="model_checking",
        level_note=LEVEL + p["bounds"] + (" (" + p["bounds_thorough"] + ")" if p["bounds_thorough"] else "") + ". Assumes: " + "; ".join(p["assumptions"] + props.assumptions_of(p))))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
# the generated sections of DESIGN.md
def section(text, name, body):
    a, b = f"<!-- begin {name} (written by gen.py) -->\n", f"<!-- end {name} -->"
    i, j = text.index(a) + len(a), text.index(b); return text[:i] + body + text[j:]
def props_md():
    out = ""
    for p in props.PROPS:
        out += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
        if p["na"]: out += f"*Not applicable*: {p['na']}\n\n"; continue
        srcs = sorted({h["src"] for h in p["harnesses"].values()}); head = " ".join(open(f"{V}/h/{s}").readline().strip().lstrip("/ ") for s in srcs)
        groups = sorted({h["group"] for h in p["harnesses"].values()})
        out += f"* decided by: {', '.join('h/' + s for s in srcs)} ({head}) on group `{'`, `'.join(groups)}`; ranges over {p['qtext']}\n* anchored at: " + "; ".join(f"{m['where']} ({m['name']})" for m in p["mechanism"]) + "\n"
        out += f"* bounds: {p['bounds']}" + (f"; {p['bounds_thorough']}" if p["bounds_thorough"] else "") + f"\n* beyond tests: {p['why']}\n" + "".join(f"* assumes: {a}\n" for a in p["assumptions"]) + "\n"
    return out
def findings_md():
    return "".join(f"* {l.strip()}\n" for l in open(f"{V}/KNOWN_FINDINGS.txt") if l.startswith(("fixed:", "known:")))
def seeds_md():
    out = "| bug | breaks | needs | caught by |\n|---|---|---|---|\n"; cell = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    for s in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
        j = json.load(open(f"{V}/seeded/{s}/meta.json")); out += f"| {s} | {j['property']}: {cell(j['what_it_breaks'])} | {cell(j['needs'])} | {cell(j.get('caught_by', j['property']))} |\n"
    return out
t = open(f"{V}/DESIGN.md").read(); t = section(t, "properties", props_md()); t = section(t, "findings", findings_md()); t = section(t, "seeds", seeds_md())
open(f"{V}/DESIGN.md", "w").write(t)
