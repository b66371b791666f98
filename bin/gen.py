#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/registry.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
def H(name, bounds, what, covers, **k): return dict(name=name, bounds=bounds, what=what, covers=covers, **k)
def prop(id, title, statement, over, qtext, why, files, mech, groups, harnesses, assumptions=(), optional_groups=()):
    PROPS.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])),
        r=dict(groups=groups, harnesses=harnesses, assumptions=list(assumptions), optional_groups=list(optional_groups))))
def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), reason=reason))
ASSUME = [
 "the LLVM module rustc 1.90 emits (opt-level 1, fat LTO, overflow checks and debug assertions on for tonbo) means what it means to LLVM; the engine's interpretation of it is validated on every run by replaying solver-chosen witnesses natively",
 "allocation never fails; heap addresses are concrete and deterministic; single-threaded execution unless a harness schedules several tasks",
 "code the repository's own build omits (/opt/vp/partial/omit.txt: the DB front end, parquet read paths, the compaction worker) is not part of the encoded program",
 "CPU feature detection reports no vector extensions, so the portable code paths of dependencies are the ones executed",
]
exec(open(os.path.join(V, "bin", "props.py")).read())
PROPS.sort(key=lambda x: x["p"]["id"])
with open(f"{V}/properties.jsonl", "w") as f:
    for x in sorted(PROPS + NA, key=lambda x: x["p"]["id"]): f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
json.dump({"assumptions": ASSUME, "properties": {x["p"]["id"]: x["r"] for x in PROPS}}, open(f"{V}/harness/registry.json", "w"), indent=1, ensure_ascii=False)
checks = []
for x in PROPS:
    i = x["p"]["id"]
    q = [h for h in x["r"]["harnesses"] if not h.get("thorough_only")]
    checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i} --tier quick", thorough_cmd=f"python3 bin/check.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json",
        technique="symbolic execution of the compiled real code (LLVM bitcode of the sliced crate), Z3 deciding every branch and assertion",
        level="model_checking",
        level_note="Exhaustive over all values within these bounds: " + "; ".join(f"{h['name']}: {h['bounds']}" for h in q) + ". Counterexamples are replayed on the native build before they are reported. Nothing is claimed beyond the bounds; trusted: rustc/LLVM, the engine (validated by native witness replay on each run), Z3." ))
json.dump(dict(version=1, setup_cmd="bash bin/setup.sh",
    hooks=dict(guard="none", enable="no hooks in /repo: the checks inject their harness modules into a scratch copy of the sliced crate under /verif/.work", source_commits=[]),
    checks=checks, not_applicable=[dict(property=x["p"]["id"], reason=x["reason"]) for x in NA],
    notes="Every check slices /repo's working tree as the repository's own build does, adds the harness modules in a scratch copy, compiles to bitcode and a native replay binary, and runs the engine in /verif/engine."), open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)

# section 7 of DESIGN.md
import re
o = []
for x in PROPS:
    p, r = x["p"], x["r"]
    o.append(f"### {p['id']} {p['title']}\n")
    o.append(p["statement"] + "\n")
    o.append("Encoded: " + "; ".join(f"{m['name']} ({m['where']})" for m in p["anchors"]["mechanism"]) + ". Harness groups: " + ", ".join(r["groups"] + [g + " (optional)" for g in r["optional_groups"]]) + ".\n")
    for h in r["harnesses"]: o.append(f"* `{h['name']}`{' (thorough)' if h.get('thorough_only') else ''}: for all {h['bounds']} - asserts: {h['what']}")
    o.append("")
    for a in r["assumptions"]: o.append(f"* assumed: {a}")
    if r["assumptions"]: o.append("")
    o.append(f"Why tests cannot: {p['why_tests_cant']}\n")
if NA:
    o.append("### Not applicable\n")
    for x in NA: o.append(f"* {x['p']['id']} {x['p']['title']}: {x['reason']}")
    o.append("")
D = f"{V}/DESIGN.md"
s = open(D).read()
s = re.sub(r"(?s)(<!-- properties: generated by bin/gen.py -->\n).*?(<!-- /properties -->)", lambda m: m[1] + "\n".join(o) + m[2], s)
open(D, "w").write(s)
