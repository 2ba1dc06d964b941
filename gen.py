#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and registry.py."""
import json, os
import registry, meta
CAUGHT = {}
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for p in meta.PROPERTIES:
        why = p["why"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=why,
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=p.get("hook")))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
claimed = [p["id"] for p in meta.PROPERTIES if p["id"] in registry.PROPS]
na = [dict(property=p["id"], reason=p["na"]) for p in meta.PROPERTIES if p["id"] not in registry.PROPS]
man = dict(version=1, setup_cmd="python3 check.py --setup",
    hooks=dict(guard=meta.HOOK_GUARD, enable=meta.HOOK_ENABLE, source_commits=meta.HOOK_COMMITS),
    checks=[dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                 technique="bounded symbolic execution of the LLVM IR of /repo's crates, assertions decided by an SMT solver (Z3), counterexamples replayed natively",
                 level="model_checking",
                 level_note="Holds for every value within these bounds: " + registry.PROPS[i]["bounds"] + " Trusts the IR executor in symex/ (every explored path is also spot-replayed against the native build), Z3 and rustc.")
            for i in claimed],
    not_applicable=na)
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(meta.PROPERTIES), "properties,", len(claimed), "claimed,", len(na), "not applicable")

import re, glob
DOC = {}
for src in glob.glob(V + "/harness/src/bin/*.rs"):
    for d, fn in re.findall(r"((?:///[^\n]*\n)+)(?:#\[[^\n]*\n)*pub extern \"C\" fn (\w+)", open(src).read()):
        DOC[(os.path.basename(src)[:-3], fn)] = " ".join(l.strip("/ ") for l in d.splitlines())
out = ["\n## Properties\n"]
for p in meta.PROPERTIES:
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    out.append(f"Bounds: {registry.PROPS[p['id']]['bounds']}\n")
    try:
        e = json.load(open(V + f"/evidence/{p['id']}.json"))
        w = e.get("wall_s") or e.get("wall_seconds")
    except Exception:
        w = None
    for g in registry.PROPS[p["id"]]["groups"]:
        out.append(f"- `{g['bin']}` `{g['fn']}` ({len(list(g.get('cases', [0])))} jobs)" + (': ' + DOC[(g['bin'], g['fn'])] if (g['bin'], g['fn']) in DOC else ''))
    out.append("")
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = m.split("/")[-2]
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {CAUGHT.get(i, 'yes')} |")
if rows:
    out += ["## Planted bugs\n", "Each compiles, passes the stable tests and is shown by its `demo.sh`; the last column says whether the check of its property catches it.\n", "| bug | property | needs | caught |", "|---|---|---|---|"] + rows + [""]
out.append("## Findings\n")
for l in open(V + "/known-findings.jsonl"):
    if l.strip():
        d = json.loads(l); out.append(f"- {d['property']} {d['status']}: {d['what'].removeprefix('fixed: property=' + d['property']).strip()}")
MARK = "<!-- generated by gen.py from here on -->\n"
t = open(V + "/DESIGN.md").read()
if rows:
    open(V + "/DESIGN.md", "w").write(t[:t.index(MARK) + len(MARK)] + "\n".join(out) + "\n")
