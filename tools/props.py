#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, design=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, design=design))


DIFF = "runtime monitor: online oracle (independent numpy reference semantics) over randomized executions of the real code"

exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks = []
na = []
for p in P:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "vf", "props", i.lower() + ".py")):
        na.append(dict(property=i, reason="no check built yet"))
        continue
    checks.append(dict(
        property=i, quick_cmd=f"./check.sh {i} --tier quick", thorough_cmd=f"./check.sh {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique=p["technique"] or DIFF, level="exploration",
        level_note=p["note"] or "Randomized exploration with a per-execution oracle: no proof; holds on every execution "
        "observed (counts in the evidence file). Trusts the reference oracle in /verif/vf, numpy/scipy and torch."))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every monitor observes the public API. /repo commits are fix: commits only."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
# the per-property part of DESIGN.md
import ast
def const(i, name):
    src = open(os.path.join(V, "vf", "props", i.lower() + ".py")).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == name:
            return ast.literal_eval(node.value)
    return ""
out = []
have = {c["property"] for c in checks}
for p in P:
    i = p["id"]
    if i not in have:
        continue
    cs = const(i, "CASES")
    out.append(f"### {i} {p['title']}\n\n{p['design'].strip()}\n\n* Workload: {const(i, 'RULE')}.\n"
               f"* Observation floors (quick): {const(i, 'MIN_EVENTS')}.\n* Bounds: {'; '.join(const(i, 'ASSUMPTIONS')) or 'none beyond the workload'}. "
               f"Cases: {cs['quick']} quick, {cs['thorough']} thorough.\n* Beyond the tests: {p['why']}\n")
d = open(os.path.join(V, "DESIGN.md")).read()
a, b = "<!-- properties: generated by tools/props.py -->", "<!-- end of properties -->"
head, rest = d.split(a)
_, tail = rest.split(b)
open(os.path.join(V, "DESIGN.md"), "w").write(head + a + "\n\n" + "\n".join(out) + "\n" + b + tail)
print(len(checks), "checks", len(na), "not applicable")
