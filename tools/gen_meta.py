"""writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py and the registered harnesses."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from props import P  # noqa
from vt import api  # noqa

REG = api.load_all()
NOTE = ("bounded: every assertion is discharged by z3 (unsat of its negation) for all values of the symbolic inputs on "
        "every feasible path of the real Python source within the bounds given in the evidence file; counterexamples are "
        "replayed against the real build before they are reported. Floats are modelled as reals, exp/log/tanh/cos as "
        "uninterpreted functions with sound axioms; numba-compiled code is trusted to follow the Python source "
        "(spot-checked by replaying solver models on the compiled build). Queries the solver leaves undecided are printed "
        "as INCONCLUSIVE and listed in the evidence, never counted as proved.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in REG and not p["na"]:
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                           technique="bounded symbolic execution of the real Python code + z3 (SMT)", level="other",
                           level_note=(p["note"] + " " if p["note"] else "") + NOTE))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "harness not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="see DESIGN.md; no hooks in /repo; harnesses import cosipy from /repo's working tree on every run")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks", len(na), "not applicable")

from design_notes import N, OUT  # noqa
d = open(os.path.join(HERE, "design_head.md")).read()
for p in P:
    d += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Decided by:* {N[p['id']]}\n\n"
    for n, h in REG.get(p["id"], {}).items():
        more = [f"assumes: {a}" for a in h.assumes] + [f"stubs: {a}" for a in h.stubs]
        d += f"* `{n}` ({len(h.params)} quick, {len(h.thorough)} more thorough instances): {h.bounds}." + (" " + "; ".join(more) + "." if more else "") + "\n"
    d += f"\n*Beyond tests:* {p['why']}.\n\n"
d += OUT
sd = os.path.join(ROOT, "tools", "catch_table.md")
if os.path.exists(sd):
    d += "\n## Planted bugs and what catches them\n\n" + open(sd).read()
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(d)
