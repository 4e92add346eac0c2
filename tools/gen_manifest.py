#!/usr/bin/env python3
"""Write MANIFEST.json from the check modules present in mc/checks."""
import json, pathlib, ast
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root/"properties.jsonl").read_text().splitlines()]
NA = {"C32": "Model checking decides finite sets of executions; the space of noise realisations is a continuum and the "
             "problem is ill-posed, so there is no bound an exhaustive exploration could establish. The deterministic "
             "parts (exact data, filters, averages) are C25-C27."}
checks, na = [], []
for p in props:
    mods = list((root/"mc/checks").glob(p["id"].lower()+"_*.py"))
    if not mods:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
        continue
    tree = ast.parse(mods[0].read_text())
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "TECHNIQUE"):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(
        property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=consts.get("TECHNIQUE", "stateless model checking: exhaustive bounded enumeration of decision sequences on the real code against a reference model"),
        level="model_checking",
        level_note="Exhaustive within these bounds: " + " ".join(consts.get("BOUNDS", "").split())
                   + ("; its functions in stacks, layouts, float types, repeated and in other units over the alphabets of C30, C31 and C33" if "extend(HARNESSES" in mods[0].read_text() else "")
                   + ". Trusts the reference model in /verif/mc, numpy/scipy/mpmath and IEEE arithmetic; says nothing about values outside the alphabet."))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="No hooks in /repo: every check drives the public interface of the working tree. See DESIGN.md.")
(root/"MANIFEST.json").write_text(json.dumps(man, indent=1)+"\n")
print(len(checks), "checks;", len(na), "not applicable")
