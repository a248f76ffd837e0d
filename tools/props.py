"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P, NA = [], {}


def p(id, title, statement, over, text, why, files, mechanism, observe=(), level="proof", note=None, technique=None, na=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=f) for n, f in mechanism])
    if observe:
        a["observe_at"] = list(observe)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    NA[id] = na
    META[id] = (level, note, technique)


META = {}
IHC = ["inputs", "histories", "configurations"]
HDL_TECH = ("deductive contract verification of the elaborated module: requires/ensures/ghost state over its ports, "
            "invariants inferred and discharged by z3 (induction, no bound on time), per configuration")
HDL_NOTE = ("Every clause is proved for all input histories of unbounded length, for each listed configuration (constructor arguments); "
            "trusts the Amaranth front end, the extraction (cross-checked against Amaranth's simulator on every run) and z3.")
exec(open(os.path.join(ROOT, "tools", "props_list.py")).read())

P.sort(key=lambda x: x["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
checks, na = [], []
for x in P:
    i = x["id"]
    if NA[i] or not os.path.exists(os.path.join(ROOT, "contracts", i.lower() + ".py")):
        na.append(dict(property=i, reason=NA[i] or "contracts not written yet"))
        continue
    level, note, tech = META[i]
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
                       technique=tech or HDL_TECH, level=level, level_note=note or HDL_NOTE))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="properties.jsonl and this file are generated by tools/props.py from tools/props_list.py. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
