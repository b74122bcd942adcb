"""writes properties.jsonl and MANIFEST.json from one table (run after editing it)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, F, C, U = "hydraxmpm/solvers/", "hydraxmpm/forces/", "hydraxmpm/constitutive_laws/", "hydraxmpm/utils/"
SH = "hydraxmpm/shapefunctions/"
LEVEL = ("every obligation generated from /repo's current source is discharged by the deductive engine (symbolic sizes, all inputs); real arithmetic for floats; "
         "trusted: engine, z3, JAX tracing")
P = []


def prop(id, title, statement, over, text, why, files, mech, note=LEVEL, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _note=note, _level=level))


exec(open(os.path.join(HERE, "tools", "props.py")).read())
NA = [x for x in P if x["_level"] == "na"]
CL = [x for x in P if x["_level"] != "na"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
man = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selfcheck.py",
           checks=[dict(property=x["id"], quick_cmd="/opt/venv/bin/python check.py --property %s --tier quick" % x["id"],
                        thorough_cmd="/opt/venv/bin/python check.py --property %s --tier thorough" % x["id"],
                        technique="contract-based deductive verification: pre/postconditions on the real functions, obligations generated from the jaxpr of the current source, discharged by normal forms + z3",
                        level=x["_level"], level_note=x["_note"]) for x in CL],
           not_applicable=[dict(property=x["id"], reason=x["_note"]) for x in NA],
           notes="see DESIGN.md; known findings in known_findings.json")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(CL), "claimed", len(NA), "not applicable")
