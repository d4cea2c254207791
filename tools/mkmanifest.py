"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DESIGN = "TLC exhausts the design model within small constants (all value scripts / schedules / faults); "
BIND = "bound to the code by replaying the model's behaviours into the real functions and by validating recorded runs with a TLA+ trace specification; "
TRUST = "trusts the projection of floats to ranks / evaluation numbers (exact bit equality, 1e-9 fallback), numpy and TLC; says nothing about configurations outside the generated ones"
T = {}
def t(ids, technique, note, level="model_checking"):
    for i in ids.split():
        T[i] = (technique, note, level)
t("C01 C03 C04 C05 C07 C09", "TLA+ model PopOpt/EvoOpt checked with TLC + behaviour replay + trace validation (OptTrace)", DESIGN + BIND + TRUST)
t("C02 C06", "TLA+ model EvoOpt checked with TLC + behaviour replay + trace validation (OptTrace)", DESIGN + BIND + TRUST)
exec(open(os.path.join(V, "tools", "techniques.py")).read()) if os.path.exists(os.path.join(V, "tools", "techniques.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in T:
        tech, note, level = T[i]
        m["checks"].append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                                evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
m["notes"] = "No hooks: everything is observed through the public API. Specification in spec/, harness in harness/, see DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
