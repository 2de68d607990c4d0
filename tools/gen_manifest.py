"""writes MANIFEST.json for the properties that have a harness"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOTE = ("Holds for every value of the symbolic inputs within the bounds stated in the evidence (text lengths, numbers of "
        "children, depth); nothing is claimed beyond them. Trusted: the instrumenting symbolic executor in symex/ (every "
        "explored path is re-executed on the real package and must agree) and z3.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(H + "/harness/%s.py" % i.lower()):
        checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i,
                           thorough_cmd="./check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the real Python code with z3 deciding every branch and assertion",
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import func_args'", checks=checks, not_applicable=na)
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "claimed;", [x["property"] for x in na])
