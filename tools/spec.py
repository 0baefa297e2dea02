"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json: python3 tools/spec.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
def P(pid, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, thorough=True):
    PROPS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                  "anchors": {"files": ["rust/" + f for f in files], "mechanism": [{"name": n, "where": "rust/" + w} for n, w in mech]}})
    if na: NA.append({"property": pid, "reason": na}); return
    c = {"property": pid, "quick_cmd": "python3 check.py " + pid}
    if thorough: c["thorough_cmd"] = "python3 check.py %s --thorough" % pid
    c |= {"technique": technique, "level": "other", "level_note": note}
    CHECKS.append(c)
exec(open(os.path.join(V, "tools", "spec_data.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 an/extract.py --setup", "checks": sorted(CHECKS, key=lambda c: c["property"]), "not_applicable": NA}, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    for p in PROPS: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(CHECKS), "checks,", len(NA), "not applicable")
