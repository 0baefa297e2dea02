"""Writes /verif/DESIGN.md: the text below, with the tables taken from properties, manifest, seeds and findings.  python3 tools/design.py"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda p: json.load(open(os.path.join(V, p)))
props = {p["id"]: p for p in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
man, kf = J("MANIFEST.json"), J("known_findings.json")
HOW = {}
exec(open(os.path.join(V, "tools", "design_data.py")).read())
out = [HEAD]
out.append("## Decided properties\n")
for c in man["checks"]:
    i = c["property"]; p = props[i]
    how, oracle, cost = HOW.get(i, ("", "", ""))
    out.append("### %s  %s\n\n%s\n\n- **Analysed:** %s\n- **Oracle:** %s\n- **Bounds and trust:** %s\n- **Why tests cannot settle it:** %s\n- **Cost:** %s\n" % (
        i, p["title"], p["statement"], how, oracle, c["level_note"], p["why_tests_cant"], cost))
out.append("## Not applicable\n")
for n in man["not_applicable"]: out.append("- **%s %s** %s" % (n["property"], props[n["property"]]["title"], n["reason"]))
out.append("\n## Planted changes and what catches them\n\nEach is in `seeded/<id>`, confirmed by `tools/seed.py test` (builds, stable tests pass, demonstration passes without and fails with it). All are caught by the check of their property; where another check also reports the change, this is incidental.\n\n| seed | property | what breaks |\n|---|---|---|")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "\\|")))
out.append(BATCHES)
out.append("## Genuine defects found\n\nRepaired (one `fix:` commit each, `known_findings.json` has the list under `fixed`):\n")
for f in kf["fixed"]: out.append("- " + (f if isinstance(f, str) else json.dumps(f)))
out.append("\nRecorded, not repaired:\n")
for f in kf["known"]: out.append("- %s `%s`: %s" % (f["property"], f["key"], f["what"]))
out.append(TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
missing = [c["property"] for c in man["checks"] if c["property"] not in HOW]
print("DESIGN.md", len("\n".join(out)), "bytes; no text for:", missing)
