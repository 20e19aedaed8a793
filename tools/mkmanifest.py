"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
TECH = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "vf", "props", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd="./run.py %s" % i,
            thorough_cmd="./run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="property-based testing: " + TECH.get(
                i, "generated inputs against an independent oracle"),
            level="exploration", level_note=NOTE.get(
                i, "Holds on all generated cases (seeded, counted in the "
                "evidence); trusts the reference model and its stated "
                "floating point tolerance.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./run.py --setup", checks=checks,
         not_applicable=na,
         notes="Every check copies /repo/electrode to a scratch directory, "
         "rebuilds the extensions from it and runs seeded generators "
         "(VERIF_SEED) against oracles in vf/. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
