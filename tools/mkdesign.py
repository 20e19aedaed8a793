"""Appends the per-property text and the table of seeded changes to DESIGN.md"""
import json, os, glob, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = open(os.path.join(V, "tools", "missed.txt")).read().split()
d = open(os.path.join(V, "DESIGN.md")).read().split("\n## How each property")[0]
t = open(os.path.join(V, "tools", "design_props.md")).read()
by = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append(f.split(os.sep)[-2])
wrap = lambda s, ind="": textwrap.fill(s, 78, subsequent_indent=ind,
                                       break_on_hyphens=False)
for ids in by.values():
    for i in ids:
        pass
have = set(i for ids in by.values() for i in ids)
t = t.replace("@MISSED@", wrap(", ".join(i for i in MISSED if i in have) + "."))
t = t.replace("@TABLE@", "Caught by (all of them by the check of the property):\n\n" + "\n".join(
    wrap("* %s: %s" % (p, ", ".join(by[p])), "  ") for p in sorted(by)))
open(os.path.join(V, "DESIGN.md"), "w").write(d.rstrip("\n") + "\n" + t.rstrip("\n") + "\n")
