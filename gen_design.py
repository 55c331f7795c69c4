"""appends to DESIGN.md the table of contracts of each property, from the contract files"""
import os, sys, re, importlib, glob, json
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, "/repo"]
import warnings; warnings.simplefilter("ignore")
P = []
src = open(V + "/properties_src.py").read()
def prop(id, title, *a, **k): P.append(dict(id=id, title=title))
exec(src)
for f in sorted(glob.glob(V + "/contracts/c[0-9]*.py")):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
from pyvc import spec
NOTES = json.load(open(V + "/design_notes.json"))
out = []
for p in sorted(P, key=lambda q: q["id"]):
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p["id"] in NOTES: out.append(NOTES[p["id"]] + "\n")
    for c in spec.REGISTRY.get(p["id"], []):
        k = "proved" if c.sym and not c.bounded else ("proved, bounded: " + c.bounded if c.sym else "concrete, bounded: " + str(c.bounded))
        fn = ", ".join(q.replace("dolo.", "") for q in c.funcs) or "lemma"
        a = c.opts.get("assumes", [])
        out.append("* *%s* (%s): %s.%s" % (c.name, fn, k, (" Assumes: " + "; ".join(a) + ".") if a else ""))
    out.append("")
s = open(V + "/DESIGN.md").read()
a, b = "## 3. Properties\n", "## 4. "
i = s.index(a) + len(a)
j = s.index(b) if b in s else len(s)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
