#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from tools/props.py, checks.py and the texts below
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns, cs = {}, {}
exec(open(V + "/tools/props.py").read(), ns); exec(open(V + "/checks.py").read(), cs)
with open(V + "/properties.jsonl", "w") as f:
    for p in ns["PROPS"]: f.write(json.dumps(p) + "\n")
NA = ns.get("NA", {})
checks, na = [], []
for p in ns["PROPS"]:
    i = p["id"]
    if i in cs["CHECKS"]:
        c = cs["CHECKS"][i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the compiled LLVM IR of the real code; branches and assertions decided by z3 and a finite-domain solver; counterexamples replayed on the uninstrumented build",
            level="model_checking",
            level_note=c.get("note", "For every harness reported complete, the assertions hold for every input within the bounds printed in the evidence (harnesses[].bounds); harnesses cut by their time budget are reported incomplete and cover the explored paths only. Trusted: clang's lowering, the GMP model (exact integers), z3 and the finite-domain solver (a sample of whose refutations is re-decided by z3 in every run).")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks in /repo are needed: the checks instrument the current source at the LLVM IR level."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")

# ---- generated parts of DESIGN.md
import re, glob
def put(s, tag, body): return re.sub("<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda _: "<!-- %s -->\n%s<!-- /%s -->" % (tag, body, tag), s, flags=re.S)
b = ""
for p in ns["PROPS"]:
    c = cs["CHECKS"].get(p["id"]); b += "### %s %s\n\n%s\n\nAnchors: %s. " % (p["id"], p["title"], p["statement"], ", ".join(p["anchors"]["files"]))
    if not c: b += "Not applicable: %s\n\n" % NA.get(p["id"], ""); continue
    b += "Bounds per harness (file:harness, budget):\n\n"
    for h in c["harnesses"]: b += "- `%s:%s` %ds%s: %s. Bounds: %s.\n" % (h["file"], h["name"], h["quick"], "" if h["tier"] == "quick" else " (thorough tier only)", h["what"], h["bounds"])
    b += "\n"
d = open(V + "/DESIGN.md").read(); d = put(d, "generated", b)
kf = json.load(open(V + "/known_findings.json")); d = put(d, "fixes", "".join("- %s\n" % x.replace("fixed: property=", "") for x in kf["fixed"]))
t = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
try: caught = json.load(open(V + "/tools/caught.json"))
except Exception: caught = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(f)); n = os.path.basename(os.path.dirname(f)); t += "| %s | %s | %s | %s |\n" % (n, j["property"], j["needs"], caught.get(n, "%s quick" % j["property"]))
d = put(d, "seeds", t); open(V + "/DESIGN.md", "w").write(d)
