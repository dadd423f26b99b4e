import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=[], not_applicable=[dict(property=a, reason=r) for a, r in props.NA])
for p in props.PROPS:
    c = checks.CHECKS.get(p["id"])
    if not c:
        assert any(a == p["id"] for a, _ in props.NA), p["id"]
        continue
    m["checks"].append(dict(
        property=p["id"], quick_cmd="python3 tools/check.py %s quick" % p["id"], thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
        technique="solver-based checking of the real code: exhaustive symbolic execution of the compiled (LLVM IR) implementation with Z3 (QF_BV), counterexamples replayed concretely",
        level="model_checking",
        level_note="Bounded: " + c["bounds"] + ". Outside: " + c["outside"] + ". Trusted: clang 18 -O1, the engine and library models in /verif/engine, Z3, the oracle in the harness."))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

# DESIGN.md
import design_notes as dn
cost = {}
if os.path.exists(V + "/tools/cost.json"):
    cost = json.load(open(V + "/tools/cost.json"))
o = open(V + "/tools/design_head.md").read()
for p in props.PROPS:
    c = checks.CHECKS.get(p["id"])
    o += "\n### %s %s\n\n" % (p["id"], p["title"])
    if not c:
        o += "Not applicable: %s\n" % dict(props.NA)[p["id"]]
        continue
    o += "- Code: " + ", ".join("`%s`" % f for f in p["anchors"]["files"]) + "\n"
    o += "- Oracle: " + dn.ORACLE[p["id"]] + "\n"
    o += "- Harnesses: " + ", ".join("`harness/%s`" % h["file"] for h in c["harnesses"]) + "\n"
    o += "- Bounds: " + c["bounds"] + ".\n- Outside: " + c["outside"] + ".\n"
    if c.get("assumptions"):
        o += "- Assumes: " + "; ".join(c["assumptions"]) + ".\n"
    if p["id"] in cost:
        o += "- Cost (quick): %s\n" % cost[p["id"]]
    o += "- Why tests cannot settle it: " + p["why_tests_cant"] + "\n"
o += dn.FALSE
o += "\n## Defects found\n\nAll were repaired by \"fix:\" commits in /repo (known-findings.txt is the list the checks read).\n\n"
for l in open(V + "/known-findings.txt"):
    if l.startswith("fixed: property="):
        w = l[len("fixed: property="):].rstrip("\n").split(" ", 2)
        o += "- %s (%s): %s\n" % (w[0], w[1], w[2])
    elif l.strip() and not l.startswith("#"):
        o += "- known finding: " + l.replace("\t", " ")
o += "\n## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
sd = V + "/seeded"
for d in sorted(os.listdir(sd)):
    if os.path.exists(sd + "/" + d + "/meta.json"):
        j = json.load(open(sd + "/" + d + "/meta.json"))
        o += "| %s | %s | %s | %s |\n" % (d, j["property"], j["needs"], res.get(d, "not recorded"))
open(V + "/DESIGN.md", "w").write(o)
