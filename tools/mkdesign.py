"""Writes DESIGN.md from its hand-written parts, the properties, the drivers and the planted bugs."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
cost = json.load(open(V + "/tools/cost.json"))
out = [open(V + "/tools/design_head.md").read()]
dec = dict(l.rstrip("\n").split(" | ", 1) for l in open(V + "/tools/decides.txt") if " | " in l)
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    m = importlib.import_module("drv." + p["id"].lower())
    mods = ", ".join([x["module"] for x in getattr(m, "MC", [])] + [m.TR])
    c = cost.get(p["id"], ["?", "?"])
    out.append("### {} {}\n\n* **Decided by** {} ({}).\n* **Explored**: {}.\n* **Bounds**: model constants in `harness/drv/{}.py` (quick / thorough); counts in the evidence file.\n"
               "* **Assumes**: {}.\n* **Beyond the tests**: {} Cost {} s / {} s.\n".format(
                   p["id"], p["title"], dec[p["id"]].rstrip("."), mods, m.RULE.rstrip("."), p["id"].lower(), "; ".join(m.ASSUMPTIONS) or "nothing further", p["why_tests_cant"], *c))
out.append(open(V + "/tools/design_tail.md").read())
out.append("| planted bug | needs |\n|---|---|")
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    j = json.load(open("{}/seeded/{}/meta.json".format(V, d)))
    out.append("| {} | {} |".format(d, j["needs"].replace("|", "/").replace("\n", " ")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
