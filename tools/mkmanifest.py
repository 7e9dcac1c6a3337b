"""Writes MANIFEST.json from properties.jsonl and the drivers that exist."""
import importlib, json, os, sys
sys.path.insert(0, "/verif/harness")
props = [json.loads(x) for x in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists("/verif/harness/drv/%s.py" % i.lower()):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    m = importlib.import_module("drv." + i.lower())
    mods = sorted({x["module"] for x in getattr(m, "MC", [])} | {m.TR})
    checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ machine model-checked with TLC; TLC histories replayed and recorded traces validated (%s)" % ", ".join(mods),
        "level": "model_checking",
        "level_note": "Machine explored exhaustively within its bounds; the code is judged by TLC on every history replayed and recorded (not proved beyond them). Covered: " + m.RULE + ". Assumes: " + ("; ".join(m.ASSUMPTIONS) or "nothing further") + "."})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
  "notes": "No hooks: every observation is through the public API. TLA+ checked with TLC; see DESIGN.md."}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
