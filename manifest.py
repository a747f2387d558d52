#!/usr/bin/env python3
"""regenerates MANIFEST.json from the rule modules present"""
import json, os, sys, importlib
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sa")); sys.path.insert(0, os.path.join(ROOT, "sa", "rules"))
NA = {
    "C32": "optimality and termination of the search quantify over run-time token counts; no sound static argument in reach bounds them (the acceptance and size rules it rests on are decided as C10 and C11)",
}
TODO = "not claimed yet: rule under construction"
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if os.path.exists(os.path.join(ROOT, "sa", "rules", pid.lower() + ".py")):
        m = importlib.import_module(pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
            "technique": getattr(m, "TECHNIQUE", "static function summaries over MIR (abstract interpretation with value numbering)"),
            "level": "other",
            "level_note": getattr(m, "NOTE", "static rule over every path of the functions analysed; " + m.RULE)[:1000],
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, TODO)})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
