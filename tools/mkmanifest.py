"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
try:
    LEVELS = json.load(open(os.path.join(HERE, "ded", "levels.json")))
except FileNotFoundError:
    LEVELS = {}
checks = []
for p in props:
    i = p["id"]
    lv = LEVELS.get(i, {})
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 check.py {i}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        evidence_file=f"evidence/{i}.json",
        technique=lv.get("technique", "contracts on the real functions, evaluated at run time (bounded stand-in)"),
        level=lv.get("level", "exploration"),
        level_note=lv.get("note", "bounded: contracts are evaluated on generated inputs; nothing is proved"),
    ))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
               notes="Contracts: contracts/*.py (sidecar files; /repo carries no hooks). Verifier: ded/. Run-time contract checker: rac/. See DESIGN.md."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
