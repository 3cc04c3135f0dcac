"""Writes MANIFEST.json from the plan and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "pbt"))
sys.dont_write_bytecode = True
import plan

props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = plan.PLAN.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": plan.NOT_APPLICABLE.get(p["id"], "no check yet")})
        continue
    cmd = "/opt/venv/bin/python /verif/pbt/main.py --property %s" % p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd,
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "property-based testing: generated schemas and histories on real databases"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("level_note", "Random search with shrinking over generated schemas and histories against an "
                            "independent recomputation; trusts the database servers, Django's query layer and the oracle.")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/pbt/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "Checks start their own database servers in a scratch directory under /dev/shm and remove it. "
              "Known findings are listed in KNOWN_FINDINGS.txt. Replay a case with pbt/main.py --replay FILE."}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "without")
