"Writes MANIFEST.json: every property with a contract module is claimed."
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = {}
DEFAULT_TECH = ("contract-based deductive verification: pre/postconditions on the real functions, obligations generated from "
                "/repo's source by symbolic execution with inductive loop summaries (pyvc), discharged by z3; every contract "
                "also evaluated on the real functions")
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    if os.path.exists(os.path.join(V, "contracts", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": f"/verif/check {p} quick",
            "thorough_cmd": f"/verif/check {p} thorough",
            "technique": TECH.get(p, DEFAULT_TECH),
            "level": LEVEL.get(p, "proof"),
            "level_note": NOTE.get(p, ""),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "/verif/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
