import json, os
V = "/verif"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claims = json.load(open(V + "/tools/claims.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims and os.path.isdir(V + "/props/" + i):
        c = claims[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "contracts on the real code, discharged by symbolic execution of the exported AST + SMT; the same contracts evaluated on the compiled code as bounded stand-in / replay"),
            "level": c.get("level", "proof"),
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": claims.get("na", {}).get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "mkdir -p build evidence && python3-vt gfv/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the contracts are attached from outside to the exported AST of the real functions. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not")
