"""writes MANIFEST.json from the list of specs present and the not-applicable reasons below"""
import json, os, importlib, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + "/engine", R + "/specs"]
NA = json.load(open(R + "/tools/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in ids:
    if os.path.exists("%s/specs/%s.py" % (R, p)) and p not in NA:
        m = importlib.import_module(p)
        checks.append({"property": p, "quick_cmd": "./check.sh %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p,
                       "technique": ("CBMC function contracts (goto-instrument --dfcc) on core/mersenne_twister.cpp, and " if p == "P13" else "") + "contract-based deductive verification: function contracts on the LLVM IR compiled from /repo on every run, obligations discharged by z3/cvc5",
                       "level": getattr(m, "LEVEL", "proof"), "level_note": m.LEVEL_NOTE})
    else: na.append({"property": p, "reason": NA.get(p, "contracts not written yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt engine/selftest.py", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo are needed: contracts live in /verif/specs and are attached to the functions by name; the verified text is re-extracted from /repo's working tree on every run."},
          open(R + "/MANIFEST.json", "w"), indent=1)
