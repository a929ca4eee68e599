#!/opt/veriftools/pyvenv/bin/python3
"""regenerate MANIFEST.json from the registry and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/irvc", H + "/props"]
import registry
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROP_MODULE:
        inf = registry.info(i)
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                       "technique": getattr(registry._m(i), "TECH", "contract-based deductive verification of the compiled IR of /repo's functions (SMT-discharged verification conditions)"),
                       "level": inf.level, "level_note": registry.level_note(i)})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "contracts for this property are not built yet; nothing is claimed")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "IRVC", "enable": "the units are compiled with -DIRVC; /repo contains no guarded code, the define is reserved", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check recompiles /repo's sources to LLVM IR, generates verification conditions for the functions under contract and discharges them with z3/cvc5. See DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
