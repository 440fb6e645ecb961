"""writes MANIFEST.json from the claimed list"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from claims import CLAIMED, NOT
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3-vt tools/check.py %s quick" % p, "thorough_cmd": "python3-vt tools/check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": CLAIMED[p].get("technique", "contract-based deductive verification: contracts on the real functions, VCs generated from the clang AST, discharged by z3/cvc5; failing input searched on the real code"),
                 "level": "proof", "level_note": CLAIMED[p]["note"]} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NOT.get(p, "not claimed")} for p in props if p not in CLAIMED],
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks read /repo's sources as they are", "source_commits": []},
     "notes": "See DESIGN.md. Verifier: extractor/ (clang AST of /repo) + engine/ (VC generator) + z3/cvc5; contracts in props/; replay harnesses in replay/."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
