"""writes MANIFEST.json from pyvc/plan.py"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "pyvc"))
from plan import PLAN

checks = []
for p, (level, contracts, outside) in sorted(PLAN.items()):
    if level == "proof":
        tech = "contracts on the real functions, discharged by a deductive verifier (pyvc, z3)"
        note = ("Every obligation generated from the current source of " + ", ".join(contracts)
                + " is discharged for all inputs and iterations"
                + (f"; covered only by the bounded check: {', '.join(outside)}" if outside else "")
                + ". Assumes exact real arithmetic for floats, partial correctness, and the trusted base listed in the evidence.")
    else:
        tech = "executable contracts on the real functions, bounded check" if not contracts else \
            "contracts: deductive verifier for some functions, bounded run-time contract check for the rest"
        note = ("Bounded: the property's executable contract is evaluated on generated inputs by the real code; nothing is proved for all inputs."
                if not contracts else
                "Proved for " + ", ".join(contracts) + "; bounded run-time contract check for " + ", ".join(outside) + ".")
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": tech, "level": level, "level_note": note})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": []},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
