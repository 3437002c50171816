"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os

PY = "/opt/venv/bin/python"
NOTE_COMMON = ("Obligations are generated on every run from /repo's current source: the real functions run, mechanically instrumented, over "
               "symbolic values and every obligation is discharged by z3 or cvc5. Trusted: CPython, the instrumentation and symbolic values in /verif/pyvc, the solvers. ")
CHECKS = {}


def claim(pid, note, level="proof"):
    CHECKS[pid] = {
        "property": pid,
        "quick_cmd": f"{PY} check.py {pid} --tier quick",
        "thorough_cmd": f"{PY} check.py {pid} --tier thorough",
        "technique": "contract-based deductive verification of the real Python functions (own VC generator pyvc + z3/cvc5), "
                     "with executable contracts as labelled bounded replay layer",
        "level": level,
        "level_note": NOTE_COMMON + note,
    }


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet; not claimed")} for p in ids if p not in CHECKS]
json.dump({"version": 1,
           "setup_cmd": f"{PY} -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, torch, numpy\"",
           "checks": [CHECKS[p] for p in ids if p in CHECKS],
           "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(CHECKS), "checks,", len(na), "not claimed")
