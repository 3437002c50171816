"""Records which loops each function of /repo has, as the contracts number them (pyvc/loops.json, see pyvc.load.align)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc.load import baseline
json.dump(baseline(sys.argv[1] if len(sys.argv) > 1 else "/repo"), open(os.path.join(HERE, "pyvc", "loops.json"), "w"), indent=0)
