import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from lib import core  # noqa: E402

pid = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]


def body(ck):
    import gurobipy  # noqa: F401  (installs the stand-in first)
    mod = importlib.import_module("checks." + pid.lower())
    mod.run(ck)


core.main(pid, body)
