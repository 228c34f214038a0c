"""python3 checks/run.py PID: decide one property on /repo's current sources."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import common
from props import PROPS

if __name__ == "__main__":
    p = [q for q in PROPS if q["id"] == sys.argv[1]][0]
    mod, fn = p["run"]
    common.main(getattr(importlib.import_module(mod), fn), p["id"], p["rule"], p["min"])
