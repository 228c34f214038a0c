"""Records the member names of the library's classes (engine/members.json), so that the
analysis still finds a private member that has merely been renamed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "../engine")]
from lib import Lib  # noqa: E402

w = Lib().w
out = {t: [[m["name"], m["type"]] for m in d["members"] if m["name"]] for t, d in sorted(w.types.items()) if t.startswith("VLCB::") and d["members"]}
json.dump(out, open(os.path.join(HERE, "../engine/members.json"), "w"), indent=0)
