"""DESIGN.md = design.in.md with the per-property table (from props.py) and the seed table filled in."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from props import PROPS

METHOD = {}
exec(open(ROOT + "/tools/methods.py").read())

rows = []
for p in PROPS:
    if "na" in p:
        continue
    m = METHOD.get(p["id"], "")
    rows.append("### %s %s\n- *Specified / oracle:* %s\n- *Deciding step:* `checks/%s.py:%s` — %s.\n- *Quantified over:* %s.\n- *Beyond the tests:* %s\n%s" % (
        p["id"], p["title"], p["stmt"], p["run"][0] if p["run"] else "-", p["run"][1] if p["run"] else "-", p["rule"], p["qtext"], p["why"], ("- *Bounds, assumptions, cost:* %s\n" % m) if m else ""))
seeds = {}
for d in sorted(os.listdir(ROOT + "/seeded")):
    try:
        j = json.load(open(ROOT + "/seeded/%s/meta.json" % d))
        seeds.setdefault(j["property"], []).append((d, j["what_it_breaks"]))
    except OSError:
        pass
srows = ["| seed | property (check that reports it) | what it breaks |", "|---|---|---|"]
for k in sorted(seeds):
    for d, w in seeds[k]:
        srows.append("| %s | %s | %s |" % (d, k, w.replace("|", "/")))
mut = open(ROOT + "/tools/mutation.md").read().strip() if os.path.exists(ROOT + "/tools/mutation.md") else ""
na = "\n".join("- %s %s: %s" % (p["id"], p["title"], p["na"]) for p in PROPS if "na" in p)
t = open(ROOT + "/tools/design.in.md").read()
open(ROOT + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(srows)).replace("@@MUT@@", mut).replace("@@NA@@", na))
