"""mkseed.py ID...: write seeded/ID from tools/seeds.py, confirm it on /repo
(builds, stable tests pass, demo passes without and fails with), run the property's check"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(H)
sys.path.insert(0, H)
from seeds import SEEDS


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def base_pass():
    j = json.load(open("/opt/vp/BASELINE.json"))
    return j


def tests():
    r = sh("bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 && bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1")
    j = json.load(open("/tmp/seedtest.json"))
    b = base_pass()
    want = set(b["stable"])
    got = set(j.get("passed", []))
    return r.returncode, sorted(want - got), len(want)


ids = sys.argv[1:] or list(SEEDS)
for i in ids:
    s = SEEDS[i]
    d = R + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
    bad = False
    for fn, old, new in s["edits"]:
        p = "/repo/src/" + fn
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            sh("git -C /repo checkout -- .")
            print("%s: %s occurs %d times in %s" % (i, old, n, fn))
            bad = True
            break
        open(p, "w").write(t.replace(old, new))
    if bad:
        continue
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    open(d + "/demo.cpp", "w").write('#include "demo.h"\nint main()\n{\n' + s["demo"] + "\n  return 0;\n}\n" if "int main" not in s["demo"] else s["demo"])
    for f in ("build.sh", "demo.h", "demo.sh"):
        shutil.copy(H + "/seedlib/" + f, d + "/" + f)
    for f, x in s.get("files", {}).items():
        open(d + "/" + f, "w").write(x)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, missing, n = tests()
    dp = sh("bash %s/demo.sh" % d, cwd="/repo")
    ck = sh("python3 checks/run.py " + s["property"], cwd=R)
    others = ""
    if "--all" in os.environ.get("SEEDOPT", ""):
        sys.path.insert(0, H)
    sh("git -C /repo checkout -- .")
    du = sh("bash %s/demo.sh" % d, cwd="/repo")
    ok = rc == 0 and not missing and dp.returncode not in (0, 2) and du.returncode == 0
    print("%-28s %s build/tests rc=%d missing=%s(of %d) demo: patched=%d clean=%d | check %s rc=%d %s" % (
        i, "VALID " if ok else "INVALID", rc, missing[:3], n, dp.returncode, du.returncode, s["property"], ck.returncode,
        "CAUGHT" if ck.returncode == 1 else "MISSED"))
    if not ok:
        print("patched demo:", dp.stdout[-300:], "clean demo:", du.stdout[-300:])
    else:
        print("    ", [l for l in ck.stdout.splitlines() if "violated" in l or " at " in l][:2])
sh("bash /opt/vp/build.sh")
