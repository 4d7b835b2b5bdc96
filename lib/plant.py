"""Development aid: confirms a planted bug in a scratch copy and runs checks against it.

python3 lib/plant.py ID [CHECK...]    seeded/ID/patch.diff; without CHECK only the property of meta.json
No check uses this file.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def main():
    bug, checks = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    d = os.path.join(V, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    checks = checks or [meta["property"]]
    wt = "/tmp/wt-" + bug
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp -a /repo " + wt)
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", wt).replace("/opt/vp/build.sh", wt + "/.vp-build.sh")
        open(os.path.join(wt, ".vp-" + f), "w").write(s)
    try:
        if "--no-confirm" not in sys.argv:
            c, o = sh("bash .vp-build.sh", wt)
            assert c == 0, o[-2000:]
            c, o = sh("bash %s/demo.sh" % d, wt)
            print("demo on unchanged tree:", c, o[-300:] if c else "")
        c, o = sh("git apply %s/patch.diff" % d, wt)
        assert c == 0, o
        if "--no-confirm" not in sys.argv:
            c, o = sh("bash .vp-test.sh %s/o.json" % wt, wt)
            r = json.load(open(wt + "/o.json"))
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            missing = stable - set(r["passed"])
            print("tests with the patch: %d stable ones fail %s" % (len(missing), sorted(missing)[:5]))
            c, o = sh("bash %s/demo.sh" % d, wt)
            print("demo with the patch:", c, o[-300:])
        for p in [] if "--no-check" in sys.argv else checks:
            env = dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick")
            c, o = sh("python3 run.py %s --quick" % p, V, env)
            lines = [l for l in o.split("\n") if l]
            print("%s %s: exit %d  %s" % (bug, p, c, "\n   ".join(lines[-6:])[-700:] if c != 1 or "-v" in sys.argv else lines[-1]))
    finally:
        shutil.rmtree(wt, ignore_errors=True)


main()
