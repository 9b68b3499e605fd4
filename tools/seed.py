"""Makes and verifies a planted bug.

  seed.py make ID PROP FILE          (reads OLD/NEW pairs from stdin json)
  seed.py test ID...                 verify patch, tests, demo; run the check
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    assert not sh("git -C /repo status --porcelain").stdout.strip()


def demo(d):
    return sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo").returncode


def test(i, checks=None, tests=True):
    d = os.path.join(SEED, i)
    meta = json.load(open(d + "/meta.json"))
    clean()
    row = [i, meta["property"]]
    if tests:
        row.append("demo0=%d" % demo(d))
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout)
        return
    try:
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            res = json.load(open("/tmp/seedtest.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = set(stable) - set(res["passed"])
            row.append("tests=%s" % ("ok" if not bad else "FAIL " +
                                     " ".join(sorted(bad))[:200]))
            row.append("demo1=%d" % demo(d))
        for c in checks or [meta["property"]]:
            t = time.time()
            r = sh("VERIF_SEED=1 VERIF_TIER=quick bash run.sh %s quick" % c,
                   cwd=HERE)
            hit = "VIOLATION property=%s " % c in r.stdout
            row.append("%s:%s(%d) %.0fs" % (
                c, "caught" if hit and r.returncode == 1 else "MISSED",
                r.returncode, time.time() - t))
            if hit:
                row.append([x for x in r.stdout.splitlines()
                            if x.startswith("reason")][0][:110])
    finally:
        sh("git -C /repo checkout -- .")
    print(*row, flush=True)


def make(i, propid, path, pairs, demo_py, needs, breaks):
    clean()
    d = os.path.join(SEED, i)
    os.makedirs(d, exist_ok=True)
    p = os.path.join("/repo", path)
    s = open(p).read()
    for a, b in pairs:
        assert s.count(a) == 1, (i, a, s.count(a))
        s = s.replace(a, b)
    open(p, "w").write(s)
    diff = sh("git -C /repo diff").stdout
    sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo_py)
    open(d + "/demo.sh", "w").write(DEMO)
    json.dump(dict(property=propid, needs=needs, what_it_breaks=breaks),
              open(d + "/meta.json", "w"), indent=1)


DEMO = '''#!/bin/bash
# run with cwd = the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent/no-pycache PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$(dirname "$0")/demo.py"
'''

if __name__ == "__main__":
    if sys.argv[1] == "test":
        a = [x for x in sys.argv[2:] if not x.startswith("-")]
        checks = [x[2:].split(",") for x in sys.argv if x.startswith("-c")]
        for i in a or sorted(os.listdir(SEED)):
            test(i, checks[0] if checks else None, "-n" not in sys.argv)
