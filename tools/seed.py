#!/usr/bin/env python3
"""Helper for planted bugs.
  seed.py new ID PROPERTY FILE 'old' 'new' 'needs' 'breaks' < demo.py   (repeat FILE old new separated by '--')
  seed.py test [ID...]       confirm build, stable tests, demo, and run the property's check on the patched copy
"""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)


def copy():
    d = tempfile.mkdtemp(prefix="seed")
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    return d


def new(i, prop, edits, needs, breaks, demo, py="/opt/venv/bin/python", files=()):
    d = copy()
    try:
        r = d + "/repo"
        for f, old, newt in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %d occurrences in %s" % (i, s.count(old), f)
            open(p, "w").write(s.replace(old, newt))
        diff = sh("git diff", cwd=r).stdout
        out = os.path.join(S, i)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(demo)
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds on the example, 1 when it does not\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec %s "$(dirname "$0")/demo.py"\n' % py)
        os.chmod(out + "/demo.sh", 0o755)
        for f in files:
            shutil.copy(f, out)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)


def test(i, check=True):
    sd = os.path.join(S, i)
    prop = json.load(open(sd + "/meta.json"))["property"]
    d = copy()
    lay = tempfile.mkdtemp(prefix="lay")
    try:
        for f in os.listdir(sd):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                (shutil.copytree if os.path.isdir(sd + "/" + f) else shutil.copy)(sd + "/" + f, lay + "/" + f)
        r = d + "/repo"
        res = {}
        res["demo_clean"] = sh("bash %s/demo.sh" % lay, cwd=r, timeout=300).returncode
        a = sh("git apply %s/patch.diff" % sd, cwd=r)
        res["apply"] = a.returncode
        env = dict(os.environ)
        files = sh("git diff --name-only", cwd=r).stdout.split()
        b = [sh("/opt/venv/bin/python -B -c \"compile(open('%s').read(),'x','exec')\"" % f, cwd=r).returncode for f in files]
        res["build"] = max(b)
        t = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 --confcutdir=tests/ebaybbn tests/ebaybbn 2>&1 | tail -3" % r, cwd=r)
        res["tests"] = "19 passed" in t.stdout
        dp = sh("bash %s/demo.sh" % lay, cwd=r, timeout=300)
        res["demo_patched"] = dp.returncode
        res["demo_out"] = (dp.stdout + dp.stderr).strip().splitlines()[-1:] 
        if check:
            c = sh("python3-vt run.py %s --tier quick" % prop, cwd=V, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1"))
            res["check"] = c.returncode
            res["out"] = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR", prop))][:3]
        ok = res["demo_clean"] == 0 and res["apply"] == 0 and res["build"] == 0 and res["tests"] and res["demo_patched"] != 0
        print(i, prop, "VALID" if ok else "INVALID", "CAUGHT" if res.get("check") == 1 else "missed(%s)" % res.get("check"), json.dumps(res)[:900] if not ok or res.get("check") != 1 else res["out"][0][:200])
    finally:
        shutil.rmtree(d)
        shutil.rmtree(lay)


if __name__ == "__main__":
    if sys.argv[1] == "test":
        for i in sys.argv[2:] or sorted(os.listdir(S)):
            test(i)
