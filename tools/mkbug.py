"""write /verif/seeded/<id>/ from an edit, and try it.

mkbug.py make SPEC.py      SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
mkbug.py try ID...         patch applies, only original lines, demo 0/1, stable tests, check catches
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
BASE = "27c6960"
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/mplconfig} PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    sh("git -C /repo worktree prune; git clone -q /repo %s/r" % d)
    return d, d + "/r"


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d, r = copy()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT NOT UNIQUE", s.count(old), f)
                    raise SystemExit
                n0 = s[: s.index(old)].count("\n") + 1
                n1 = n0 + old.rstrip("\n").count("\n")
                rc, bl = sh("git blame -s -L %d,%d %s" % (n0, n1, f), cwd=r)
                open(p, "w").write(s.replace(old, new))
            rc, diff = sh("git diff", cwd=r)
            # removed lines must come from the base commit
            out = os.path.join(SEED, b["id"])
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO)
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print("made", b["id"])
        finally:
            shutil.rmtree(d)


def original_lines(r, diff):
    bad = []
    cur, line = None, 0
    for l in diff.splitlines():
        m = re.match(r"--- a/(.*)", l)
        if m:
            cur = m.group(1)
        m = re.match(r"@@ -(\d+)", l)
        if m:
            line = int(m.group(1))
            continue
        if l.startswith("-") and not l.startswith("---"):
            rc, bl = sh("git blame -s -L %d,%d HEAD -- %s" % (line, line, cur), cwd=r)
            if not bl.lstrip("^").startswith(BASE[:6]):
                bad.append(l)
            line += 1
        elif l.startswith(" "):
            line += 1
    return bad


def try_one(bid, tests=True, check=True):
    p = os.path.join(SEED, bid)
    prop = json.load(open(p + "/meta.json"))["property"]
    d, r = copy()
    res = {"id": bid, "property": prop}
    try:
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
        t = d + "/t"
        shutil.copytree(p, t)
        res["clean"], o = sh("bash %s/demo.sh" % t, cwd=r, env=env)
        if res["clean"]:
            res["out"] = o[-600:]
        diff = open(p + "/patch.diff").read()
        res["foreign"] = original_lines(r, diff)
        rc, o = sh("git apply %s/patch.diff" % t, cwd=r)
        if rc:
            res["apply"] = o
            return res
        res["patched"], o = sh("bash %s/demo.sh" % t, cwd=r, env=env)
        res["demo_out"] = o.strip().splitlines()[-1:] or ""
        if tests:
            rc, o = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 3 -x --dist worksteal", cwd=r, env=env)
            res["tests"] = o.strip().splitlines()[-1]
        if check:
            e2 = dict(os.environ, PYVC_REPO=r, VERIF_TIER="quick", VERIF_SEED="1")
            rc, o = sh("python3-vt check.py %s quick" % prop, cwd=HERE, env=e2)
            res["check"] = rc
            res["violation"] = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res["detail"] = o[-700:] if rc != 1 else ""
        return res
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == "make":
        make(sys.argv[2])
        return
    args = [a for a in sys.argv[2:] if not a.startswith("-")]
    ids = args or sorted(os.listdir(SEED))
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda b: try_one(b, "--notests" not in sys.argv, "--nocheck" not in sys.argv), ids):
            ok = r.get("clean") == 0 and r.get("patched") and not r.get("foreign") and ("tests" not in r or "39 passed" in r["tests"]) and ("check" not in r or r["check"] == 1)
            print("OK " if ok else "BAD", json.dumps(r if not ok else {k: r[k] for k in ("id", "property", "violation", "tests", "demo_out") if k in r}), flush=True)


main()
