#!/usr/bin/env python3
"""Plant a bug: tools/seed.py FILE.py
FILE.py defines: id, prop, edits=[(file, old, new)], demo (python text), needs, breaks.
Verifies in a scratch copy of /repo (build, stable tests, demo both ways), then
writes /verif/seeded/<id>/ and runs the property's check against it.
tools/seed.py --run ID...   only runs the checks against seeded bugs."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8")

def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def runcheck(sid, prop=None, quiet=False):
    d = os.path.join(V, "seeded", sid)
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    rc, o = sh(["git", "-C", "/repo", "status", "--porcelain", "-uno"], "/")
    assert not o.strip(), "repo not clean: " + o
    rc, o = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"], "/")
    assert rc == 0, o
    try:
        rc, o = sh([V + "/bin/check", prop, "quick"], V)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."], "/")
    hit = rc == 1 and ("VIOLATION property=%s " % prop) in o
    print("%s %s: %s (rc %d)" % (sid, prop, "CAUGHT" if hit else "MISSED", rc))
    if hit:
        print("   " + "\n   ".join(l[:300] for l in o.splitlines() if "clause:" in l)[:900])
    else:
        print(o[-1500:])
    return hit

def make(f):
    m = runpy.run_path(f)
    for b in m["bugs"]:
        one(**b)

def one(id, prop, edits, demo, needs, breaks):
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        r = tmp + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        d = tmp + "/demo"
        os.mkdir(d)
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        rc0, o0 = sh([d + "/demo.sh"], r)
        if rc0 != 0:
            print(id, "DEMO FAILS ON CLEAN", o0[-1500:]); return
        for fn, old, new in edits:
            p = os.path.join(r, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT NOT UNIQUE (%d): %r" % (s.count(old), old)); return
            open(p, "w").write(s.replace(old, new))
        rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], r, dict(ENV, PYTHONPATH=r))
        if rc:
            print(id, "TESTS FAIL", o[-1500:]); return
        rc1, o1 = sh([d + "/demo.sh"], r)
        if rc1 == 0:
            print(id, "DEMO PASSES WITH BUG", o1[-500:]); return
        rc, diff = sh(["git", "diff"], r)
        out = os.path.join(V, "seeded", id)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(d + "/demo.py", out); shutil.copy(d + "/demo.sh", out)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
        runcheck(id)
    finally:
        shutil.rmtree(tmp)

if sys.argv[1] == "--run":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    res = [(i, runcheck(i)) for i in ids]
    print("caught %d of %d; missed: %s" % (sum(h for _, h in res), len(res), [i for i, h in res if not h]))
else:
    for f in sys.argv[1:]:
        make(f)
