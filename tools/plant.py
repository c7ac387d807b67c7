"""Confirms a planted bug in a scratch copy and stores it under seeded/ (development only)."""
import json
import os
import shutil
import subprocess
import sys
import textwrap

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable(repo):
    """names of stable tests that fail in the copy"""
    out = "/tmp/plant/out.xml"
    sh("rm -f %s" % out)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC")
    r = sh("cd %s && %s -m pytest -q -p no:cacheprovider -x --timeout=300" % (repo, PY), env=env)
    return r.returncode, r.stdout[-600:]


def plant(id, prop, file, edits, demo, needs, breaks):
    wt = "/tmp/plant/wt"
    sh("rm -rf %s; mkdir -p /tmp/plant; cp -a /repo %s" % (wt, wt))
    files = [file] if isinstance(file, str) else file
    for f in files:
        p = os.path.join(wt, f)
        s = open(p).read()
        for e in edits if isinstance(file, str) else edits[f]:
            old, new = e[0], e[1]
            if s.count(old) < 1 or (len(e) < 3 and s.count(old) != 1):
                print(id, "NOT PLANTED: text found %d times: %r" % (s.count(old), old))
                return False
            if len(e) > 2:
                parts = s.split(old)
                k = e[2]
                s = old.join(parts[: k + 1]) + new + old.join(parts[k + 1 :])
            else:
                s = s.replace(old, new)
        open(p, "w").write(s)
    diff = sh("cd %s && git diff" % wt).stdout
    rc, out = stable(wt)
    if rc:
        print(id, "NOT PLANTED: tests fail:", out[-300:])
        return False
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("import sys\n\nsys.dont_write_bytecode = True\nsys.path.insert(0, \".\")\n" + textwrap.dedent(demo).strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    a = sh("cd /repo && timeout 100 bash %s/demo.sh" % d)
    b = sh("cd %s && timeout 100 bash %s/demo.sh" % (wt, d))
    good = a.returncode == 0 and b.returncode not in (0,)
    print(id, "planted" if good else "BAD DEMO clean=%d patched=%d %s %s" % (a.returncode, b.returncode, a.stderr[-300:], b.stderr[-200:]))
    if not good:
        shutil.rmtree(d)
    sh("rm -rf %s" % wt)
    return good
