#!/usr/bin/env python3
"""Plants bugs: tools/plant.py BUGS.py [id ...]
BUGS.py defines BUGS, a list of dicts id, property, edits [(file, old, new)], demo (python source), needs, breaks.
Each is confirmed in a scratch copy of /repo (applies, existing tests pass, demo passes without and fails with it)
and only then written to /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property's example holds
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" "$here/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280, **k)


def run(b):
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        demo = os.path.join(d, "demo")
        os.mkdir(demo)
        open(os.path.join(demo, "demo.sh"), "w").write(DEMO)
        open(os.path.join(demo, "demo.py"), "w").write(b["demo"].strip() + "\n")
        if b.get("edits"):
            pre = sh(["bash", os.path.join(demo, "demo.sh")], repo)
            if pre.returncode:
                return b["id"], "demo fails on the unchanged tree:\n" + pre.stdout[-800:]
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "%d matches for %r in %s" % (s.count(old), old, f)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        fixed = sh(["git", "diff", "2f91b6f", "HEAD"], repo).stdout
        mine = {l[1:].strip() for l in fixed.splitlines() if l.startswith("+") and not l.startswith("+++")}
        touched = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() in mine and l[1:].strip()]
        if touched:
            return b["id"], "changes lines of a fix: %r" % touched
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", "tests"], repo)
        if t.returncode:
            return b["id"], "caught by the existing tests: " + t.stdout[-300:]
        post = sh(["bash", os.path.join(demo, "demo.sh")], repo)
        if post.returncode == 0:
            return b["id"], "demo does not fail"
        out = os.path.join(V, "seeded", b["id"])
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(demo, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return b["id"], "ok (demo: %s)" % (post.stdout.strip().splitlines() or ["-"])[-1][:150]
    except subprocess.TimeoutExpired as e:
        return b["id"], "timeout %s" % e.cmd
    finally:
        shutil.rmtree(d)


ns = {}
exec(open(sys.argv[1]).read(), ns)
todo = [b for b in ns["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
with ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(run, todo):
        print(i, r, flush=True)
