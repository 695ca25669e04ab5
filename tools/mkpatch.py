#!/usr/bin/env python3
"""mkpatch.py <seed id>: reads seeded/<id>/edits.py-style spec from stdin (python list EDITS=[(file, old, new)...]) and writes patch.diff"""
import sys, os, subprocess, tempfile, shutil
sid = sys.argv[1]; ns = {}
exec(sys.stdin.read(), ns)
d = tempfile.mkdtemp(dir="/tmp")
try:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", d + "/r"])
    for f, o, n in ns["EDITS"]:
        p = os.path.join(d, "r", f); s = open(p).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    out = subprocess.check_output(["git", "-C", d + "/r", "diff"], text=True)
    os.makedirs("/verif/seeded/" + sid, exist_ok=True)
    open("/verif/seeded/%s/patch.diff" % sid, "w").write(out)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", d + "/r"])
    shutil.rmtree(d, ignore_errors=True)
