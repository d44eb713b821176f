#!/usr/bin/env python3
"""tools/mkbug.py SPEC.py : (re)creates seeded/<id>/ from a specification file with a list BUGS of
dict(id, property, edits=[(file, old, new)], needs, what, demo)."""
import sys, os, subprocess, tempfile, json, runpy, shutil
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for b in spec["BUGS"]:
    if only and b["id"] not in only: continue
    d = "/verif/seeded/" + b["id"]; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug"); 
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, old, new in b["edits"]:
            p = w + "/r/" + f; s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"]); shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD:$PYTHONPATH" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", b["id"])
