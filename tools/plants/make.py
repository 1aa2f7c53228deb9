"""Writes /verif/seeded/<id>/ from defs.py: patch.diff, demo.sh, demo.py, mini.py, meta.json.  Usage: make.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import defs
want = sys.argv[1:]
w = tempfile.mkdtemp(prefix="plant_")
try:
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
    for p in defs.P:
        if want and p["id"] not in want:
            continue
        subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
        for f, old, new in p["edits"]:
            path = os.path.join(w, f)
            s = open(path).read()
            assert s.count(old) == 1, (p["id"], f, s.count(old), old)
            open(path, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], check=True, capture_output=True, text=True).stdout
        d = os.path.join(V, "seeded", p["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "meta.json"), "w").write(json.dumps({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONHASHSEED=${PYTHONHASHSEED:-0}\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(os.path.join(d, "demo.py"), "w").write("import os, sys\n\nHERE = os.path.dirname(os.path.abspath(__file__))\nsys.path.insert(0, HERE)\nimport mini\nfrom mini import *\nfrom mini import _time\n" + p["demo"])
        shutil.copy(os.path.join(HERE, "mini.py"), d)
finally:
    shutil.rmtree(w)
