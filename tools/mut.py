#!/usr/bin/env python3
"""mut.py PROP CONTRACT[,CONTRACT] FILE  (old text and new text on stdin, separated by a line '====')
Runs contracts of the prover against a scratch copy of /repo with one text change."""
import os, shutil, subprocess, sys, tempfile
prop, names, path = sys.argv[1:4]
old, new = sys.stdin.read().split("====\n")
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(d, path)
    s = open(p).read()
    assert s.count(old.rstrip("\n")) >= 1, "text not found"
    open(p, "w").write(s.replace(old.rstrip("\n"), new.rstrip("\n"), 1))
    env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1")
    cmd = ["python3-vt", "-m", "prover.run", prop] + ([] if names == "-" else names.split(";"))
    out = subprocess.run(cmd, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env,
                         capture_output=True, text=True)
    print((out.stdout + out.stderr)[:int(os.environ.get("MUTLEN", "600"))])
finally:
    shutil.rmtree(d)
