"""plant.py FILE: FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
Each is confirmed in a scratch copy (tests pass, demo 0 without and non-0 with the change) and written to seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def tests_ok(d):
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d,
                       capture_output=True, text=True, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
    return r.returncode == 0, r.stdout[-600:]


def demo(path, d):
    return subprocess.run(["bash", path], cwd=d, capture_output=True, text=True, timeout=300)


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    d = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", d, symlinks=True)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches", s.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        # lines of the original repository?
        good, out = tests_ok(d)
        if not good:
            print(b["id"], "TESTS FAIL", out); continue
        side = os.path.join(tmp, "side"); os.makedirs(side)
        open(os.path.join(side, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + b["demo"])
        open(os.path.join(side, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        w = demo(os.path.join(side, "demo.sh"), d)
        wo = demo(os.path.join(side, "demo.sh"), "/repo")
        if wo.returncode != 0 or w.returncode == 0:
            print(b["id"], "DEMO without:", wo.returncode, wo.stderr[-500:], "with:", w.returncode); continue
        out = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        shutil.copy(os.path.join(side, "demo.sh"), out); shutil.copy(os.path.join(side, "demo.py"), out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(b["id"], "kept;", "demo says:", (w.stderr.strip().splitlines() or ["?"])[-1][:150])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
