"""Apply every seeded bug to /repo in turn and run the check of its property."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
for b in ids:
    d = f"{ROOT}/seeded/{b}"
    prop = json.load(open(d + "/meta.json"))["property"]
    r = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
    if r.returncode:
        print(b, prop, "PATCH-FAILS", r.stderr.strip()); continue
    try:
        r = subprocess.run(["python3-vt", "check.py", prop, "--tier", "quick"], cwd=ROOT, capture_output=True, text=True, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(b, prop, "exit", r.returncode, (v[0] if v else "MISSED"), f"({len(v)})", flush=True)
