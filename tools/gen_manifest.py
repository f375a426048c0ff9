"""Writes MANIFEST.json and known-findings.txt."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
sys.path.insert(0, HERE)
LEVELS = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks = []
for p in props:
    i = p["id"]
    lv = LEVELS.get(i, ["exploration", "bounded stand-in only"])
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt check.py {i} --tier quick",
        "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
        "technique": "contract-based deductive verification: VCs generated from /repo's source on every run, "
                     "z3/cvc5; executable-specification replay on concrete inputs",
        "level": lv[0], "level_note": lv[1],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3, sys; sys.exit(0)'",
    "hooks": {"guard": "none", "enable": "no hooks: the contracts live in /verif and /repo carries only fixes"},
    "checks": checks,
    "not_applicable": [],
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

TOPIC = [
    ("merging issues no longer", "C02"), ("ValidationIssues.pop", "C01"), ("ValidationIssues.get", "C01"),
    ("single entry per case", "C03"), ("setting an extension attribute", "C03"), ("extension attributes are looked up", "C03"),
    ("an empty key", "C03"), ("equality is symmetric", "C03"), ("non-finite numbers", "C05"), ("non-ASCII", "C05"),
    ("booleans are not accepted", "C05"), ("integers too big", "C05"), ("non-string items of 'schemas'", "C08"),
    ("keeps canonical-values", "C21"), ("keeps its description", "C21"), ("'and' does not match", "C10"),
    ("'pr' on multi", "C11"), ("incomparable types", "C11"), ("infinite comparison", "C12"), ("integer comparison values", "C12"),
    ("a lone quote", "C12"), ("placeholders of groups", "C12"), ("schema URNs with a hyphen", "C12"),
    ("honours excludeAttributes", "C20"), ("sort direction follows", "C20"), ("PATCH operation type", "C14"),
    ("malformed PATCH", "C15"), ("malformed response headers", "C15"), ("malformed query options", "C15"),
    ("malformed bulk", "C15"), ("bulk operation method", "C19"), ("wrong status of a successful bulk", "C19"),
    ("bulk GET operation", "C19"), ("success status codes", "C18"), ("PATCH without path", "C14"),
    ("PATCH reports read-only", "C14"), ("PATCH can not modify sub", "C14"), ("zero and false", "C13"),
    ("empty multi-valued attribute is sorted", "C13"), ("logical operators evaluate", "C10"), ("sw and ew", "C11"),
    ("absent multi-valued complex", "C10"), ("comparison with malformed", "C11"), ("date-time and reference", "C13"),
    ("variadic attribute", "C11"), ("presence of extension", "C09"), ("sorting by extension", "C13"),
    ("filtering by extension", "C10"), ("patch path with more", "C12"), ("logical filter operators ignoring", "C12"),
    ("refuse an already present", "C21"), ("without caseExact", "C15"), ("processor lists", "C21"),
    ("unknown location is not judged", "C19"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
with open(os.path.join(HERE, "known-findings.txt"), "w") as f:
    f.write("# Genuine defects of Pagerous/pyscim found by the checks.\n"
            "# 'fixed:' entries were repaired by the named commit in /repo and suppress nothing.\n"
            "# 'finding:' entries (none at present) would be reported as KNOWN-FINDING.\n")
    for line in log.splitlines():
        h, _, s = line.partition(" ")
        if not s.startswith("fix:"):
            continue
        ids = [p for t, p in TOPIC if t in s]
        assert len(ids) >= 1, s
        f.write(f"fixed: property={ids[0]} {h} before: not the case that {s[4:].strip()}\n")
