#!/usr/bin/env python3
"""Decides one property:  check.py <id> [--tier quick|thorough] [--replay FILE]

1. proof part: the contracts of the property (prover/), verified against /repo's current source;
2. concrete part: the same specifications evaluated on generated inputs of the real code.  It
   replays counterexamples, cross-checks the prover, and is the (labelled) bounded stand-in for
   what the prover can not reach.
"""
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse  # noqa: E402
import importlib  # noqa: E402
import multiprocessing as mp  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
MODULES = {"C01": "p_core", "C02": "p_core", "C03": "p_core", "C04": "p_core", "C05": "p_data", "C06": "p_data",
           "C07": "p_data", "C08": "p_data", "C09": "p_data", "C10": "p_data", "C11": "p_data", "C13": "p_data",
           "C12": "p_text", "C14": "p_valid", "C15": "p_valid", "C16": "p_valid", "C17": "p_valid",
           "C18": "p_valid", "C20": "p_valid", "C19": "p_bulk", "C21": "p_schema"}
WORKERS = 8
OUT = os.path.join(HERE, "out")


def load_suites(prop):
    from harness import base
    importlib.import_module("harness." + MODULES[prop])
    return base


def concrete_worker(args):
    prop, idx, seed, start, step, n, deadline = args
    try:
        base = load_suites(prop)
        return ("ok", idx, base.run_range(prop, idx, seed, start, step, n, deadline))
    except BaseException as e:  # noqa: BLE001
        return ("crash", idx, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}")


def proof_worker(args):
    try:
        from prover import run
        return run.run_one(*args)
    except BaseException as e:  # noqa: BLE001
        return {"name": str(args[1]), "status": "unsupported",
                "reason": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:]}


def write_replay(prop, name, payload):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(payload, f, indent=1, default=repr)
    return path


def expected_proofs(prop):
    try:
        return set(json.load(open(os.path.join(HERE, "prover", "baseline.json"))).get(prop, []))
    except (OSError, ValueError):
        return set()


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            if line.startswith(f"finding: property={prop} "):
                out.append(line.strip())
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", choices=["proof", "concrete"])
    a = ap.parse_args()
    prop, tier = a.prop, "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        return replay(prop, a.replay)

    budget = 60 if tier == "quick" else 600
    results, jobs = [], []
    ctx = mp.get_context("fork")
    suites, load_error = [], None
    try:
        base = load_suites(prop)
        suites = base.SUITES[prop]
    except BaseException as e:  # noqa: BLE001
        load_error = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"
    contracts = []
    try:
        from prover import run as prover_run
        contracts = prover_run.names(prop)
    except BaseException as e:  # noqa: BLE001
        print("prover not available:", type(e).__name__, e, file=sys.stderr)

    deadline = t0 + budget
    proofs = []
    def concrete(pool, run_seed, times, until):
        for idx, s in enumerate(suites):
            n = (s.quick if tier == "quick" else s.thorough) * times
            step = min(WORKERS, max(1, n // 50))
            for k in range(step):
                yield pool.apply_async(concrete_worker, ((prop, idx, run_seed, k, step, n, until),))

    def collect(pending, limit):
        for p in pending:
            try:
                results.append(p.get(timeout=limit))
            except mp.TimeoutError:
                results.append(("crash", -1, "timeout of the whole case"))

    escalated = ""
    with ctx.Pool(WORKERS, maxtasksperchild=None) as pool:
        pending = list(concrete(pool, seed, 1, deadline)) if a.only != "proof" and not load_error else []
        pending_proofs = []
        if a.only != "concrete":
            pending_proofs = [pool.apply_async(proof_worker, ((prop, c, tier),)) for c in contracts]
        collect(pending, budget + 240)
        limit = t0 + (420 if tier == "quick" else 3000)
        for c, p in zip(contracts, pending_proofs):
            try:
                proofs.append(p.get(timeout=max(0.2, limit - time.time())))
            except mp.TimeoutError:
                proofs.append({"name": c, "status": "unsupported", "reason": "time limit of the prover"})
        # A contract that is refuted, or no longer provable, marks code worth a longer look for a failing input.
        lost = [p["name"] for p in proofs if p["status"] == "refuted" or p["status"] != "proved" and p["name"] in expected_proofs(prop)]
        failing = any(k == "crash" or r[4] for k, _, r in results)
        if lost and not failing and not load_error and not a.only and time.time() < limit:
            escalated = f"longer search because of {', '.join(lost[:5])}"
            print(escalated)
            until = time.time() + (150 if tier == "quick" else 900)
            collect(list(concrete(pool, seed + 1000, 50, until)), 1200)
        pool.terminate()

    # ---------------------------------------------------------------- verdict
    violations = []
    evaluations, keys, samples, per_suite = 0, set(), [], {}
    for kind, idx, r in results:
        if kind == "crash":
            violations.append((write_replay(prop, f"crash{idx}", {"property": prop, "kind": "crash", "detail": r}), True,
                               "the code under test could not be driven: " + r.splitlines()[0]))
            continue
        name, done, ks, sm, failures = r
        evaluations += done
        keys |= ks
        samples += sm[:1]
        per_suite[name] = per_suite.get(name, 0) + done
        for f in failures[:1]:
            path = write_replay(prop, f"{name}-{f['index']}", {
                "property": prop, "kind": "concrete", "suite": name, "index": f["index"], "seed": f["seed"],
                "what": f["kind"], "detail": f["detail"], "trace": f.get("trace"),
                "replay": f"python3 check.py {prop} --replay <this file>"})
            violations.append((path, False, f["detail"][:300]))
    if load_error:
        violations.append((write_replay(prop, "load", {"property": prop, "kind": "load", "detail": load_error}), True,
                           load_error.splitlines()[0]))

    obligations = sum(p.get("obligations", 0) for p in proofs)
    discharged = sum(p.get("discharged", 0) for p in proofs)
    proved = [p["name"] for p in proofs if p["status"] == "proved"]
    undecided = [(p["name"], p.get("reason", "")[:300]) for p in proofs if p["status"] == "unsupported"]
    concrete_violation = any(not v[1] for v in violations)
    for p in proofs:
        if p["status"] == "refuted":
            path = write_replay(prop, f"obligation-{p['name']}", {
                "property": prop, "kind": "obligation", "contract": p["name"], "obligation": p.get("obligation"),
                "function": p.get("function"), "verifier_output": p.get("model"), "witness": p.get("witness"),
                "replay": f"python3 check.py {prop} --replay <this file>"})
            confirmed = bool(p.get("confirmed"))
            violations.append((path, not confirmed, f"obligation {p.get('obligation')} of {p['name']}"))
    violations.sort(key=lambda v: v[1])

    fully_bounded = not proved
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration" if fully_bounded else "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"python3-vt check.py {prop} --tier {tier}",
            "trusted_base": sorted({t for p in proofs for t in p.get("trusted", [])})
            + ["prover/: symbolic executor and VC generator for Python, written for this task",
               "z3 4.x / cvc5 1.1.2", "CPython parses the source the VCs are generated from"],
            "functions_under_contract": sorted({f for p in proofs for f in p.get("functions", [])}),
            "proved_contracts": proved,
            "undecided_contracts_bounded_standin": undecided,
            "paths": sum(p.get("paths", 0) for p in proofs),
            "solver_time_s": round(sum(p.get("solver_s", 0) for p in proofs), 2),
            "backends": sorted({b for p in proofs for b in p.get("backends", [])}),
            "evaluations": evaluations, "distinct_nontrivial": len(keys),
            "rule": "bounded stand-in and cross-check: random and source-harvested inputs; distinct by the "
                    "description each case notes about what it exercised",
            "escalation": escalated,
            "cases_per_suite": per_suite, "samples": samples[:6],
        },
        "assumptions": sorted({x for p in proofs for x in p.get("assumptions", [])}),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
    for p in proofs:
        print(f"contract {p['name']}: {p['status']} ({p.get('discharged', 0)}/{p.get('obligations', 0)} obligations, "
              f"{p.get('paths', 0)} paths, {p.get('wall', 0):.1f}s) {p.get('reason', '')[:200]}")
    print(f"{prop}: {len(proved)}/{len(proofs)} contracts proved, {evaluations} concrete cases, "
          f"{time.time() - t0:.1f}s")
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line[len("finding: "):])
    for path, no_input, text in violations[:5]:
        print("  " + text.replace("\n", " ")[:400])
        print(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if no_input else ""))
        break
    return 1 if violations else 0


def replay(prop, path):
    d = json.load(open(path))
    if d["kind"] == "concrete":
        base = load_suites(prop)
        s = next(x for x in base.SUITES[prop] if x.name == d["suite"])
        f, _ = base.run_case(s, d["seed"], d["index"])
        print(json.dumps(f, indent=1) if f else "does not fail on this tree")
        return 1 if f else 0
    if d["kind"] == "obligation":
        r = proof_worker((prop, d["contract"], "quick"))
        print(json.dumps(r, indent=1, default=repr))
        return 1 if r["status"] == "refuted" else 0
    print(d["detail"])
    return 1


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(code)
