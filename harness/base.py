"""Suites: named families of cases, each case a function of a random.Random."""
import random
import sys
import time
import traceback

SUITES = {}


class Suite:
    def __init__(self, prop, name, fn, quick, thorough):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough = quick, thorough


def suite(prop, name, quick=2000, thorough=40000):
    """The function gets (rng, note); it raises on a violation, calls note(key) with a
    hashable description of what a non-trivial case exercised."""
    def deco(fn):
        for p in prop if isinstance(prop, (list, tuple)) else [prop]:
            SUITES.setdefault(p, []).append(Suite(p, name, fn, quick, thorough))
        return fn
    return deco


def run_case(s, seed, i):
    """-> (failure or None, notes)"""
    notes = []
    rng = random.Random(f"{seed}/{s.name}/{i}")
    try:
        s.fn(rng, notes.append)
    except RecursionError as e:
        return {"kind": "RecursionError", "detail": str(e)[:500]}, notes
    except Exception as e:  # noqa: BLE001
        return {
            "kind": type(e).__name__, "detail": str(e)[:4000],
            "trace": traceback.format_exc()[-3000:],
        }, notes
    return None, notes


def run_range(prop, idx, seed, start, step, n, deadline):
    s = SUITES[prop][idx]
    failures, keys, done = [], set(), 0
    samples = []
    for i in range(start, n, step):
        if time.time() > deadline or len(failures) >= 3:
            break
        f, notes = run_case(s, seed, i)
        done += 1
        for k in notes:
            keys.add(hash(repr(k)))
        if notes and len(samples) < 2:
            samples.append(f"{s.name}#{i}: {notes[0]!r}"[:400])
        if f:
            f.update(suite=s.name, index=i, seed=seed)
            failures.append(f)
    return s.name, done, keys, samples, failures
