"""Contract registry and runner."""
import importlib
import time
import traceback

FILES = {}
CONTRACTS = {}     # property -> {name: fn(E)}
MODULES = ["c_types", "c_filters", "c_ops", "c_rep", "c_presence", "c_attr", "c_complex", "c_valid", "c_list", "c_query", "c_patch", "c_schema", "c_sort", "c_decl", "c_issues", "c_cont", "c_bulk", "c_text"]


def contract(prop, name, **opts):
    def deco(fn):
        for p in prop if isinstance(prop, (list, tuple)) else [prop]:
            CONTRACTS.setdefault(p, {})[name] = (fn, opts)
        return fn
    return deco


def load():
    for m in MODULES:
        importlib.import_module("prover." + m)


def names(prop):
    load()
    return list(CONTRACTS.get(prop, {}))


def run_one(prop, name, tier="quick"):
    load()
    from . import world
    from .engine import Refuted, Undecided
    from .theory import Unsupported
    fn, opts = CONTRACTS[prop][name]
    t0 = time.time()
    try:
        E = world.new_engine(deadline=t0 + (200 if tier == "quick" else 1500), **opts)
    except Unsupported as e:
        return {"name": name, "status": "unsupported", "reason": str(e), "obligations": 0, "discharged": 0, "paths": 0,
                "solver_s": 0, "backends": [], "functions": [], "trusted": [], "assumptions": [], "wall": 0}
    out = {"name": name, "status": "proved"}
    try:
        E.explore(lambda: fn(E))
        if E.obligations == 0:
            raise Unsupported("no obligation generated")
        if E.discharged != E.obligations:
            raise Unsupported("obligations left")
        if E.completed == 0:
            raise Unsupported("contract is vacuous: no feasible path reached its end")
    except Refuted as e:
        out.update(status="refuted", obligation=e.name, model=str(e.model)[:4000], witness=e.detail,
                   function=sorted(E.functions))
    except (Unsupported, Undecided) as e:
        out.update(status="unsupported", reason=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-2500:])
    except Exception as e:  # noqa: BLE001  (the prover met something it does not know)
        out.update(status="unsupported", reason=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-2500:])
    out.update(obligations=E.obligations, discharged=E.discharged, paths=E.npaths, solver_s=E.solver_s,
               backends=sorted(E.backends), functions=sorted(f for f in E.functions if f.startswith("src.")),
               trusted=sorted(E.trusted), assumptions=sorted(E.assumptions), wall=time.time() - t0)
    return out


if __name__ == "__main__":
    import sys
    from prover import run as me
    for n in (sys.argv[2:] or me.names(sys.argv[1])):
        r = me.run_one(sys.argv[1], n, "quick")
        print(f"{n:40s} {r['status']} ob={r['discharged']}/{r['obligations']} paths={r['paths']} {r['wall']:.1f}s "
              f"solver={r['solver_s']:.1f} {r.get('reason', '')[:300]} {r.get('obligation', '')}", flush=True)
        if len(sys.argv) > 2 and r["status"] != "proved":
            print(r.get("trace", ""), r.get("witness", ""), r.get("model", ""))
