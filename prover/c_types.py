"""C05: each scalar type's parse and dump against the type rule."""
import z3

from harness.adapter import TYPES, at
from oracle import types as spec

from . import models, theory as T, world
from .engine import zb
from .models import Reg, same
from .run import contract
from .theory import SV, Val

EXTERNAL = ("base64, urllib.parse.urlparse, datetime.fromisoformat/isoformat, int(float), float(int), str.encode: "
            "uninterpreted, deterministic, raising only the documented exception")
VALUES = ("values are None, bool, int, float, str, list, dict, container, datetime, the markers or some other object; "
          "subclasses of these are not considered")


def spec_registry(E, codes):
    r = Reg(E)
    for c in codes:
        r.add(E, (), c, True)
    return r


def type_contract(tname, mode):
    @contract("C05", f"{tname}.{mode}")
    def c(E):
        E.trusted |= {EXTERNAL}
        E.assumptions |= {VALUES, models.AXIOMS_NOTE}
        v = world.val(E, "v")
        kind, r = world.outcome(E, lambda: E.call(E.getattr(getattr(at, tname), mode), [v], {}))
        if kind == "raise":
            E.prove(f"{tname}.{mode} does not raise ({type(r).__name__})", False)
        value, codes = E.call(spec.rule, [tname, v, mode], {})
        got, issues = r
        same(E, got, value, f"{tname}.{mode} returns the value the rule prescribes")
        same(E, issues, spec_registry(E, codes), f"{tname}.{mode} reports exactly the rule's issues")
        E.prove(f"{tname}.{mode}: an issue is blocking and goes with the invalid marker",
                z3.Implies(issues.f_has(E, ()), z3.And(zb(E.is_(got, models.INVALID)), issues.f_block(E, ()))))
        E.completed += 1
    return c


for _t in TYPES:
    for _m in ("parse", "dump"):
        type_contract(_t, _m)
