"""The implementation under verification, bound to the abstract views."""
import sys

import z3

from harness.adapter import REPO, at, op  # noqa: F401  (puts /repo on sys.path)
from oracle.core import A, C, INVALID, Issues, MISSING, Rep
import src.data.attributes as m_attributes
import src.data.container as m_container
import src.data.schemas as m_schemas
import src.data.type as m_type
import src.error as m_error

from . import models, theory as T
from .engine import Model, PyRaise, Prune
from .interp import Interp
from .models import Reg, SymCont
from .theory import Err, Nat, OPAQUE, SB, SEnum, SI, SS, SV, Seq, Unsupported, Val


def new_engine(deadline=None, issues=True, containers=True):
    E = Interp(deadline=deadline)
    E.classes = {"container": m_container.SCIMDataContainer, "issues": m_error.ValidationIssues,
                 "error": m_error.ValidationError, "Invalid": m_container.Invalid, "Missing": m_container.Missing}
    for c in (m_container.SCIMDataContainer, m_error.ValidationIssues, m_attributes.Attributes):
        for n in ("__bool__", "__len__"):
            if hasattr(c, n):
                raise Unsupported(f"{c.__name__}.{n}: its truth value is no longer constant")
    E.canon_map = {id(m_container.Invalid): INVALID, id(m_container.Missing): MISSING}
    if issues:
        E.constructors[m_error.ValidationIssues] = lambda E, a, k: Reg(E)
        E.constructors[Issues] = lambda E, a, k: Reg(E) if not a and not k else NotImplemented
        E.trusted.add("src.error.ValidationIssues: by its contract (C01, C02)")
    E.constructors[m_error.ValidationError] = make_error
    if containers:
        E.constructors[m_container.SCIMDataContainer] = make_cont
        E.constructors[C] = spec_cont
        E.handlers["oracle.core.C.from_raw"] = lambda E, a, k: from_raw(E, a[1])
        E.trusted.add("src.data.container.SCIMDataContainer: by its contract (C03)")
    return E


def make_error(E, a, k):
    code = a[0] if a else k.get("code")
    if not isinstance(code, int):
        raise Unsupported("symbolic error code")
    if code not in m_error.ValidationError._message_for_code:
        raise PyRaise(KeyError(code))
    return Err(code)


def from_raw(E, v):
    v = E.force(v)
    if isinstance(v, SV):
        return SymCont(E, T.c_of_dict(Val.d(v.z)))
    raise Unsupported("conversion of a dictionary")


def make_cont(E, a, k):
    v = E.force(a[0]) if a else k.get("d")
    if v is None:
        return SymCont(E)
    if isinstance(v, SymCont):
        # shares the data of the given container
        return v
    if isinstance(v, SV):
        if E.decide(Val.is_cont_(v.z)):
            return models.cont_of(E, v)
        if E.decide(Val.is_dict_(v.z)):
            return from_raw(E, v)
        return SymCont(E)
    if isinstance(v, dict):
        return filled(E, list(v.items()), True)
    return SymCont(E)


def filled(E, items, convert):
    """a container of the given entries; for the real one, values that would be converted are out of reach"""
    c = SymCont(E)
    for n, x in items:
        if not isinstance(n, str) or ":" in n or "." in n:
            raise Unsupported("container of a dictionary")
        x = E.force(x)
        if convert and (isinstance(x, (dict, list, Seq, models.SymDict))
                        or isinstance(x, SV) and E.decide(z3.Or(Val.is_dict_(x.z), Val.is_lst_(x.z)))):
            if isinstance(x, SV) and not E.decide(Val.is_dict_(x.z)):
                # a list from a container holds no dictionaries
                E.assumptions.add("lists taken from a container hold no raw dictionaries")
            else:
                raise Unsupported("container of a dictionary")
        c.setitem(E, n, x)
    return c


def spec_cont(E, a, k):
    if not a and not k:
        return SymCont(E)
    items = E.force(a[0]) if a else None
    if isinstance(items, list) and all(isinstance(x, tuple) for x in items):
        return filled(E, items, False)
    return NotImplemented


def val(E, name):
    return SV(E.fresh(name, Val))


def str_(E, name):
    return SS(E.fresh(name, T.Str))


def outcome(E, fn):
    """('value', v) or ('raise', exc)"""
    try:
        return "value", fn()
    except PyRaise as e:
        return "raise", e.exc
