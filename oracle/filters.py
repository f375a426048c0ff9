"""Meaning of filter expressions.  An expression is a nested tuple:
 ('pr', rep) | (op, rep, value) | ('complex', rep, expr) | ('not', expr) | ('and'|'or', [exprs])
"""
from datetime import datetime

from .core import C, INVALID, MISSING, Rep, lookup
from .types import SCIM_NAME

P, F, N, M = "PASSED", "FAILED", "FAILED_NO_ATTR", "MISSING_DATA"
LOGICAL = ("and", "or", "not")
ANY = {"string", "decimal", "dateTime", "reference", "boolean", "binary", "integer", "complex"}
TEXT = {"string", "reference", "complex"}
ORDER = {"string", "dateTime", "integer", "decimal", "complex"}
SUPPORTED = {"eq": ANY, "ne": ANY, "co": TEXT, "sw": TEXT, "ew": TEXT,
             "gt": ORDER, "ge": ORDER, "lt": ORDER, "le": ORDER}


def relation(op, x, y):
    try:
        if op == "eq":
            return bool(x == y)
        if op == "ne":
            return bool(x != y)
        if op == "co":
            return y in x
        if op in ("sw", "ew"):
            if not isinstance(x, str) or not isinstance(y, str):
                return False
            return x.startswith(y) if op == "sw" else x.endswith(y)
        if op == "gt":
            return x > y
        if op == "lt":
            return x < y
        return x >= y if op == "ge" else x <= y
    except TypeError:
        return False


def compare(op, a, v, given):
    if SCIM_NAME[a.type] not in SUPPORTED[op]:
        return False
    if a.is_complex:
        if not a.multi_valued or not isinstance(v, list):
            return False
        if not any(s.rep.attr == "value" for s in a.subs):
            return False
        v = [x.get("value") if isinstance(x, C)
             else C.from_raw(x).get("value") if isinstance(x, dict) else MISSING for x in v]
    if a.type == "DateTime":
        try:
            pair = datetime.fromisoformat(v), datetime.fromisoformat(given)
        except (TypeError, ValueError):
            return False
        return relation(op, *pair)
    items = v if isinstance(v, list) else [v]
    if isinstance(given, str) and not a.case_exact:
        return any(relation(op, x.lower(), given.lower()) for x in items if isinstance(x, str))
    return any(relation(op, x, given) for x in items)


def present(a, v):
    if a.is_complex:
        if not isinstance(v, list):
            return False
        return any(bool(x.get("value") if isinstance(x, C)
                        else C.from_raw(x).get("value") if isinstance(x, dict) else False)
                   for x in v)
    if isinstance(v, list):
        return any(bool(x) for x in v)
    if isinstance(v, str):
        return v != ""
    return not (v is None or v is MISSING or v is INVALID)


def evaluate(e, data, attrs, strict):
    """data: the object (C) the expression is evaluated on."""
    if e[0] in LOGICAL:
        return ev_logical(e, data, attrs, strict)
    a = lookup(attrs, e[1])
    v = data.get(a.rep) if a is not None and isinstance(data, C) else MISSING
    return ev_value(e, v, attrs, strict)


def ev_logical(e, data, attrs, strict):
    if not data:
        data = C() if not isinstance(data, C) else data
    if e[0] == "not":
        r = evaluate(e[1], data, attrs, True)
        return P if r == F or (r == M and not strict) else F
    rs = [evaluate(x, data, attrs, strict) for x in e[1]]
    if e[0] == "and":
        return F if F in rs or N in rs else M if M in rs else P
    return P if P in rs else M if M in rs else F


def ev_value(e, v, attrs, strict):
    """Evaluate a non-logical expression on the value of its attribute."""
    op, rep = e[0], e[1]
    a = lookup(attrs, rep)
    if a is None or (op == "complex" and not a.is_complex):
        return N
    if op == "pr":
        return P if present(a, v) else F
    if op == "complex":
        if v is None or v is MISSING:
            v = [] if a.multi_valued else C()
        if a.multi_valued != isinstance(v, list):
            return F
        if not isinstance(v, list):
            v = [v if v else C()] if not isinstance(v, C) else [v]
        sub = e[2]
        if sub[0] in LOGICAL or sub[0] == "complex":
            if sub[0] == "complex":
                rs = [ev_value(sub, item, a.subs, strict) for item in v]
            else:
                rs = [ev_logical(sub, item, a.subs, strict) for item in v]
            unknown = not v or M in rs
        else:
            vals = [item.get(sub[1]) for item in v]
            rs = [ev_value(sub, x, a.subs, strict) for x in vals]
            unknown = all(x is None or x is MISSING for x in vals)
        if P in rs:
            return P
        return P if unknown and not strict else F
    if v is None or v is MISSING:
        return M if strict else P
    if v is INVALID:
        return F
    return P if compare(op, a, v, e[2]) else F
