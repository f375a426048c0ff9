import functools
from datetime import datetime

from .core import C, INVALID, MISSING, Rep, lookup
from .types import SCIM_NAME


def sort_value(rep, item, attrs):
    """-> (attr, value) or None if the resource has no value to sort by"""
    a, v = find(rep, item, attrs)
    return None if a is None else usable(a, v)


def find(rep, item, attrs):
    """the value to sort by and its attribute"""
    a = lookup(attrs, rep)
    if a is None:
        return None, None
    v = item.get(a.rep)
    if a.multi_valued and isinstance(v, list):
        if a.is_complex:
            prim = None
            for x in v:
                if x.get("primary") is True:
                    prim = x
                    break
            if prim is None:
                return None, None
            v, subs, a = prim.get("value"), a.subs, None
            for s in subs:
                if s.rep.attr.lower() == "value":
                    a = s
                    break
        else:
            v = v[0] if v else None
    return a, v


def usable(a, v):
    if v is None or v is MISSING or v is INVALID or v == "":
        return None
    if isinstance(v, str):
        if a.type == "DateTime":
            try:
                return a, datetime.fromisoformat(v)
            except ValueError:
                return None
        if SCIM_NAME.get(a.type) not in ("string", "reference", "binary"):
            return None
    return a, v


def less(x, y):
    (a, v), (b, w) = x, y
    if isinstance(v, str) and isinstance(w, str) and not a.case_exact and not b.case_exact:
        return v.lower() < w.lower()
    return v < w


def ordered(rep, asc, items, attrs_of):
    """items: list of C; attrs_of: attribute definitions per item. -> indices in order.
    Raises TypeError when values are incomparable."""
    vals = [sort_value(rep, c, at) for c, at in zip(items, attrs_of)]
    have = [i for i, v in enumerate(vals) if v is not None]
    lack = [i for i, v in enumerate(vals) if v is None]

    def cmp(i, j):
        x, y = (vals[i], vals[j]) if asc else (vals[j], vals[i])
        return -1 if less(x, y) else 1 if less(y, x) else 0

    have.sort(key=functools.cmp_to_key(cmp))
    return have + lack if asc else lack + have
