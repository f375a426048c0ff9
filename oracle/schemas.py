from .attributes import process
from .core import C, INVALID, Issues, MISSING, Rep, vcopy
from .types import BAD_TYPE

MISSING_CODE, UNKNOWN_SCHEMA, NO_MAIN, NO_EXT, TYPE_MISMATCH = 15, 27, 28, 29, 17


def schemas_field(present_keys, listed, main, known):
    issues = Issues()
    listed = [x.lower() for x in listed if isinstance(x, str)]
    main, known = main.lower(), [k.lower() for k in known]
    if any(x != main and x not in known for x in listed):
        issues.add(("schemas",), UNKNOWN_SCHEMA, False)
    if main not in listed:
        issues.add(("schemas",), NO_MAIN, False)
    for k in present_keys:
        if k.lower() in known and k.lower() not in listed:
            issues.add(("schemas",), NO_EXT, False)
    return issues


def declared(s, data, mode):
    issues = Issues()
    if isinstance(data, dict):
        data = C.from_raw(data)
    out = C()
    for a in s.top:
        v = data.get(a.rep)
        if v is MISSING:
            continue
        pv, more = process(a, v, mode)
        issues.merge(more, ((a.rep.schema,) if a.rep.ext else ()) + (a.rep.attr,))
        out.set(a.rep, pv)
    return out, issues


def process_schema(s, data, mode):
    """data: anything; objects as dict or C."""
    issues = Issues()
    if data is None:
        issues.add((), MISSING_CODE, True)
        return INVALID, issues
    if not isinstance(data, (C, dict)):
        issues.add((), BAD_TYPE, True)
        return INVALID, issues
    out, more = declared(s, data, mode)
    issues.merge(more)
    listed = out.get(Rep(attr="schemas"))
    if issues.can_proceed(("schemas",)) and listed:
        issues.merge(schemas_field([k for k, _ in out.items()], listed, s.urn, s.urns))
    if mode == "dump" and s.resource and issues.can_proceed():
        if issues.can_proceed(("meta", "resourceType")):
            rt = out.get(Rep(attr="meta", sub="resourceType"))
            if rt is not MISSING and rt != s.name:
                issues.add(("meta", "resourceType"), TYPE_MISMATCH, False)
    return out, issues
