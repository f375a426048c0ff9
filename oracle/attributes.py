from .core import C, INVALID, Issues, MISSING, Rep, conv
from .types import BAD_TYPE, rule

NOT_ONE_OF, MULTI_PRIMARY = 14, 9


def canonical_ok(a, v):
    if v is INVALID or a.canonical is None:
        return True
    fold = lambda x: x.lower() if isinstance(x, str) and not a.case_exact else x  # noqa: E731
    return any(fold(v) == fold(c) for c in a.canonical)


def run_processors(processors, value, issues):
    for p in processors:
        value, more = p(value)
        issues.merge(more)
    return value


def process_simple(a, v, mode):
    issues = Issues()
    if v is None:
        return None, issues

    def one(item, loc):
        out, codes = rule(a.type, item, mode)
        for code in codes:
            issues.add(loc, code, True)
        if not canonical_ok(a, out) and a.enforce:
            issues.add(loc, NOT_ONE_OF, True)
            out = INVALID
        return out

    if a.multi_valued:
        if not isinstance(v, list):
            issues.add((), BAD_TYPE, True)
            return INVALID, issues
        out = [one(item, (i,)) for i, item in enumerate(v)]
    else:
        out = one(v, ())
    if not issues.has():
        out = run_processors(a.parsers if mode == "parse" else a.dumpers, out, issues)
    return out, issues


def single_primary(items):
    issues = Issues()
    if sum(1 for it in items if it.get("primary") is True) > 1:
        issues.add((), MULTI_PRIMARY, False)
    return list(items), issues


def process(a, v, mode):
    out, issues = process_simple(a, v, mode)
    if not a.is_complex or not issues.can_proceed() or out is None:
        return out, issues

    def one(item, loc):
        src = item if isinstance(item, C) else C.from_raw(item) if isinstance(item, dict) else C()
        dst = C()
        for sub in a.subs:
            sv = src.get(Rep(attr=sub.rep.attr))
            if sv is MISSING:
                continue
            pv, more = process(sub, sv, mode)
            issues.merge(more, loc + (sub.rep.attr,))
            dst.put(sub.rep.attr, pv)
        return dst

    if a.multi_valued:
        out = [one(item, (i,)) for i, item in enumerate(out)]
    else:
        out = one(out, ())
    if not issues.has():
        procs = list(a.complex_parsers if mode == "parse" else a.complex_dumpers)
        if a.multi_valued:
            procs = procs + [single_primary]
        out = run_processors(procs, out, issues)
    return out, issues
