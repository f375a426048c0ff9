from .core import C, INVALID, Issues, MISSING, Rep, lookup, rep_eq, top_eq

NOT_REQUESTED, MISSING_CODE = 19, 15


class Checker:
    def __init__(self, reps=(), include=None, ignore=()):
        self.reps, self.include, self.ignore = list(reps), include, list(ignore)

    def __repr__(self):
        return f"Checker({self.reps}, {self.include}, {self.ignore})"


def absent(v):
    return v is None or v is MISSING or (isinstance(v, (str, list)) and len(v) == 0)


def verdict(ck, a, v, direction):
    """-> None or (code, blocking)"""
    named = any(rep_eq(a.rep, r) for r in ck.reps)
    if absent(v):
        demanded = (
            ck.include is not True
            or named
            or (direction == "RESPONSE" and a.returned == "always")
        )
        if a.required and demanded and not any(rep_eq(a.rep, r) for r in ck.ignore):
            return MISSING_CODE, True
        return None
    if direction != "RESPONSE" or a.returned == "always":
        return None
    if a.returned == "never":
        return NOT_REQUESTED, False
    if ck.include is False and named:
        return NOT_REQUESTED, False
    if ck.include is True and not named:
        covered = any(
            top_eq(a.rep, r) and (not a.rep.sub or not r.sub) for r in ck.reps
        )
        if not covered:
            return NOT_REQUESTED, False
    return None


def presence(ck, data, attrs, direction):
    issues = Issues()

    def judge(a, v, loc):
        if v is INVALID:
            return
        r = verdict(ck, a, v, direction)
        if r is not None:
            issues.add(loc, *r)

    for a in attrs:
        top = lookup(attrs, Rep(a.rep.schema, a.rep.attr))
        if a.rep.sub and top.multi_valued:
            v = data.get(Rep(a.rep.schema, a.rep.attr, "", a.rep.ext))
            if v is INVALID or v is MISSING:
                continue
            if v is None:
                judge(a, None, (a.rep.attr, a.rep.sub))
                continue
            for i, item in enumerate(v):
                if item is not INVALID:
                    judge(a, item.get(Rep(attr=a.rep.sub)), (a.rep.attr, i, a.rep.sub))
        else:
            loc = (a.rep.attr, a.rep.sub) if a.rep.sub else (a.rep.attr,)
            judge(a, data.get(a.rep), loc)
    return issues
