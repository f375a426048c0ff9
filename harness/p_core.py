"""C01-C04: issue registries, attribute stores, attribute notation."""
from oracle.core import A, C, INVALID, Issues, MISSING, Rep, lookup, rep_eq, top_eq, vcopy, veq

from . import gen as g
from .adapter import (
    AttrRep, Attributes, CODES, Invalid, Mismatch, Missing, SCIMDataContainer, ValidationIssues,
    as_list, check_value, flatten, make_error, n_rep, n_val, r_attr, r_attrs, r_rep, r_val,
)
from .base import suite

PARTS = ["a", "b", "A", "value", 0, 1, 2, "0", "urn:x", ""]


def location(r, n=3):
    return tuple(r.choice(PARTS) for _ in range(r.randrange(0, n + 1)))


def spec_report(iss, msg=False, ctx=False):
    return sorted((tuple(str(p) for p in l), c) for l, c, _ in iss.items)


def history(r):
    """random operations on a few registries; yields after each step"""
    spec = [Issues() for _ in range(3)]
    real = [ValidationIssues() for _ in range(3)]
    log = []
    depth = r.choice([1, 2, 3])
    codes = r.sample(CODES, 2)
    for _ in range(r.randrange(1, 12)):
        k, i = r.random(), r.randrange(3)
        if k < 0.5:
            loc, code, blocking = location(r, depth), r.choice(codes), g.chance(r, 0.5)
            arg = r.choice([loc, loc, list(loc)] + ([None] if not loc else []))
            log.append(f"r{i}.add({code}, proceed={not blocking}, {arg!r})")
            real[i].add(issue=make_error(code), proceed=not blocking, location=arg)
            spec[i].add(loc, code, blocking)
        elif k < 0.7:
            j = r.randrange(3)
            if i == j:
                continue
            loc = location(r, 2)
            log.append(f"r{i}.merge(r{j}, {loc!r})")
            if loc or g.chance(r, 0.5):
                real[i].merge(issues=real[j], location=loc)
            else:
                real[i].merge(issues=real[j])
            spec[i].merge(spec[j], loc)
        elif k < 0.85:
            j = r.randrange(3)
            loc = location(r, 2)
            log.append(f"r{j} = r{i}.get({loc!r})")
            real[j], spec[j] = real[i].get(r.choice([loc, list(loc)])), spec[i].get(loc)
        else:
            j = r.randrange(3)
            loc = r.choice([x[0] for x in spec[i].items] or [()]) if g.chance(r, 0.7) else location(r, depth)
            code = r.choice(codes)
            log.append(f"r{j} = r{i}.pop({loc!r}, {code})")
            popped, wanted = real[i].pop(loc, code), spec[i].pop(loc, code)
            if i != j:
                real[j], spec[j] = popped, wanted
            else:
                yield log, [popped], [wanted]
        yield log, real, spec


def probes(r, spec):
    locs = {()}
    for s in spec:
        for loc, _, _ in s.items:
            for n in range(len(loc) + 1):
                locs.add(loc[:n])
            locs.add(loc + (r.choice(PARTS),))
            if loc:
                locs.add(loc[:-1] + (r.choice(PARTS),))
    return sorted(locs, key=repr)


@suite("C01", "issue-history", quick=36000, thorough=100000)
def issue_history(r, note):
    for log, real, spec in history(r):
        for x, s in zip(real, spec):
            kw = r.choice([{}, {"msg": True}, {"ctx": True}, {"msg": True, "ctx": True}])
            rep = x.to_dict(**kw)
            got = sorted(flatten(rep))
            if got != spec_report(s):
                raise Mismatch(f"{'; '.join(log)}: reported {got}, expected {spec_report(s)}")
            for loc in r.sample(probes(r, [s]), 1) + [()]:
                if x.has_issues(loc) != s.has(loc):
                    raise Mismatch(f"{'; '.join(log)}: has_issues({loc!r}) is {x.has_issues(loc)}")
            locs = [location(r) for _ in range(r.randrange(0, 3))]
            if x.has_issues(*locs) != s.has(*locs):
                raise Mismatch(f"{'; '.join(log)}: has_issues{tuple(locs)!r} is {x.has_issues(*locs)}")
            check_rendering(rep, kw)
        note(tuple(log))


def check_rendering(rep, kw):
    for k, v in rep.items():
        if k != "_errors":
            check_rendering(v, kw)
            continue
        for e in v:
            want = {"code"} | ({"error"} if kw.get("msg") else set()) | ({"context"} if kw.get("ctx") else set())
            if set(e) != want:
                raise Mismatch(f"rendered issue {e!r} with {kw}")


@suite("C02", "blocking-history", quick=36000, thorough=100000)
def blocking_history(r, note):
    for log, real, spec in history(r):
        for x, s in zip(real, spec):
            pr = probes(r, [s])
            for loc in pr:
                if x.can_proceed(loc) != s.can_proceed(loc):
                    raise Mismatch(f"{'; '.join(log)}: can_proceed({loc!r}) is {x.can_proceed(loc)}")
            locs = [r.choice(pr) for _ in range(r.randrange(0, 3))]
            if x.can_proceed(*locs) != s.can_proceed(*locs):
                raise Mismatch(f"{'; '.join(log)}: can_proceed{tuple(locs)!r} is {x.can_proceed(*locs)}")
        note(tuple(log))


NAMES = ["a", "A", "b", "Bc", "bC", "$ref", "value"]
SUBS = ["x", "X", "yz", "yZ"]
URNS = ["urn:e:1", "URN:E:1", "urn:f"]


def c_value(r, depth=1):
    k = r.random()
    if k < 0.5 or not depth:
        return r.choice([1, "s", None, True, 0, "", "t", 2.5, INVALID])
    if k < 0.7:
        return C((r.choice(SUBS + NAMES), c_value(r, depth - 1)) for _ in range(r.randrange(0, 3)))
    if k < 0.85:
        return [C((r.choice(SUBS), c_value(r, 0)) for _ in range(r.randrange(0, 3))) for _ in range(r.randrange(0, 3))]
    return [c_value(r, depth - 1) for _ in range(r.randrange(0, 3))]


def c_rep(r):
    ext = g.chance(r, 0.3)
    return Rep(r.choice(URNS) if ext else r.choice(["", "", "", "urn:core", "urn:f"]), r.choice(NAMES),
               r.choice(SUBS) if g.chance(r, 0.35) else "", ext)


def textual(rep):
    return (rep.schema + ":" if rep.schema else "") + rep.attr + ("." + rep.sub if rep.sub else "")


def unspecified(c, rep, value):
    """writes whose effect the property leaves open"""
    if rep.ext:
        if not c.has(rep.schema):
            return False
        inner = c.val(rep.schema)
        if not isinstance(inner, C):
            return True
        return unspecified(inner, Rep(attr=rep.attr, sub=rep.sub), value)
    if not rep.sub or not c.has(rep.attr):
        return False
    return isinstance(c.val(rep.attr), C) and isinstance(value, list)


@suite("C03", "store-history", quick=36000, thorough=100000)
def store_history(r, note):
    raw = {}
    if g.chance(r, 0.5):
        for _ in range(r.randrange(0, 4)):
            raw[r.choice(NAMES + URNS + ["", "weird key", 5])] = no_marks(g.raw_of(c_value(r, 2)))
    spec = C.from_raw(raw)
    real = SCIMDataContainer({k: deep_real(v) for k, v in raw.items()})
    if g.chance(r, 0.2):
        real = SCIMDataContainer(real)
    log = [repr(raw)]
    exported = real.to_dict()
    for _ in range(r.randrange(1, 10)):
        rep = c_rep(r)
        key = r_rep(rep)
        if not rep.ext and g.chance(r, 0.4) and not (rep.sub and rep.attr == "$ref"):
            key = textual(rep)
        k = r.random()
        if k < 0.5:
            v = c_value(r)
            if rep.sub and g.chance(r, 0.5):
                v = [r.choice([1, "s", MISSING, C([("q", 1)])]) for _ in range(r.randrange(0, 4))]
            if unspecified(spec, rep, v):
                continue
            log.append(f"[{key!r}] = {v!r}")
            ok = spec.set(rep, vcopy(v))
            try:
                real[key] = r_val(v)
                done = True
            except KeyError:
                done = False
            if ok is not None and done != ok:
                raise Mismatch(f"{'; '.join(log)}: write {'accepted' if done else 'refused'}")
        elif k < 0.75:
            log.append(f"del [{key!r}]")
            spec.delete(rep)
            del real[key]
        check_value(real[key], spec.get(rep), f"{'; '.join(log)}: [{key!r}]")
        other = c_rep(r)
        check_value(real[r_rep(other)], spec.get(other), f"{'; '.join(log)}: [{other!r}]")
        exported = real.to_dict()
        check_value(norm_marks(exported), spec, f"{'; '.join(log)}: export")
        names = [k_.lower() for k_ in exported]
        if len(names) != len(set(names)):
            raise Mismatch(f"{'; '.join(log)}: {exported!r} has an attribute twice")
    same = SCIMDataContainer({g.respell(r, k): x for k, x in exported.items()})
    if not (same == real and real == same and real == exported):
        raise Mismatch(f"{'; '.join(log)}: not equal to its own export {exported!r}")
    if exported:
        k0 = r.choice(sorted(exported))
        less = {k: x for k, x in exported.items() if k != k0}
        more = dict(exported, **{k0: "other!"})
        if real == less or SCIMDataContainer(less) == real or real == more or real == 5:
            raise Mismatch(f"{'; '.join(log)}: equal to different data")
    note(tuple(log[1:]))


def no_marks(v):
    if isinstance(v, dict):
        return {k: no_marks(x) for k, x in v.items()}
    if isinstance(v, list):
        return [no_marks(x) for x in v]
    return 7 if v is INVALID else v


def norm_marks(v):
    if isinstance(v, dict):
        return C((k, norm_marks(x)) for k, x in v.items())
    if isinstance(v, list):
        return [norm_marks(x) for x in v]
    return n_val(v)


def deep_real(v):
    if v is INVALID:
        return Invalid
    if v is MISSING:
        return Missing
    if isinstance(v, dict):
        return {k: deep_real(x) for k, x in v.items()}
    if isinstance(v, list):
        return [deep_real(x) for x in v]
    return v


def word(s):
    return len(s) > 0 and all(c.isalnum() or c == "_" for c in s)


def parse_notation(s):
    """-> Rep or None, from the definition: URN up to the last colon, then name[.sub]"""
    urn, colon, rest = s.rpartition(":")
    if colon:
        for seg in urn.split(":"):
            if not seg or not all(c.isalnum() or c in "_.-" for c in seg):
                return None
    nm, dot, sub = rest.partition(".")
    if not (word(nm) or nm == "$ref"):
        return None
    if dot and not word(sub):
        return None
    return Rep(urn, nm, sub)


PIECES = ["urn", ":", ":", ".", ".", "a", "B", "2", "_", "-", " ", "$ref", "$", "é", "\n", "userName", "a-b",
          "name", "[", "'", "2.0", "User"]


@suite("C04", "notation", quick=90000, thorough=200000)
def notation(r, note):
    k = r.random()
    if k < 0.5:
        s = "".join(r.choice(PIECES) for _ in range(r.randrange(0, 8)))
    else:
        s = textual(Rep(r.choice(["", "urn:a:b", "urn:ietf:params:scim:2.0:User", "a", "urn:x-y"]), g.name(r),
                        r.choice(["", "x", "givenName"])))
        if k > 0.85:
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(PIECES) + s[i:]
    want = parse_notation(s)
    got = AttrRep.parse(s)
    note((s, want is None))
    if (got is Invalid) != (want is None):
        raise Mismatch(f"AttrRep.parse({s!r}) = {got!r}, expected {want!r}")
    if want is None:
        return
    if n_rep(got).key() != want.key() or got.extension or repr(got) != s:
        raise Mismatch(f"AttrRep.parse({s!r}) = {n_rep(got)!r} printed {got!r}, expected {want!r}")
    if got.attr_with_schema != (want.schema + ":" if want.schema else "") + want.attr:
        raise Mismatch(f"AttrRep.parse({s!r}).attr_with_schema is {got.attr_with_schema!r}")
    other = r.choice([c_rep(r), Rep(g.respell(r, want.schema), g.respell(r, want.attr), g.respell(r, want.sub)),
                      Rep("", g.respell(r, want.attr), want.sub), Rep(want.schema, want.attr, r.choice(["", "x"])),
                      Rep("urn:other", want.attr, want.sub)])
    o = r_rep(other)
    if (got == o) != rep_eq(want, other) or (o == got) != rep_eq(want, other) or (got != o) == rep_eq(want, other):
        raise Mismatch(f"{got!r} == {o!r} is {got == o}")
    if got.top_level_equals(o) != top_eq(want, other) or o.top_level_equals(got) != top_eq(want, other):
        raise Mismatch(f"{got!r}.top_level_equals({o!r}) is {got.top_level_equals(o)}")
    if got == s or got == None or got == 5:  # noqa: E711
        raise Mismatch(f"{got!r} equals something that is not a notation")


@suite("C04", "lookup", quick=24000, thorough=60000)
def find(r, note):
    attrs = []
    for _ in range(r.randrange(0, 6)):
        rep = Rep(r.choice(["", "urn:a", "URN:A", "urn:b:c"]), r.choice(["a", "A", "b", "name", "$ref"]),
                  r.choice(["", "", "x", "X", "value"]))
        if rep.key() not in [a.rep.key() for a in attrs]:
            attrs.append(A(rep.sub or rep.attr, "String", rep=rep, description=repr(rep.key())))
    coll = r_attrs(attrs)
    if [a.description for a in coll] != [a.description for a in attrs]:
        raise Mismatch("iteration does not give the declared attributes in order")
    if [a.description for a in coll.top_level] != [a.description for a in attrs if not a.rep.sub]:
        raise Mismatch("top_level is not the declared attributes without sub-attribute")
    rep = Rep(r.choice(["", "urn:a", "Urn:b:C", "urn:q"]), r.choice(["a", "B", "NAME", "zz"]), r.choice(["", "x", "VALUE"]))
    want, got = lookup(attrs, rep), coll.get(r_rep(rep))
    note((rep.key(), tuple(a.rep.key() for a in attrs)))
    if (got.description if got is not None else None) != (want.description if want is not None else None):
        raise Mismatch(f"{attrs!r} get {rep!r}: got {got!r}, expected {want!r}")
    attr_name = rep.attr + ("__" + rep.sub if rep.sub else "")
    want = next((a for a in attrs if a.rep.attr.lower() == rep.attr.lower() and a.rep.sub.lower() == rep.sub.lower()), None)
    try:
        got = getattr(coll, attr_name)
    except AttributeError:
        got = None
    if (got.description if got is not None else None) != (want.description if want is not None else None):
        raise Mismatch(f"{attrs!r}.{attr_name}: got {got!r}, expected {want!r}")
    # by patch path
    from src.data.operator import ComplexAttributeOperator, Present
    from src.data.path import PatchPath
    from src.filter import Filter
    top = Rep(rep.schema, rep.attr)
    sub = Rep(r.choice(["", rep.schema]), rep.attr, r.choice(["x", "value", "zz"])) if g.chance(r, 0.6) else None
    with_filter = g.chance(r, 0.5)
    path = PatchPath(
        attr_rep=r_rep(top),
        complex_filter=Filter(ComplexAttributeOperator(r_rep(top), Present(AttrRep(attr="q")))) if with_filter else None,
        complex_filter_attr_rep=r_rep(sub) if sub else None)
    base = lookup(attrs, top)
    want = base if base is None or sub is None else lookup(attrs, sub)
    got = coll.get_by_path(path)
    if (got.description if got is not None else None) != (want.description if want is not None else None):
        raise Mismatch(f"{attrs!r} by path {top!r} {sub!r}: got {got!r}, expected {want!r}")
