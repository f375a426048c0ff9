"""C05-C09, C10, C11, C13, C21: types, attributes, schemas, presence, filters, sorting."""
import copy
from datetime import datetime

from oracle import attributes as oa
from oracle import filters as of
from oracle import presence as op_
from oracle import schemas as os_
from oracle import sorting as so
from oracle import types as ot
from oracle.core import A, C, INVALID, Issues, MISSING, Rep, S, conv, lookup, vcopy, veq

from . import gen as g
from .adapter import (
    AttributePresenceChecker, Filter, Invalid, Mismatch, SCIMDataContainer, Sorter, TYPES, at,
    check_issues, check_value, earlier, n_val, r_attr, r_attrs, r_checker, r_expr, r_rep, r_schema, r_val,
)
from .base import suite


@suite("C05", "scalar-types", quick=120000, thorough=300000)
def scalar(r, note):
    t = r.choice([x for x in TYPES])
    mode = r.choice(["parse", "dump"])
    v = g.typed_value(r, t, mode) if g.chance(r, 0.4) and t != "Complex" else \
        conv(g.weird(r)) if g.chance(r, 0.8) else g.weird(r)
    real = getattr(getattr(at, t), mode)
    got, gi = real(r_val(v))
    want, codes = ot.rule(t, v, mode)
    note((t, mode, repr(v)[:60]))
    check_value(got, want, f"{t}.{mode}({v!r})")
    check_issues(gi, Issues([((), c, True) for c in codes]), f"{t}.{mode}({v!r})")
    if t == "DateTime" and mode == "parse" and want is not INVALID:
        back, bi = at.DateTime.dump(got)
        again, ai = at.DateTime.parse(back)
        if bi.has_issues() or ai.has_issues() or again != got:
            raise Mismatch(f"round trip of {v!r}: {back!r} -> {again!r}")


@suite(["C06"], "attribute", quick=72000, thorough=200000)
def attribute(r, note):
    a = g.attr_def(r, complex_ok=False)
    mode = r.choice(["parse", "dump"])
    v = g.attr_value(r, a, mode, junk=0.25)
    want, wi = oa.process(a, vcopy(v), mode)
    real = r_attr(a)
    earlier(r, lambda: getattr(real, r.choice(["parse", "dump", mode]))(r_val(g.attr_value(r, a, mode, junk=0.2))))
    got, gi = getattr(real, mode)(r_val(v))
    note((a.type, a.multi_valued, a.enforce, mode, repr(v)[:40]))
    check_issues(gi, wi, f"{a!r}.{mode}({v!r})")
    check_value(got, want, f"{a!r}.{mode}({v!r})")


@suite(["C07"], "complex-attribute", quick=60000, thorough=150000)
def complex_attribute(r, note):
    while True:
        a = g.attr_def(r)
        if a.is_complex:
            break
    mode = r.choice(["parse", "dump"])
    v = g.attr_value(r, a, mode, junk=r.choice([0, 0.05, 0.25]))
    if isinstance(v, list) and len(v) > 1 and any(s.name == "primary" for s in a.subs) and g.chance(r, .5):
        for x in v:
            if isinstance(x, C):
                x.put("primary", g.chance(r, 0.5))
    want, wi = oa.process(a, vcopy(v), mode)
    real = r_attr(a)
    earlier(r, lambda: getattr(real, r.choice(["parse", "dump", mode]))(r_val(g.attr_value(r, a, mode, junk=0.1))))
    got, gi = getattr(real, mode)(r_val(v))
    note((a.multi_valued, len(a.subs), mode, repr(v)[:60]))
    check_issues(gi, wi, f"{a!r}.{mode}({v!r})")
    check_value(got, want, f"{a!r}.{mode}({v!r})")
    if isinstance(v, list) and all(isinstance(x, C) for x in v):
        from src.data.attributes import validate_single_primary_value
        _, pi = validate_single_primary_value(r_val(v))
        check_issues(pi, oa.single_primary(v)[1], f"primary({v!r})")


@suite("C08", "schema", quick=30000, thorough=80000)
def schema(r, note):
    s = g.schema_def(r)
    mode = r.choice(["parse", "dump"])
    junk = r.choice([0, 0.05, 0.2])
    raw = g.resource_raw(r, s, mode, junk) if g.chance(r, 0.93) else g.weird(r)
    given = vcopy(raw)
    if isinstance(raw, dict) and g.chance(r, 0.3):
        given = SCIMDataContainer(given)
    want, wi = os_.process_schema(s, vcopy(raw), mode)
    real = r_schema(s)
    earlier(r, lambda: getattr(real, r.choice(["parse", "dump", mode]))(g.resource_raw(r, s, mode, 0.1)))
    got, gi = getattr(real, mode)(given)
    note((len(s.attrs), mode, repr(raw)[:60]))
    check_issues(gi, wi, f"{s!r}.{mode}({raw!r})")
    check_value(got, want, f"{s!r}.{mode}({raw!r})")


def checker(r, s, attrs=None):
    attrs = s.attrs if attrs is None else attrs
    inc = r.choice([None, True, True, False, False])
    reps = [g.some_rep(r, attrs) for _ in range(r.randrange(0, 4))] if inc is not None or g.chance(r, .2) else []
    ign = [g.some_rep(r, attrs) for _ in range(r.choice([0, 0, 1, 2]))]
    return op_.Checker(reps, inc, ign)


@suite("C09", "presence", quick=36000, thorough=100000)
def presence(r, note):
    s = g.schema_def(r, procs=False)
    raw = g.resource_raw(r, s, "parse", junk=r.choice([0, 0.02, 0.1]), density=r.choice([0.3, 0.75, 1]))
    data, _ = os_.process_schema(s, raw, "parse")
    # multi-valued complex data may hold invalid items only if the whole value is
    for a in s.attrs:
        if g.chance(r, 0.05) and not a.rep.sub and not a.is_complex:
            data.set(a.rep, r.choice(["", [], None, INVALID, 0, False]))
    ck = checker(r, s)
    direction = r.choice(["REQUEST", "RESPONSE", "RESPONSE"])
    want = op_.presence(ck, data, s.attrs, direction)
    real, attrs = r_checker(ck), r_schema(s).attrs
    earlier(r, lambda: real(r_val(resource(r, s, "parse")), attrs, r.choice(["REQUEST", "RESPONSE"])))
    got = real(r_val(data), attrs, direction)
    note((ck.include, direction, len(want.items), repr(data)[:40]))
    check_issues(got, want, f"{ck!r} {direction} on {data!r} for {s!r}")


@suite("C09", "presence-sub-attributes", quick=18000, thorough=50000)
def presence_sub(r, note):
    """checker applied to the items of one complex attribute"""
    subs = [g.attr_def(r, n, complex_ok=False, procs=False, sub=True)
            for n in r.sample(g.ATTR_NAMES, r.randrange(1, 4))]
    c = C()
    for x in subs:
        if g.chance(r, 0.6):
            v = g.attr_value(r, x, "parse", 0)
            c.put(x.name, r.choice([v, v, None, "", []]))
    ck = checker(r, None, subs)
    direction = r.choice(["REQUEST", "RESPONSE"])
    got = r_checker(ck)(r_val(c), r_attrs(subs), direction)
    note((direction, ck.include, repr(c)[:40]))
    check_issues(got, op_.presence(ck, c, subs, direction), f"{ck!r} {direction} {c!r} {subs!r}")


ALLOWED = {"eq": "sbifn", "ne": "sbifn", "co": "s", "sw": "s", "ew": "s",
           "gt": "sif", "ge": "sif", "lt": "sif", "le": "sif"}


def operand(r, o, a, data_values):
    kinds = ALLOWED[o]
    pool = [x for x in data_values if (isinstance(x, str) and "s" in kinds)
            or (type(x) is int and "i" in kinds) or (type(x) is float and "f" in kinds)
            or (type(x) is bool and "b" in kinds)]
    if pool and g.chance(r, 0.65):
        v = r.choice(pool)
        if isinstance(v, str):
            if g.chance(r, 0.4):
                v = g.respell(r, v)
            if g.chance(r, 0.3) and o in ("co", "sw", "ew") and v:
                v = v[: r.randrange(len(v) + 1)] if o == "sw" else v[r.randrange(len(v)):]
        return v
    k = r.choice(kinds)
    return {"s": lambda: r.choice([g.text(r), r.choice(g.DTS), r.choice(g.B64)]), "b": lambda: g.chance(r, .5),
            "i": lambda: g.integer(r), "f": lambda: r.choice([0.5, 1.0, -2.5, 1e300]),
            "n": lambda: None}[k]()


def leaves(v):
    if isinstance(v, C):
        for _, x in v.items():
            yield from leaves(x)
    elif isinstance(v, list):
        for x in v:
            yield from leaves(x)
    else:
        yield v


def expr(r, attrs, data, depth=2, in_complex=False):
    k = r.random()
    if depth and k < 0.35:
        o = r.choice(["and", "or"])
        return (o, [expr(r, attrs, data, depth - 1, in_complex) for _ in range(r.choice([1, 2, 2, 3]))])
    if depth and k < 0.5:
        return ("not", expr(r, attrs, data, depth - 1, in_complex))
    rep = g.some_rep(r, [a for a in attrs if not a.rep.sub], known=0.9)
    rep = Rep(rep.schema, rep.attr)
    a = lookup(attrs, rep)
    if depth and not in_complex and (a is None or a.is_complex) and g.chance(r, 0.6):
        v = data.get(a.rep) if a is not None and isinstance(data, C) else MISSING
        first = v if isinstance(v, C) else v[0] if isinstance(v, list) and v else C()
        return ("complex", rep, expr(r, a.subs if a is not None else [], first, depth - 1, True))
    if g.chance(r, 0.2):
        return ("pr", rep)
    o = r.choice(["eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"])
    return (o, rep, operand(r, o, a, list(leaves(data)) if isinstance(data, C) else []))


def resource(r, s, mode="dump", junk=0.0):
    raw = g.resource_raw(r, s, mode, junk, density=r.choice([0.4, 0.8, 1]))
    return os_.process_schema(s, raw, mode)[0]


def wellformed(data, s):
    """complex values are objects / lists of objects"""
    for a in s.attrs:
        if a.is_complex:
            v = data.get(a.rep)
            if isinstance(v, list) and not all(isinstance(x, C) for x in v):
                return False
            if not isinstance(v, (list, C)) and v is not None and v is not MISSING:
                return False
    return True


def outcome(m):
    """the status, after what callers see of it: truth and equality"""
    st = m.status.value
    for b in (True, False):
        if (m == b) != (st == "PASSED" if b else st in ("FAILED", "FAILED_NO_ATTR")):
            raise Mismatch(f"outcome {st} == {b} is {m == b}")
    if st != "MISSING_DATA" and bool(m) != (st == "PASSED"):
        raise Mismatch(f"truth of the outcome {st} is {bool(m)}")
    if not m == type(m)(m.status):
        raise Mismatch(f"outcome {st} differs from itself")
    return st


def how(r, strict):
    """strict evaluation is what is done unless asked otherwise"""
    return () if strict and g.chance(r, 0.3) else (strict,)


@suite("C10", "filter-logic", quick=48000, thorough=150000)
def filter_logic(r, note):
    s = g.schema_def(r, procs=False)
    data = resource(r, s, r.choice(["dump", "parse"]), r.choice([0, 0.05]))
    if not wellformed(data, s):
        return
    e = expr(r, s.attrs, data, depth=3)
    strict = g.chance(r, 0.5)
    want = of.evaluate(e, data, s.attrs, strict)
    real, rs = Filter(r_expr(e)), r_schema(s)
    earlier(r, lambda: real(r_val(resource(r, s)), rs, g.chance(r, 0.5)))
    got = outcome(real(r_val(data), rs, *how(r, strict)))
    note((repr(e)[:80], want, strict))
    if got != want:
        raise Mismatch(f"{e!r} strict={strict} on {data!r} for {s!r}: got {got}, expected {want}")


@suite("C10", "filter-logic-no-data", quick=3000, thorough=5000)
def filter_logic_none(r, note):
    s = g.schema_def(r, procs=False)
    e = expr(r, s.attrs, C(), depth=2)
    strict = g.chance(r, 0.5)
    data = r.choice([None, MISSING])
    if e[0] not in of.LOGICAL:
        return
    want = of.ev_logical(e, C(), s.attrs, strict)
    got = outcome(r_expr(e).match(r_val(data), r_schema(s).attrs, *how(r, strict)))
    note((repr(e)[:80], want, strict))
    if got != want:
        raise Mismatch(f"{e!r} strict={strict} on {data!r}: got {got}, expected {want}")


@suite("C10", "truth-tables", quick=18000, thorough=20000)
def truth_tables(r, note):
    """connectives over operands with a prescribed outcome"""
    attrs = [A("t", "String"), A("m", "String"),
             A("cx", "Complex", multi_valued=True, subs=[A("t", "String"), A("m", "String"), A("u", "Integer")])]
    s = S("urn:t:t", g.std_attrs() + attrs, name="T")
    item = lambda: C((k, v) for k, v in [("t", r.choice(["x", "y"])), ("u", r.randrange(3))] if g.chance(r, .8))  # noqa: E731
    data = C([("t", "x")])
    if g.chance(r, 0.8):
        data.put("cx", [item() for _ in range(r.randrange(0, 4))])
    atoms = {"P": ("eq", Rep(attr="t"), "x"), "F": ("eq", Rep(attr="t"), "z"),
             "M": ("eq", Rep(attr="m"), "x"), "N": ("eq", Rep(attr="zz"), "x"), "U": ("eq", Rep(attr="u"), 1)}

    def build(d, inner):
        k = r.random()
        if d and k < 0.4:
            return (r.choice(["and", "or"]), [build(d - 1, inner) for _ in range(r.randrange(1, 4))])
        if d and k < 0.6:
            return ("not", build(d - 1, inner))
        if d and not inner and k < 0.75:
            return ("complex", Rep(attr="cx"), build(d - 1, True))
        return atoms[r.choice("PFMNU" if inner else "PFMN")]
    e = build(3, False)
    strict = g.chance(r, 0.5)
    want = of.evaluate(e, data, s.attrs, strict)
    got = outcome(Filter(r_expr(e))(r_val(data), r_schema(s), *how(r, strict)))
    note((repr(e), want, strict))
    if got != want:
        raise Mismatch(f"{e!r} strict={strict} on {data!r}: got {got}, expected {want}")


@suite("C11", "comparison", quick=90000, thorough=300000)
def comparison(r, note):
    a = g.attr_def(r, procs=False)
    attrs = [a] + ([g.attr_def(r, procs=False)] if g.chance(r, 0.3) else [])
    if len(attrs) == 2 and attrs[0].name.lower() == attrs[1].name.lower():
        attrs = attrs[:1]
    v = g.attr_value(r, a, r.choice(["dump", "parse"]), junk=r.choice([0, 0.1, 0.3]))
    if a.type == "DateTime" and g.chance(r, 0.8):
        v = r.choice(g.DTS)
    v = conv(v)
    if g.chance(r, 0.1):
        v = r.choice([None, MISSING, INVALID])
    if not a.is_complex and isinstance(v, list) and not a.multi_valued and g.chance(r, 0.5):
        v = v[0] if v else ""
    o = r.choice(["pr", "eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"])
    rep = Rep(attr=g.respell(r, a.name) if g.chance(r, 0.93) else "zzz")
    e = ("pr", rep) if o == "pr" else (o, rep, operand(r, o, a, list(leaves(v))))
    strict = g.chance(r, 0.5)
    want = of.ev_value(e, v, attrs, strict)
    real, ra = r_expr(e), r_attrs(attrs)
    earlier(r, lambda: real.match(r_val(g.attr_value(r, a, "dump", junk=0)), ra, g.chance(r, 0.5)))
    got = outcome(real.match(r_val(v), ra, *how(r, strict)))
    note((a.type, o, want, repr(v)[:40]))
    if got != want:
        raise Mismatch(f"{e!r} strict={strict} on {v!r} for {attrs!r}: got {got}, expected {want}")


@suite("C13", "sorting", quick=36000, thorough=100000)
def sorting(r, note):
    n_s = r.choice([1, 1, 1, 2])
    kind = r.random()
    if kind < 0.6:
        t = r.choice(["String", "String", "Integer", "Decimal", "Boolean", "DateTime", "URIReference", "Binary"])
        mk = lambda: A("k", t, multi_valued=mv, case_exact=ce)  # noqa: E731
    else:
        t = r.choice(["String", "Integer", "Boolean"])
        mk = lambda: A("k", "Complex", multi_valued=mv, subs=[  # noqa: E731
            A(r.choice(["value", "Value"]) if g.chance(r, .9) else "val", t, case_exact=ce), A("primary", "Boolean"), A("o", "String")])
    mv, ce = g.chance(r, 0.5), g.chance(r, 0.5)
    schemas, attrs = [], [mk() for _ in range(n_s)]
    for i, a in enumerate(attrs):
        if n_s == 2 and i == 1 and g.chance(r, 0.3):
            a = A("other", "String")
        schemas.append(S(f"urn:s:{i}", g.std_attrs() + [a], name=f"T{i}"))
    rep = Rep(attr=r.choice(["k", "K", "k", "zz"] if g.chance(r, .2) else ["k"]))
    if kind >= 0.6 and not mv and g.chance(r, 0.7):
        rep = Rep(attr="k", sub="value")
    pool = {"String": ["a", "B", "b", "A", "c", "", "é", "Z"], "Integer": [0, 1, -1, 5, 10], "Decimal": [0.0, 1.5, -2.0],
            "Boolean": [True, False], "DateTime": ["2024-01-02T03:04:05+00:00", "2024-01-02T04:04:05+02:00", "1999-01-01T00:00:00+00:00", "junk", ""],
            "URIReference": ["a", "B", "b"], "Binary": ["YQ==", "", "YWJj"]}[t]
    items, which = [], []
    real_schemas = [r_schema(s) for s in schemas]
    for i in range(r.randrange(0, 7)):
        c = C([("id", str(i))])
        w = r.randrange(n_s)
        one = lambda: r.choice(pool) if g.chance(r, 0.9) else None  # noqa: E731
        if g.chance(r, 0.85):
            if kind < 0.6:
                v = [one() for _ in range(r.randrange(0, 3))] if mv else one()
            else:
                obj = lambda: C([(k, x) for k, x in [("value", one()), ("primary", g.chance(r, .4)), ("o", "q")] if g.chance(r, .9)])  # noqa: E731
                v = [obj() for _ in range(r.randrange(0, 4))] if mv else obj()
            c.put(g.respell(r, "k"), v)
        items.append(c)
        which.append(w)
    if kind >= 0.6 and not mv and not rep.sub:
        return  # a whole complex value is not sortable
    asc = g.chance(r, 0.5)
    try:
        order = so.ordered(rep, asc, items, [schemas[w].attrs for w in which])
    except TypeError:
        return
    if n_s == 1 and g.chance(r, 0.5):
        sch = real_schemas[0]
    else:
        sch = [real_schemas[w] for w in which]
        if not sch:
            sch = [real_schemas[0]]
    reals = [r_val(c) for c in items]
    before = list(reals)
    real = Sorter(r_rep(rep), asc)
    if g.chance(r, 0.3):
        how_ = () if asc and g.chance(r, 0.5) else (asc,)
        text = rep.attr + ("." + rep.sub if rep.sub else "")
        real = Sorter(r_rep(rep), *how_) if g.chance(r, 0.3) else Sorter.parse(text, *how_)[0]
    earlier(r, lambda: real(reals[1:], sch if sch is real_schemas[0] else sch[1:]))
    got = real(reals, sch)
    ids = [x["id"] for x in got]
    note((t, mv, asc, tuple(order)))
    if ids != [str(i) for i in order]:
        raise Mismatch(f"sort by {rep!r} asc={asc} of {items!r} ({attrs!r}): got {ids}, expected {order}")
    if any(x is not y for x, y in zip(reals, before)) or len(reals) != len(before):
        raise Mismatch("input list changed")
    if any(not any(x is y for y in reals) for x in got):
        raise Mismatch("sorted resources are not the given ones")
