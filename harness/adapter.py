"""Bridge between specification objects and the implementation's public API."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from datetime import datetime  # noqa: E402

from src.attributes_presence import AttributePresenceChecker  # noqa: E402
from src.data import operator as op  # noqa: E402
from src.data import type as at  # noqa: E402
from src.data.attributes import (  # noqa: E402
    Attribute, AttributeIssuer, AttributeMutability, AttributeReturn, Attributes,
    AttributeUniqueness, ComplexAttribute,
)
from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer  # noqa: E402
from src.data.path import PatchPath  # noqa: E402
from src.data.schemas import BaseSchema, ResourceSchema, SchemaExtension  # noqa: E402
from src.error import ValidationError, ValidationIssues  # noqa: E402
from src.filter import Filter  # noqa: E402
from src.sorter import Sorter  # noqa: E402

from oracle.core import A, C, INVALID, Issues, MISSING, Rep, S, veq  # noqa: E402
from oracle.presence import Checker  # noqa: E402

TYPES = ["Unknown", "Boolean", "Decimal", "Integer", "String", "Binary", "ExternalReference",
         "URIReference", "SCIMReference", "DateTime", "Complex"]
OPS = {"pr": op.Present, "eq": op.Equal, "ne": op.NotEqual, "co": op.Contains,
       "sw": op.StartsWith, "ew": op.EndsWith, "gt": op.GreaterThan,
       "ge": op.GreaterThanOrEqual, "lt": op.LesserThan, "le": op.LesserThanOrEqual}


class Mismatch(Exception):
    pass


# ------------------------------------------------------------------ spec -> implementation
def r_rep(r):
    return AttrRep(schema=r.schema, attr=r.attr, sub_attr=r.sub, extension=r.ext)


def r_val(v):
    if v is INVALID:
        return Invalid
    if v is MISSING:
        return Missing
    if isinstance(v, C):
        return SCIMDataContainer({k: r_val(x) for k, x in v.items()})
    if isinstance(v, list):
        return [r_val(x) for x in v]
    return v


class Proc:
    """A custom processor, usable on both sides."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, v):
        return self.fn(v)

    def real(self, v):
        out, issues = self.fn(n_val(v))
        reg = ValidationIssues()
        for loc, code, blocking in issues.items:
            reg.add(issue=make_error(code), proceed=not blocking, location=loc)
        return r_val(out), reg

    def __repr__(self):
        return f"<{self.name}>"


_ERR = {
    1: lambda: ValidationError.bad_value_syntax(),
    7: lambda: ValidationError.reserved_keyword("k"),
    15: lambda: ValidationError.missing(),
    19: lambda: ValidationError.restricted_or_not_requested(),
    27: lambda: ValidationError.unknown_schema(),
    28: lambda: ValidationError.missing_main_schema(),
    36: lambda: ValidationError.unknown_resource(),
    107: lambda: ValidationError.empty_filter_expression(),
    300: lambda: ValidationError.bad_operation_path(),
    304: lambda: ValidationError.attribute_can_not_be_modified(),
}
CODES = sorted(_ERR)


def make_error(code):
    return _ERR[code]()


def r_attr(a):
    kw = dict(
        name=a.name if a.rep.key() == ("", a.name, "") else r_rep(a.rep),
        description=a.description, issuer=AttributeIssuer(a.issuer),
        required=a.required, multi_valued=a.multi_valued,
        mutability=AttributeMutability(a.mutability), returned=AttributeReturn(a.returned),
        uniqueness=AttributeUniqueness(a.uniqueness),
        parsers=[p.real for p in a.parsers], dumpers=[p.real for p in a.dumpers],
    )
    if a.is_complex:
        return ComplexAttribute(
            sub_attributes=[r_attr(s) for s in a.subs],
            complex_parsers=[p.real for p in a.complex_parsers],
            complex_dumpers=[p.real for p in a.complex_dumpers], **kw)
    return Attribute(
        type_=getattr(at, a.type), reference_types=a.reference_types, case_exact=a.case_exact,
        canonical_values=a.canonical, validate_canonical_values=a.enforce, **kw)


class _GenResource(ResourceSchema):
    pass


class _GenBase(BaseSchema):
    pass


def r_schema(s):
    """s.own must start with schemas, id, externalId, meta as the base classes add them."""
    if s.resource:
        over = {k: r_attr(a) for k, a in getattr(s, "overrides", {}).items()}
        real = _GenResource(schema=s.urn, attrs=[r_attr(a) for a in s.own[4:]], name=s.name,
                            plural_name=s.plural, description=s.description,
                            attr_overrides=over)
        for urn, attrs in s.extensions:
            real.with_extension(SchemaExtension(schema=urn, attrs=[r_attr(a) for a in attrs]))
    else:
        real = _GenBase(schema=s.urn, attrs=[r_attr(a) for a in s.own[1:]])
    return real


def r_attrs(attrs):
    return Attributes([r_attr(a) for a in attrs])


def r_checker(c):
    return AttributePresenceChecker(attr_reps=[r_rep(r) for r in c.reps], include=c.include,
                                    ignore_required=[r_rep(r) for r in c.ignore])


def r_expr(e):
    if e[0] == "pr":
        return op.Present(r_rep(e[1]))
    if e[0] == "complex":
        return op.ComplexAttributeOperator(r_rep(e[1]), r_expr(e[2]))
    if e[0] == "not":
        return op.Not(r_expr(e[1]))
    if e[0] == "and":
        return op.And(*[r_expr(x) for x in e[1]])
    if e[0] == "or":
        return op.Or(*[r_expr(x) for x in e[1]])
    return OPS[e[0]](r_rep(e[1]), e[2])


# ------------------------------------------------------------------ implementation -> spec
def n_rep(r):
    return Rep(r.schema, r.attr, r.sub_attr, r.extension)


def n_expr(o):
    if isinstance(o, op.ComplexAttributeOperator):
        return ("complex", n_rep(o.attr_rep), n_expr(o.sub_operator))
    if isinstance(o, op.Not):
        return ("not", n_expr(o.sub_operator))
    if isinstance(o, (op.And, op.Or)):
        return ("and" if isinstance(o, op.And) else "or", [n_expr(x) for x in o.sub_operators])
    if isinstance(o, op.Present):
        return ("pr", n_rep(o.attr_rep))
    for name, cls in OPS.items():
        if type(o) is cls:
            return (name, n_rep(o.attr_rep), o.value)
    raise Mismatch(f"not a filter expression: {o!r}")


def n_val(v):
    if v is Invalid:
        return INVALID
    if v is Missing:
        return MISSING
    if isinstance(v, SCIMDataContainer):
        c = C()
        for k, x in v.to_dict().items():
            c.put(k, _n_dict(x))
        return c
    if isinstance(v, list):
        return [n_val(x) for x in v]
    return n_obj(v)


def _n_dict(v):
    """to_dict turns nested containers into dicts."""
    if isinstance(v, dict):
        if not all(isinstance(k, str) for k in v):
            return {k: _n_dict(x) for k, x in v.items()}
        return C((k, _n_dict(x)) for k, x in v.items())
    if isinstance(v, list):
        return [_n_dict(x) for x in v]
    return n_val(v)


def n_obj(v):
    if isinstance(v, AttrRep):
        return n_rep(v)
    if isinstance(v, Filter):
        return ("filter", n_expr(v.operator))
    if isinstance(v, PatchPath):
        return n_path(v)
    if isinstance(v, Sorter):
        return ("sorter", n_rep(v.attr_rep), v.asc)
    if isinstance(v, AttributePresenceChecker):
        return ("checker", [n_rep(r) for r in v.attr_reps], v.include)
    return v


def n_path(p):
    return ("path", n_rep(p.attr_rep),
            None if p.complex_filter is None else n_expr(p.complex_filter.operator),
            None if p.complex_filter_attr_rep is None else n_rep(p.complex_filter_attr_rep))


def flatten(report, loc=()):
    """[(location as strings, code)] of a rendered report"""
    out = []
    for k, v in report.items():
        if k == "_errors":
            out.extend((loc, e["code"]) for e in v)
        else:
            out.extend(flatten(v, loc + (k,)))
    return out


def as_list(c):
    """dicts and C are the same thing for exported data"""
    if isinstance(c, C):
        return C((k, as_list(v)) for k, v in c.items())
    if isinstance(c, dict):
        if all(isinstance(k, str) for k in c):
            return C((k, as_list(v)) for k, v in c.items())
        return {k: as_list(v) for k, v in c.items()}
    if isinstance(c, list):
        return [as_list(x) for x in c]
    return c


# ------------------------------------------------------------------ comparison
def typed(loc):
    return tuple(int(p) if p.isdigit() else p for p in loc)


def check_issues(real, spec, what="issues"):
    got = sorted(flatten(real.to_dict()))
    want, wild = [], set()
    for loc, code, _ in spec.items:
        sloc = tuple(str(p) for p in loc)
        if code == "*":
            wild.add(sloc)
        else:
            want.append((sloc, code))
    want.sort(key=repr)
    for w in wild:
        if not any(l == w for l, _ in got):
            raise Mismatch(f"{what}: nothing reported at {w}; reported {got}")
    got_rest = [g for g in got if g[0] not in wild]
    want_rest = [g for g in want if g[0] not in wild]
    if sorted(got_rest, key=repr) != want_rest:
        raise Mismatch(f"{what}: reported {got_rest}, expected {want_rest}")
    locs = {()}
    for loc, _, _ in spec.items:
        for i in range(len(loc) + 1):
            locs.add(loc[:i])
    for loc in locs:
        if bool(real.can_proceed(loc)) != spec.can_proceed(loc):
            raise Mismatch(f"{what}: may proceed at {loc}: got {real.can_proceed(loc)}, "
                           f"expected {spec.can_proceed(loc)}; reported {got}")
        if bool(real.has_issues(loc)) != spec.has(loc):
            raise Mismatch(f"{what}: anything reported at {loc}: got {real.has_issues(loc)}, "
                           f"expected {spec.has(loc)}")


def earlier(r, use, p=0.25):
    """an earlier use of the same object, which must not matter to later ones"""
    if r.random() < p:
        try:
            use()
        except Exception:  # noqa: BLE001 - judged where it is the use under test
            pass


def check_value(real, spec, what="value"):
    got, want = as_list(n_val(real)), as_list(spec)
    if not veq(got, want):
        raise Mismatch(f"{what}: got {got!r}, expected {want!r}")
