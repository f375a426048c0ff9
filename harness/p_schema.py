"""C21: declared definitions are what the schema offers and publishes."""
import json
import os

from oracle.core import A, Rep, S

from . import gen as g
from .adapter import (
    AttrRep, Attribute, Attributes, ComplexAttribute, Mismatch, SchemaExtension, n_rep, r_attr, r_rep, r_schema,
)
from .base import suite

from src.data.schemas import get_schema_rep  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
SCIM_TYPE = {"Unknown": "unknown", "Boolean": "boolean", "Decimal": "decimal", "Integer": "integer",
             "String": "string", "Binary": "binary", "ExternalReference": "reference",
             "URIReference": "reference", "SCIMReference": "reference", "DateTime": "dateTime",
             "Complex": "complex"}


def refs(a):
    return list(a.reference_types or {"ExternalReference": ["external"], "URIReference": ["uri"]}.get(a.type, []))


def canon(a):
    if not a.canonical:
        return a.canonical
    return [x.lower() if isinstance(x, str) and not a.case_exact else x for x in a.canonical]


def spec_char(a):
    d = dict(type=a.type, description=a.description, required=a.required, multi_valued=a.multi_valued,
             mutability=a.mutability, returned=a.returned, uniqueness=a.uniqueness, issuer=a.issuer)
    if a.is_complex:
        d["subs"] = [(s.rep.attr, spec_char(s)) for s in a.subs]
    else:
        d.update(case_exact=a.case_exact, canonical=canon(a), enforce=a.enforce, refs=refs(a))
    return d


def real_char(a):
    d = dict(type=a.type.__name__, description=a.description, required=a.required,
             multi_valued=a.multi_valued, mutability=a.mutability.value, returned=a.returned.value,
             uniqueness=a.uniqueness.value, issuer=a.issuer.value)
    if isinstance(a, ComplexAttribute):
        d["subs"] = [(s.rep.attr, real_char(s)) for s in a.attrs]
    else:
        d.update(case_exact=a.case_exact,
                 canonical=None if a.canonical_values is None else list(a.canonical_values),
                 enforce=a.validate_canonical_values, refs=list(a.reference_types))
    return d


def spec_dict(a):
    d = {"name": a.rep.attr, "type": SCIM_TYPE[a.type], "multiValued": a.multi_valued,
         "description": a.description, "required": a.required,
         "caseExact": False if a.is_complex else a.case_exact,
         "mutability": a.mutability, "returned": a.returned, "uniqueness": a.uniqueness}
    if not a.is_complex and canon(a):
        d["canonicalValues"] = canon(a)
    if refs(a):
        d["referenceTypes"] = refs(a)
    if a.is_complex:
        d["subAttributes"] = [spec_dict(s) for s in a.subs]
    return d


def describe(schema):
    return [(n_rep(a.rep).key(), a.rep.extension, real_char(a), [id(p) for p in a.parsers], [id(p) for p in a.dumpers])
            for a in schema.attrs]


def procs_of(a):
    """the processors, as the spec-side objects they were made from"""
    out = [[getattr(p, "__self__", p) for p in a.parsers], [getattr(p, "__self__", p) for p in a.dumpers]]
    return out


def check_against(real, s, what):
    got = list(real.attrs)
    if [n_rep(a.rep).key() + (a.rep.extension,) for a in got] != [a.rep.key() + (a.rep.ext,) for a in s.attrs]:
        raise Mismatch(f"{what}: attributes {[str(a.rep) for a in got]}, declared {[a.rep for a in s.attrs]}")
    for a, b in zip(got, s.attrs):
        if isinstance(a, ComplexAttribute) != b.is_complex:
            raise Mismatch(f"{what}: kind of {a.rep}")
        if real_char(a) != spec_char(b):
            raise Mismatch(f"{what}: {a.rep}: {real_char(a)}, declared {spec_char(b)}")
        for mine, theirs in zip(procs_of(a), (b.parsers, b.dumpers)):
            if b.rep.attr not in ("id",) and mine != list(theirs):
                raise Mismatch(f"{what}: {a.rep}: processors {mine}, declared {theirs}")
        if b.is_complex:
            for mine, theirs in ((a.complex_parsers, b.complex_parsers), (a.complex_dumpers, b.complex_dumpers)):
                mine = [p.__self__ for p in mine if hasattr(p, "__self__")]
                if mine != list(theirs):
                    raise Mismatch(f"{what}: {a.rep}: processors {mine}, declared {theirs}")
    if [n_rep(a.rep).key() for a in real.attrs.top_level] != [a.rep.key() for a in s.top]:
        raise Mismatch(f"{what}: top-level attributes")


@suite("C21", "declare", quick=24000, thorough=50000)
def declare(r, note):
    s = g.schema_def(r, resource=g.chance(r, 0.8))
    if s.resource and g.chance(r, 0.25):
        # a schema may declare its own id, externalId or meta
        k = r.choice(["id", "externalId", "meta"])
        a = A(k, "String", required=g.chance(r, 0.5), case_exact=g.chance(r, 0.5), description="own")
        if k == "meta":
            a = A(k, "Complex", required=g.chance(r, 0.5), description="own", subs=[
                A("location", "ExternalReference", required=g.chance(r, 0.5), case_exact=True),
                A("resourceType", "String", mutability=r.choice(["readOnly", "readWrite"]))])
        own = [a if x.name == k else x for x in s.own]
        s = S(s.urn, own, s.name, s.plural, s.extensions, True, s.description)
        s.overrides = {k: a}
    real = r_schema(s)
    what = repr(s)
    note(what[:300])
    check_against(real, s, what)
    for b in s.attrs:
        a = real.attrs.get(AttrRep(schema=g.respell(r, b.rep.schema), attr=g.respell(r, b.rep.attr), sub_attr=g.respell(r, b.rep.sub)))
        if a is None or real_char(a) != spec_char(b):
            raise Mismatch(f"{what}: {b.rep} not available under its qualified name: {a!r}")
    if s.resource:
        rep = get_schema_rep(real)
        want = {"id": s.urn, "schemas": ["urn:ietf:params:scim:schemas:core:2.0:Schema"], "name": s.name,
                "description": s.description, "meta": {"resourceType": "Schema"},
                "attributes": [spec_dict(a) for a in s.top]}
        if rep != want:
            raise Mismatch(f"{what}: published {rep!r}, expected {want!r}")
        if real.schemas != s.urns or real.schema != s.urn or real.schema_extensions != s.urns[1:]:
            raise Mismatch(f"{what}: URNs {real.schemas}")
        if real.name != s.name or real.plural_name != s.plural:
            raise Mismatch(f"{what}: names {real.name} {real.plural_name}")


@suite("C21", "extend", quick=15000, thorough=30000)
def extend(r, note):
    s = g.schema_def(r, n_ext=0)
    real = r_schema(s)
    exts = [(u, [g.attr_def(r, n) for n in r.sample(g.ATTR_NAMES, r.randrange(1, 3))]) for u in
            r.sample(g.EXT_URNS, r.randrange(1, 4))]
    done = []
    note((repr(s)[:100], [u for u, _ in exts]))
    for u, attrs in exts:
        before = describe(real)
        given = [r_attr(a) for a in attrs]
        lists = [(list(a.parsers), list(a.dumpers), list(getattr(a, "complex_parsers", [])), real_char(a)) for a in given]
        e = SchemaExtension(schema=u, attrs=given)
        real.with_extension(e)
        done.append((u, attrs))
        after = describe(real)
        if after[:len(before)] != before:
            raise Mismatch(f"adding {u} to {s!r} changed existing attributes")
        for a, (ps, ds, cs, ch) in zip(given, lists):
            if list(a.parsers) != ps or list(a.dumpers) != ds or list(getattr(a, "complex_parsers", [])) != cs or real_char(a) != ch:
                raise Mismatch(f"adding {u} changed the given attribute {a!r}")
        check_against(real, S(s.urn, s.own, s.name, s.plural, done, True, s.description), f"{s!r} with {done!r}")
        for bad in (g.respell(r, r.choice([x for x, _ in done])), g.respell(r, s.urn)):
            try:
                real.with_extension(SchemaExtension(schema=bad, attrs=[r_attr(A("zzz", "String"))]))
            except ValueError:
                pass
            else:
                raise Mismatch(f"{bad} accepted twice by {s!r}")
            if describe(real) != after or real.schemas != [s.urn] + [x for x, _ in done]:
                raise Mismatch(f"refused extension {bad} changed {s!r}")
    other = r_schema(s)
    check_against(other, s, f"second schema from the same declarations {s!r}")


def golden():
    from src.assets.schemas.group import Group
    from src.assets.schemas.resource_type import ResourceType
    from src.assets.schemas.schema import Schema
    from src.assets.schemas.service_provider_config import ServiceProviderConfig
    from src.assets.schemas.user import User
    out = {}
    for nm, s in (("User", User()), ("Group", Group()), ("ResourceType", ResourceType()), ("Schema", Schema()),
                  ("ServiceProviderConfig", ServiceProviderConfig())):
        out[nm] = {"urn": s.schema, "name": s.name, "plural": s.plural_name, "attrs": [
            [list(n_rep(a.rep).key()), a.rep.extension, real_char(a)] for a in s.attrs]}
    return json.loads(json.dumps(out))


@suite("C21", "built-in", quick=6, thorough=6)
def built_in(r, note):
    want = json.load(open(os.path.join(HERE, "golden_schemas.json")))
    got = golden()
    for k in want:
        note(k)
        if got[k] != want[k]:
            diff = [x for x in got[k]["attrs"] if x not in want[k]["attrs"]]
            gone = [x for x in want[k]["attrs"] if x not in got[k]["attrs"]]
            raise Mismatch(f"built-in {k}: now {diff or got[k]}, RFC 7643 definition {gone}")
