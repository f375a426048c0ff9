"""C21: binding a declared attribute to a schema keeps everything that was declared."""
import z3

from harness.adapter import at
from oracle.types import SCIM_NAME
import src.data.attributes as m_attributes
import src.data.schemas as m_schemas

from . import attrs, c_attr, models, theory as T, world
from .engine import Model
from .models import same
from .run import contract
from .theory import SEnum, SB, SS, SV, Seq, Unsupported, Val

I, B = z3.IntSort(), z3.BoolSort()


def strings(E, name):
    n, f = E.fresh("n_" + name, I), E.fresh_fun(name, I, T.Str)
    E.assume(n >= 0)
    return Seq(n, lambda k: SS(f(k)))


def keep(E, a, names, rep, cls):
    kind, r = world.outcome(E, lambda: E.call(m_schemas.BaseSchema._bound_attr_to_schema, [a, rep], {}))
    if kind == "raise":
        E.prove(f"does not raise ({type(r).__name__}: {r})", False)
    E.prove("the kind of attribute is kept", type(r) is cls)
    E.prove("bound to the schema", E.getattr(r, "rep") is rep)
    for n in names:
        x, y = E.getattr(r, n), E.getattr(a, n)
        if isinstance(y, (tuple, type)) or y is None or x is None:
            E.prove(f"{n} is kept", x is y)
        else:
            same(E, x, y, f"{n} is kept")
    E.completed += 1


COMMON = ["type", "description", "issuer", "required", "multi_valued", "mutability", "returned", "uniqueness", "parsers", "dumpers"]


def declared(E):
    t = E.fresh("attr", T.Att)
    E.solver.add(attrs.ranges(t))
    f = dict(attrs.fields(E, t), description=SS(E.fresh("description", T.Str)),
             parsers=c_attr.processors(E, "parsers"), dumpers=c_attr.processors(E, "dumpers"))
    return t, f


def published(E, a, t, f, ty, values, refs):
    """the representation states what was declared"""
    kind, d = world.outcome(E, lambda: E.call(E.getattr(a, "to_dict"), [], {}))
    if kind == "raise":
        E.prove(f"does not raise ({type(d).__name__}: {d})", False)
    E.prove("a representation", isinstance(d, dict))
    case = SB(attrs.a_ce(t)) if ty != "Complex" else False
    want = {"name": "attr", "type": SCIM_NAME[ty], "multiValued": f["multi_valued"], "description": f["description"],
            "required": f["required"], "caseExact": case}
    for n in ("mutability", "returned", "uniqueness"):
        want[n] = SEnum(f[n].z, [m.value for m in f[n].members])
    if values is not None:
        E.prove("canonical values are published if there are any", z3.BoolVal("canonicalValues" in d) == (values.n > 0))
        if "canonicalValues" in d:
            want["canonicalValues"] = E.getattr(a, "canonical_values")
    refs = {"ExternalReference": ["external"], "URIReference": ["uri"]}.get(ty) or refs
    if isinstance(refs, Seq):
        E.prove("reference types are published if there are any", z3.BoolVal("referenceTypes" in d) == (refs.n > 0))
    if refs is not None and (isinstance(refs, list) or "referenceTypes" in d):
        want["referenceTypes"] = refs
    E.prove("nothing but the declared characteristics", set(d) - {"subAttributes"} == set(want))
    for n, v in want.items():
        same(E, d[n], v, f"{n} is published as declared")
    return d


def simple(types, canonical, publish):
    name = "Attribute.to_dict" if publish else "BaseSchema._bound_attr_to_schema"

    @contract("C21", f"{name}{', canonical values' if canonical else ''}")
    def c(E):
        attrs.install(E)
        i = E.fresh("type", I)
        E.assume(z3.And(0 <= i, i < len(types)))
        ty = types[E.choose([i == j for j in range(len(types))])]
        t, f = declared(E)
        values = None
        if canonical:
            n, g = E.fresh("n_canonical", I), E.fresh_fun("canonical", I, Val)
            E.assume(n >= 0)
            values = Seq(n, lambda k: SV(g(k)))
        refs = strings(E, "reference") if ty == "SCIMReference" else None
        a = E.construct(m_attributes.Attribute, [], dict(
            f, name="attr", type_=getattr(at, ty), reference_types=refs, case_exact=SB(attrs.a_ce(t)),
            canonical_values=values, validate_canonical_values=SB(attrs.a_enf(t))))
        if publish:
            published(E, a, t, f, ty, values, refs)
            E.completed += 1
            return
        rep = attrs.impl_rep(E, SS(E.fresh("schema", T.Str)), "attr", SS(E.fresh("sub", T.Str)), SB(E.fresh("ext", B)))
        keep(E, a, COMMON + ["reference_types", "case_exact", "canonical_values", "validate_canonical_values"], rep,
             m_attributes.Attribute)


for _p in (False, True):
    simple(attrs.SIMPLE_TYPES, False, _p)
    simple(["String", "Integer", "Decimal"], True, _p)


@contract("C21", "BaseSchema._bound_attr_to_schema, Complex")
def cplx(E):
    attrs.install(E)
    t, f = declared(E)
    S = E.fresh("subs", T.AttrsS)
    a = cattr(E, f, S)
    rep = attrs.impl_rep(E, SS(E.fresh("schema", T.Str)), "attr", "", SB(E.fresh("ext", B)))
    keep(E, a, COMMON + ["complex_parsers", "complex_dumpers", "attrs"], rep, m_attributes.ComplexAttribute)


def cattr(E, f, S):
    return E.construct(m_attributes.ComplexAttribute, [], dict(
        f, sub_attributes=attrs.SymAttrs(E, S, False), name="attr", complex_parsers=c_attr.processors(E, "cparsers"),
        complex_dumpers=c_attr.processors(E, "cdumpers")))


@contract("C21", "ComplexAttribute.to_dict")
def cplx_dict(E):
    attrs.install(E)
    t, f = declared(E)
    S = E.fresh("subs", T.AttrsS)
    a = cattr(E, f, S)

    def sub(E, args, k):
        x = E.force(args[0]).__dict__.get("__att__")
        return NotImplemented if x is None else Published(x)
    E.handlers["src.data.attributes.Attribute.to_dict"] = E.handlers["src.data.attributes.ComplexAttribute.to_dict"] = sub
    E.trusted.add("to_dict of a sub-attribute by the same contract (induction)")
    d = published(E, a, t, f, "Complex", None, None)
    same(E, d["subAttributes"], Seq(T.a_len(S), lambda k: Published(T.a_at(S, k))), "every sub-attribute is published, in order")
    E.completed += 1


class Published(Model):
    def __init__(self, t):
        self.t = t

    def equals(self, E, other):
        return self.t == other.t if isinstance(other, Published) else False

    def subst(self, E, pairs, funs):
        return Published(E.subst(self.t, pairs, funs))
