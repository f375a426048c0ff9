"""Symbolic attribute notations, attributes and attribute collections.

An attribute is a term of sort Att; its declared characteristics are functions of that term.  The
implementation's object for it is obtained by executing the implementation's own constructor
symbolically, so that nothing is assumed about how it stores them."""
import z3

from harness.adapter import TYPES, at
from oracle.core import A, Rep
import src.data.attributes as m_attributes
import src.data.container as m_container

from . import models, theory as T
from .engine import Model, PyRaise, Prune, conj, disj
from .theory import Nat, OPAQUE, SB, SEnum, SI, SS, SV, Seq, Sym, Unsupported, Val

F, I, B = z3.Function, z3.IntSort(), z3.BoolSort()
a_schema = F("at_schema", T.Att, T.Str)
a_attr = F("at_attr", T.Att, T.Str)
a_sub = F("at_sub", T.Att, T.Str)
a_ext = F("at_ext", T.Att, B)
a_complex = F("at_complex", T.Att, B)
a_req = F("at_required", T.Att, B)
a_multi = F("at_multi", T.Att, B)
a_ce = F("at_case_exact", T.Att, B)
a_enf = F("at_enforce", T.Att, B)
a_ret = F("at_returned", T.Att, I)
a_mut = F("at_mutability", T.Att, I)
a_uni = F("at_uniqueness", T.Att, I)
a_iss = F("at_issuer", T.Att, I)
a_type = F("at_type", T.Att, I)
RET = list(m_attributes.AttributeReturn)
MUT = list(m_attributes.AttributeMutability)
UNI = list(m_attributes.AttributeUniqueness)
ISS = list(m_attributes.AttributeIssuer)
SIMPLE_TYPES = [t for t in TYPES if t != "Complex"]


class Template:
    """outcome of a constructor on placeholder arguments: guarded object graphs"""

    def __init__(self, alts, ok):
        self.alts, self.ok = alts, ok


def build_template(E, make):
    paths = E.subexplore(lambda: None, lambda: ("value", make()))
    alts, ok = [], []
    for p in paths:
        if p.sig[0] == "raise":
            continue
        if p.finals or p.fresh:
            # messages etc. may create fresh text; only allow it when nothing refers to it
            if p.finals:
                raise Unsupported("constructor with effects")
        alts.append((conj(p.pc), p.sig[1]))
        ok.append(conj(p.pc))
    if not alts:
        raise Unsupported("constructor always raises")
    return Template(alts, disj(ok))


def instantiate(E, obj, pairs, memo=None):
    memo = {} if memo is None else memo
    if isinstance(obj, z3.ExprRef):
        return z3.substitute(obj, *pairs)
    if isinstance(obj, SEnum):
        return SEnum(z3.substitute(obj.z, *pairs), obj.members)
    if isinstance(obj, Sym):
        return type(obj)(z3.substitute(obj.z, *pairs))
    if isinstance(obj, (str, int, float, type(None), type, type(OPAQUE))) or callable(obj):
        return obj
    if id(obj) in memo:
        return memo[id(obj)]
    if isinstance(obj, SymAttrs):
        return SymAttrs(E, z3.substitute(obj.t, *pairs), obj.spec)
    if isinstance(obj, tuple):
        return tuple(instantiate(E, x, pairs, memo) for x in obj)
    if isinstance(obj, list):
        out = memo[id(obj)] = E.new([])
        out.extend(instantiate(E, x, pairs, memo) for x in obj)
        return out
    if isinstance(obj, dict):
        out = memo[id(obj)] = E.new({})
        out.update({k: instantiate(E, x, pairs, memo) for k, x in obj.items()})
        return out
    import enum
    if E.interpretable_class(type(obj)) and not isinstance(obj, enum.Enum):
        out = memo[id(obj)] = E.new(object.__new__(type(obj)))
        for k, x in getattr(obj, "__dict__", {}).items():
            object.__setattr__(out, k, instantiate(E, x, pairs, memo))
        for c in type(obj).__mro__:
            for k in getattr(c, "__slots__", ()):
                if hasattr(obj, k):
                    object.__setattr__(out, k, instantiate(E, getattr(obj, k), pairs, memo))
        return out
    if isinstance(obj, Model):
        return obj.subst(E, pairs, ())
    return obj


def from_template(E, key, make, pairs):
    t = E.templates.get(key)
    if t is None:
        t = E.templates[key] = build_template(E, make)
    ok = z3.substitute(t.ok, *pairs)
    E.solver.add(ok)          # precondition: the object could be constructed
    i = E.choose([z3.substitute(g, *pairs) for g, _ in t.alts]) if len(t.alts) > 1 else 0
    return instantiate(E, t.alts[i][1], pairs)


PH = {n: z3.Const("ph_" + n, s) for n, s in (
    ("schema", T.Str), ("attr", T.Str), ("sub", T.Str), ("ext", B), ("att", T.Att))}


def impl_rep(E, schema, attr, sub, ext):
    """AttrRep with the given (symbolic) parts"""
    def make():
        return E.construct(m_container.AttrRep, [], dict(
            schema=SS(PH["schema"]), attr=SS(PH["attr"]), sub_attr=SS(PH["sub"]), extension=SB(PH["ext"])))
    z = lambda x: E.zs(x)  # noqa: E731
    return from_template(E, "rep", make, [(PH["schema"], z(schema)), (PH["attr"], z(attr)), (PH["sub"], z(sub)),
                                          (PH["ext"], zb_(E, ext))])


def valid_name(E, z):
    """formula: z is accepted as a plain attribute name"""
    impl_template(E)
    e = E.lit("")
    return z3.substitute(E.templates["rep"].ok, (PH["schema"], e), (PH["attr"], z), (PH["sub"], e),
                         (PH["ext"], z3.BoolVal(False)))


def impl_template(E):
    if "rep" not in E.templates:
        E.templates["rep"] = build_template(E, lambda: E.construct(m_container.AttrRep, [], dict(
            schema=SS(PH["schema"]), attr=SS(PH["attr"]), sub_attr=SS(PH["sub"]), extension=SB(PH["ext"]))))


def zb_(E, x):
    from .engine import zb
    return zb(E.truth(x))


def spec_rep(E, schema, attr, sub, ext):
    r = E.new(object.__new__(Rep))
    r.schema, r.attr, r.sub, r.ext = schema, attr, sub, ext
    return r


def fields(E, t):
    return dict(
        issuer=SEnum(a_iss(t), ISS), required=SB(a_req(t)), multi_valued=SB(a_multi(t)),
        mutability=SEnum(a_mut(t), MUT), returned=SEnum(a_ret(t), RET), uniqueness=SEnum(a_uni(t), UNI))


def ranges(t):
    r = lambda f, xs: z3.And(0 <= f(t), f(t) < len(xs))  # noqa: E731
    return z3.And(r(a_ret, RET), r(a_mut, MUT), r(a_uni, UNI), r(a_iss, ISS), r(a_type, SIMPLE_TYPES))


def impl_attr(E, t):
    E.solver.add(ranges(t))
    key = ("impl", t.get_id())
    if key in E.lazy_cache:
        return E.lazy_cache[key][1]
    p = PH["att"]
    rep = impl_rep(E, SS(a_schema(t)), SS(a_attr(t)), SS(a_sub(t)), SB(a_ext(t)))
    if E.decide(a_complex(t)):
        def make():
            return E.construct(m_attributes.ComplexAttribute, [], dict(
                sub_attributes=SymAttrs(E, T.a_subs(p), False), name=OPAQUE_REP, description=OPAQUE, **fields(E, p)))
        obj = from_template(E, "complex", make, [(p, t)])
    else:
        def make():
            E.solver.add(ranges(p))
            ty = getattr(at, E.attr_types[0]) if len(E.attr_types) == 1 else SEnum(
                a_type(p), [getattr(at, n) for n in SIMPLE_TYPES])
            return E.construct(m_attributes.Attribute, [], dict(
                name=OPAQUE_REP, type_=ty, description=OPAQUE, case_exact=SB(a_ce(p)),
                validate_canonical_values=SB(a_enf(p)), **fields(E, p)))
        obj = from_template(E, "attr", make, [(p, t)])
    n = 0
    for k, v in list(obj.__dict__.items()):
        if v is OPAQUE_REP:
            obj.__dict__[k] = rep
            n += 1
    if n == 0:
        raise Unsupported("the attribute does not keep its notation")
    obj.__dict__["__att__"] = t
    E.lazy_cache[key] = (t, obj)
    return obj


class OpaqueRep:
    def __deepcopy__(self, memo):
        return self


OPAQUE_REP = OpaqueRep()


def spec_attr(E, t):
    key = ("spec", t.get_id())
    E.solver.add(ranges(t))
    if key in E.lazy_cache:
        return E.lazy_cache[key][1]
    a = E.new(object.__new__(A))
    cx = E.decide(a_complex(t))
    a.__dict__.update(
        name=SS(a_attr(t)),
        type="Complex" if cx else E.attr_types[0] if len(E.attr_types) == 1 else SEnum(a_type(t), SIMPLE_TYPES),
        rep=spec_rep(E, SS(a_schema(t)), SS(a_attr(t)), SS(a_sub(t)), SB(a_ext(t))), description=OPAQUE,
        reference_types=OPAQUE, issuer=SEnum(a_iss(t), [x.value for x in ISS]), required=SB(a_req(t)),
        case_exact=False if cx else SB(a_ce(t)), multi_valued=SB(a_multi(t)), canonical=None,
        enforce=False if cx else SB(a_enf(t)), mutability=SEnum(a_mut(t), [x.value for x in MUT]),
        returned=SEnum(a_ret(t), [x.value for x in RET]), uniqueness=SEnum(a_uni(t), [x.value for x in UNI]),
        parsers=(), dumpers=(), complex_parsers=(), complex_dumpers=(),
        subs=SymAttrs(E, T.a_subs(t), True) if cx else None)
    a.__dict__["__att__"] = t
    E.lazy_cache[key] = (t, a)
    return a


class SymAttrs(Model):
    """a collection of attributes: n of them in declaration order; lookup by notation (contract C04)"""

    def __init__(self, E, t, spec):
        self.t, self.spec = t, spec
        E.new(self)

    def make(self, E, t):
        return spec_attr(E, t) if self.spec else impl_attr(E, t)

    def pieces(self, E):
        return [Seq(T.a_len(self.t), lambda k: self.make(E, T.a_at(self.t, k)))]

    def lookup(self, E, rep):
        rep = E.force(rep)
        g = lambda n: E.getattr(rep, n)  # noqa: E731
        lows = [models.low(E, g("schema")), models.low(E, g("attr")), models.low(E, g("sub" if self.spec else "sub_attr"))]
        if not E.decide(T.a_found(self.t, *lows)):
            return None
        t = T.a_find(self.t, *lows)
        empty = E.lit("")
        E.solver.add(z3.And(T.lower(a_attr(t)) == lows[1], T.lower(a_sub(t)) == lows[2],
                            z3.Or(T.lower(a_schema(t)) == lows[0], lows[0] == empty, a_schema(t) == empty)))
        return self.make(E, t)

    def attr(self, E, name):
        if name == "get":
            return Nat(lambda rep=None, **k: self.lookup(E, rep if rep is not None else k["attr_rep"]), "Attributes.get")
        if name == "top_level":
            return self.top(E)
        cls = m_attributes.Attributes
        owner, raw = E.mro_lookup(cls, name)
        if owner is not None:
            return E.bind(raw, owner, self, cls)
        return self.by_name(E, name)

    def top(self, E):
        return E.top_level(self) if hasattr(E, "top_level") else (_ for _ in ()).throw(Unsupported("top_level"))

    def by_name(self, E, name):
        if getattr(E, "by_name", None):
            return E.by_name(self, E, name)
        raise Unsupported(f"attribute {name} of a collection")

    def truth(self, E):
        return True

    def isinstance(self, E, cls):
        return cls is m_attributes.Attributes

    def equals(self, E, other):
        if isinstance(other, SymAttrs):
            return self.t == other.t
        return False

    def subst(self, E, pairs, funs):
        return SymAttrs(E, E.subst(self.t, pairs, funs), self.spec)


def install(E, types=("String",)):
    E.templates = {}
    E.attr_types = list(types)

    def attributes(E, a, k):
        v = E.force(a[0] if a else k["attrs"])
        if isinstance(v, list) and len(v) == 1 and isinstance(v[0], models.LSeg) and v[0].total:
            # a copy of a collection
            g, whole = v[0], None
            for _, x in g.alts:
                t = getattr(x, "__dict__", {}).get("__att__")
                if t is None or t.decl().name() != "a_at" or not t.arg(1).eq(g.k) or not g.n.eq(T.a_len(t.arg(0))) or (
                        whole is not None and not whole.eq(t.arg(0))):
                    return NotImplemented
                whole = t.arg(0)
            return SymAttrs(E, whole, False)
        return v if isinstance(v, SymAttrs) else NotImplemented
    E.constructors[m_attributes.Attributes] = attributes
    E.handlers["oracle.core.lookup"] = lambda E, a, k: (
        a[0].lookup(E, a[1]) if isinstance(E.force(a[0]), SymAttrs) else NotImplemented)
    E.trusted.add("src.data.attributes.Attributes: iteration and lookup by contract (C04)")
