"""C08: processing data against a schema, given the contracts of the attributes (C06, C07), the container and the registry."""
import z3

from oracle import schemas as spec
import src.data.schemas as m_schemas

from . import attrs, models, theory as T, world
from .c_complex import subs_by_contract
from .c_valid import Named
from .engine import Model
from .models import Ent, Reg, SymCont, same
from .run import contract
from .theory import Nat, OPAQUE, SB, SI, SS, SV, Seq, Unsupported, Val

I, B = z3.IntSort(), z3.BoolSort()
TOP = "top-level attributes of a schema are no sub-attributes (Attributes.top_level)"


class Spec:
    """a schema as the specification sees it"""


def setup(E, cls=m_schemas.BaseSchema):
    attrs.install(E)
    subs_by_contract(E)
    E.trusted.add(TOP)
    E.assumptions.add(models.AXIOMS_NOTE)
    A_, top = E.fresh("attrs", T.AttrsS), E.fresh("top", T.AttrsS)
    e = E.lit("")
    E.extra_axioms.update(a_at=lambda t: [attrs.a_sub(t) == e] if t.arg(0).eq(top) else [])
    E.top_level = lambda c: attrs.SymAttrs(E, top, c.spec)
    urn = SS(E.fresh("urn", T.Str))
    o = E.new(object.__new__(type("Any", (cls,), {"__module__": cls.__module__})))
    o.__dict__.update(_attrs=attrs.SymAttrs(E, A_, False), _schema=urn)
    s = E.new(Spec())
    s.__dict__.update(urn=urn, attrs=attrs.SymAttrs(E, A_, True), top=attrs.SymAttrs(E, top, True))
    return o, s


def data_(mode):
    @contract("C08", f"BaseSchema._process_data, {mode}")
    def c(E):
        o, s = setup(E)
        v = world.val(E, "data")
        E.assume(z3.Or(Val.is_dict_(v.z), Val.is_cont_(v.z)))
        kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "_process_data"), [v, mode], {}))
        if kind == "raise":
            E.prove(f"does not raise ({type(r).__name__}: {r})", False)
        want, issues = E.call(spec.declared, [s, v, mode], {})
        same(E, r[1], issues, "reports exactly the issues of the attributes, each under its name")
        same(E, r[0], want, "keeps exactly the declared attributes that were provided")
        E.completed += 1


for _m in ("parse", "dump"):
    data_(_m)


EXPORT = "exporting a container lists each top-level name once (contract C03)"
x_len, x_key = z3.Function("export_len", T.Cont, I), z3.Function("export_key", T.Cont, I, T.Str)


class Keys(Model):
    """what a container exports: its names in order"""

    def __init__(self, c):
        self.c = c

    def attr(self, E, name):
        if name == "items":
            return Nat(lambda: Seq(x_len(self.c), lambda k: (SS(x_key(self.c, k)), SV(z3.Function("export_val", T.Cont, I, Val)(self.c, k)))), name)
        if name == "keys":
            return Nat(lambda: self.pieces(E)[0], name)
        return super().attr(E, name)

    def pieces(self, E):
        return [Seq(x_len(self.c), lambda k: SS(x_key(self.c, k)))]

    def subst(self, E, pairs, funs):
        return Keys(E.subst(self.c, pairs, funs))


class Exported(Model):
    def __init__(self, c):
        self.c = c

    def attr(self, E, name):
        if name == "to_dict":
            return Nat(lambda: Keys(self.c), name)
        return super().attr(E, name)


@contract("C08", "validate_schemas_field")
def schemas_field(E):
    E.trusted.add(EXPORT)
    c = E.fresh("data", T.Cont)
    E.assume(x_len(c) >= 0)
    listed, known = E.fresh("listed", T.Lst), E.fresh("n_known", I)
    f = E.fresh_fun("known", I, T.Str)
    E.assume(z3.And(known >= 0, T.l_len(listed) >= 0))
    main = SS(E.fresh("main", T.Str))
    l, k = SV(Val.lst_(listed)), Seq(known, lambda k: SS(f(k)))
    kind, r = world.outcome(E, lambda: E.call(m_schemas.validate_schemas_field, [], dict(
        data=Exported(c), schemas_=l, main_schema=main, known_schemas=k)))
    if kind == "raise":
        E.prove(f"does not raise ({type(r).__name__}: {r})", False)
    issues = E.call(spec.schemas_field, [Keys(c), l, main, k], {})
    same(E, r, issues, "reports exactly unknown, missing main and missing extension URNs")
    E.completed += 1


DATA = "_process_data by its contract (above): a container and the issues of the attributes, functions of schema and data"
LISTED = "the multi-valued attribute 'schemas' is absent, null or a list unless blocked (contract C06)"
DECLARED = "a schema declares schemas, a resource schema meta.resourceType (by construction)"


def whole(E, cls):
    o, s = setup(E, cls)
    E.trusted |= {DATA, LISTED, DECLARED, EXPORT}
    A_ = o.__dict__["_attrs"].t
    from .c_list import loc

    def by_name(c, E, name):
        parts = {"schemas": ("schemas", ""), "meta__resourcetype": ("meta", "resourceType")}
        if name.lower() not in parts:
            raise Unsupported(f"attribute {name}")
        a, b = parts[name.lower()]
        return Named(attrs.impl_rep(E, s.urn, a, b, False))
    E.by_name = by_name

    def declared(E, data, mode):
        z = E.toval(data)
        c = z3.Function(f"declared_{mode}", T.AttrsS, Val, T.Cont)(A_, z)
        R = z3.Function(f"declared_{mode}_reg", T.AttrsS, Val, T.RegS)(A_, z)
        out = SymCont(E, c)
        l = E.toval(out.read(E, ("", "schemas", "", False)))
        E.fact(z3.Or(T.r_blk(R, loc(E, "schemas")), Val.is_missing(l), Val.is_none(l), Val.is_lst_(l)))
        return out, Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])
    E.handlers["src.data.schemas.BaseSchema._process_data"] = lambda E, a, k: declared(
        E, *(list(a[1:]) + [k[n] for n in ("data", "method") if n in k]))
    E.handlers["oracle.schemas.declared"] = lambda E, a, k: declared(E, a[1], a[2])
    return o, s


def process_(mode, cls):
    @contract("C08", f"{cls.__name__}.{mode}")
    def c(E):
        o, s = whole(E, cls)
        known = [s.urn]
        resource = cls is m_schemas.ResourceSchema
        if resource:
            n, f = E.fresh("n_ext", I), E.fresh_fun("ext", I, T.Str)
            E.assume(n >= 0)
            exts = Seq(n, lambda k: SS(f(k)))
            o.__dict__.update(_schema_extensions=exts, _name=SS(E.fresh("name", T.Str)))
            s.__dict__.update(name=o.__dict__["_name"])
            known = E.new(known + E.list_of(exts))
        s.__dict__.update(urns=known, resource=resource)
        v = world.val(E, "data")
        kind, r = world.outcome(E, lambda: E.call(E.getattr(o, mode), [v], {}))
        if kind == "raise":
            E.prove(f"does not raise ({type(r).__name__}: {r})", False)
        want, issues = E.call(spec.process_schema, [s, v, mode], {})
        same(E, r[1], issues, "reports exactly the prescribed issues")
        same(E, r[0], want, "yields the declared attributes, or invalid")
        E.completed += 1


for _m in ("parse", "dump"):
    for _c in (m_schemas.BaseSchema, m_schemas.ResourceSchema):
        process_(_m, _c)
