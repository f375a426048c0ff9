"""Endpoint validators (C15, C16, C18, ...): requests and responses, given the contracts of schema processing (C08),
the presence checker (C09), the registry and the container."""
import z3

from harness.adapter import AttributePresenceChecker
from oracle import messages as spec, presence as spec_pr
from oracle.core import S
import src.assets.schemas.bulk_ops as m_bulk
import src.assets.schemas.error as m_errschema
import src.assets.schemas.list_response as m_list
import src.assets.schemas.patch_op as m_patch
import src.assets.schemas.search_request as m_search
import src.data.attributes as m_attributes
import src.request_validators as rv

from . import attrs, models, theory as T, world
from .engine import Model
from .models import Ent, KeyView, Reg, SymCont, SymDict, same
from .run import contract
from .theory import Nat, OPAQUE, SB, SI, SS, SV, Seq, Unsupported, Val

I, B = z3.IntSort(), z3.BoolSort()
s_attrs = z3.Function("s_attrs", T.Sch, T.AttrsS)
s_urn = z3.Function("s_urn", T.Sch, T.Str)
s_n_urns = z3.Function("s_n_urns", T.Sch, z3.IntSort())
s_urns = z3.Function("s_urns", T.Sch, z3.IntSort(), T.Str)
PROCESS = ("processing data against a schema is a function of schema and data; it yields the invalid marker and a "
           "blocking issue at the root, or a container (contract C08)")
PRESENCE = "the presence check is a function of selection, data, attributes and direction (contract C09)"
META = "a resource schema declares meta.location (by construction of ResourceSchema)"


def process(E, t, v, mode):
    """contract of schema processing"""
    z = E.toval(v)
    out = z3.Function(f"schema_{mode}", T.Sch, Val, Val)(t, z)
    R = z3.Function(f"schema_{mode}_reg", T.Sch, Val, T.RegS)(t, z)
    E.fact(z3.Or(Val.is_cont_(out), z3.And(Val.is_invalid(out), T.r_blk(R, T.Loc.nil))))
    reg = Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])
    if E.decide(Val.is_cont_(out)):
        # a container of its own: nobody else refers to it
        return SymCont(E, Val.c(out)), reg
    return models.INVALID, reg


class Schema(Model):
    """any resource schema, known by contract"""

    def __init__(self, t, spec_):
        self.t, self.spec = t, spec_

    def attr(self, E, name):
        if name in ("parse", "dump"):
            return Nat(lambda data: process(E, self.t, data, name), name)
        if name == "attrs":
            return attrs.SymAttrs(E, s_attrs(self.t), self.spec)
        if name in ("schema", "urn"):
            return SS(s_urn(self.t))
        if name in ("schemas", "urns"):
            E.fact(s_n_urns(self.t) >= 1)
            return Seq(s_n_urns(self.t), lambda k: SS(s_urns(self.t, k)))
        return super().attr(E, name)

    def truth(self, E):
        return True

    def equals(self, E, other):
        return self.t == other.t if isinstance(other, Schema) else False

    def subst(self, E, pairs, funs):
        return Schema(E.subst(self.t, pairs, funs), self.spec)


class Fixed(Model):
    """a message schema: its declaration is the real object, its processing is by contract"""

    def __init__(self, real):
        self.real = real
        self.t = const(real.schema)

    def attr(self, E, name):
        if name in ("parse", "dump"):
            return Nat(lambda data: process(E, self.t, data, name), name)
        if name == "attrs":
            return FixedAttrs(self.real.attrs, self.t)
        return E.getattr(self.real, name)

    def truth(self, E):
        return True


class FixedAttrs(Model):
    def __init__(self, real, t):
        self.real, self.t = real, s_attrs(t)

    def attr(self, E, name):
        return E.getattr(self.real, name)

    def pieces(self, E):
        return E.pieces(self.real)

    def truth(self, E):
        return True


def const(urn):
    return z3.Const("schema:" + urn, T.Sch)


SPEC_FIXED = [spec.ERROR, spec.LIST, spec.SEARCH, spec.PATCH, spec.BULK_REQUEST, spec.BULK_RESPONSE]


def attrs_token(E, a):
    a = E.force(a)
    if isinstance(a, (attrs.SymAttrs, FixedAttrs)):
        return a.t
    for o, t in E.attr_tokens:
        if a is o:
            return t
    for s in SPEC_FIXED:
        if a is s.attrs:
            return s_attrs(const(s.urn))
    raise Unsupported("collection of attributes")


class CheckerM(Model):
    """a presence checker: its selection"""
    known = None

    def __init__(self, reps, include, ignore, term=None):
        self.reps, self.include, self.ignore, self.term = reps, include, ignore, term

    def invoke(self, E, args, kw):
        names = ["data", "attrs", "direction"]
        v = dict(zip(names, args), **kw)
        return presence(E, self, v["data"], v["attrs"], v["direction"])

    def attr(self, E, name):
        if name == "__call__":
            return Nat(lambda *a, **k: self.invoke(E, a, k), name)
        if name == "attr_reps" and self.term is not None:
            return Reps(self.term)
        if name in ("attr_reps", "include") and self.term is None:
            return self.reps if name == "attr_reps" else self.include
        return super().attr(E, name)

    def truth(self, E):
        return True


class Reps(Model):
    """the names of an unknown selection"""

    def __init__(self, term):
        self.term = term

    def truth(self, E):
        return selective(self.term)


def rep_tuples(E, reps):
    """notations as tuples, element by element"""
    reps = E.force(reps)
    if reps is None:
        return []
    out = []
    for x in E.list_of(reps):
        if isinstance(x, models.LSeg):
            x = models.LSeg(x.k, x.n, [(g, rep_tuple(E, v)) for g, v in x.alts], x.total)
        else:
            x = rep_tuple(E, x)
        out.append(x)
    return out


def rep_tuple(E, r):
    r = E.force(r)
    g = lambda n: E.getattr(r, n)  # noqa: E731
    ext, sub = ("ext", "sub") if hasattr(r, "ext") else ("extension", "sub_attr")
    return (g("schema"), g("attr"), g(sub), g(ext))


CkS = z3.DeclareSort("Ck")
selective = z3.Function("selective", CkS, B)
presence_reg = z3.Function("presence_reg", CkS, T.Cont, T.AttrsS, B, T.RegS)


def checker_term(E, ck):
    if ck.term is not None:
        return ck.term
    if ck.known is not None:
        return ck.known
    if not ck.reps and not ck.ignore:
        return z3.Const(f"checker:{ck.include}", CkS)
    weak = False
    for kind, ck2, t in E.memo:
        if kind == "checker":
            try:
                same_checker(E, ck, ck2)
            except models.Differ:
                continue
            except Unsupported:
                weak = True
                continue
            return t
    t = E.fresh("checker", CkS)
    if weak:
        E.abstracted_terms.add(str(t))
    E.set_cell("recs", E, "memo", E.memo + [("checker", ck, t)])
    return t


def presence(E, ck, data, attrs_, direction):
    data = E.force(data)
    if isinstance(data, SV):
        if not E.decide(Val.is_cont_(data.z)):
            raise Unsupported("presence of a value that is no container")
        data = models.cont_of(E, data)
    if not isinstance(data, SymCont):
        raise Unsupported("presence of an unknown value")
    if direction not in ("REQUEST", "RESPONSE"):
        raise Unsupported("direction")
    tok = attrs_token(E, attrs_)
    R = presence_reg(checker_term(E, ck), data.term(E), tok, z3.BoolVal(direction == "REQUEST"))
    if E.on_presence:
        E.on_presence(data, tok, direction, R)
    return Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])


def same_checker(E, a, b):
    if a.term is not None or b.term is not None:
        if a.term is None or b.term is None or not a.term.eq(b.term):
            raise models.Differ
        return
    if a.include is not b.include:
        raise models.Differ
    for x, y in ((a.reps, b.reps), (a.ignore, b.ignore)):
        models.same_list(E, x, y, "selection", True, models.quiet_ob(E))


def install(E):
    attrs.install(E)
    E.attr_tokens, E.on_presence, E.eager_checkers = [], None, False
    E.trusted |= {PROCESS, PRESENCE}
    E.assumptions |= {META, "dictionaries given from outside hold no Missing/Invalid markers", models.AXIOMS_NOTE}

    def checker(E, a, k, names):
        v = dict(zip(names, a), **k)
        if set(v) - set(names):
            raise Unsupported("presence checker arguments")
        ck = CheckerM(rep_tuples(E, v.get(names[0])), v.get(names[1]), rep_tuples(E, v.get(names[2])))
        if E.eager_checkers:
            ck.known = checker_term(E, ck)
        return ck
    E.constructors[AttributePresenceChecker] = lambda E, a, k: checker(E, a, k, ["attr_reps", "include", "ignore_required"])
    E.constructors[spec_pr.Checker] = lambda E, a, k: checker(E, a, k, ["reps", "include", "ignore"])
    E.handlers["oracle.presence.presence"] = lambda E, a, k: presence(E, a[0], a[1], a[2], a[3])

    def process_schema(E, a, k):
        s = E.force(a[0])
        return process(E, s.t if isinstance(s, Schema) else const(s.urn), a[1], a[2])
    E.handlers["oracle.schemas.process_schema"] = process_schema
    for cls in (m_errschema.Error, m_search.SearchRequest):
        E.constructors[cls] = lambda E, a, k, cls=cls: Fixed(cls())

    def by_name(self, E, name):
        if name == "meta__location":
            return Named(attrs.impl_rep(E, SS(z3.Function("meta_schema", T.AttrsS, T.Str)(self.t)), "meta", "location", False))
        raise Unsupported(f"attribute {name} of a collection")
    E.by_name = by_name


class Named(Model):
    def __init__(self, rep):
        self.rep = rep

    def attr(self, E, name):
        if name == "rep":
            return self.rep
        return super().attr(E, name)


def schema(E):
    t = E.fresh("schema", T.Sch)
    return Schema(t, False), Schema(t, True)


def checker_arg(E):
    """no presence checker, or any"""
    if E.decide(E.fresh("has_checker", B)):
        ck = CheckerM(None, None, None, term=E.fresh("checker", CkS))
        return ck, ck
    return None, None


def judge(E, what, call, want):
    kind, r = world.outcome(E, call)
    if kind == "raise":
        E.prove(f"{what} does not raise ({type(r).__name__}: {r})", False)
    body, issues = want()
    same(E, r[1], issues, f"{what} reports exactly the prescribed issues")
    same(E, E.getattr(r[0], "body"), body, f"{what} hands on the body exactly if nothing is reported")
    E.completed += 1


def new(E, cls, **kw):
    return E.construct(cls, [OPAQUE], kw)


NO_QUERY = "no query string (its options: C20)"


@contract(["C15", "C16"], "ResourceObjectPUT.parse_request")
def put_request(E):
    install(E)
    s, t = schema(E)
    v = world.val(E, "body")
    o = new(E, rv.ResourceObjectPUT, resource_schema=s)
    judge(E, "PUT request", lambda: E.call(E.getattr(o, "parse_request"), [], {"body": v}),
          lambda: E.call(spec.put_request, [t, v], {}))


@contract(["C15", "C16"], "ResourcesPOST.parse_request")
def post_request(E):
    install(E)
    s, t = schema(E)
    v = world.val(E, "body")
    o = new(E, rv.ResourcesPOST, resource_schema=s)
    judge(E, "POST request", lambda: E.call(E.getattr(o, "parse_request"), [], {"body": v}),
          lambda: E.call(spec.post_request, [t, v], {}))


def response(cls, status, required):
    @contract(["C15", "C18"], f"{cls.__name__}.dump_response")
    def c(E):
        install(E)
        s, t = schema(E)
        v, h, st = world.val(E, "body"), world.val(E, "headers"), SI(E.fresh("status", I))
        ck1, ck2 = checker_arg(E)
        if cls is rv.ResourcesPOST:
            # a response without a body is accepted as it is
            E.assume(E.val_truth(v.z))
        o = new(E, cls, resource_schema=s)
        judge(E, f"{cls.__name__} response",
              lambda: E.call(E.getattr(o, "dump_response"), [], dict(status_code=st, body=v, headers=h, presence_checker=ck1)),
              lambda: E.call(spec.resource_response, [t, v, st, status, h, required, ck2], {}))
    return c


response(rv.ResourceObjectGET, 200, False)
response(rv.ResourceObjectPUT, 200, False)
response(rv.ResourcesPOST, 201, True)


@contract(["C15", "C18"], "ResourceObjectPATCH.dump_response")
def patch_response(E):
    install(E)
    s, t = schema(E)
    v, h, st = world.val(E, "body"), world.val(E, "headers"), SI(E.fresh("status", I))
    ck1, ck2 = checker_arg(E)
    sel = SB(selective(ck2.term)) if ck2 is not None else False
    E.constructors[m_patch.PatchOp] = lambda E, a, k: OPAQUE
    o = new(E, rv.ResourceObjectPATCH, resource_schema=s)
    judge(E, "PATCH response",
          lambda: E.call(E.getattr(o, "dump_response"), [], dict(status_code=st, body=v, headers=h, presence_checker=ck1)),
          lambda: E.call(spec.patch_response, [t, v, st, h, ck2, sel], {}))


@contract(["C15", "C18"], "ResourceObjectDELETE.dump_response")
def delete_response(E):
    install(E)
    st = SI(E.fresh("status", I))
    o = new(E, rv.ResourceObjectDELETE)
    judge(E, "DELETE response", lambda: E.call(E.getattr(o, "dump_response"), [], dict(status_code=st)),
          lambda: E.call(spec.delete_response, [st], {}))


@contract(["C15", "C18"], "Error.dump_response")
def error_response(E):
    install(E)
    v, st = world.val(E, "body"), SI(E.fresh("status", I))
    o = E.construct(rv.Error, [], {})
    judge(E, "error response", lambda: E.call(E.getattr(o, "dump_response"), [], dict(status_code=st, body=v)),
          lambda: E.call(spec.error_response, [v, st], {}))
