"""List responses (C17): ListResponse, and the checks of a page against the request."""
import z3

from oracle import messages as spec
import src.assets.schemas.list_response as m_list
import src.request_validators as rv

from . import models, theory as T, world
from .c_valid import Fixed, Schema, CheckerM, checker_arg, const, install, judge, new, process, s_attrs
from .engine import Model
from .models import Ent, Reg, SymCont, same
from .run import contract
from .theory import Nat, OPAQUE, SB, SI, SS, SV, Seq, Unsupported, Val

I, B = z3.IntSort(), z3.BoolSort()
Schs = z3.DeclareSort("Schs")
ss_len = z3.Function("ss_len", Schs, I)
ss_at = z3.Function("ss_at", Schs, I, T.Sch)
infer_ok = z3.Function("infer_ok", Schs, Val, B)
infer = z3.Function("infer", Schs, Val, T.Sch)
INFER = "the schema of a resource is a function of the schemas and the resource (contract ListResponse._infer_schema_from_data)"


def schemas(E, name="schemas"):
    t = E.fresh(name, Schs)
    E.assume(ss_len(t) >= 1)
    return (t, Seq(ss_len(t), lambda k: Schema(ss_at(t, k), False)), Seq(ss_len(t), lambda k: Schema(ss_at(t, k), True)))


def inferring(E, t):
    E.trusted.add(INFER)

    def inf(spec_):
        def h(E, a, k):
            v = E.toval(a[0] if spec_ else a[1])
            if E.decide(infer_ok(t, v)):
                return Schema(infer(t, v), spec_)
            return None
        return h
    E.handlers["src.assets.schemas.list_response.ListResponse._infer_schema_from_data"] = inf(False)
    E.handlers["oracle.messages.inferred"] = inf(True)


@contract("C17", "ListResponse._infer_schema_from_data")
def infer_schema(E):
    """any number of schemas, any number of URNs each"""
    install(E)
    t, ss1, ss2 = schemas(E)
    o = m_list.ListResponse([])
    E.new(o)
    E.setattr(o, "_schemas", ss1)
    v = world.val(E, "item")
    kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "_infer_schema_from_data"), [v], {}))
    if kind == "raise":
        E.prove(f"does not raise ({type(r).__name__}: {r})", False)
    w = E.call(spec.inferred, [v, ss2], {})
    if (r is None) != (w is None):
        E.prove("a schema is found exactly when one knows all that the resource lists", False)
    if r is not None:
        E.prove("the first schema that knows all that the resource lists", r.t == w.t)
    E.completed += 1


@contract("C17", "ListResponse.dump")
def dump(E):
    install(E)
    t, ss1, ss2 = schemas(E)
    inferring(E, t)
    E.handlers["src.data.schemas.BaseSchema.dump"] = lambda E, a, k: process(E, const(a[0].schema), a[1], "dump")
    o = m_list.ListResponse([])
    E.new(o)
    E.setattr(o, "_schemas", ss1)
    v = world.val(E, "body")
    kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "dump"), [v], {}))
    if kind == "raise":
        E.prove(f"dump of a list does not raise ({type(r).__name__}: {r})", False)
    w, issues = E.call(spec.list_body, [ss2, v], {})
    same(E, r[1], issues, "the list reports exactly the prescribed issues")
    same(E, r[0], w, "the list hands on the processed resources")
    E.completed += 1


# ---------------------------------------------------------------------- the page against the request
LIST_DUMP = ("ListResponse.dump (contract above) on top of the contracts of schema processing: an unblocked number is an integer "
             "or absent, unblocked Resources are a list or absent, resources without issues are containers of a known schema")
FILTER = "a filter is a predicate on resource and attribute definitions (contracts of the operators, C11)"
SORTER = "being in order is a function of sorter, resources and schemas (C13)"
REQUIRED = "the presence check blocks at a required attribute without value (contract C09)"


def loc(E, *names):
    return models.loc_term(models.atoms(E, names))


def field(E, out, name):
    return models.c_get(E, Val.c(out), [E.lit(""), E.lit(name.lower()), E.lit("")], z3.BoolVal(False))


def absent(v):
    return z3.Or(Val.is_none(v), Val.is_missing(v))


def list_dump(E, t, v):
    z = E.toval(v)
    out = z3.Function("list_dump", Schs, Val, Val)(t, z)
    R = z3.Function("list_dump_reg", Schs, Val, T.RegS)(t, z)
    E.fact(z3.Or(Val.is_cont_(out), z3.And(Val.is_invalid(out), T.r_blk(R, T.Loc.nil))))
    for n in ("totalResults", "startIndex", "itemsPerPage"):
        f = field(E, out, n)
        E.fact(z3.Or(T.r_blk(R, loc(E, n)), absent(f), Val.is_int_(f)))
    f = field(E, out, "Resources")
    E.fact(z3.Or(T.r_blk(R, loc(E, "Resources")), Val.is_missing(f), Val.is_lst_(f)))
    j = z3.Int("j!")
    item = T.l_item(Val.l(f), j)
    E.fact(z3.Or(T.r_has(R, loc(E, "Resources")), z3.ForAll(
        [j], z3.Implies(z3.And(0 <= j, j < T.l_len(Val.l(f))),
                        z3.And(Val.is_cont_(item), z3.Or(ss_len(t) == 1, infer_ok(t, item)))), patterns=[item])))
    reg = Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])
    if E.decide(Val.is_cont_(out)):
        return SymCont(E, Val.c(out)), reg
    return models.INVALID, reg


class FilterM(Model):
    def __init__(self, E):
        self.passed = E.fresh_fun("passed", Val, T.AttrsS, B)

    def invoke(self, E, args, kw):
        v = dict(zip(["data", "schema", "strict"], args), **kw)
        if v.get("strict", True) is not False:
            raise Unsupported("strict filtering")
        s = E.force(v["schema"])
        if not isinstance(s, Schema):
            raise Unsupported("schema of a filter")
        return SB(self.passed(E.toval(v["data"]), s_attrs(s.t)))

    def evaluate(self, E, data, attrs_):
        return "PASSED" if E.decide(self.passed(E.toval(data), attrs_.t)) else "FAILED"

    def truth(self, E):
        return True


class SorterM(Model):
    def __init__(self, E):
        self.asked = []

    def ask(self, E, items, kinds):
        weak = False
        for i2, k2, b in self.asked:
            try:
                models.same(E, items, i2, "", True)
                models.same_list(E, kinds, k2, "", True, models.quiet_ob(E))
            except models.Differ:
                continue
            except Unsupported:
                weak = True
                continue
            return b
        b = E.fresh("in_order", B)
        if weak:
            E.abstracted_terms.add(str(b))
        E.set_cell("model", self, "asked", self.asked + [(items, kinds, b)])
        return b

    def invoke(self, E, args, kw):
        v = dict(zip(["data", "schema"], args), **kw)
        return SortedM(self, v["data"], v["schema"])

    def truth(self, E):
        return True


class SortedM(Model):
    def __init__(self, sorter, items, kinds):
        self.sorter, self.items, self.kinds = sorter, items, kinds

    def equals(self, E, other):
        try:
            same(E, self.items, other, "", True)
        except models.Differ:
            raise Unsupported("comparison with other resources")
        return self.sorter.ask(E, self.items, self.kinds)

    equals_value = equals


def list_schema(E, arg):
    """the list schema, built by its real constructor on top of the declared attributes"""
    o = m_list.ListResponse([])
    E.new(o)
    E.handlers["src.data.schemas.BaseSchema.__init__"] = lambda E, a, k: None
    E.call(m_list.ListResponse.__init__, [o, arg], {})
    E.attr_tokens.append((o.attrs, s_attrs(const(o.schema))))
    return o


def page(E, cls, with_filter, with_sorter):
    install(E)
    E.trusted |= {LIST_DUMP, FILTER, SORTER, REQUIRED}
    t, ss1, ss2 = schemas(E)
    inferring(E, t)
    E.constructors[m_list.ListResponse] = lambda E, a, k: list_schema(E, a[0] if a else k["schemas"])
    E.handlers["src.assets.schemas.list_response.ListResponse.dump"] = lambda E, a, k: list_dump(E, t, a[1])
    E.handlers["oracle.messages.list_body"] = lambda E, a, k: list_dump(E, t, a[1])
    E.handlers["oracle.filters.evaluate"] = lambda E, a, k: a[0].evaluate(E, a[1], a[2])
    E.handlers["oracle.messages.in_order"] = lambda E, a, k: SB(a[0].ask(E, a[1], a[2]))
    v, st, start = world.val(E, "body"), SI(E.fresh("status", I)), SI(E.fresh("start", I))

    def required(data, tok, direction, R):
        if tok.eq(s_attrs(const(spec.LIST.urn))):
            E.fact(z3.Or(T.r_blk(R, loc(E, "totalResults")), z3.Not(absent(field(E, Val.cont_(data.term(E)), "totalResults")))))
    E.on_presence = required
    count = SI(E.fresh("count", I)) if E.decide(E.fresh("has_count", B)) else None
    flt = FilterM(E) if with_filter else None
    srt = SorterM(E) if with_sorter else None
    ck1, ck2 = checker_arg(E)
    if cls is rv.ResourcesGET:
        E.assume(ss_len(t) == 1)
        o = new(E, cls, resource_schema=Schema(ss_at(t, z3.IntVal(0)), False))
    else:
        o = new(E, cls, resource_schemas=ss1)
    judge(E, "list response", lambda: E.call(E.getattr(o, "dump_response"), [], dict(
        status_code=st, body=v, start_index=start, count=count, filter_=flt, sorter=srt, presence_checker=ck1)),
        lambda: E.call(spec.list_response, [ss2, v, st, start, count, flt, srt, ck2], {}))


for cls, f, s in ([(rv.ServerRootResourceGET, f, s) for f in (False, True) for s in (False, True)]
                  + [(rv.ResourcesGET, True, True), (rv.SearchRequestPOST, True, True)]):
    contract(["C15", "C17"], f"{cls.__name__}.dump_response" + " (filter)" * f + " (sorter)" * s)(
        lambda E, cls=cls, f=f, s=s: page(E, cls, f, s))
