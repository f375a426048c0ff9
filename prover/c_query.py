"""Query options and search requests (C20)."""
import z3

from oracle import filtertext, messages as spec
import src.assets.schemas.list_response as m_list
import src.assets.schemas.search_request as m_search
import src.data.container as m_container
import src.filter as m_filter
import src.request_validators as rv
import src.sorter as m_sorter
from harness.adapter import AttributePresenceChecker

from . import attrs, models, theory as T, world
from .c_list import field, loc
from .c_valid import CheckerM, Schema, const, install, judge, new, process, rep_tuple, rep_tuples, schema
from .engine import Model
from .models import Ent, Reg, SymCont, SymDict, same
from .run import contract
from .theory import Nat, OPAQUE, SB, SI, SS, SV, Seq, Unsupported, Val

I, B = z3.IntSort(), z3.BoolSort()
NOTATION = "AttrRep.parse is the notation rule (bounded check of C04)"
n_ok = z3.Function("notation_ok", T.Str, B)
n_part = {n: z3.Function("notation_" + n, T.Str, T.Str) for n in ("schema", "attr", "sub")}
n_ext = z3.Function("notation_ext", T.Str, B)


def notation_parts(z):
    return [SS(n_part[n](z)) for n in ("schema", "attr", "sub")] + [SB(n_ext(z))]


def notation(E):
    """contract of attribute notation in text form"""
    E.trusted.add(NOTATION)
    parts = notation_parts

    def impl(E, a, k):
        v = E.force(a[1] if len(a) > 1 else k["value"])
        if isinstance(v, SV):
            if not E.decide(Val.is_str_(v.z)):
                raise Unsupported("notation that is no text")
            v = SS(Val.s(v.z))
        z = E.zs(v)
        return attrs.impl_rep(E, *parts(z)) if E.decide(n_ok(z)) else models.INVALID

    def sp(E, a, k):
        v = E.force(a[0])
        if isinstance(v, SV):
            if not E.decide(Val.is_str_(v.z)):
                return None
            v = SS(Val.s(v.z))
        if not isinstance(v, (str, SS)):
            return None
        z = E.zs(v)
        return attrs.spec_rep(E, *parts(z)) if E.decide(n_ok(z)) else None
    E.handlers["src.data.container.AttrRep.parse"] = impl
    E.handlers["oracle.messages.notation"] = sp


def same_selection(E, got, want, what):
    got, want = E.force(E.canon(got)), E.force(want)
    if want is None:
        return E.prove(f"{what}: no rule", got is None)
    if not isinstance(got, CheckerM) or got.term is not None:
        return E.prove(f"{what}: a rule results", False)
    E.prove(f"{what}: same kind of selection", E.eq(got.include, want.include))
    models.same_list(E, got.reps, want.reps, f"{what}: same attributes", False, lambda f: E.prove(f"{what}: same attributes", f))
    if got.ignore or want.ignore:
        raise Unsupported("ignored attributes of a selection")


@contract("C20", "parse_requested_attributes")
def requested(E):
    install(E)
    notation(E)
    d = E.fresh("query", T.Dct)
    kind, r = world.outcome(E, lambda: E.call(rv.parse_requested_attributes, [SymDict(E, d)], {}))
    if kind == "raise":
        E.prove(f"query options do not raise ({type(r).__name__}: {r})", False)
    w, wk = world.outcome(E, lambda: E.call(spec.requested_attributes, [SymDict(E, d)], {}))
    if w == "raise":
        E.completed += 1
        return
    want, issues = wk
    same(E, r[1], issues, "the query options report exactly the prescribed issues")
    if not E.branch(issues.has(E, [()])):
        same_selection(E, r[0], want, "requested attributes")
    E.completed += 1


# ---------------------------------------------------------------------- the options of list requests
FILTER = "Filter.parse is a function of the text (bounded check of C12)"
REQUESTED = "parse_requested_attributes by its contract (above)"
f_ok = z3.Function("filter_ok", T.Str, B)
f_unspec = z3.Function("filter_unspecified", T.Str, B)
f_reg = z3.Function("filter_reg", T.Str, T.RegS)


class FilterTok(Model):
    def __init__(self, z):
        self.z = z

    def truth(self, E):
        return True

    def equals(self, E, other):
        return self.z == other.z if isinstance(other, FilterTok) else False


class Token(Model):
    """a presence rule, known by what it was made from"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def truth(self, E):
        return True

    def equals(self, E, other):
        return z3.And(self.a == other.a, self.b == other.b) if isinstance(other, Token) else False


def filters(E):
    E.trusted.add(FILTER)

    def reg(z):
        return Reg(E, [Ent((), z3.Not(f_ok(z)), (), None, None, f_reg(z))])

    def parse(E, a, k):
        z = E.zs(E.force(a[1] if len(a) > 1 else k["filter_exp"]))
        E.fact(T.r_blk(f_reg(z), T.Loc.nil))
        return (FilterTok(z) if E.decide(f_ok(z)) else models.INVALID), reg(z)

    def option(E, a, k):
        z = E.zs(E.force(a[0]))
        E.fact(T.r_blk(f_reg(z), T.Loc.nil))
        if E.decide(f_unspec(z)):
            raise world.PyRaise(spec.Unspecified())
        a[2].merge(E, reg(z), a[1])
        return FilterTok(z) if E.decide(f_ok(z)) else None
    E.handlers["src.filter.Filter.parse"] = parse
    E.handlers["oracle.messages.filter_option"] = option


def requested_by_contract(E):
    E.trusted.add(REQUESTED)
    f = {n: z3.Function("requested_" + n, Val, Val, s) for n, s in (
        ("unspec", B), ("some", B), ("reg", T.RegS))}

    def parts(q):
        q = E.force(q)
        out = []
        for n in ("attributes", "excludeAttributes"):
            v = E.call(E.getattr(q, "get"), [n, models.MISSING], {})
            out.append(E.toval(v))
        return out

    def result(q):
        x = parts(q)
        R = f["reg"](*x)
        return x, R, Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])

    def impl(E, a, k):
        x, R, reg = result(a[0] if a else k["query_string"])
        if E.decide(T.r_has(R, T.Loc.nil)) or E.decide(f["unspec"](*x)):
            return models.INVALID, reg
        return (Token(*x) if E.decide(f["some"](*x)) else None), reg

    def sp(E, a, k):
        x, R, reg = result(a[0])
        if E.decide(f["unspec"](*x)):
            raise world.PyRaise(spec.Unspecified())
        if E.decide(T.r_has(R, T.Loc.nil)):
            return None, reg
        return (Token(*x) if E.decide(f["some"](*x)) else None), reg
    E.handlers["src.request_validators.parse_requested_attributes"] = impl
    E.handlers["oracle.messages.requested_attributes"] = sp


def falsy(E, v):
    v = E.force(E.canon(v))
    if isinstance(v, SV):
        return E.decide(z3.Or(Val.is_none(v.z), Val.is_invalid(v.z), Val.is_missing(v.z)))
    return v is None or v is models.INVALID or v is models.MISSING


def same_option(E, got, want, what):
    if want is None:
        return E.prove(f"{what}: none expected", falsy(E, got))
    if falsy(E, got):
        return E.prove(f"{what}: taken from the query", False)
    return same(E, got, want, f"{what}: as in the query")


def same_sorter(E, got, want, what="sorter"):
    if want is None:
        return E.prove(f"{what}: none expected", falsy(E, got))
    got = E.force(E.canon(got))
    if not isinstance(got, m_sorter.Sorter):
        return E.prove(f"{what}: taken from the query", False)
    same(E, rep_tuple(E, E.getattr(got, "attr_rep")), rep_tuple(E, want[0]), f"{what}: its attribute")
    asc = E.getattr(got, "asc")
    if not isinstance(asc, (bool, SB)):
        raise Unsupported("direction of a sorter")
    E.prove(f"{what}: its direction", models.zb(E.truth(asc)) == models.zb(E.truth(want[1])))


def query(E):
    return world.val(E, "query")


def one_option(name, fn, sp):
    @contract("C20", name)
    def c(E):
        install(E)
        notation(E)
        filters(E)
        d = E.fresh("query", T.Dct)
        kind, r = world.outcome(E, lambda: E.call(fn(), [SymDict(E, d)], {}))
        if kind == "raise":
            E.prove(f"query options do not raise ({type(r).__name__}: {r})", False)
        w, wk = world.outcome(E, lambda: E.call(sp, [SymDict(E, d)], {}))
        if w == "raise":
            E.completed += 1
            return
        same(E, r[1], wk[1], "the option reports exactly the prescribed issues")
        (same_option if name.endswith("filtering") else same_sorter)(E, r[0], wk[0], name)
        E.completed += 1


one_option("parse_request_filtering", lambda: rv.parse_request_filtering, spec.filter_of)
one_option("parse_request_sorting", lambda: rv.parse_request_sorting, spec.sorter_of)

int_of = z3.Function("int_of", T.Str, I)
NUM = z3.Function("re_fullmatch_[+-]?[0-9]+", T.Str, B)


def number_formulas(z):
    s = Val.s(z)
    plain = z3.And(NUM(s), T.strlen(s) < 1000)
    unspec = z3.Or(Val.is_bool_(z), z3.And(Val.is_flt_(z), models.f_fin(Val.f(z))),
                   z3.And(Val.is_str_(z), models.INT_OK(s), z3.Not(plain)))
    ok = z3.Or(Val.is_int_(z), z3.And(Val.is_str_(z), models.INT_OK(s)))
    return unspec, ok, z3.If(Val.is_int_(z), Val.i(z), int_of(s))


def number(E, a, k):
    v = E.force(a[0])
    if not isinstance(v, SV):
        return NotImplemented
    unspec, ok, n = number_formulas(v.z)
    if E.decide(unspec):
        raise world.PyRaise(spec.Unspecified())
    return SI(n) if E.decide(ok) else None


@contract("C20", "integer options of the specification")
def c_number(E):
    v = world.val(E, "v")
    E.assume(z3.Not(Val.is_oth_(v.z)))
    E.assume(z3.Not(z3.Or(Val.is_missing(v.z), Val.is_invalid(v.z), Val.is_none(v.z))))
    unspec, ok, n = number_formulas(v.z)
    kind, r = world.outcome(E, lambda: E.call(spec.number, [v], {}))
    if kind == "raise":
        E.prove("unspecified", z3.And(unspec, isinstance(r, spec.Unspecified)))
    else:
        E.prove("specified", z3.Not(unspec))
        E.prove("a number or none", ok if r is not None else z3.Not(ok))
        if r is not None:
            E.prove("the number", E.zi(r) == n if not isinstance(r, SV) else z3.And(Val.is_int_(r.z), Val.i(r.z) == n))
    E.completed += 1


def options_by_contract(E):
    """one option, its result and its issues by the contracts above"""
    def value(q, n, default):
        q = E.force(q)
        if any(w.eq(E.lit(n)) for w, _ in q.writes):
            raise Unsupported("option read after it was replaced")
        z = E.lit(n)
        return z3.If(T.d_has(q.base, z), T.d_get(q.base, z), default)

    def filtering(is_spec):
        def h(E, a, k):
            z = value(a[0] if a else k["query_string"], "filter", Val.none)
            s = Val.s(z)
            E.fact(T.r_blk(f_reg(s), T.Loc.nil))
            if is_spec and E.decide(z3.And(Val.is_str_(z), f_unspec(s))):
                raise world.PyRaise(spec.Unspecified())
            reg = Reg(E, [Ent((), z3.And(Val.is_str_(z), z3.Not(f_ok(s))), (), None, None, f_reg(s)),
                          Ent((), z3.Not(z3.Or(Val.is_str_(z), Val.is_none(z))), (), 2, True)])
            if E.decide(z3.And(Val.is_str_(z), f_ok(s))):
                return FilterTok(s), reg
            return (None if is_spec else models.INVALID), reg
        return h

    def sorting(is_spec):
        def h(E, a, k):
            q = a[0] if a else k["query_string"]
            z = value(q, "sortBy", Val.none)
            order = value(q, "sortOrder", Val.str_(E.lit("ascending")))
            s = Val.s(z)
            is_ = lambda x: order == Val.str_(E.lit(x))  # noqa: E731
            good = z3.And(Val.is_str_(z), n_ok(s))
            if is_spec and E.decide(z3.And(good, z3.Not(z3.Or(is_("ascending"), is_("descending"))))):
                raise world.PyRaise(spec.Unspecified())
            reg = Reg(E, [Ent((), z3.And(Val.is_str_(z), z3.Not(n_ok(s))), (), 111, True),
                          Ent((), z3.Not(z3.Or(Val.is_str_(z), Val.is_none(z))), (), 2, True)])
            if E.decide(good):
                asc = SB(is_("ascending"))
                if is_spec:
                    return (attrs.spec_rep(E, *notation_parts(s)), asc), reg
                return E.construct(m_sorter.Sorter, [], dict(attr_rep=attrs.impl_rep(E, *notation_parts(s)), asc=asc)), reg
            return (None if is_spec else models.INVALID), reg
        return h
    E.handlers["src.request_validators.parse_request_filtering"] = filtering(False)
    E.handlers["oracle.messages.filter_of"] = filtering(True)
    E.handlers["src.request_validators.parse_request_sorting"] = sorting(False)
    E.handlers["oracle.messages.sorter_of"] = sorting(True)
    E.handlers["oracle.messages.number"] = number
    E.trusted.add("parse_request_filtering, parse_request_sorting by their contracts (above)")


def kind_of(E, d, n, kind):
    """the case of this variant for one integer option; the cases together are all there is"""
    has, z = T.d_has(d, E.lit(n)), T.d_get(d, E.lit(n))
    unspec, ok, _ = number_formulas(z)
    given = z3.And(has, z3.Not(Val.is_none(z)))
    E.assume({"absent": z3.Not(given), "a number": z3.And(given, ok, z3.Not(unspec)), 
              "no number": z3.And(given, z3.Not(z3.Or(ok, unspec))),
              "text, no number": z3.And(given, z3.Not(z3.Or(ok, unspec)), Val.is_str_(z)),
              "no text, no number": z3.And(given, z3.Not(z3.Or(ok, unspec, Val.is_str_(z))))}[kind])


def get_request(E, count, start):
    install(E)
    notation(E)
    filters(E)
    requested_by_contract(E)
    options_by_contract(E)
    d = E.fresh("query", T.Dct)
    E.assumptions.add("query values of other types than JSON's are left out")
    for n in ("count", "startIndex"):
        z = T.d_get(d, E.lit(n))
        E.assume(z3.Not(z3.Or(Val.is_oth_(z), Val.is_missing(z), Val.is_invalid(z))))
    kind_of(E, d, "count", count)
    kind_of(E, d, "startIndex", start)
    E.assume(z3.Not(T.d_has(d, E.lit("presence_checker"))))
    q = SymDict(E, d)
    p = SymDict(E, d)
    q.merged = p.merged = True
    E.constructors[m_list.ListResponse] = lambda E, a, k: OPAQUE
    o = new(E, rv.ServerRootResourceGET, resource_schemas=[])
    kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "parse_request"), [], dict(query_string=q)))
    if kind == "raise":
        E.prove(f"query options do not raise ({type(r).__name__}: {r})", False)
    w, wk = world.outcome(E, lambda: E.call(spec.query_options, [p], {}))
    if w == "raise":
        E.completed += 1
        return
    want, issues = wk
    under = Reg(E)
    under.merge(E, issues, ("query_string",))
    same(E, r[1], under, "the query reports exactly the prescribed issues")
    got = E.getattr(r[0], "query_string")
    if got is not q:
        raise Unsupported("options in another dictionary")
    get = lambda n: E.call(E.getattr(got, "get"), [n], {})  # noqa: E731
    opt = lambda n: E.call(E.getattr(want, "get"), [n], {})  # noqa: E731
    if not E.branch(issues.has(E, [("filter",)])):
        same_option(E, get("filter"), opt("filter"), "filter")
    if not E.branch(issues.has(E, [("sortby",)])):
        same_sorter(E, get("sorter"), opt("sorter"))
    for n in ("count", "startIndex"):
        if opt(n) is not None:
            same_option(E, get(n), opt(n), n)
    if opt("checker") is not None or not E.branch(issues.has(E, [()])):
        same_option(E, get("presence_checker"), opt("checker"), "presence rule")
    E.completed += 1


def strange(n):
    @contract("C20", f"_parse_resources_get_request does not raise, {n} outside the specification")
    def c(E):
        install(E)
        d = E.fresh("query", T.Dct)
        E.assumptions.add("query values of other types than JSON's are left out")
        for m in ("count", "startIndex", "filter", "sortBy", "attributes", "excludeAttributes"):
            if m != n:
                E.assume(z3.Not(T.d_has(d, E.lit(m))))
        z = T.d_get(d, E.lit(n))
        E.assume(z3.And(T.d_has(d, E.lit(n)), number_formulas(z)[0]))
        kind, r = world.outcome(E, lambda: E.call(rv._parse_resources_get_request, [], dict(query_string=SymDict(E, d))))
        E.prove(f"query options do not raise ({type(r).__name__}: {r})", kind != "raise")
        E.completed += 1


strange("count")
strange("startIndex")
for _c in ("absent", "a number", "no number"):
    for _s in ("absent", "a number", "no number"):
        for _d in ("text, no number", "no text, no number") if _c == _s == "no number" else (_c,):
            contract("C20", f"ServerRootResourceGET.parse_request, count {_d}, startIndex {_s}")(
                lambda E, c=_d, s=_s: get_request(E, c, s))


# ---------------------------------------------------------------------- requests with options
def with_options(name, cls, request):
    @contract(["C15", "C20"], f"{name}.parse_request with options")
    def c(E):
        install(E)
        requested_by_contract(E)
        s, t = schema(E)
        d = E.fresh("query", T.Dct)
        E.assume(z3.Not(T.d_has(d, E.lit("presence_checker"))))
        v, q = world.val(E, "body"), SymDict(E, d)
        o = new(E, cls, resource_schema=s)
        kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "parse_request"), [], dict(body=v, query_string=q)))
        if kind == "raise":
            E.prove(f"the request does not raise ({type(r).__name__}: {r})", False)
        got = E.getattr(r[0], "query_string")
        if got is not q:
            raise Unsupported("options in another dictionary")
        w, wk = world.outcome(E, lambda: E.call(spec.with_query, [
            SymDict(E, d), E.call(request, [t, v], {}) if request else (None, Reg(E))], {}))
        if w == "raise":
            E.completed += 1
            return
        ck, body, issues = wk
        same(E, r[1], issues, "exactly the prescribed issues are reported")
        if request:
            same(E, E.getattr(r[0], "body"), body, "the body is handed on exactly if nothing is reported")
        if ck is not None or not E.branch(issues.has(E, [("query_string",)])):
            same_option(E, E.call(E.getattr(got, "get"), ["presence_checker"], {}), ck, "presence rule")
        E.completed += 1


with_options("ResourceObjectGET", rv.ResourceObjectGET, None)
with_options("ResourceObjectPUT", rv.ResourceObjectPUT, spec.put_request)
with_options("ResourcesPOST", rv.ResourcesPOST, spec.post_request)


@contract("C20", "list requests without options")
def shape(E):
    install(E)
    E.constructors[m_list.ListResponse] = lambda E, a, k: OPAQUE
    q = world.val(E, "query")
    E.assume(z3.Not(Val.is_dict_(q.z)))
    o = new(E, rv.ServerRootResourceGET, resource_schemas=[])
    kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "parse_request"), [], dict(query_string=q)))
    if kind == "raise":
        E.prove(f"the request does not raise ({type(r).__name__}: {r})", False)
    same(E, r[1], E.call(spec.query_shape, [q], {}), "the request reports exactly the prescribed issues")
    E.completed += 1


@contract("C20", "SchemasGET.parse_request, ResourceTypesGET.parse_request")
def config(E):
    install(E)
    E.constructors[m_list.ListResponse] = lambda E, a, k: OPAQUE
    q = world.val(E, "query")
    for cls in (rv.SchemasGET, rv.ResourceTypesGET):
        for c in ("Schema", "ResourceType"):
            E.constructors[getattr(rv, c)] = lambda E, a, k: OPAQUE
        o = new(E, cls)
        kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "parse_request"), [], dict(query_string=q)))
        if kind == "raise":
            E.prove(f"the request does not raise ({type(r).__name__}: {r})", False)
        same(E, r[1], E.call(spec.config_query, [q], {}), "the request reports exactly the prescribed issues")
    E.completed += 1


# ---------------------------------------------------------------------- search requests
SEARCH = ("schema processing of a search request (contracts C06, C08, notation, Filter.parse): unblocked attribute lists are "
          "lists or absent, an unblocked sort attribute is a notation or absent, the sort order is a text, null, absent or "
          "invalid; nothing undeclared is there")


class Selection(Model):
    def __init__(self, names, include):
        self.names, self.include = names, include

    def truth(self, E):
        return True



@contract(["C15", "C20"], "SearchRequestPOST.parse_request")
def search(E):
    install(E)
    E.trusted.add(SEARCH)
    E.constructors[m_list.ListResponse] = lambda E, a, k: OPAQUE
    real = m_search.SearchRequest()
    E.constructors[m_search.SearchRequest] = lambda E, a, k: real
    E.constructors[AttributePresenceChecker] = lambda E, a, k: Selection(
        *[dict(zip(["attr_reps", "include"], a), **k)[n] for n in ("attr_reps", "include")])

    def processed(E, t, v):
        data, reg = process(E, t, v, "parse")
        if data is models.INVALID:
            return data, reg
        out = Val.cont_(data.base)
        f = lambda n: field(E, out, n)  # noqa: E731
        R = z3.Function("schema_parse_reg", T.Sch, Val, T.RegS)(t, E.toval(v))
        gone = lambda z: z3.Or(Val.is_none(z), Val.is_missing(z))  # noqa: E731
        for n in ("attributes", "excludeAttributes"):
            E.fact(z3.Or(T.r_blk(R, loc(E, n)), gone(f(n)), Val.is_lst_(f(n))))
        z = f("sortBy")
        E.fact(z3.Or(T.r_blk(R, loc(E, "sortBy")), gone(z), z3.And(Val.is_oth_(z), T.o_truth(Val.o(z)))))
        z = f("sortOrder")
        E.fact(z3.Or(gone(z), Val.is_invalid(z), Val.is_str_(z)))
        for n in ("presence_checker", "sorter"):
            E.fact(Val.is_missing(f(n)))
        return data, reg
    E.handlers["src.data.schemas.BaseSchema.parse"] = lambda E, a, k: processed(E, const(a[0].schema), a[1])
    E.handlers["oracle.schemas.process_schema"] = lambda E, a, k: processed(E, const(a[0].urn), a[1])
    v = world.val(E, "body")
    o = new(E, rv.SearchRequestPOST, resource_schemas=[])
    kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "parse_request"), [], dict(body=v)))
    if kind == "raise":
        E.prove(f"the request does not raise ({type(r).__name__}: {r})", False)
    w, wk = world.outcome(E, lambda: E.call(spec.search_request, [v], {}))
    if w == "raise":
        E.completed += 1
        return
    want, issues = wk
    under = Reg(E)
    under.merge(E, issues, ("body",))
    same(E, r[1], under, "the request reports exactly the prescribed issues")
    body = E.getattr(r[0], "body")
    if want is None:
        E.prove("no options are handed on when something is reported", body is None)
    elif not isinstance(body, SymCont):
        E.prove("the options are handed on when nothing is reported", False)
    else:
        read = lambda n: body.read(E, ("", n, "", False))  # noqa: E731
        ck = E.force(E.canon(read("presence_checker")))
        if "checker" not in want:
            E.prove("no presence rule without requested attributes", falsy(E, ck))
        elif not isinstance(ck, Selection):
            E.prove("a presence rule results", False)
        else:
            names, include = want["checker"]
            same(E, ck.names, names, "the presence rule is over exactly the given names")
            E.prove("the presence rule includes or excludes", models.zb(E.truth(ck.include)) == models.zb(E.truth(include)))
        so = E.force(E.canon(read("sorter")))
        if "sorter" not in want:
            E.prove("no sorter without a sort attribute", falsy(E, so))
        elif not isinstance(so, m_sorter.Sorter):
            E.prove("a sorter results", False)
        else:
            same(E, E.getattr(so, "attr_rep"), want["sorter"][0], "the sorter is for the given attribute")
            E.prove("the sorter's direction", models.zb(E.truth(E.getattr(so, "asc"))) == models.zb(E.truth(want["sorter"][1])))
        for n in ("filter", "count", "startIndex"):
            got = read(n)
            if n in want:
                same(E, got, want[n], f"{n} as given")
            else:
                E.prove(f"{n} stays absent", Val.is_missing(E.toval(got)))
    E.completed += 1
