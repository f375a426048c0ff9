"""C14-C18, C20: requests and responses of the individual endpoints."""
import functools

from oracle import messages as om
from oracle import presence as op_
from oracle import schemas as os_
from oracle.core import A, C, INVALID, Issues, MISSING, Rep, S, conv, lookup, vcopy, veq

from . import gen as g
from .adapter import (
    AttributePresenceChecker, Filter, Invalid, Mismatch, Missing, SCIMDataContainer, Sorter, as_list,
    check_issues, check_value, earlier, n_expr, n_rep, n_val, r_checker, r_expr, r_rep, r_schema,
)
from .base import suite
from .p_data import checker, expr, leaves, resource
from .p_text import expr as filter_text

from src import request_validators as rv  # noqa: E402
from src.assets.schemas import error as m_error_schema  # noqa: E402
from src.assets.config import create_service_provider_config  # noqa: E402

CONFIG = create_service_provider_config(
    patch={"supported": True}, bulk={"max_operations": 3, "max_payload_size": 1000, "supported": True},
    filter_={"max_results": 100, "supported": True}, change_password={"supported": True},
    sort={"supported": True}, etag={"supported": True})


def spec_guard(fn):
    @functools.wraps(fn)
    def wrapper(r, note):
        try:
            return fn(r, note)
        except om.Unspecified:
            return None
    return wrapper


def plain(v):
    """a body that can be sent: nothing but plain values"""
    if isinstance(v, dict):
        return all(isinstance(k, str) and plain(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(map(plain, v))
    return not isinstance(v, SCIMDataContainer)


def judge(data, issues, body, want, what, compare=True, response=False):
    """issues agree, body is handed on exactly when nothing is reported, and is the expected one"""
    check_issues(issues, want, what)
    if (data is None) != (body is None or want.has()):
        raise Mismatch(f"{what}: issues {issues.to_dict()} with body {data!r}")
    if data is not None and compare:
        check_value(data, body, what)
    if response and not plain(data):
        raise Mismatch(f"{what}: not a plain body: {data!r}")


def clean_schema(r, n_ext=None):
    """a definition without custom processors, most attributes optional"""
    s = g.schema_def(r, procs=False, n_ext=n_ext)
    if g.chance(r, 0.6):
        for a in [x for x in s.own[4:]] + [x for _, at in s.extensions for x in at]:
            for x in [a] + list(a.subs or []):
                if g.chance(r, 0.7):
                    x.required = False
                if g.chance(r, 0.7) and x.returned in ("never", "request"):
                    x.returned = "default"
                x.enforce = x.enforce and g.chance(r, 0.3)
        s = S(s.urn, s.own, s.name, s.plural, s.extensions, True, s.description)
    return s


def good_resource(r, s, mode, density=None):
    """raw data that is likely to be accepted"""
    raw = {"schemas": [s.urn] + [u for u, _ in s.extensions], "id": r.choice(["1", "2", "ab"])}
    for a in s.top:
        if a.rep.attr in ("schemas", "id"):
            continue
        if not (a.required or g.chance(r, density if density is not None else 0.6)):
            continue
        if a.returned == "never" and mode == "dump":
            continue
        if a.rep.attr == "meta":
            v = {"resourceType": s.name, "location": f"https://h/{s.plural}/1"}
            if g.chance(r, 0.3):
                v["version"] = r.choice(["v1", "v2"])
        else:
            v = g.raw_of(good_value(r, a, mode))
        if a.rep.ext:
            raw.setdefault(a.rep.schema, {})[g.respell(r, a.rep.attr)] = v
        else:
            raw[g.respell(r, a.rep.attr)] = v
    return raw


def good_value(r, a, mode):
    def one():
        if a.is_complex:
            c = C()
            for s in a.subs:
                if s.rep.attr == "primary":
                    continue
                if s.required or g.chance(r, 0.7):
                    c.put(s.rep.attr, good_value(r, s, mode))
            return c
        if a.canonical and a.enforce:
            v = r.choice(list(a.canonical))
            return v
        for _ in range(5):
            v = g.typed_value(r, a.type, mode)
            if v not in ("", None) and v == v:
                return v
        return v
    return [one() for _ in range(r.choice([1, 1, 2, 3]))] if a.multi_valued else one()


def perturb(r, raw):
    """break something, somewhere"""
    if not isinstance(raw, dict) or not raw:
        return g.weird(r)
    k = r.random()
    key = r.choice(list(raw))
    if k < 0.25:
        del raw[key]
    elif k < 0.5 and isinstance(raw[key], (dict, list)) and raw[key]:
        v = raw[key]
        if isinstance(v, dict):
            perturb(r, v)
        else:
            i = r.randrange(len(v))
            if isinstance(v[i], dict) and g.chance(r, 0.6):
                perturb(r, v[i])
            elif g.chance(r, 0.5):
                v[i] = g.weird(r, 1)
            else:
                v.append(vcopy(v[i]))
    elif k < 0.8:
        raw[key] = g.weird(r, 1)
    else:
        raw[g.name(r)] = g.weird(r, 1)
    return raw


def body_for(r, s, mode):
    k = r.random()
    if k < 0.5:
        return good_resource(r, s, mode)
    if k < 0.75:
        raw = good_resource(r, s, mode)
        for _ in range(r.choice([1, 1, 2])):
            raw = perturb(r, raw)
        return raw
    if k < 0.95:
        return g.resource_raw(r, s, mode, junk=r.choice([0, 0.1]))
    return g.weird(r)


# ------------------------------------------------------------------------------------- C16
@suite("C16", "replace-and-create", quick=30000, thorough=80000)
@spec_guard
def replace_create(r, note):
    s = clean_schema(r)
    raw = body_for(r, s, "parse")
    which = r.choice(["PUT", "POST"])
    body, want = (om.put_request if which == "PUT" else om.post_request)(s, vcopy(raw))
    cls = rv.ResourceObjectPUT if which == "PUT" else rv.ResourcesPOST
    v = cls(CONFIG, resource_schema=r_schema(s))
    earlier(r, lambda: v.parse_request(body=body_for(r, s, "parse")))
    data, issues = v.parse_request(body=vcopy(raw))
    note((which, len(want.items), repr(raw)[:60]))
    judge(data.body, issues, body, want, f"{which} {raw!r} for {s!r}")


# ------------------------------------------------------------------------------------- C18
def headers_for(r, s):
    k = r.random()
    if k < 0.6:
        return {"Location": f"https://h/{s.plural}/1"}
    if k < 0.75:
        return r.choice([None, {}, {"X": "y"}])
    if k < 0.9:
        return {"Location": r.choice(["https://h/other", "", None, "HTTPS://H/" + s.plural + "/1", 5,
                                      g.near(r, f"https://h/{s.plural}/1"), g.near(r, f"https://h/{s.plural}/1")])}
    return g.weird(r, 1)


@suite("C18", "resource-response", quick=30000, thorough=80000)
@spec_guard
def resource_response(r, note):
    s = clean_schema(r)
    raw = body_for(r, s, "dump")
    which = r.choice(["GET", "PUT", "POST", "PATCH"])
    status = r.choice([200, 200, 201, 204, 400, 202, 200.0])
    headers = headers_for(r, s)
    ck = checker(r, s) if g.chance(r, 0.4) else None
    kw = dict(status_code=status, body=vcopy(raw), headers=headers)
    if ck is not None:
        kw["presence_checker"] = r_checker(ck)
    cls = {"GET": rv.ResourceObjectGET, "PUT": rv.ResourceObjectPUT, "POST": rv.ResourcesPOST,
           "PATCH": rv.ResourceObjectPATCH}[which]
    v = cls(CONFIG, resource_schema=r_schema(s))
    earlier(r, lambda: v.dump_response(status_code=200, body=body_for(r, s, "dump"), headers=headers_for(r, s)))
    data, issues = v.dump_response(**kw)
    note((which, status, repr(headers)[:40], repr(raw)[:40]))
    what = f"{which} response {raw!r} status={status} headers={headers!r} checker={ck!r} for {s!r}"
    if which == "POST" and not raw:
        if issues.has_issues() or data.body is not None:
            raise Mismatch(f"{what}: {issues.to_dict()}")
        return
    if which == "PATCH":
        body, want = om.patch_response(s, vcopy(raw), status, headers, ck, ck is not None and bool(ck.reps))
        judge(data.body, issues, body, want, what, response=True)
        return
    body, want = om.resource_response(s, vcopy(raw), status, 201 if which == "POST" else 200, headers,
                                      which == "POST", ck)
    judge(data.body, issues, body, want, what, response=True)


@suite("C18", "delete-response", quick=50, thorough=200)
def delete_response(r, note):
    status = r.choice([204, 200, 404, 0, 203, 205])
    data, issues = rv.ResourceObjectDELETE(CONFIG).dump_response(status_code=status)
    body, want = om.delete_response(status)
    note((status,))
    judge(data.body, issues, body, want, f"DELETE response {status}")


@suite("C18", "error-response", quick=36000, thorough=60000)
@spec_guard
def error_response(r, note):
    status = r.choice([400, 404, 500, 300, 599, 299, 600, 200, 0, -1, 301])
    raw = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:Error"],
           "status": str(status) if g.chance(r, 0.75) else r.choice(["400", "500", 400, "", None, "x", "0400", " 400", g.near(r, str(status))])}
    if g.chance(r, 0.6):
        raw["scimType"] = r.choice(["invalidFilter", "TOOMANY", "sensitive", "nope", 5, "mutability"])
    if g.chance(r, 0.6):
        raw["detail"] = r.choice(["text", "", 5, None])
    if g.chance(r, 0.35):
        raw = perturb(r, raw)
    body, want = om.error_response(vcopy(raw), status)
    v = rv.Error()
    earlier(r, lambda: v.dump_response(status_code=r.choice([400, 404, 200]), body=vcopy(raw)))
    data, issues = v.dump_response(status_code=status, body=vcopy(raw))
    note((status, repr(raw)))
    judge(data.body, issues, body, want, f"error response {status} {raw!r}", response=True)


@suite("C18", "error-document", quick=12000, thorough=30000)
@spec_guard
def error_document(r, note):
    """what is read from an error document: its status is a number from 300 to 599"""
    raw = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:Error"],
           "status": str(r.choice([299, 300, 301, 400, 404, 599, 600, 601, 0, 200, r.randrange(1000)])) if g.chance(r, 0.8)
           else r.choice(["x", "", "4x", 400, None, "four"])}
    if g.chance(r, 0.4):
        raw["scimType"] = r.choice(["invalidFilter", "TOOMANY", "nope", 5])
    if g.chance(r, 0.4):
        raw["detail"] = r.choice(["text", "", 5, None])
    want, wi = om.error_document(vcopy(raw))
    got, gi = m_error_schema.Error().parse(vcopy(raw))
    note(repr(raw))
    check_issues(gi, wi, f"Error.parse({raw!r})")
    check_value(got, want, f"Error.parse({raw!r})")


# ------------------------------------------------------------------------------------- C17
def list_raw(r, schemas, items):
    n = len(items)
    raw = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"],
           "totalResults": r.choice([n, n, n, n + 1, n + 5, n - 1, float(n)]), "Resources": items}
    if g.chance(r, 0.6):
        raw["startIndex"] = r.choice([1, 1, 2, 3, 0])
    if g.chance(r, 0.6):
        raw["itemsPerPage"] = r.choice([n, n, n, n + 1, 0])
    if g.chance(r, 0.05) and not items:
        del raw["Resources"]
    return raw


@suite(["C17"], "list-response", quick=36000, thorough=100000)
@spec_guard
def list_response(r, note):
    schemas = []
    base = clean_schema(r, n_ext=r.choice([0, 0, 1]))
    schemas.append(base)
    if g.chance(r, 0.45):
        other = clean_schema(r, n_ext=0)
        if other.urn.lower() != base.urn.lower():
            schemas.append(other)
    items = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        s = r.choice(schemas)
        raw = good_resource(r, s, "dump", density=r.choice([0.3, 0.8]))
        if g.chance(r, 0.12):
            raw = perturb(r, raw)
        if g.chance(r, 0.06) and isinstance(raw, dict):
            # which schema a resource is of: none stated, several, or an unknown one
            raw["schemas"] = r.choice([[], [schemas[0].urn, schemas[-1].urn], list(schemas[0].urns), schemas[-1].urns[1:],
                                       [schemas[0].urn.upper(), "urn:un:known"], ["urn:un:known"], None])
        items.append(raw)
    sorter = filter_ = ck = None
    if g.chance(r, 0.35):
        simple = [a for a in base.attrs if not a.is_complex and not a.rep.sub]
        a = r.choice(simple)
        sorter = (Rep(r.choice(["", a.rep.schema]) if a.rep.ext else "", a.rep.attr), g.chance(r, 0.5))
        if g.chance(r, 0.6):
            try:
                idx = om.so.ordered(sorter[0], sorter[1], [C.from_raw(x) if isinstance(x, dict) else C() for x in items],
                                    [base.attrs] * len(items))
                items = [items[i] for i in idx]
            except (TypeError, AttributeError):
                pass
    if g.chance(r, 0.35):
        first = C.from_raw(items[0]) if items and isinstance(items[0], dict) else C()
        filter_ = expr(r, base.attrs, first, depth=1)
    if g.chance(r, 0.35):
        ck = checker(r, base)
    count = r.choice([None, None, len(items), len(items) + 1, len(items) - 1, 0])
    start = r.choice([1, 1, 2, 5])
    status = r.choice([200] * 9 + [201])
    raw = list_raw(r, schemas, items)
    if g.chance(r, 0.12):
        raw = perturb(r, raw)
    kw = dict(status_code=status, body=vcopy(raw), start_index=start, count=count)
    if g.chance(r, 0.3):
        # the first page and all resources are what is asked for unless said otherwise
        kw = {k: x for k, x in kw.items() if (k, x) not in (("start_index", 1), ("count", None))}
    what = f"list {raw!r} status={status} start={start} count={count} filter={filter_!r} sorter={sorter!r} " \
           f"checker={ck!r} for {schemas!r}"
    body, want = om.list_response(schemas, vcopy(raw), status, start, count, filter_, sorter, ck)
    real = [r_schema(s) for s in schemas]
    if filter_ is not None:
        kw["filter_"] = Filter(r_expr(filter_))
    if sorter is not None:
        kw["sorter"] = Sorter(r_rep(sorter[0]), sorter[1])
    if ck is not None:
        kw["presence_checker"] = r_checker(ck)
    k = r.random()
    if len(schemas) == 1 and k < 0.4:
        v = rv.ResourcesGET(CONFIG, resource_schema=real[0])
    elif k < 0.7:
        v = rv.ServerRootResourceGET(CONFIG, resource_schemas=real)
    else:
        v = rv.SearchRequestPOST(CONFIG, resource_schemas=real)
    earlier(r, lambda: v.dump_response(status_code=200, body=vcopy(list_raw(r, schemas, items[1:])), count=len(items),
                                       **{k: x for k, x in kw.items() if k in ("filter_", "sorter") and g.chance(r, 0.5)}))
    data, issues = v.dump_response(**kw)
    note((len(items), count, start, repr(sorter), repr(filter_)[:60], len(want.items)))
    judge(data.body, issues, body, want, what, response=True)


# ------------------------------------------------------------------------------------- C20
def option_text(r):
    return r.choice(["a", "userName", "name.givenName", "urn:a:b:c", "a b", "", "a..b", "x.y", "A,b", "9", "$ref", "-"])


def query(r):
    q = {}
    if g.chance(r, 0.45):
        q["attributes"] = r.choice([option_text(r), option_text(r) + "," + option_text(r), [option_text(r) for _ in range(r.randrange(0, 3))],
                                    r.choice([[5], [None], "", [], 5, {"userName": 1}, None, True])])
    if g.chance(r, 0.3):
        q["excludeAttributes"] = r.choice([option_text(r), [option_text(r) for _ in range(r.randrange(0, 3))]])
        if g.chance(r, 0.05):
            q["excludeAttributes"] = r.choice([5, {"userName": 1}, None, [5]])
    if g.chance(r, 0.4):
        q["sortBy"] = r.choice([option_text(r), option_text(r), 5, None, ["a"], True])
    if g.chance(r, 0.35):
        q["sortOrder"] = r.choice(["ascending", "descending", "descending"])
    if g.chance(r, 0.45):
        q["filter"] = filter_text(r, r.choice([0, 1, 2])) if g.chance(r, 0.8) else r.choice(["", 5, None, "a", [], "a eq"])
    for k in ("count", "startIndex"):
        if g.chance(r, 0.4):
            q[k] = r.choice([0, 1, 5, -3, "0", "7", "-2", "x", "", "1.5", None, [1], {}, float("nan"), float("inf"), "+3", 10**30])
    if g.chance(r, 0.2):
        q["other"] = r.choice(["x", 5])
    return q


def checker_is(real, spec):
    return isinstance(real, AttributePresenceChecker) and real.include == spec.include and \
        [n_rep(x).key() for x in real.attr_reps] == [x.key() for x in spec.reps]


@suite("C20", "query-options", quick=48000, thorough=120000)
@spec_guard
def query_options(r, note):
    q = query(r)
    want_opts, want = om.query_options(vcopy(q))
    given = vcopy(q)
    s = BASIC
    v = r.choice([lambda: rv.ServerRootResourceGET(CONFIG, resource_schemas=[s]), lambda: rv.ResourcesGET(CONFIG, resource_schema=s)])()
    earlier(r, lambda: v.parse_request(query_string=query(r)))
    data, issues = v.parse_request(query_string=given)
    what = f"query {q!r}"
    note(repr(q))
    expected = Issues()
    expected.merge(want, ("query_string",))
    check_issues(issues, expected, what)
    got = data.query_string
    for k in ("count", "startIndex"):
        if k in want_opts and not (type(got.get(k)) is int and got.get(k) == want_opts[k]):
            raise Mismatch(f"{what}: {k} is {got.get(k)!r}, expected {want_opts[k]!r}")
        if k not in q and got.get(k) is not None:
            raise Mismatch(f"{what}: {k} is {got.get(k)!r}, not given")
    f = got.get("filter")
    if want_opts.get("filter") is not None:
        from .p_text import same
        if not isinstance(f, Filter) or not same(n_expr(f.operator), want_opts["filter"]):
            raise Mismatch(f"{what}: filter is {f!r}")
    elif f:
        raise Mismatch(f"{what}: filter is {f!r}, none expected")
    so = got.get("sorter")
    if "sorter" in want_opts:
        rep, asc = want_opts["sorter"]
        if not isinstance(so, Sorter) or n_rep(so.attr_rep).key() != rep.key() or so.asc is not asc:
            raise Mismatch(f"{what}: sorter is {so and (so.attr_rep, so.asc)!r}, expected {want_opts['sorter']!r}")
    elif so:
        raise Mismatch(f"{what}: sorter is {so!r}, none expected")
    ck = got.get("presence_checker")
    if "checker" in want_opts:
        if not checker_is(ck, want_opts["checker"]):
            raise Mismatch(f"{what}: presence rule is {ck and (ck.attr_reps, ck.include)!r}, expected {want_opts['checker']!r}")
    elif ck:
        raise Mismatch(f"{what}: presence rule is {(ck.attr_reps, ck.include)!r}, none expected")


@suite("C20", "requested-attributes", quick=18000, thorough=40000)
@spec_guard
def requested(r, note):
    q = query(r)
    want_ck, want = om.requested_attributes(vcopy(q))
    cls = r.choice([rv.ResourceObjectGET, rv.ResourceObjectPUT, rv.ResourcesPOST, rv.ResourceObjectPATCH])
    given = vcopy(q)
    v = cls(CONFIG, resource_schema=BASIC)
    earlier(r, lambda: v.parse_request(query_string=query(r), body={}))
    data, issues = v.parse_request(query_string=given, body={})
    expected = Issues()
    expected.merge(want)
    note((cls.__name__, repr(q)))
    check_issues(issues.get(("query_string",)), expected, f"{cls.__name__} query {q!r}")
    ck = data.query_string.get("presence_checker")
    if want_ck is not None:
        if not checker_is(ck, want_ck):
            raise Mismatch(f"{cls.__name__} query {q!r}: presence rule {ck and (ck.attr_reps, ck.include)!r}")
    elif ck:
        raise Mismatch(f"{cls.__name__} query {q!r}: presence rule {(ck.attr_reps, ck.include)!r}, none expected")
    if want_ck is not None and cls is not rv.ResourceObjectGET and data.body is not None:
        raise Mismatch("incomplete body accepted")


@suite("C20", "query-shape", quick=3600, thorough=5000)
def query_shape(r, note):
    q = r.choice([None, 5, "x", [], "", (), {"filter": "a pr"}, {}, {"sortBy": "a"}])
    if g.chance(r, 0.5):
        v = r.choice([rv.SchemasGET, rv.ResourceTypesGET])(CONFIG)
        _, issues = v.parse_request(query_string=q)
        note(("config", repr(q)))
        check_issues(issues, om.config_query(q), f"configuration endpoint query {q!r}")
        return
    v = rv.ResourcesGET(CONFIG, resource_schema=BASIC)
    _, issues = v.parse_request(query_string=q)
    note(("list", repr(q)))
    check_issues(issues, om.query_shape(q), f"query {q!r}")


@suite("C20", "search-options", quick=48000, thorough=120000)
@spec_guard
def search_options(r, note):
    q = query(r)
    q.pop("other", None)
    for k in ("attributes", "excludeAttributes"):
        if isinstance(q.get(k), str) and g.chance(r, 0.8):
            q[k] = q[k].split(",")
    if g.chance(r, 0.3) and "sortOrder" in q:
        q["sortOrder"] = g.respell(r, q["sortOrder"])
    for k in ("count", "startIndex"):
        if isinstance(q.get(k), str) and g.chance(r, 0.6):
            q[k] = 3
    q["schemas"] = ["urn:ietf:params:scim:api:messages:2.0:SearchRequest"]
    if g.chance(r, 0.1):
        q = perturb(r, q)
    elif g.chance(r, 0.3):
        q = {g.respell(r, k): v for k, v in q.items()}
    want_opts, want = om.search_request(vcopy(q))
    v = rv.SearchRequestPOST(CONFIG, resource_schemas=[BASIC])
    earlier(r, lambda: v.parse_request(body=dict(query(r), schemas=q.get("schemas"))))
    data, issues = v.parse_request(body=vcopy(q))
    expected = Issues()
    expected.merge(want, ("body",))
    what = f"search {q!r}"
    note(repr(q))
    check_issues(issues, expected, what)
    body = data.body
    if (body is None) != issues.has_issues():
        raise Mismatch(f"{what}: issues {issues.to_dict()} with body {body!r}")
    if body is None:
        return
    for k in ("count", "startIndex"):
        v = body[k]
        if k in want_opts and not veq(v, want_opts[k]) or k not in want_opts and v is not Missing:
            raise Mismatch(f"{what}: {k} is {v!r}")
    f = body["filter"]
    if want_opts.get("filter"):
        from .p_text import same
        if not isinstance(f, Filter) or not same(n_expr(f.operator), want_opts["filter"][1]):
            raise Mismatch(f"{what}: filter is {f!r}")
    elif f:
        raise Mismatch(f"{what}: filter is {f!r}, none expected")
    so = body["sorter"]
    if "sorter" in want_opts:
        rep, asc = want_opts["sorter"]
        if not isinstance(so, Sorter) or n_rep(so.attr_rep).key() != rep.key() or so.asc is not asc:
            raise Mismatch(f"{what}: sorter is {so and (so.attr_rep, so.asc)!r}, expected {want_opts['sorter']!r}")
    elif so:
        raise Mismatch(f"{what}: sorter is {so!r}, none expected")
    ck = body["presence_checker"]
    if "checker" in want_opts:
        reps, inc = want_opts["checker"]
        if not checker_is(ck, op_.Checker(reps, inc)):
            raise Mismatch(f"{what}: presence rule is {ck and (ck.attr_reps, ck.include)!r}")
    elif ck:
        raise Mismatch(f"{what}: presence rule is {ck!r}, none expected")


BASIC_S = S("urn:t:basic", g.std_attrs() + [A("userName", "String", required=True)], name="Thing", plural="Things")
BASIC = r_schema(BASIC_S)


# ------------------------------------------------------------------------------------- C14
def path_for(r, s):
    """text of a patch path"""
    if g.chance(r, 0.06):
        return r.choice(["zz", "a.b.c", "zz.y", "", "a[", "a]b[", "zz[a eq 1]", "a b", "zz[a pr].b"])
    a = r.choice([x for x in s.attrs if not (x.rep.sub == "$ref" or x.rep.attr == "$ref" and x.is_complex)] or s.attrs)
    prefix = a.rep.schema + ":" if a.rep.ext or g.chance(r, 0.2) else ""
    if g.chance(r, 0.2):
        prefix = g.respell(r, prefix)
    name = g.respell(r, a.rep.attr)
    top = lookup(s.attrs, Rep(a.rep.schema, a.rep.attr))
    if top is not None and top.is_complex and g.chance(r, 0.5):
        subs = [x for x in top.subs if x.rep.attr != "$ref"]
        inner = r.choice(subs).rep.attr if subs and g.chance(r, 0.9) else "qq"
        cond = f"{inner} " + r.choice(["pr", 'eq "x"', 'eq "a] b"', "eq 1", "gt 2"])
        out = f"{prefix}{name}[{cond}]"
        if g.chance(r, 0.6):
            out += "." + (r.choice(top.subs).rep.attr if top.subs and g.chance(r, 0.9) else "qq")
        return out
    if a.rep.sub:
        return f"{prefix}{name}.{g.respell(r, a.rep.sub)}"
    return prefix + name


def target_of(s, text):
    p = om.ft.parse_path(text)
    if not isinstance(p, tuple):
        return None
    a = lookup(s.attrs, p[1])
    if a is not None and p[3] is not None:
        a = lookup(s.attrs, p[3])
    return a


def operation(r, s):
    op = r.choice(["add", "replace", "remove"])
    o = {"op": g.respell(r, op) if g.chance(r, 0.3) else op}
    if op == "remove" or g.chance(r, 0.75):
        o["path"] = path_for(r, s)
    if op != "remove" or g.chance(r, 0.1):
        if "path" in o:
            a = target_of(s, o["path"])
            o["value"] = g.raw_of(good_value(r, a, "parse")) if a is not None and g.chance(r, 0.8) else g.weird(r, 1)
            if isinstance(o["value"], dict) and g.chance(r, 0.1):
                perturb(r, o["value"])
            if isinstance(o["value"], list) and o["value"] and isinstance(o["value"][0], dict) and g.chance(r, 0.3):
                perturb(r, o["value"][0])
        else:
            v = good_resource(r, s, "parse", density=0.3)
            for k in list(v):
                a = lookup(s.attrs, Rep(attr=k)) if ":" not in k else None
                if k in ("schemas", "id") and g.chance(r, 0.9) or \
                        a is not None and a.mutability == "readOnly" and g.chance(r, 0.8):
                    del v[k]
            for k, x in v.items():
                a = lookup(s.attrs, Rep(attr=k)) if ":" not in k else None
                if a is not None and a.is_complex:
                    for item in x if isinstance(x, list) else [x]:
                        for sub in a.subs:
                            if sub.mutability == "readOnly" and g.chance(r, 0.8):
                                item.pop(sub.rep.attr, None)
            if g.chance(r, 0.15):
                v = perturb(r, v)
            o["value"] = v
    if g.chance(r, 0.05):
        o = perturb(r, o)
    return o


@suite("C14", "patch", quick=60000, thorough=150000)
@spec_guard
def patch(r, note):
    s = clean_schema(r)
    raw = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"],
           "Operations": [operation(r, s) for _ in range(r.choice([1, 1, 1, 2, 3]))]}
    if g.chance(r, 0.05):
        raw = perturb(r, raw)
    body, want = om.patch_request(s, vcopy(raw))
    real = r_schema(s)
    v = rv.ResourceObjectPATCH(CONFIG, resource_schema=real)
    earlier(r, lambda: v.parse_request(body=dict(raw, Operations=[operation(r, s)])))
    data, issues = v.parse_request(body=vcopy(raw))
    note((repr(raw)[:120], len(want.items)))
    what = f"patch {raw!r} for {s!r}"
    judge(data.body, issues, body, want, what, compare=False)
    if data.body is not None:
        compare_operations(data.body["Operations"], body.get("Operations"), what)
    from src.assets.schemas.patch_op import PatchOp
    _, issues = PatchOp(real).parse(vcopy(raw))
    check_issues(issues, om.patch_op(s, vcopy(raw))[1], "PatchOp " + what)


def compare_operations(got, want, what):
    from .p_text import same
    if len(got) != len(want):
        raise Mismatch(f"{what}: {len(got)} operations")
    for x, y in zip(got, want):
        if x["op"] != y.get("op"):
            raise Mismatch(f"{what}: op {x['op']!r}")
        p, q = n_val(x["path"]), y.get("path")
        if q is None or q is MISSING:
            if not (p is None or p is MISSING):
                raise Mismatch(f"{what}: path {p!r}")
        elif not same(p, q):
            raise Mismatch(f"{what}: path {p!r}, expected {q!r}")
        v = y.get("value")
        if v is not MISSING or x["value"] is not Missing:
            check_value(x["value"], v, what)


# ------------------------------------------------------------------------------------- C15
def builtin():
    from src.assets.schemas.group import Group
    from src.assets.schemas.user import User
    return [User(), Group()]


def all_validators(r):
    s = r_schema(clean_schema(r))
    pool = [s] + (r.sample(builtin(), 1) if g.chance(r, 0.5) else [])
    x = r.choice(pool)
    return pool, [
        rv.ResourceObjectGET(CONFIG, resource_schema=x), rv.ResourceObjectPUT(CONFIG, resource_schema=x),
        rv.ResourcesPOST(CONFIG, resource_schema=x), rv.ResourceObjectPATCH(CONFIG, resource_schema=x),
        rv.ResourcesGET(CONFIG, resource_schema=x), rv.ServerRootResourceGET(CONFIG, resource_schemas=pool),
        rv.SearchRequestPOST(CONFIG, resource_schemas=pool), rv.BulkOperations(CONFIG, resource_schemas=pool),
        rv.SchemasGET(CONFIG), rv.ResourceTypesGET(CONFIG),
    ]


SEEDS = {
    "SearchRequestPOST": lambda r: {"schemas": [om.SEARCH.urn], "attributes": ["a"], "filter": "a eq 1", "sortBy": "a",
                                    "sortOrder": "descending", "count": 1, "startIndex": 1},
    "ResourceObjectPATCH": lambda r: {"schemas": [om.PATCH.urn], "Operations": [
        {"op": "add", "path": "a", "value": 1}, {"op": "replace", "value": {"a": 1, "userName": "x", "emails": [{"value": "x"}]}},
        {"op": "add", "path": "emails", "value": [{"value": "x"}]},
        {"op": "remove", "path": 'emails[value eq "x"].type'}]},
    "BulkOperations": lambda r: {"schemas": [om.BULK_REQUEST.urn], "failOnErrors": 1, "Operations": [
        {"method": "POST", "bulkId": "b", "path": "/Things", "data": {"userName": "x", "schemas": ["urn:x:core"]}},
        {"method": "PATCH", "path": "/Users/1", "data": {"schemas": [om.PATCH.urn], "Operations": [{"op": "add", "path": "userName", "value": "x"}]}},
        {"method": "DELETE", "path": "/Users/1"}, {"method": "GET", "path": "/Users/1"}]},
}


def user_raw(r):
    return {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "id": "1", "userName": "x",
            "name": {"givenName": "a"}, "emails": [{"value": "a@b", "primary": True}], "active": True,
            "meta": {"resourceType": "User", "location": "https://h/Users/1"}}


def mangle(r, raw):
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        raw = perturb(r, raw)
    if g.chance(r, 0.08):
        raw = g.weird(r)
    return raw


@suite("C15", "requests", quick=36000, thorough=100000)
def requests(r, note):
    pool, vs = all_validators(r)
    v = r.choice(vs)
    kind = type(v).__name__
    mk = SEEDS.get(kind, user_raw)
    raw = mangle(r, mk(r))
    q = r.choice([None, {}, query(r), g.weird(r, 1)])
    h = r.choice([None, {}, g.weird(r, 1)])
    data, issues = v.parse_request(body=raw, headers=h, query_string=q)
    note((kind, repr(raw)[:80]))
    issues.to_dict(msg=True, ctx=True)
    if not veq(data.headers or {}, h or {}):
        raise Mismatch(f"{kind} request: headers {data.headers!r}, passed {h!r}")
    if kind in ("ResourceObjectGET", "ResourcesGET", "ServerRootResourceGET", "SchemasGET", "ResourceTypesGET"):
        return  # these have no body to validate
    bad = issues.has_issues(("body",)) or issues.has_issues() and kind != "SearchRequestPOST"
    if bad != (data.body is None):
        raise Mismatch(f"{kind} {raw!r}: issues {issues.to_dict()} with body {data.body!r}")


@suite("C15", "responses", quick=36000, thorough=100000)
def responses(r, note):
    pool, vs = all_validators(r)
    v = r.choice(vs + [rv.Error(), rv.ResourceObjectDELETE(CONFIG)])
    kind = type(v).__name__
    status = r.choice([200, 201, 204, 400, 500])
    h = r.choice([None, {"Location": "https://h/Users/1"}, {}, g.weird(r, 1)])
    kw = dict(status_code=status, headers=h)
    if kind == "ResourceObjectDELETE":
        _, issues = v.dump_response(**kw)
        return
    if kind == "Error":
        raw = {"schemas": [om.ERROR.urn], "status": str(status), "detail": "x"}
    elif kind == "BulkOperations":
        raw = {"schemas": [om.BULK_RESPONSE.urn], "Operations": [
            {"method": "POST", "bulkId": "b", "status": "201", "location": "https://h/Users/1", "response": user_raw(r)},
            {"method": "PUT", "status": "400", "location": "https://h/Users/1",
             "response": {"schemas": [om.ERROR.urn], "status": "400"}},
            {"method": "DELETE", "status": "204", "location": "https://h/Users/1"}][: r.randrange(1, 4)]}
        if g.chance(r, 0.3):
            kw["fail_on_errors"] = r.choice([0, 1, None])
    elif kind in ("ResourcesGET", "ServerRootResourceGET", "SearchRequestPOST", "SchemasGET", "ResourceTypesGET"):
        items = [user_raw(r) for _ in range(r.randrange(0, 3))]
        raw = {"schemas": [om.LIST.urn], "totalResults": len(items), "Resources": items}
        if kind in ("SchemasGET",) or g.chance(r, 0.1):
            from src.data.schemas import get_schema_rep
            raw["Resources"] = [get_schema_rep(x) for x in pool]
            raw["totalResults"] = len(pool)
        if g.chance(r, 0.4):
            kw["sorter"] = Sorter(r_rep(Rep(attr=r.choice(["userName", "emails", "id", "meta"]))), g.chance(r, 0.5))
        if g.chance(r, 0.3):
            kw["filter_"] = Filter(r_expr(("eq", Rep(attr="userName"), "x")))
    else:
        raw = user_raw(r)
    if kind not in ("Error", "BulkOperations") and g.chance(r, 0.3):
        kw["presence_checker"] = AttributePresenceChecker([r_rep(Rep(attr="userName"))], g.chance(r, 0.5))
    raw = mangle(r, raw)
    kw["body"] = raw
    given = vcopy(raw)
    data, issues = v.dump_response(**kw)
    note((kind, repr(given)[:80]))
    issues.to_dict(msg=True, ctx=True)
    if not veq(data.headers or {}, h or {}):
        raise Mismatch(f"{kind} response: headers {data.headers!r}, passed {h!r}")
    if kind == "ResourcesPOST" and not given or kind == "ResourceObjectPATCH" and status == 204:
        return
    if issues.has_issues() != (data.body is None):
        raise Mismatch(f"{kind} response {given!r} {kw}: issues {issues.to_dict()} with body {data.body!r}")
    if kind != "BulkOperations" and not plain(data.body):
        raise Mismatch(f"{kind} response {given!r}: not a plain body: {data.body!r}")
