"""C19: bulk requests and responses."""
from oracle import messages as om
from oracle.core import C, Issues, vcopy

from . import gen as g
from .adapter import Mismatch, as_list, check_issues, check_value, earlier, flatten, n_val, r_schema
from .base import suite
from .p_valid import CONFIG, clean_schema, compare_operations, good_resource, operation, perturb, rv, spec_guard


def pool(r):
    a = clean_schema(r)
    out = [a]
    if g.chance(r, 0.5):
        b = clean_schema(r, n_ext=0)
        if g.chance(r, 0.85):
            b.plural = "Others"
        out.append(b)
    return out


def request_op(r, schemas):
    s = r.choice(schemas)
    m = r.choice(["POST", "PUT", "PATCH", "DELETE", "GET"])
    o = {"method": g.respell(r, m) if g.chance(r, 0.3) else m, "path": f"/{s.plural}" + ("" if m == "POST" else "/1")}
    if g.chance(r, 0.15):
        o["path"] = r.choice([f"/{s.plural}", f"/{s.plural}/1", f"/{s.plural}/1/2", s.plural, "/Nope", "/Nope/1", "",
                              f"/{s.plural}/", f"//{s.plural}/1", f"/{s.plural.lower()}/1", f"/x-y/1", f"/{s.plural}?a", g.near(r, o["path"])])
    if m == "POST" or g.chance(r, 0.2):
        o["bulkId"] = r.choice(["b1", "b2", "", None])
    if m in ("POST", "PUT"):
        o["data"] = good_resource(r, s, "parse")
        if g.chance(r, 0.2):
            o["data"] = perturb(r, o["data"])
    elif m == "PATCH":
        o["data"] = {"schemas": [om.PATCH.urn], "Operations": [operation(r, s) for _ in range(r.choice([1, 1, 2]))]}
        if g.chance(r, 0.1):
            o["data"] = perturb(r, o["data"])
    elif g.chance(r, 0.2):
        o["data"] = g.weird(r, 1)
    if g.chance(r, 0.1):
        o["version"] = "v1"
    if g.chance(r, 0.15):
        perturb(r, o)
    return o


def bulk_raw(r, ops, urn):
    raw = {"schemas": [urn], "Operations": ops}
    if urn == om.BULK_REQUEST.urn and g.chance(r, 0.3):
        raw["failOnErrors"] = r.choice([0, 1, 5, "x"])
    if g.chance(r, 0.06):
        perturb(r, raw)
    return raw


def compare_bodies(got, want, what, key):
    if (got is None) != (want is None):
        raise Mismatch(f"{what}: body {got!r}")
    if got is None:
        return
    ops, spec = got["Operations"], want.get("Operations")
    if len(ops) != len(spec):
        raise Mismatch(f"{what}: {len(ops)} operations handed on")
    for x, y in zip(ops, spec):
        for k in ("method", "path", "bulkId", "version", "status", "location"):
            check_value(x[k], y.get(k), f"{what}: {k}")
        if key == "data" and y.get("method") == "PATCH":
            compare_operations(x[key]["Operations"], y.get(key).get("Operations"), what)
        else:
            check_value(x[key], y.get(key), f"{what}: {key}")


@suite("C19", "bulk-request", quick=30000, thorough=80000)
@spec_guard
def bulk_request(r, note):
    schemas = pool(r)
    ops = [request_op(r, schemas) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]))]
    raw = bulk_raw(r, ops, om.BULK_REQUEST.urn)
    body, want = om.bulk_request(schemas, vcopy(raw), CONFIG.bulk.max_operations)
    v = rv.BulkOperations(CONFIG, resource_schemas=[r_schema(s) for s in schemas])
    earlier(r, lambda: v.parse_request(body=bulk_raw(r, [request_op(r, schemas) for _ in range(2)], om.BULK_REQUEST.urn)))
    data, issues = v.parse_request(body=vcopy(raw))
    what = f"bulk request {raw!r} for {schemas!r}"
    note((repr(raw)[:150], len(want.items)))
    check_issues(issues, want, what)
    if (data.body is None) != issues.has_issues():
        raise Mismatch(f"{what}: issues {issues.to_dict()} with body {data.body!r}")
    compare_bodies(data.body, body, what, "data")


def response_op(r, schemas):
    s = r.choice(schemas)
    m = r.choice(["POST", "PUT", "PATCH", "DELETE", "GET"])
    loc = f"https://h/{s.plural}/1"
    o = {"method": g.respell(r, m) if g.chance(r, 0.3) else m, "location": loc}
    failed = g.chance(r, 0.3)
    ok = {"POST": 201, "DELETE": 204}.get(m, 200)
    st = r.choice([400, 404, 500, 300]) if failed else ok
    if g.chance(r, 0.1):
        st = r.choice([200, 201, 204, 299, 300, 301, 600, 599, "x", "", None, 400])
    o["status"] = str(st) if g.chance(r, 0.95) else st
    if m == "POST" or g.chance(r, 0.2):
        o["bulkId"] = "b1" if g.chance(r, 0.9) else None
    if failed:
        if m == "POST" and g.chance(r, 0.6) or g.chance(r, 0.1):
            del o["location"]
        o["response"] = {"schemas": [om.ERROR.urn], "status": str(st) if g.chance(r, 0.85) else "499", "detail": "d"}
    elif m != "DELETE" and g.chance(r, 0.85):
        o["response"] = good_resource(r, s, "dump")
        if "meta" in o["response"] and g.chance(r, 0.3):
            o["response"]["meta"]["version"] = r.choice(["v1", "v2"])
        if "meta" in o["response"] and g.chance(r, 0.1):
            o["response"]["meta"]["location"] = r.choice(["https://h/elsewhere", g.near(r, loc)])
        if g.chance(r, 0.12):
            o["response"] = perturb(r, o["response"])
    if g.chance(r, 0.3):
        o["version"] = r.choice(["v1", "v1", "v2", g.near(r, "v1")])
    if g.chance(r, 0.08):
        o["location"] = r.choice(["https://h/Nope/1", "x", f"https://h/{s.plural}", f"https://h/{s.plural.lower()}/1", None, g.near(r, loc)])
    if g.chance(r, 0.12):
        perturb(r, o)
    return o


@suite("C19", "bulk-response", quick=30000, thorough=80000)
@spec_guard
def bulk_response(r, note):
    schemas = pool(r)
    ops = [response_op(r, schemas) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4]))]
    raw = bulk_raw(r, ops, om.BULK_RESPONSE.urn)
    limit = r.choice([None, None, None, 0, 1, 2])
    status = r.choice([200] * 9 + [201])
    body, want = om.bulk_response(schemas, vcopy(raw), status, limit)
    v = rv.BulkOperations(CONFIG, resource_schemas=[r_schema(s) for s in schemas])
    earlier(r, lambda: v.dump_response(status_code=200, fail_on_errors=r.choice([None, 0]), body=bulk_raw(
        r, [response_op(r, schemas) for _ in range(2)], om.BULK_RESPONSE.urn)))
    data, issues = v.dump_response(status_code=status, body=vcopy(raw), fail_on_errors=limit)
    what = f"bulk response {raw!r} status={status} limit={limit} for {schemas!r}"
    note((repr(raw)[:150], limit, len(want.items)))
    check_issues(issues, want, what)
    if (data.body is None) != issues.has_issues():
        raise Mismatch(f"{what}: issues {issues.to_dict()} with body {data.body!r}")
    compare_bodies(data.body, body, what, "response")


@suite("C19", "independence", quick=9000, thorough=20000)
@spec_guard
def independence(r, note):
    """the verdict on an operation is the same alone and among others"""
    schemas = pool(r)
    real = [r_schema(s) for s in schemas]
    request = g.chance(r, 0.5)
    mk = request_op if request else response_op
    ops = [mk(r, schemas) for _ in range(r.choice([2, 3]))]
    if not all(isinstance(o, dict) for o in ops):
        return
    urn = (om.BULK_REQUEST if request else om.BULK_RESPONSE).urn

    def verdict(some):
        v = rv.BulkOperations(CONFIG, resource_schemas=real)
        raw = {"schemas": [urn], "Operations": vcopy(some)}
        _, issues = v.parse_request(body=raw) if request else v.dump_response(status_code=200, body=raw)
        per = [[] for _ in some]
        stopped = False
        for loc, code in flatten(issues.to_dict()):
            if len(loc) > 2 and loc[:2] == ("body", "Operations"):
                per[int(loc[2])].append((loc[3:], code))
            else:
                stopped = True
        return [sorted(x) for x in per], stopped

    whole, stopped = verdict(ops)
    alone = [verdict([o]) for o in ops]
    note((request, repr(ops)[:150]))
    for i, (a, (per, alone_stopped)) in enumerate(zip(whole, alone)):
        b = per[0]
        if stopped or alone_stopped:
            continue
        if a and not b:
            raise Mismatch(f"operation {i} of {ops!r}: {a} reported only among others")
        if not any(whole[j] for j in range(len(ops)) if j != i) and a != b:
            raise Mismatch(f"operation {i} of {ops!r}: {a} among clean others, {b} alone")
