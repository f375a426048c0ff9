"""Requests and responses: what each endpoint must report, and the body it hands on.

Every function returns (body or None, Issues[, ...]).  ABSENT bodies are None."""
import re

from . import filters as of
from . import filtertext as ft
from . import presence as pr
from . import sorting as so
from .attributes import process
from .core import A, C, INVALID, Issues, MISSING, Rep, S, lookup, top_eq
from .schemas import process_schema

BAD_TYPE, BAD_VALUE, MISSING_CODE = 2, 1, 15


NUMBER, DIGIT = re.compile(r"[+-]?[0-9]+"), re.compile(r"\d")


class Unspecified(Exception):
    pass


def schemas_attr():
    return A("schemas", "URIReference", required=True, multi_valued=True, mutability="readOnly",
             returned="always", reference_types=["uri"])


# --------------------------------------------------------------------------- query options
def notation(text):
    if not isinstance(text, str):
        return None
    try:
        return ft.notation(text)
    except ft.Bad:
        return None


def requested_attributes(q):
    """-> (Checker | None, Issues); raises Unspecified for option values of other types"""
    issues = Issues()
    inc, exc = q.get("attributes", []), q.get("excludeAttributes", [])
    inc = inc.split(",") if isinstance(inc, str) and inc else inc
    exc = exc.split(",") if isinstance(exc, str) and exc else exc
    if not isinstance(inc, list) or not isinstance(exc, list):
        raise Unspecified
    if inc and exc:
        issues.add(("attributes",), 30, True)
        issues.add(("excludeAttributes",), 30, True)
        return None, issues
    if not inc and not exc:
        return None, issues
    where = "attributes" if inc else "excludeAttributes"
    reps = []
    for x in inc or exc:
        rep = notation(x)
        if rep is None:
            issues.add((where, str(x)), 111, True)
        else:
            reps.append(rep)
    if issues.has():
        # further names at or below a rejected one are dropped too; no rule results anyway
        return None, issues
    return pr.Checker(reps, bool(inc)), issues


def filter_option(text, loc, issues):
    e = ft.parse(text)
    if e is ft.UNSPEC:
        raise Unspecified
    if e is ft.REJECT:
        issues.add(loc, "*", True)
        return None
    return e


def number(v):
    """the integer an option denotes, or None"""
    if isinstance(v, bool):
        raise Unspecified
    if isinstance(v, int):
        return v
    if isinstance(v, str) and NUMBER.fullmatch(v) and len(v) < 1000:
        return int(v)
    if isinstance(v, str) and DIGIT.search(v) or isinstance(v, (float, bytes)):
        try:
            int(v)
        except (ValueError, OverflowError):
            return None
        raise Unspecified
    return None


def filter_of(q):
    issues = Issues()
    f = q.get("filter")
    if isinstance(f, str):
        return filter_option(f, (), issues), issues
    if f is not None:
        issues.add((), BAD_TYPE, True)
    return None, issues


def sorter_of(q):
    """-> ((notation, ascending) | None, Issues)"""
    issues = Issues()
    by = q.get("sortBy")
    if isinstance(by, str):
        rep = notation(by)
        if rep is not None:
            order = q.get("sortOrder", "ascending")
            if order not in ("ascending", "descending"):
                raise Unspecified
            return (rep, order == "ascending"), issues
        issues.add((), 111, True)
    elif by is not None:
        issues.add((), BAD_TYPE, True)
    return None, issues


def query_options(q):
    """-> (options dict, Issues)"""
    issues, out = Issues(), {}
    e, more = filter_of(q)
    issues.merge(more, ("filter",))
    if e is not None:
        out["filter"] = e
    so, more = sorter_of(q)
    issues.merge(more, ("sortby",))
    if so is not None:
        out["sorter"] = so
    ck, more = requested_attributes(q)
    issues.merge(more)
    if ck is not None:
        out["checker"] = ck
    for k in ("count", "startIndex"):
        v = q.get(k)
        if v is None:
            continue
        n = number(v)
        if n is None:
            issues.add((k,), BAD_TYPE, True)
        else:
            out[k] = n
    return out, issues


class SpecProc:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, v):
        return self.fn(v)


def _attr_rep(v):
    i = Issues()
    rep = notation(v)
    if rep is None:
        i.add((), 111, True)
        return INVALID, i
    return rep, i


def _attr_reps(v):
    i, out = Issues(), []
    for n, x in enumerate(v):
        p, more = _attr_rep(x)
        i.merge(more, (n,))
        out.append(p)
    return out, i


def _filter(v):
    i = Issues()
    e = filter_option(v, (), i)
    return (INVALID if e is None else ("filter", e)), i


SEARCH = S("urn:ietf:params:scim:api:messages:2.0:SearchRequest", [
    schemas_attr(),
    A("attributes", "String", multi_valued=True, parsers=[SpecProc(_attr_reps)]),
    A("excludeAttributes", "String", multi_valued=True, parsers=[SpecProc(_attr_reps)]),
    A("filter", "String", parsers=[SpecProc(_filter)]),
    A("sortBy", "String", parsers=[SpecProc(_attr_rep)]),
    A("sortOrder", "String", canonical=["ascending", "descending"]),
    A("startIndex", "Integer"),
    A("count", "Integer"),
], resource=False)


def search_request(raw):
    """-> (options | None, Issues at body-relative locations)"""
    data, issues = process_schema(SEARCH, raw, "parse")
    if not issues.can_proceed():
        return None, issues
    out = {}
    if issues.can_proceed(("attributes",), ("excludeAttributes",)):
        inc, exc = data.get("attributes"), data.get("excludeAttributes")
        if inc and exc:
            issues.add(("attributes",), 30, True)
            issues.add(("excludeAttributes",), 30, True)
        elif inc or exc:
            out["checker"] = (inc or exc, bool(inc))
    if issues.can_proceed(("sortBy",)) and data.get("sortBy"):
        order = data.get("sortOrder")
        if order not in (None, MISSING, "") and (not isinstance(order, str) or
                                                 order.lower() not in ("ascending", "descending")):
            if not issues.has():
                raise Unspecified
        else:
            out["sorter"] = (data.get("sortBy"), not order or order.lower() == "ascending")
    if issues.has():
        return None, issues
    for k in ("filter", "count", "startIndex"):
        v = data.get(k)
        if v is not MISSING:
            out[k] = v
    return out, issues


# --------------------------------------------------------------------------- resources
def parse_body(schema, raw, ignore=()):
    issues = Issues()
    data, more = process_schema(schema, raw, "parse")
    issues.merge(more, ("body",))
    if issues.can_proceed(("body",)):
        issues.merge(pr.presence(pr.Checker(ignore=list(ignore)), data, schema.attrs, "REQUEST"), ("body",))
    return data, issues


def put_request(schema, raw):
    data, issues = parse_body(schema, raw)
    if issues.has():
        return None, issues
    for a in schema.attrs:
        if a.mutability == "readOnly":
            data.delete(a.rep)
    return data, issues


def post_request(schema, raw):
    data, issues = parse_body(schema, raw, [a.rep for a in schema.attrs if a.required and a.issuer == "SERVER"])
    return (None if issues.has() else data), issues


def resource_response(schema, raw, status, expected, headers, location_required, checker=None):
    issues = Issues()
    data, more = process_schema(schema, raw, "dump")
    issues.merge(more, ("body",))
    given = headers if isinstance(headers, dict) else {}
    if "Location" not in given and location_required:
        issues.add(("headers", "Location"), 10, True)
    if status != expected:
        issues.add(("status",), 16, False)
    if issues.can_proceed(("body",)):
        issues.merge(pr.presence(checker or pr.Checker(), data, schema.attrs, "RESPONSE"), ("body",))
    loc = given.get("Location")
    if issues.can_proceed(("body", "meta", "location"), ("headers", "Location")) and loc is not None:
        own = data.get(Rep(attr="meta", sub="location"))
        if own is MISSING or own != loc:
            issues.add(("body", "meta", "location"), 11, False)
            issues.add(("headers", "Location"), 11, False)
    return (None if issues.has() else data), issues


ERROR = S("urn:ietf:params:scim:api:messages:2.0:Error", [
    schemas_attr(),
    A("status", "String", required=True, returned="always"),
    A("scimType", "String", returned="always", enforce=True, canonical=[
        "invalidFilter", "tooMany", "uniqueness", "mutability", "invalidSyntax", "invalidPath", "noTarget",
        "invalidValue", "invalidVers", "sensitive"]),
    A("detail", "String", returned="always"),
], resource=False)


def with_query(q, result):
    """a request with options -> (presence rule, body, Issues)"""
    issues = Issues()
    ck, more = requested_attributes(q)
    issues.merge(more, ("query_string",))
    body, more = result
    issues.merge(more)
    return ck, (None if issues.has() else body), issues


def query_shape(q):
    """the query string of a list request, options apart -> Issues"""
    issues = Issues()
    if q is None:
        issues.add(("query_string",), 15, True)
    elif not isinstance(q, dict):
        issues.add(("query_string",), BAD_TYPE, True)
    return issues


def config_query(q):
    """the query string of a configuration endpoint -> Issues"""
    issues = Issues()
    if isinstance(q, dict) and "filter" in q:
        issues.add(("query_string", "filter"), 39, True)
    return issues


def patch_response(schema, raw, status, headers, checker, selective):
    if status == 204:
        issues = Issues()
        if selective:
            issues.add(("status",), 16, False)
        return None, issues
    return resource_response(schema, raw, status, 200, headers, False, checker)


def delete_response(status):
    issues = Issues()
    if status != 204:
        issues.add(("status",), 16, False)
    return None, issues


def error_response(raw, status):
    issues = Issues()
    data, more = process_schema(ERROR, raw, "dump")
    issues.merge(more, ("body",))
    if issues.can_proceed(("body",)):
        issues.merge(pr.presence(pr.Checker(), data, ERROR.attrs, "RESPONSE"), ("body",))
    if issues.can_proceed(("body", "status")):
        if data.get("status") != str(status):
            issues.add(("body", "status"), 13, False)
            issues.add(("status",), 13, False)
    if not 300 <= status < 600:
        issues.add(("status",), 12, False)
    return (None if issues.has() else data), issues


def error_document(raw):
    """an error document that was received"""
    data, issues = process_schema(ERROR, raw, "parse")
    status = data.get("status")
    if isinstance(status, str):
        if not status.isdigit():
            data.set(Rep(attr="status"), INVALID)
            issues.add(("status",), 12, True)
        else:
            data.set(Rep(attr="status"), int(status))
            if not 300 <= int(status) < 600:
                issues.add(("status",), 12, False)
    return data, issues


# --------------------------------------------------------------------------- lists
LIST = S("urn:ietf:params:scim:api:messages:2.0:ListResponse", [
    schemas_attr(),
    A("totalResults", "Integer", required=True),
    A("startIndex", "Integer"),
    A("itemsPerPage", "Integer"),
    A("Resources", "Unknown"),
], resource=False)


def schema_for(item, schemas):
    if len(schemas) == 1:
        return schemas[0]
    return inferred(item, schemas)


def inferred(item, schemas):
    """the first schema that knows everything the item lists"""
    if not isinstance(item, C):
        return None
    listed = item.get("schemas")
    if not isinstance(listed, list) or not listed or not all(isinstance(x, str) for x in listed):
        return None
    listed = {x.lower() for x in listed}
    for s in schemas:
        if listed <= {u.lower() for u in s.urns}:
            return s
    return None


def list_body(schemas, raw):
    data, issues = process_schema(LIST, raw, "dump")
    if not issues.can_proceed():
        return data, issues
    items = data.get("Resources")
    if items is MISSING:
        return data, issues
    if not isinstance(items, list):
        issues.add(("Resources",), BAD_TYPE, True)
        return data, issues
    n = data.get("itemsPerPage")
    if issues.can_proceed(("itemsPerPage",)) and isinstance(n, int) and n != len(items):
        issues.add(("itemsPerPage",), 11, False)
        issues.add(("Resources",), 11, False)
    out = []
    for i, item in enumerate(items):
        s = schema_for(item, schemas)
        if s is None:
            issues.add(("Resources", i), 27, True)
            out.append(INVALID)
        else:
            v, more = process_schema(s, item, "dump")
            issues.merge(more, ("Resources", i))
            out.append(v)
    data.put("Resources", out)
    return data, issues


def in_order(sorter, items, kinds):
    try:
        order = so.ordered(sorter[0], sorter[1], items, [s.attrs for s in kinds])
    except (TypeError, AttributeError):
        raise Unspecified
    return [items[i] for i in order] == items


def list_response(schemas, raw, status, start=1, count=None, filter_=None, sorter=None, checker=None):
    issues = Issues()
    data, more = list_body(schemas, raw)
    issues.merge(more, ("body",))
    if not issues.can_proceed(("body",)):
        return None, issues
    issues.merge(pr.presence(pr.Checker(), data, LIST.attrs, "RESPONSE"), ("body",))
    if status != 200:
        issues.add(("status",), 16, False)
    stated = data.get("startIndex")
    if issues.can_proceed(("body", "startIndex")) and stated and stated > start:
        issues.add(("body", "startIndex"), 24, False)
    here = ("body", "Resources")
    if not issues.can_proceed(here):
        return None, issues
    items = data.get("Resources")
    items = [] if items is MISSING else items
    if issues.can_proceed(("body", "totalResults")):
        total = data.get("totalResults")
        if total < len(items):
            issues.add(here, 22, False)
        if count is None and total > len(items):
            issues.add(here, 23, False)
        if count is not None and count < len(items):
            issues.add(here, 21, False)
        if issues.can_proceed(("body", "startIndex"), ("body", "itemsPerPage")):
            if (count or 0) > 0 and total > len(items):
                for k in ("startIndex", "itemsPerPage"):
                    if data.get(k) in (None, MISSING):
                        issues.add(("body", k), MISSING_CODE, True)
    if issues.has(here):
        return None, issues
    kinds = [schema_for(x, schemas) for x in items]
    if filter_ is not None:
        for i, (x, s) in enumerate(zip(items, kinds)):
            if of.evaluate(filter_, x, s.attrs, False) != "PASSED":
                issues.add(here + (i,), 25, False)
    if sorter is not None:
        if not in_order(sorter, items, kinds):
            issues.add(here, 26, False)
    for i, (x, s) in enumerate(zip(items, kinds)):
        issues.merge(pr.presence(checker or pr.Checker(), x, s.attrs, "RESPONSE"), here + (i,))
    return (None if issues.has() else data), issues


# --------------------------------------------------------------------------- PATCH
def _lower(v):
    return v.lower(), Issues()


def _path(v):
    i = Issues()
    p = ft.parse_path(v)
    if p is ft.UNSPEC:
        raise Unspecified
    if p is ft.REJECT:
        i.add((), "*", True)
        return INVALID, i
    return p, i


def none(v):
    return v is None or v is MISSING


def _operations(items):
    issues = Issues()
    for i, o in enumerate(items):
        op, path, value = o.get("op"), o.get("path"), o.get("value")
        if op == "remove" and none(path):
            issues.add((i, "path"), MISSING_CODE, True)
        if op == "add":
            if none(value):
                issues.add((i, "value"), MISSING_CODE, True)
            if not none(path) and path[2] is not None and path[3] is None:
                issues.add((i, "path"), 305, True)
    return items, issues


PATCH = S("urn:ietf:params:scim:api:messages:2.0:PatchOp", [
    schemas_attr(),
    A("Operations", "Complex", required=True, multi_valued=True, complex_parsers=[SpecProc(_operations)], subs=[
        A("op", "String", required=True, enforce=True, canonical=["add", "remove", "replace"],
          parsers=[SpecProc(_lower)]),
        A("path", "String", parsers=[SpecProc(_path)]),
        A("value", "Unknown"),
    ]),
], resource=False)


def readonly(schema, a):
    parent = lookup(schema.attrs, Rep(a.rep.schema, a.rep.attr))
    return "readOnly" in (a.mutability, parent.mutability)


def holds(v):
    """there is a value (for sub-attributes of a list: in at least one item)"""
    return v is not MISSING and not (isinstance(v, list) and all(x is MISSING for x in v))


def patch_value(schema, path, value):
    """-> (value, Issues) for add and replace"""
    if none(path):
        out, issues = process_schema(schema, value, "parse")
        if out is INVALID:
            return out, issues
        for code in (27, 28, 29):
            issues.pop(("schemas",), code)
        for a in schema.attrs:
            v = out.get(a.rep)
            given = holds(v) if a.rep.sub else v is not MISSING
            if given and a.mutability == "readOnly":
                issues.add(((a.rep.schema,) if a.rep.ext else ()) + (a.rep.attr,)
                           + ((a.rep.sub,) if a.rep.sub else ()), 304, True)
        return out, issues
    _, rep, flt, sub = path
    issues = Issues()
    target = lookup(schema.attrs, rep)
    if target.is_complex and flt is not None and sub is not None:
        target = lookup(schema.attrs, sub)
    if readonly(schema, target):
        issues.add((), 304, True)
        return INVALID, issues
    out, more = process(target, value, "parse")
    if more.has() or not target.is_complex or out is None:
        issues.merge(more)
        return out, issues
    for i, item in enumerate(out if target.multi_valued else [out]):
        for s in target.subs:
            if s.mutability == "readOnly" and item.get(Rep(attr=s.rep.attr)) is not MISSING:
                issues.add(((i,) if target.multi_valued else ()) + (s.rep.attr,), 304, True)
    return out, issues


def patch_target_known(schema, path):
    return lookup(schema.attrs, path[1]) is not None and (
        path[3] is None or lookup(schema.attrs, path[3]) is not None)


def patch_remove(schema, path):
    issues = Issues()
    if not patch_target_known(schema, path):
        issues.add((), 303, True)
        return issues
    a = lookup(schema.attrs, path[1])
    if path[3] is None:
        if readonly(schema, a):
            issues.add(("path",), 304, False)
        if a.required and not a.is_complex:
            issues.add(("path",), 306, False)
    else:
        s = lookup(schema.attrs, path[3])
        if s.required:
            issues.add(("path",), 306, False)
        if "readOnly" in (a.mutability, s.mutability):
            issues.add(("path",), 304, False)
    return issues


def patch_removal(schema, path):
    """-> (operation, Issues)"""
    issues = patch_remove(schema, path)
    return (C([("op", "remove"), ("path", path)]) if issues.can_proceed() else INVALID), issues


def patch_update(schema, op, path, value):
    """-> (operation, Issues)"""
    issues = Issues()
    if not none(path) and not patch_target_known(schema, path):
        issues.add(("path",), 303, True)
        return INVALID, issues
    v, more = patch_value(schema, path, value)
    issues.merge(more, ("value",))
    return C([("op", op), ("path", path), ("value", v)]), issues


def patch_op(schema, raw):
    data, issues = process_schema(PATCH, raw, "parse")
    if not issues.can_proceed(("Operations",)) or not isinstance(data.get("Operations"), list):
        return data, issues
    out = []
    for i, o in enumerate(data.get("Operations")):
        op, path, value = o.get("op"), o.get("path"), o.get("value")
        here = ("Operations", i)
        if issues.has(here) or none(op) or (op == "remove" and none(path)):
            out.append(C([("op", op), ("path", path), ("value", value)]))
        else:
            parsed, more = patch_removal(schema, path) if op == "remove" else patch_update(schema, op, path, value)
            issues.merge(more, here)
            out.append(parsed)
    data.put("Operations", out)
    return data, issues


def new_items(issues, a, v, loc):
    """new items of a multi-valued complex attribute carry their required sub-attributes"""
    if a is None or not a.is_complex or not a.multi_valued or not isinstance(v, list):
        return
    ck = pr.Checker(ignore=[s.rep for s in a.subs if s.required and s.issuer == "SERVER"])
    for j, item in enumerate(v):
        if isinstance(item, C) and not issues.has(loc + (j,)):
            issues.merge(pr.presence(ck, item, a.subs, "REQUEST"), loc + (j,))


def patch_request(schema, raw):
    issues = Issues()
    data, more = patch_op(schema, raw)
    issues.merge(more, ("body",))
    if issues.can_proceed(("body",)):
        issues.merge(pr.presence(pr.Checker(), data, PATCH.attrs, "REQUEST"), ("body",))
    here = ("body", "Operations")
    if not issues.can_proceed(here):
        return None, issues

    for i, o in enumerate(data.get("Operations")):
        if not isinstance(o, C):
            continue
        op, path, v = o.get("op"), o.get("path"), o.get("value")
        if op == "remove" or path is INVALID or v is INVALID:
            continue
        loc = here + (i, "value")
        if none(path):
            if isinstance(v, C):
                for a in schema.attrs:
                    new_items(issues, a, v.get(a.rep), loc + (a.rep.attr,) + ((a.rep.sub,) if a.rep.sub else ()))
        else:
            a = lookup(schema.attrs, path[1])
            if a is not None and path[3] is not None:
                a = lookup(schema.attrs, path[3])
            new_items(issues, a, v, loc)
    return (None if issues.has() else data), issues


# --------------------------------------------------------------------------- bulk
METHODS = ["GET", "POST", "PATCH", "PUT", "DELETE"]


def _upper(v):
    return v.upper(), Issues()


def word(s):
    return len(s) > 0 and all(c.isalnum() or c == "_" for c in s)


def of_type(path):
    return path[:1] == "/" and word(path[1:])


def of_resource(path):
    head, slash, tail = path[1:].partition("/")
    return path[:1] == "/" and slash == "/" and word(head) and "\n" not in tail


def _request_operations(items):
    issues = Issues()
    for i, o in enumerate(items):
        m, path = o.get("method"), o.get("path")
        if none(m):
            issues.add((i, "method"), MISSING_CODE, True)
        if m == "POST" and none(o.get("bulkId")):
            issues.add((i, "bulkId"), MISSING_CODE, True)
        if m in ("GET", "DELETE"):
            o.rm("data")
        if none(path):
            issues.add((i, "path"), MISSING_CODE, True)
        elif m == "POST" and not of_type(path):
            issues.add((i, "path"), 34, True)
        elif m in ("GET", "PATCH", "PUT", "DELETE") and not of_resource(path):
            issues.add((i, "path"), 35, True)
        if m in ("POST", "PUT", "PATCH") and none(o.get("data")):
            issues.add((i, "data"), MISSING_CODE, True)
    return items, issues


def _method():
    return A("method", "String", required=True, canonical=METHODS, enforce=True,
             parsers=[SpecProc(_upper)], dumpers=[SpecProc(_upper)])


BULK_REQUEST = S("urn:ietf:params:scim:api:messages:2.0:BulkRequest", [
    schemas_attr(),
    A("failOnErrors", "Integer"),
    A("Operations", "Complex", required=True, multi_valued=True, complex_parsers=[SpecProc(_request_operations)],
      subs=[_method(), A("bulkId", "String"), A("version", "String"), A("path", "String", required=True),
            A("data", "Unknown")]),
], resource=False)


def _status(v):
    i = Issues()
    if re.fullmatch(r"[0-9]{1,18}", v):
        return v, i
    if re.search(r"\d", v):
        try:
            int(v)
        except ValueError:
            pass
        else:
            raise Unspecified
    i.add((), BAD_VALUE, True)
    return INVALID, i


def _response_operations(items):
    issues = Issues()
    for i, o in enumerate(items):
        m, st = o.get("method"), o.get("status")
        if none(m):
            issues.add((i, "method"), MISSING_CODE, True)
        if m == "POST" and none(o.get("bulkId")):
            issues.add((i, "bulkId"), MISSING_CODE, True)
        if none(st):
            issues.add((i, "status"), MISSING_CODE, True)
            continue
        failed = int(st) >= 300
        if none(o.get("location")) and not none(m) and (m != "POST" or not failed):
            issues.add((i, "location"), MISSING_CODE, True)
        if failed and none(o.get("response")):
            issues.add((i, "response"), MISSING_CODE, True)
    return items, issues


BULK_RESPONSE = S("urn:ietf:params:scim:api:messages:2.0:BulkResponse", [
    schemas_attr(),
    A("Operations", "Complex", required=True, multi_valued=True, complex_dumpers=[SpecProc(_response_operations)],
      subs=[_method(), A("bulkId", "String"), A("version", "String"), A("location", "ExternalReference"),
            A("status", "String", required=True, dumpers=[SpecProc(_status)]), A("response", "Unknown")]),
], resource=False)


def resource_name(method, path):
    if not path.startswith("/"):
        raise Unspecified  # malformed, and its form was not checked because another operation has a type error
    return path[1:] if method == "POST" else path[1:].split("/")[0]


def by_plural(schemas, name):
    """one validator per plural name; the last schema with a name wins"""
    found = [s for s in schemas if s.plural == name]
    return found[-1] if found else None


def located(schemas, location):
    """the first name in the location wins"""
    hit = [n for n in dict.fromkeys(s.plural for s in schemas) if f"/{n}/" in location]
    return by_plural(schemas, hit[0]) if hit else None


def operation_request(schema, method, raw):
    return {"POST": post_request, "PUT": put_request, "PATCH": patch_request}[method](schema, raw)


def bulk_request(schemas, raw, max_operations):
    issues = Issues()
    data, more = process_schema(BULK_REQUEST, raw, "parse")
    issues.merge(more, ("body",))
    if not issues.can_proceed(("body",)):
        return None, issues
    issues.merge(pr.presence(pr.Checker(), data, BULK_REQUEST.attrs, "RESPONSE"), ("body",))
    here = ("body", "Operations")
    if not issues.can_proceed(here):
        return None, issues
    ops = data.get("Operations")
    for i, o in enumerate(ops):
        m, path = o.get("method"), o.get("path")
        at = here + (i,)
        if not issues.can_proceed(at + ("path",), at + ("data",), at + ("method",)) or m == "DELETE":
            continue
        found = by_plural(schemas, resource_name(m, path))
        if found is None:
            issues.add(at + ("path",), 36, True)
            continue
        if m == "GET":
            continue
        body, more = operation_request(found, m, o.get("data"))
        issues.merge(more.get(("body",)), at + ("data",))
        o.put("data", body)
    if len(ops) > max_operations:
        issues.add(here, 37, False)
    return (None if issues.has() else data), issues


def bulk_response(schemas, raw, status, fail_on_errors=None):
    issues = Issues()
    data, more = process_schema(BULK_RESPONSE, raw, "dump")
    issues.merge(more, ("body",))
    if issues.can_proceed(("body",)):
        issues.merge(pr.presence(pr.Checker(), data, BULK_RESPONSE.attrs, "RESPONSE"), ("body",))
    if status != 200:
        issues.add(("status",), 16, False)
    here = ("body", "Operations")
    if not issues.can_proceed(here):
        return None, issues
    errors = 0
    for i, o in enumerate(data.get("Operations")):
        m, st, resp, loc, ver = (o.get(k) for k in ("method", "status", "response", "location", "version"))
        at = here + (i,)
        if not m:
            continue
        found = None
        if loc:
            found = located(schemas, loc)
            if found is None:
                issues.add(at + ("location",), 36, True)
        if not (st and resp):
            continue
        if int(st) >= 300:
            errors += 1
            body, more = error_response(resp, int(st))
            issues.merge(more.get(("body",)), at + ("response",))
            issues.merge(more.get(("status",)), at + ("status",))
            o.put("response", body)
        elif found is not None and m != "DELETE":
            body, more = operation_response(found, m, resp, int(st), loc)
            a, b = more.pop(("body", "meta", "location"), 11), more.pop(("headers", "Location"), 11)
            issues.merge(more.get(("body",)), at + ("response",))
            issues.merge(more.get(("status",)), at + ("status",))
            if a.has() and b.has():
                issues.add(at + ("response", "meta", "location"), 11, False)
                issues.add(at + ("location",), 11, False)
            if body is not None:
                own = body.get(Rep(attr="meta", sub="version"))
                if ver and own and ver != own:
                    issues.add(at + ("response", "meta", "version"), 11, False)
                    issues.add(at + ("version",), 11, False)
            o.put("response", body)
    if fail_on_errors is not None and errors > fail_on_errors:
        issues.add(here, 38, False)
    return (None if issues.has() else data), issues


def operation_response(schema, method, raw, status, location):
    headers = {"Location": location}
    if method == "POST":
        return resource_response(schema, raw, status, 201, headers, True)
    if method == "PATCH" and status == 204:
        return None, Issues()
    return resource_response(schema, raw, status, 200, headers, False)
