"""Random and harvested inputs.  Every choice comes from the given random.Random."""
import ast
import glob
import json
import os
from datetime import datetime, timedelta, timezone

from oracle.core import A, C, INVALID, Issues, MISSING, Rep, S, conv

from .adapter import REPO, Proc, TYPES

HERE = os.path.dirname(os.path.abspath(__file__))


def harvest():
    """String and integer literals of the current source; those the committed baseline does
    not have come first (a change often introduces the value it depends on)."""
    strs, ints = set(), set()
    for f in glob.glob(os.path.join(REPO, "src", "**", "*.py"), recursive=True):
        try:
            tree = ast.parse(open(f).read())
        except (SyntaxError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and 0 < len(n.value) <= 60 and "\n" not in n.value:
                    strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool):
                    ints.add(n.value)
    return strs, ints


def _load():
    strs, ints = harvest()
    try:
        base = json.load(open(os.path.join(HERE, "baseline_literals.json")))
    except OSError:
        base = {"strs": [], "ints": []}
    return sorted(strs), sorted(ints), sorted(strs - set(base["strs"])), \
        sorted(ints - set(base["ints"]))


STRS, INTS, NEW_STRS, NEW_INTS = _load()
NAMES = [s for s in STRS if s.isidentifier() and len(s) < 20 and s != "_errors"]
NEW_NAMES = [s for s in NEW_STRS if s.isidentifier() and s != "_errors"]

WORDS = ["a", "b", "A", "B", "abc", "ABC", "aBc", "x", "work", "home", "bulkId", "value", "0", "1",
         "true", "null", "é", "ß", "straße", "STRASSE", "İ", "ǅ", " ", "a b", "a'b", 'a"b', "a.b", "a:b", "[a]",
         "(a)", "a and b", "a or b", "not", "_errors", "\n", "\t", "%", "{0}", "{x}", "\\"]


def chance(r, p):
    return r.random() < p


def near(r, s):
    """a text that differs from the given one a little (or not at all)"""
    if not isinstance(s, str):
        return s
    k = r.randrange(14)
    if k < 3:
        return [s.upper(), s.lower(), s.swapcase()][k]
    return [s + "/", s.rstrip("/"), s + " ", " " + s, s[:-1], s[1:], s + "s", s + s[-1:], "0" + s, s + "#", s + "?x=1",
            s + ".0"][k - 3] if k - 3 < 12 else s


def text(r):
    if NEW_STRS and chance(r, 0.25):
        return respell(r, r.choice(NEW_STRS)) if chance(r, 0.3) else r.choice(NEW_STRS)
    k = r.random()
    if k < 0.5:
        return r.choice(WORDS)
    if k < 0.55:
        return near(r, r.choice(WORDS))
    if k < 0.7:
        return r.choice(STRS)
    if k < 0.8:
        return ""
    return "".join(r.choice("abAB01 .:-_'\"[](){}$é") for _ in range(r.randrange(1, 9)))


def integer(r):
    if NEW_INTS and chance(r, 0.3):
        return r.choice(NEW_INTS) + r.choice([-1, 0, 0, 1])
    k = r.random()
    if k < 0.5:
        return r.randrange(-3, 12)
    if k < 0.7:
        return r.choice(INTS) + r.choice([-1, 0, 1])
    if k < 0.8:
        return r.choice([10**400, -10**400, 2**63, 2**53 + 1, -2**31])
    return r.randrange(-1000, 1000)


def flt(r):
    return r.choice([0.0, -0.0, 1.0, 1.5, -2.0, 2.5, 1e300, -1e-300, float("inf"), float("-inf"),
                     float("nan"), 3.0, 1e16, 0.1, float(integer(r) % 10**6)])


B64 = ["", "YQ==", "YWI=", "YWJj", "YQ", "YQ=", "Y Q==", "YQ==\n", "!!!!", "é", "YWJj\n", "=", "Zh==",
       "YWJjZA==", "////", "-_-_"]
URLS = ["https://a.b/c", "http://x", "x", "http:", "//a/b", "/Users/1", "https://[::1", "ftp://h/p",
        "urn:a:b", "http://", "a://b", "https://a b", "HTTP://X", "http://exa mple", ":", "1://x"]
DTS = ["2024-01-02", "2024-01-02T03:04:05", "2024-01-02T03:04:05Z", "2024-01-02T03:04:05+02:00",
       "2024-13-01", "2024-01-02T25:00:00", "20240102", "2024-W01-1", "now", "",
       "2024-01-02T03:04:05.123456", "2024-01-02 03:04:05", "2024-01-02T01:04:05Z",
       "2024-01-02T05:04:05+02:00", "2024-01-02T03:04:05.5", "0001-01-01", "9999-12-31T23:59:59"]


def dt(r):
    return datetime(r.choice([1, 1999, 2024]), r.randrange(1, 13), r.randrange(1, 28),
                    r.randrange(24), r.randrange(60), r.choice([0, 5]), r.choice([0, 0, 123]),
                    tzinfo=r.choice([None, timezone.utc, timezone(timedelta(hours=2))]))


def atom(r):
    k = r.randrange(14)
    if k < 4:
        return text(r)
    if k == 4:
        return r.choice(B64)
    if k == 5:
        return r.choice(URLS)
    if k == 6:
        return r.choice(DTS)
    if k == 7:
        return integer(r)
    if k == 8:
        return flt(r)
    if k in (9, 10):
        return r.choice([True, False])
    if k == 11:
        return None
    if k == 12:
        return dt(r)
    return r.choice([0, 1, "", [], True])


def weird(r, depth=2):
    """any JSON-like (or slightly worse) value, dicts raw"""
    k = r.random()
    if depth == 0 or k < 0.6:
        return atom(r)
    if k < 0.75:
        return [weird(r, depth - 1) for _ in range(r.randrange(0, 4))]
    if k < 0.9:
        return {name(r): weird(r, depth - 1) for _ in range(r.randrange(0, 4))}
    return r.choice([b"YQ==", (), (1, 2), object, {1, 2}, 1j, {1: 2}, {"": 1}, {"a": {"b": {}}}])


ATTR_NAMES = ["a", "b", "c", "userName", "value", "type", "primary", "display", "Ab", "x1", "$ref",
              "name", "title", "n_1", "active", "emails", "items", "password", "status", "_u"]


def name(r):
    if NEW_NAMES and chance(r, 0.3):
        return r.choice(NEW_NAMES)
    return r.choice(ATTR_NAMES) if chance(r, 0.9) else r.choice(NAMES)


def respell(r, s):
    if s == "$ref":
        return s
    k = r.randrange(4)
    return s if k == 0 else s.upper() if k == 1 else s.lower() if k == 2 else s.swapcase()


def typed_value(r, t, mode):
    """a value that the type is likely to accept"""
    if t == "Boolean":
        return chance(r, 0.5)
    if t == "Integer":
        return r.choice([integer(r), integer(r), float(r.randrange(-5, 5))])
    if t == "Decimal":
        return r.choice([flt(r), r.randrange(-5, 5)])
    if t == "Binary":
        return r.choice(["", "YQ==", "YWI=", "YWJj", "////"])
    if t == "ExternalReference":
        return r.choice(["https://a.b/c", "http://x", "a://b"])
    if t == "DateTime":
        return dt(r) if mode == "dump" else r.choice(
            ["2024-01-02", "2024-01-02T03:04:05", "2024-01-02T03:04:05+00:00", "2024-05-02T03:04:05+02:00"])
    if t == "Unknown":
        return weird(r, 1)
    return text(r)


# ---------------------------------------------------------------- definitions
def _p_tag(v):
    return (v + "!" if isinstance(v, str) else v), Issues()


def _p_reject(v):
    i = Issues()
    if v == "a" or (isinstance(v, list) and len(v) > 1):
        i.add((), 1, True)
        return INVALID, i
    return v, i


def _p_warn(v):
    i = Issues()
    i.add(("w", 0), 19, False)
    return v, i


def _p_count(v):
    return (v + [None] if isinstance(v, list) and len(v) < 5 else v), Issues()


PROCS = [Proc("tag", _p_tag), Proc("reject", _p_reject), Proc("warn", _p_warn)]


def _p_creject(v):
    i = Issues()
    if isinstance(v, list) and len(v) > 1:
        i.add((), 1, True)
    return v, i


CPROCS = [Proc("reject", _p_creject), Proc("warn", _p_warn)]


def attr_def(r, nm=None, complex_ok=True, procs=True, sub=False):
    nm = nm or name(r)
    kw = dict(
        required=chance(r, 0.4), multi_valued=chance(r, 0.35 if not sub else 0.12),
        mutability=r.choice(["readWrite"] * 3 + ["readOnly", "readOnly", "writeOnly", "immutable"]),
        returned=r.choice(["default", "default", "always", "never", "request"]),
        uniqueness=r.choice(["none", "server", "global"]),
        issuer=r.choice(["NOT_SPECIFIED", "NOT_SPECIFIED", "SERVER", "CLIENT"]),
        description=r.choice(["", "d", "some text"]),
    )
    if complex_ok and chance(r, 0.4):
        names = r.sample(ATTR_NAMES, r.randrange(0, 4))
        if chance(r, 0.5) and "value" not in names:
            names.append("value")
        if chance(r, 0.4) and "primary" not in names:
            names.append("primary")
        subs = []
        for n in names:
            s = attr_def(r, n, complex_ok=False, procs=procs, sub=True)
            if n == "primary" and chance(r, 0.8):
                s = A("primary", "Boolean", required=s.required, mutability=s.mutability,
                      returned=s.returned)
            subs.append(s)
        if procs and chance(r, 0.2):
            kw["parsers"] = [r.choice(CPROCS)]
            kw["dumpers"] = [r.choice(CPROCS)]
        if procs and chance(r, 0.25):
            kw["complex_parsers"] = [r.choice(CPROCS) for _ in range(r.randrange(1, 3))]
            kw["complex_dumpers"] = [r.choice(CPROCS)]
        return A(nm, "Complex", subs=subs, **kw)
    t = r.choice([x for x in TYPES if x != "Complex"] + ["String"] * 4)
    kw["case_exact"] = chance(r, 0.4)
    if chance(r, 0.35):
        kw["canonical"] = [r.choice(["a", "B", "aBc", "work", 1, True, 2.5, "ß", ""])
                           for _ in range(r.randrange(1, 4))]
        kw["enforce"] = chance(r, 0.7)
    if procs and chance(r, 0.25):
        kw["parsers"] = [r.choice(PROCS) for _ in range(r.randrange(1, 3))]
        kw["dumpers"] = [r.choice(PROCS) for _ in range(r.randrange(1, 3))]
    if t == "SCIMReference" and chance(r, 0.5):
        kw["reference_types"] = ["User", "Group"]
    return A(nm, t, **kw)


def attr_value(r, a, mode, junk=0.2):
    """a container-level value for the attribute: objects are C"""
    if chance(r, junk):
        v = weird(r)
        if chance(r, 0.5):
            v = conv(v)
        return v
    if chance(r, 0.06):
        return None

    def one():
        if a.is_complex:
            if chance(r, junk / 2):
                return weird(r, 1)
            c = C()
            for s in a.subs:
                if chance(r, 0.75):
                    c.put(respell(r, s.name), conv(attr_value(r, s, mode, junk)))
            if chance(r, 0.3):
                c.put(name(r), conv(weird(r, 1)))
            return c
        if a.canonical and chance(r, 0.7):
            v = r.choice(list(a.canonical))
            if chance(r, 0.1):
                return near(r, v)
            return respell(r, v) if isinstance(v, str) else v
        if chance(r, junk):
            return atom(r)
        return typed_value(r, a.type, mode)

    if a.multi_valued:
        return [one() for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
    return one()


def std_attrs():
    """schemas, id, externalId, meta as every resource schema has them"""
    def bulk(v):
        i = Issues()
        if "bulkId" in v:
            i.add((), 7, True)
            return INVALID, i
        return v, i

    b = Proc("bulkId", bulk)
    ro = dict(issuer="SERVER", mutability="readOnly")
    return [
        A("schemas", "URIReference", required=True, multi_valued=True, mutability="readOnly",
          returned="always", reference_types=["uri"]),
        A("id", "String", required=True, issuer="SERVER", case_exact=True, mutability="readOnly",
          returned="always", uniqueness="server", parsers=[b], dumpers=[b]),
        A("externalId", "String", issuer="CLIENT", case_exact=True),
        A("meta", "Complex", **ro, subs=[
            A("resourceType", "String", case_exact=True, **ro),
            A("created", "DateTime", **ro),
            A("lastModified", "DateTime", **ro),
            A("location", "URIReference", **ro, reference_types=["uri"]),
            A("version", "String", case_exact=True, **ro),
        ]),
    ]


URNS = ["urn:x:core", "urn:X:Other", "urn:ietf:params:scim:schemas:core:2.0:T"]
EXT_URNS = ["urn:x:ext:2.0:T", "urn:Y:ext", "urn:z-1:e.x"]


def schema_def(r, n_ext=None, procs=True, resource=True):
    used = {"schemas", "id", "externalid", "meta"}
    attrs = []
    for _ in range(r.randrange(1, 5)):
        n = name(r)
        if n.lower() in used:
            continue
        used.add(n.lower())
        attrs.append(attr_def(r, n, procs=procs))
    exts = []
    if resource:
        for u in r.sample(EXT_URNS, r.choice([0, 0, 1, 1, 2]) if n_ext is None else n_ext):
            at = []
            for _ in range(r.randrange(1, 3)):
                at.append(attr_def(r, name(r), procs=procs))
            seen, uniq = set(), []
            for a in at:
                if a.name.lower() not in seen:
                    seen.add(a.name.lower())
                    uniq.append(a)
            exts.append((u, uniq))
    std = std_attrs()
    return S(r.choice(URNS), (std if resource else std[:1]) + attrs, name=r.choice(["T", "Thing"]),
             plural=r.choice(["Things", None]), extensions=exts, resource=resource,
             description=r.choice(["", "desc"]))


def resource_raw(r, s, mode, junk=0.1, density=0.75):
    """raw (dict) data for a schema"""
    raw = {}
    k = r.random()
    if k < 0.7:
        lst = [respell(r, s.urn)] + [respell(r, u) for u, _ in s.extensions if chance(r, 0.7)]
        if chance(r, 0.15):
            lst.append(near(r, r.choice(URNS + EXT_URNS + ["urn:unknown"])))
        if chance(r, 0.15):
            lst = lst[1:]
        r.shuffle(lst)
        raw["schemas"] = lst
    elif k < 0.8:
        raw["schemas"] = weird(r)
    for a in s.top:
        if a.name == "schemas" or not chance(r, density):
            continue
        if a.name == "meta" and mode == "dump" and s.resource:
            m = {"resourceType": s.name if chance(r, 0.8) else r.choice(["X", s.name.lower(), near(r, s.name)]),
                 "location": r.choice(["https://h/Things/1", "https://h/Users/1", "x"]),
                 "version": r.choice(["v1", "v2"])}
            v = {k2: x for k2, x in m.items() if chance(r, 0.8)}
        else:
            v = attr_value(r, a, mode, junk)
        if a.rep.ext:
            sub = raw.setdefault(a.rep.schema, {})
            sub[respell(r, a.name)] = raw_of(v)
        else:
            raw[respell(r, a.name)] = raw_of(v)
    for u, _ in s.extensions:
        if chance(r, 0.15):
            raw[u] = weird(r)
        if u in raw and chance(r, 0.3):
            raw[respell(r, u)] = raw.pop(u)
    if chance(r, 0.25):
        raw[name(r)] = weird(r)
    items = list(raw.items())
    r.shuffle(items)
    return dict(items)


def raw_of(v):
    if isinstance(v, C):
        return {k: raw_of(x) for k, x in v.items()}
    if isinstance(v, list):
        return [raw_of(x) for x in v]
    return v


def some_rep(r, s_or_attrs, known=0.85):
    attrs = s_or_attrs.attrs if isinstance(s_or_attrs, S) else s_or_attrs
    if attrs and chance(r, known):
        a = r.choice(attrs)
        rep = a.rep
        schema = respell(r, rep.schema) if chance(r, 0.5) else ""
        if rep.ext and chance(r, 0.5):
            schema = respell(r, rep.schema)
        return Rep(schema, respell(r, rep.attr), respell(r, rep.sub) if rep.sub else "", False)
    return Rep(r.choice(["", "", "urn:x:core", "urn:unknown"]), name(r),
               name(r).replace("$ref", "q") if chance(r, 0.3) else "")
