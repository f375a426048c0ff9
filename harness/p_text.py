"""C12: filter and path texts."""
from oracle import filtertext as ft
from oracle.core import Rep, veq

from . import gen as g
from .adapter import Filter, Invalid, Mismatch, PatchPath, n_expr, n_path
from .base import suite

WS = [" ", " ", " ", "  ", "\t", "\n", " \n "]
INNER = ["x", "", "a and b", "(", ")", "[", "]", "it's", 'say "hi"', " or ", "not (a pr)", "a[b eq 1]", "é", "\n", "  ",
         "|", "&", "\\", "true", "1", "a.b", "x)", "(x", "a]b", "'", '"']


def quoted(r, s=None):
    s = r.choice(INNER + [g.text(r)]) if s is None else s
    if '"' in s:
        return "'" + s.replace("'", "") + "'"
    if "'" in s or g.chance(r, 0.8):
        return f'"{s}"'
    return f"'{s}'"


def attr(r, sub=0.25, urn=0.25):
    return (r.choice(["urn:a:b:", "urn:ietf:params:scim:schemas:core:2.0:User:", "a-b.c:"]) if g.chance(r, urn) else "") \
        + r.choice(["userName", "a", "B", "x1", "_y", "order", "android", "nothing", "Pr", "eq", "é"]) \
        + ("." + r.choice(["x", "givenName", "or_", "eq"]) if g.chance(r, sub) else "")


def number(r):
    return r.choice(["0", "1", "-1", "42", "1.5", "-0.25", "1e3", "1E-2", "1.0", "123456789012345678901234567890",
                     str(g.integer(r) % 10**9), "-7", "100.50", "2.0e2"])


def cond(r, inner):
    w = r.choice(WS)
    w2 = r.choice(WS)
    if g.chance(r, 0.25):
        return attr(r, 0.1 if inner else 0.3) + w + r.choice(["pr", "PR", "pR"])
    o = r.choice(["eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"])
    k = r.random()
    if k < 0.55 or o in ("co", "sw", "ew") and k < 0.95:
        v = quoted(r)
    elif k < 0.8:
        v = number(r)
    else:
        v = r.choice(["true", "false", "null", "True", "nil", "1_0", "abc", "nan", "inf", "+1", ".5", "0x1", "01", "1e999"])
    return attr(r, 0.1 if inner else 0.3) + w + g.respell(r, o) + w2 + v


def kw(r, s):
    return s if g.chance(r, 0.8) else g.respell(r, s)


def expr(r, depth, inner=False):
    k = r.random()
    if depth and k < 0.45:
        o = r.choice(["and", "or"])
        parts = [expr(r, depth - 1, inner) for _ in range(r.choice([2, 2, 3]))]
        parts = ["(" + p + ")" if g.chance(r, 0.35) else p for p in parts]
        out = parts[0]
        for p in parts[1:]:
            l = r.choice(WS) if not out.endswith(")") or g.chance(r, 0.7) else ""
            rr = r.choice(WS) if not p.startswith("(") or g.chance(r, 0.7) else ""
            out += l + kw(r, o) + rr + p
        return out
    if depth and k < 0.6:
        e = expr(r, depth - 1, inner)
        if g.chance(r, 0.7):
            return kw(r, "not") + r.choice(["", " ", "  "]) + "(" + e + ")"
        return kw(r, "not") + " " + e
    if depth and k < 0.78 and not inner:
        return attr(r, 0.04) + "[" + r.choice(["", "", " "]) + expr(r, depth - 1, True) + r.choice(["", "", " "]) + "]"
    if depth and k < 0.85:
        return "(" + r.choice(["", " "]) + expr(r, depth - 1, inner) + r.choice(["", " "]) + ")"
    return cond(r, inner)


MUT = ["(", ")", "[", "]", '"', "'", " ", " and ", " or ", " not ", ".", ":", "$", "and", "eq", "-", "pr", ",", "\\"]


def mutate(r, s):
    for _ in range(r.choice([1, 1, 2])):
        if not s:
            return s
        i = r.randrange(len(s) + 1)
        k = r.random()
        if k < 0.4:
            s = s[:i] + r.choice(MUT) + s[i:]
        elif k < 0.7:
            j = min(len(s), i + r.choice([1, 1, 2, 5]))
            s = s[:i] + s[j:]
        elif k < 0.85:
            j = r.randrange(len(s) + 1)
            s = s[: min(i, j)] + s[max(i, j):]
        else:
            parts = s.split(" ")
            r.shuffle(parts)
            s = " ".join(parts)
    return s


def same(a, b):
    return veq(list(flat(a)), list(flat(b)))


def flat(e):
    if isinstance(e, (tuple, list)):
        yield "("
        for x in e:
            yield from flat(x)
        yield ")"
    elif isinstance(e, Rep):
        yield from ("rep", e.schema, e.attr, e.sub)
    else:
        yield e


@suite("C12", "filter-text", quick=72000, thorough=250000)
def filter_text(r, note):
    s = expr(r, r.choice([0, 1, 2, 2, 3]))
    if g.chance(r, 0.15):
        s = r.choice(WS) + s + r.choice(WS)
    if g.chance(r, 0.35):
        s = mutate(r, s)
    elif g.chance(r, 0.03):
        s = g.text(r)
    want = ft.parse(s)
    got, issues = Filter.parse(s)
    note((s, want is ft.REJECT))
    reported = issues.has_issues()
    issues.to_dict(msg=True, ctx=True)
    if reported != (got is Invalid) or reported == issues.can_proceed():
        raise Mismatch(f"Filter.parse({s!r}): {got!r} with issues {issues.to_dict()}")
    if want is ft.UNSPEC:
        return
    if want is ft.REJECT:
        if got is not Invalid:
            raise Mismatch(f"Filter.parse({s!r}) accepted as {n_expr(got.operator)!r}; it is not a filter")
        return
    if got is Invalid:
        raise Mismatch(f"Filter.parse({s!r}) rejected {issues.to_dict(msg=True)}; it denotes {want!r}")
    if not same(n_expr(got.operator), want):
        raise Mismatch(f"Filter.parse({s!r}) = {n_expr(got.operator)!r}, expected {want!r}")
    if not same(dict_expr(got.to_dict()), loose(want)):
        raise Mismatch(f"Filter.parse({s!r}).to_dict() = {got.to_dict()!r}, expected {want!r}")
    again, _ = Filter.parse(s)
    other_text = expr(r, 1)
    other, _ = Filter.parse(other_text)
    if not (got == again):
        raise Mismatch(f"Filter.parse({s!r}) twice: not equal")
    if other is not Invalid and (got == other) and not eq_expr(ft.parse(other_text), want):
        raise Mismatch(f"filters {s!r} and {other_text!r} are equal")


def eq_expr(a, b):
    """equality of filters ignores the case of attribute names only as far as spelled the same"""
    return isinstance(a, tuple) and [str(x).lower() for x in flat(loose(a))] == [str(x).lower() for x in flat(loose(b))]


def loose(e):
    if e[0] == "complex":
        return ("complex", rep_text(e[1]), loose(e[2]))
    if e[0] == "not":
        return ("not", loose(e[1]))
    if e[0] in ("and", "or"):
        return (e[0], [loose(x) for x in e[1]])
    return (e[0], rep_text(e[1])) + tuple(e[2:])


def rep_text(p):
    return (p.schema + ":" if p.schema else "") + p.attr


def dict_expr(d):
    if d["op"] == "complex":
        return ("complex", d["attr_rep"], dict_expr(d["sub_op"]))
    if d["op"] == "not":
        return ("not", dict_expr(d["sub_op"]))
    if d["op"] in ("and", "or"):
        return (d["op"], [dict_expr(x) for x in d["sub_ops"]])
    return (d["op"], d["attr_rep"]) + ((d["value"],) if "value" in d else ())


@suite("C12", "path-text", quick=36000, thorough=100000)
def path_text(r, note):
    k = r.random()
    if k < 0.3:
        s = attr(r)
    elif k < 0.9:
        s = attr(r, 0.03) + "[" + expr(r, r.choice([0, 1, 2]), True) + "]" + r.choice(["", "", ".x", ".value", ".$ref", ".a.b", ".", ".a b"])
    else:
        s = expr(r, 2)
    if g.chance(r, 0.25):
        s = mutate(r, s)
    want = ft.parse_path(s)
    got, issues = PatchPath.parse(s)
    note((s, want is ft.REJECT))
    reported = issues.has_issues()
    issues.to_dict(msg=True, ctx=True)
    if reported != (got is Invalid) or reported == issues.can_proceed():
        raise Mismatch(f"PatchPath.parse({s!r}): {got!r} with issues {issues.to_dict()}")
    if want is ft.UNSPEC:
        return
    if want is ft.REJECT:
        if got is not Invalid:
            raise Mismatch(f"PatchPath.parse({s!r}) accepted as {n_path(got)!r}; it is not a path")
        return
    if got is Invalid:
        raise Mismatch(f"PatchPath.parse({s!r}) rejected {issues.to_dict(msg=True)}; it denotes {want!r}")
    if not same(n_path(got), want):
        raise Mismatch(f"PatchPath.parse({s!r}) = {n_path(got)!r}, expected {want!r}")
