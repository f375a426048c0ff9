"""Grammar of filter and patch path texts (recursive descent over tokens).

    or    := and ("or" and)*          and := unary ("and" unary)*
    unary := "not" primary | primary  primary := "(" or ")" | attr "[" or "]" | attr op [value]

parse() returns an expression, REJECT, or UNSPEC for texts the property says nothing about."""
import json
import re

from .core import Rep


class _M:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


REJECT, UNSPEC = _M("REJECT"), _M("UNSPEC")
KEYWORDS = ("and", "or", "not")
BINARY = {"eq": ("s", "b", "n", "0"), "ne": ("s", "b", "n", "0"), "co": ("s",), "sw": ("s",), "ew": ("s",),
          "gt": ("s", "0"), "ge": ("s", "0"), "lt": ("s", "0"), "le": ("s", "0")}


class Bad(Exception):
    pass


class Open(Exception):
    pass


def word(s):
    return len(s) > 0 and all(c.isalnum() or c == "_" for c in s)


def notation(s):
    urn, colon, rest = s.rpartition(":")
    if colon and not all(seg and all(c.isalnum() or c in "_.-" for c in seg) for seg in urn.split(":")):
        raise Bad(s)
    nm, dot, sub = rest.partition(".")
    if not (word(nm) or nm == "$ref") or dot and not word(sub):
        raise Bad(s)
    return Rep(urn, nm, sub)


def tokens(text):
    """(kind, text, glued to the previous token)"""
    out, i, glued = [], 0, False
    while i < len(text):
        c = text[i]
        if c.isspace():
            i, glued = i + 1, False
            continue
        if c in "()[]":
            out.append((c, c, glued))
            i += 1
        elif c in "'\"" and text.find(c, i + 1) >= 0:
            j = text.find(c, i + 1)
            out.append(("str", text[i + 1:j], glued))
            i = j + 1
        else:
            j = i
            while j < len(text) and not text[j].isspace() and text[j] not in "()[]" and not (
                    text[j] in "'\"" and text.find(text[j], j + 1) >= 0):
                j += 1
            w = text[i:j]
            low = w.lower()
            if low in KEYWORDS:
                out.append((low, w, glued))
            else:
                if any(re.search(rf"\b{k}\b", low) for k in KEYWORDS):
                    raise Open(w)
                out.append(("word", w, glued))
            i = j
        glued = True
    return out


def comparison_value(tok):
    kind, w = tok[:2]
    if kind == "str":
        return w
    if kind != "word":
        raise Bad(w)
    if w in ("true", "false", "null"):
        return {"true": True, "false": False, "null": None}[w]
    if re.fullmatch(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?", w):
        try:
            v = json.loads(w)
        except ValueError:
            raise Open(w)
        if isinstance(v, float):
            if v in (float("inf"), float("-inf")):
                raise Bad(w)
            if v == int(v):
                v = int(v)
        return v
    try:
        v = float(w)
    except ValueError:
        raise Bad(w)
    if v != v or v in (float("inf"), float("-inf")):
        if re.search("[0-9]", w):
            raise Open(w)
        raise Bad(w)
    raise Open(w)  # a number, but not in the usual notation


def kind_of(v):
    return "s" if isinstance(v, str) else "b" if isinstance(v, bool) else "n" if v is None else "0"


def condition(words):
    """the attribute, the operator and, if it compares, the value"""
    if len(words) < 2 or words[0][0] != "word" or words[1][0] != "word":
        raise Bad("condition")
    rep, op = notation(words[0][1]), words[1][1].lower()
    if op == "pr" and len(words) == 2:
        return located(rep, (op,), ())
    if op not in BINARY or len(words) != 3:
        raise Bad("condition")
    v = comparison_value(words[2])
    if kind_of(v) not in BINARY[op]:
        raise Bad("condition")
    return located(rep, (op,), (v,))


def located(rep, op, rest):
    """a condition on a sub-attribute is one on the part of the complex attribute"""
    if rep.sub:
        return ("complex", Rep(rep.schema, rep.attr), op + (Rep(attr=rep.sub),) + rest)
    return op + (rep,) + rest


def combined(name, xs):
    return xs[0] if len(xs) == 1 else (name, xs)


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Bad("end")
        self.i += 1
        return self.t[self.i - 1]

    def expr(self, inner=False):
        xs = [self.conj(inner)]
        while self.peek() == "or":
            self.next()
            xs.append(self.conj(inner))
        return combined("or", xs)

    def conj(self, inner):
        xs = [self.unary(inner)]
        while self.peek() == "and":
            self.next()
            xs.append(self.unary(inner))
        return combined("and", xs)

    def unary(self, inner):
        if self.peek() == "not":
            self.next()
            return ("not", self.primary(inner))
        return self.primary(inner)

    def primary(self, inner):
        kind, w, _ = self.next()
        if kind == "(":
            e = self.expr(inner)
            if self.next()[0] != ")":
                raise Bad(")")
            return e
        if kind == "not" and self.peek() == "word":
            raise Open(w)
        if kind != "word":
            raise Bad(w)
        if self.peek() == "[":
            if not self.t[self.i][2]:
                raise Bad("space before [")
            if inner:
                raise Bad("nested [")
            rep = notation(w)
            if rep.attr == "$ref":
                raise Open(w)
            if rep.sub:
                raise Bad(w)
            self.next()
            e = self.expr(True)
            if self.next()[0] != "]":
                raise Bad("]")
            return ("complex", rep, e)
        words = [(kind, w)]
        while self.peek() in ("word", "str"):
            words.append(self.next()[:2])
        return condition(words)


def glue(toks):
    """texts in which words and strings touch are left open, as are words touching a '(' that
    follows or a ')' or ']' that precedes, unless they are keywords"""
    for (k1, w1, _), (k2, w2, g) in zip(toks, toks[1:]):
        if not g:
            continue
        if k1 in KEYWORDS and k2 == "[":
            raise Open(w1 + w2)
        if {k1, k2} <= {"str", "word", *KEYWORDS} and "str" in (k1, k2):
            raise Open(w1 + w2)
        if k1 in ("word", "str") and k2 == "(" or k1 in (")", "]") and k2 in ("word", "str"):
            raise Bad(w1 + w2)
        if (k1, k2) in ((")", "("), ("]", "("), (")", "["), ("]", "[")):
            raise Bad(w1 + w2)


def parse(text):
    if "PLACE_HOLDER" in text or "|&" in text or "&|" in text:
        return UNSPEC
    try:
        toks = tokens(text)
        p = P(toks)
        glue(toks)
        e = p.expr()
        if p.i != len(toks):
            raise Bad("trailing")
        return e
    except Bad:
        return REJECT
    except Open:
        return UNSPEC


def parse_path(text):
    """-> ("path", rep, filter expression or None, sub-attribute notation or None)"""
    if "PLACE_HOLDER" in text or "|&" in text or "&|" in text or text != text.strip():
        return UNSPEC
    try:
        toks = tokens(text)
    except Open:
        return UNSPEC
    kinds = [t[0] for t in toks]
    if "[" not in kinds and "]" not in kinds:
        try:
            return ("path", notation(text), None, None)
        except Bad:
            return REJECT
    if kinds.count("[") != 1 or kinds.count("]") != 1 or kinds.index("[") > kinds.index("]"):
        return REJECT
    end = kinds.index("]")
    try:
        p = P(toks[: end + 1])
        glue(toks[: end + 1])
        e = p.expr()
        if p.i != end + 1 or e[0] != "complex":
            return REJECT
        rest = toks[end + 1:]
        if not rest:
            return ("path", e[1], e, None)
        if len(rest) != 1 or rest[0][0] != "word":
            return REJECT if len(rest) > 1 and any(k not in ("word",) for k, _, _ in rest) else UNSPEC
        if not rest[0][2]:
            return UNSPEC
        w = rest[0][1]
        if not w.startswith("."):
            return UNSPEC
        sub = notation(w[1:])
        if sub.schema or sub.sub:
            return UNSPEC
        return ("path", e[1], e, Rep(e[1].schema, e[1].attr, sub.attr))
    except Bad:
        return REJECT
    except Open:
        return UNSPEC
