"""Abstract values, containers, issue multisets and attribute definitions used by the
specification.  Nothing in here looks at the implementation."""


class _Mark:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __bool__(self):
        return False

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return self.name


INVALID = _Mark("INVALID")
MISSING = _Mark("MISSING")


class Rep:
    """Attribute notation: schema URN, attribute, sub-attribute, from-an-extension."""

    __slots__ = ("schema", "attr", "sub", "ext")

    def __init__(self, schema="", attr="", sub="", ext=False):
        self.schema, self.attr, self.sub, self.ext = schema, attr, sub, ext

    def __repr__(self):
        return f"Rep({self.schema!r},{self.attr!r},{self.sub!r},{self.ext})"

    def key(self):
        return (self.schema, self.attr, self.sub)


def rep_eq(a, b):
    if a.schema and b.schema and a.schema.lower() != b.schema.lower():
        return False
    return a.attr.lower() == b.attr.lower() and a.sub.lower() == b.sub.lower()


def with_schema(schema, attr):
    return f"{schema}:{attr}" if schema else attr


def top_eq(a, b):
    if a.schema and b.schema and a.schema.lower() != b.schema.lower():
        return False
    return a.attr.lower() == b.attr.lower()


class C:
    """Case-insensitive attribute store: ordered (spelling, value) entries."""

    def __init__(self, items=()):
        self.d = {}
        for k, v in items:
            self.put(k, v)

    @classmethod
    def from_raw(cls, raw):
        c = cls()
        for k, v in raw.items():
            if not isinstance(k, str):
                continue
            c.put(k, conv(v))
        return c

    def put(self, name, value):
        low = name.lower()
        if low in self.d and self.d[low][0] != name:
            del self.d[low]
        self.d[low] = (name, value)

    def has(self, name):
        return name.lower() in self.d

    def val(self, name, default=MISSING):
        e = self.d.get(name.lower())
        return default if e is None else e[1]

    def rm(self, name):
        self.d.pop(name.lower(), None)

    def items(self):
        return list(self.d.values())

    def get(self, rep):
        if isinstance(rep, str):
            rep = Rep(attr=rep)
        if rep.schema and self.has(rep.schema):
            inner = self.val(rep.schema)
            if not isinstance(inner, C):
                return MISSING
            return inner.get(Rep(attr=rep.attr, sub=rep.sub))
        if rep.ext:
            return MISSING
        if not self.has(rep.attr):
            return MISSING
        v = self.val(rep.attr)
        if not rep.sub:
            return v
        if isinstance(v, C):
            return v.get(Rep(attr=rep.sub))
        if isinstance(v, list):
            return [x.get(Rep(attr=rep.sub)) if isinstance(x, C) else MISSING for x in v]
        return MISSING

    def set(self, rep, value):
        """Returns False if the write is refused."""
        if rep.ext:
            if not self.has(rep.schema):
                self.put(rep.schema, C())
            inner = self.val(rep.schema)
            return inner.set(Rep(attr=rep.attr, sub=rep.sub), value)
        if not rep.sub:
            self.put(rep.attr, value)
            return True
        if not self.has(rep.attr):
            self.put(rep.attr, [] if isinstance(value, list) else C())
            current = self.val(rep.attr)
        else:
            current = self.val(rep.attr)
            ok = isinstance(current, C) or (
                isinstance(value, list)
                and isinstance(current, list)
                and len(current) > 0
                and all(isinstance(x, C) for x in current)
            )
            if not ok:
                return False
        if isinstance(value, list):
            if isinstance(current, C):
                return None  # unspecified
            while len(current) < len(value):
                current.append(C())
            for item, c in zip(value, current):
                if item is not MISSING:
                    c.set(Rep(attr=rep.sub), item)
            return True
        if not isinstance(current, C):
            return None
        current.set(Rep(attr=rep.sub), value)
        return True

    def delete(self, rep):
        if rep.schema and self.has(rep.schema):
            inner = self.val(rep.schema)
            if isinstance(inner, C):
                inner.delete(Rep(attr=rep.attr, sub=rep.sub))
            return
        if rep.ext or not self.has(rep.attr):
            return
        if rep.sub:
            v = self.val(rep.attr)
            for x in [v] if isinstance(v, C) else v if isinstance(v, list) else []:
                if isinstance(x, C):
                    x.delete(Rep(attr=rep.sub))
            return
        self.rm(rep.attr)

    def copy(self):
        c = C()
        for k, v in self.items():
            c.put(k, vcopy(v))
        return c

    def __eq__(self, other):
        if not isinstance(other, C):
            return False
        if set(self.d) != set(other.d):
            return False
        return all(veq(self.d[k][1], other.d[k][1]) for k in self.d)

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return "C{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"


def vcopy(v):
    if isinstance(v, C):
        return v.copy()
    if isinstance(v, list):
        return [vcopy(x) for x in v]
    if isinstance(v, dict):
        return {k: vcopy(x) for k, x in v.items()}
    return v


def conv(v):
    if isinstance(v, dict):
        return C.from_raw(v)
    if isinstance(v, list):
        return [C.from_raw(x) if isinstance(x, dict) else x for x in v]
    return v


def veq(a, b):
    """Strict equality of abstract values: types matter (True is not 1, 1 is not 1.0)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and type(a) is type(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, C) or isinstance(b, C):
        return isinstance(a, C) and isinstance(b, C) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(veq(a[k], b[k]) for k in a)
    if isinstance(a, Rep) and isinstance(b, Rep):
        return a.key() == b.key()
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and (a is b or a == b)


class Issues:
    """Multiset of (location, code, blocking).  Code '*' stands for one or more issues
    of unspecified code at exactly that location."""

    def __init__(self, items=()):
        self.items = list(items)

    def add(self, loc, code, blocking):
        self.items.append((tuple(loc), code, blocking))

    def merge(self, other, prefix=()):
        for loc, code, b in other.items:
            self.items.append((tuple(prefix) + loc, code, b))

    def can_proceed(self, *locs):
        for loc in locs or [()]:
            for l, _, b in self.items:
                if b and l == tuple(loc[: len(l)]) and len(l) <= len(loc):
                    return False
        return True

    def has(self, *locs):
        for loc in locs or [()]:
            for l, _, _ in self.items:
                if l[: len(loc)] == tuple(loc):
                    return True
        return False

    def get(self, loc):
        loc = tuple(loc)
        return Issues([(l[len(loc):], c, b) for l, c, b in self.items if l[: len(loc)] == loc])

    def pop(self, loc, code):
        loc = tuple(loc)
        out = [x for x in self.items if x[0] == loc and x[1] == code]
        self.items = [x for x in self.items if not (x[0] == loc and x[1] == code)]
        return Issues([((), c, b) for _, c, b in out])

    def __repr__(self):
        return f"Issues({sorted(self.items, key=repr)})"


class A:
    """Definition of an attribute."""

    FIELDS = dict(
        description="", reference_types=None, issuer="NOT_SPECIFIED", required=False,
        case_exact=False, multi_valued=False, canonical=None, enforce=False,
        mutability="readWrite", returned="default", uniqueness="none", parsers=(), dumpers=(),
        complex_parsers=(), complex_dumpers=(), subs=None,
    )

    def __init__(self, name, type, rep=None, **kw):
        self.name, self.type = name, type
        for k, v in self.FIELDS.items():
            setattr(self, k, kw.pop(k, v))
        assert not kw, kw
        self.rep = rep or Rep(attr=name)

    @property
    def is_complex(self):
        return self.subs is not None

    def clone(self, rep):
        return A(self.name if not rep.sub else rep.sub, self.type, rep=rep,
                 **{k: getattr(self, k) for k in self.FIELDS})

    def __repr__(self):
        changed = {k: getattr(self, k) for k, v in self.FIELDS.items() if getattr(self, k) != v}
        return f"A({self.rep},{self.type},{changed})"


class S:
    """Definition of a schema: URN, own attributes in order, extensions in order."""

    def __init__(self, urn, attrs, name="", plural=None, extensions=(), resource=True,
                 description=""):
        self.urn, self.own, self.name = urn, list(attrs), name
        self.plural = plural or name
        self.extensions = [(u, list(at)) for u, at in extensions]
        self.resource = resource
        self.description = description
        self.attrs = []
        for a in self.own:
            self._bind(a, urn, False)
        for u, at in self.extensions:
            for a in at:
                self._bind(a, u, True)

    def _bind(self, a, urn, ext):
        new = [a.clone(Rep(urn, a.rep.attr, "", ext))]
        for s in a.subs or []:
            new.append(s.clone(Rep(urn, a.rep.attr, s.rep.attr, ext)))
        for n in new:
            for i, old in enumerate(self.attrs):
                if old.rep.key() == n.rep.key():
                    self.attrs[i] = n
                    break
            else:
                self.attrs.append(n)

    @property
    def top(self):
        return [a for a in self.attrs if not a.rep.sub]

    @property
    def urns(self):
        return [self.urn] + [u for u, _ in self.extensions]

    def __repr__(self):
        return f"S({self.urn!r}, own={self.own}, extensions={self.extensions})"


def lookup(attrs, rep):
    for a in attrs:
        if rep_eq(a.rep, rep):
            return a
    return None
