"""C13: the key a resource is sorted by, and how keys compare; sorting itself is Python's stable sorted()."""
import functools
import z3

from oracle import sorting as spec
import src.sorter as m_sorter

from . import attrs, models, theory as T, world
from .engine import Model, zb
from .models import SymCont, same
from .run import contract
from .theory import Nat, SB, SI, SS, SV, Seq, Unsupported, Val

I, B = z3.IntSort(), z3.BoolSort()
ITEMS = "items of a multi-valued complex attribute are objects (validated resource)"


class Sch(Model):
    def __init__(self, E, t, spec_):
        self.t, self.spec = t, spec_

    def attr(self, E, name):
        if name == "attrs":
            return attrs.SymAttrs(E, self.t, self.spec)
        return super().attr(E, name)


def rep(E):
    s, a, b = (SS(E.fresh(n, T.Str)) for n in ("schema", "attr", "sub"))
    x = SB(E.fresh("ext", B))
    return attrs.impl_rep(E, s, a, b, x), attrs.spec_rep(E, s, a, b, x)


GET_KEY = "_get_key by its contract (below)"


class KeyOf(Model):
    def __init__(self, value, attr):
        self.value, self.a = value, attr


@contract("C13", "Sorter._attr_key")
def key(E):
    E.FEAS_MS = 100
    E.solver.set("timeout", 100)
    attrs.install(E)
    E.trusted |= {ITEMS, GET_KEY}
    r1, r2 = rep(E)
    A_ = E.fresh("attrs", T.AttrsS)
    c = E.fresh("item", T.Cont)
    lows = [models.low(E, E.getattr(r2, n)) for n in ("schema", "attr", "sub")]
    cx = attrs.a_complex(T.a_find(A_, *lows))

    def on_item(x):
        v = x.arg(0)
        if v.decl().name() == "l" and v.arg(0).decl().name() == "c_get" and v.arg(0).arg(0).eq(c):
            return [z3.Implies(cx, Val.is_cont_(x))]
        return []
    E.extra_axioms["l_item"] = on_item
    E.handlers["src.sorter.Sorter._get_key"] = lambda E, a, k: KeyOf(*(list(a[1:]) + [k[x] for x in ("value", "attr") if x in k]))
    srt = E.construct(m_sorter.Sorter, [r1], {"asc": SB(E.fresh("asc", B))})
    kind, k = world.outcome(E, lambda: E.call(E.getattr(srt, "_attr_key"), [], {"item": SymCont(E, c), "schema": Sch(E, A_, False)}))
    if kind == "raise":
        E.prove(f"does not raise ({type(k).__name__}: {k})", False)
    E.prove("a key", isinstance(k, KeyOf))
    a, v = E.call(spec.find, [r2, SymCont(E, c), attrs.SymAttrs(E, A_, True)], {})
    mine, got = E.force(k.a), E.force(k.value)
    if a is None:
        E.prove("no value to sort by", mine is None or zb(no_value(E, got)))
    else:
        E.prove("an attribute to sort by", mine is not None)
        E.prove("the attribute to sort by", mine.__dict__["__att__"] == a.__dict__["__att__"])
        same(E, got, v, "the value to sort by")
    E.completed += 1


def no_value(E, v):
    return v is None or v is models.MISSING or v is models.INVALID or v == "" or (
        z3.Or(Val.is_none(v.z), Val.is_missing(v.z), Val.is_invalid(v.z)) if isinstance(v, SV) else False)


@contract("C13", "Sorter._get_key")
def usable(E):
    attrs.install(E, attrs.SIMPLE_TYPES)
    t = E.fresh("attr", T.Att)
    v = world.val(E, "value")
    srt = E.construct(m_sorter.Sorter, [rep(E)[0]], {"asc": SB(E.fresh("asc", B))})
    none = E.decide(E.fresh("unknown", B))
    kind, k = world.outcome(E, lambda: E.call(E.getattr(srt, "_get_key"), [v, None if none else attrs.impl_attr(E, t)], {}))
    if kind == "raise":
        E.prove(f"does not raise ({type(k).__name__}: {k})", False)
    want = None if none else E.call(spec.usable, [attrs.spec_attr(E, t), v], {})
    judge(E, k, want)
    E.completed += 1


def judge(E, k, want):
    k, want = E.force(k), E.force(want)
    if isinstance(k, m_sorter.AlwaysLastKey):
        E.prove("no value to sort by", want is None)
        return
    E.prove("a value to sort by", want is not None)
    a, v = want
    if isinstance(k, m_sorter.StringKey):
        same(E, k.__dict__["_value"], v, "the value to sort by")
        E.prove("the attribute to sort by", k.__dict__["_attr"].__dict__["__att__"] == a.__dict__["__att__"])
    else:
        E.prove("text compares as text", not (isinstance(E.force(v), SS)))
        same(E, k, v, "the value to sort by")


LAST = "resources without a value: last (ascending)"


@contract("C13", "StringKey and AlwaysLastKey comparison")
def compare(E):
    attrs.install(E, attrs.SIMPLE_TYPES)
    last = E.construct(m_sorter.AlwaysLastKey, [], {})
    t1, t2 = E.fresh("attr", T.Att), E.fresh("attr", T.Att)
    v1, v2 = SS(E.fresh("v", T.Str)), SS(E.fresh("w", T.Str))
    k1, k2 = (E.construct(m_sorter.StringKey, [v, attrs.impl_attr(E, t)], {}) for t, v in ((t1, v1), (t2, v2)))

    def lt(a, b):
        kind, r = world.outcome(E, lambda: E.call(E.getattr(a, "__lt__"), [b], {}))
        if kind == "raise":
            E.prove(f"does not raise ({type(r).__name__}: {r})", False)
        return E.truth(r)

    def gt(a, b):
        return E.truth(E.call(E.getattr(a, "__gt__"), [b], {}))
    want = E.call(spec.less, [(attrs.spec_attr(E, t1), v1), (attrs.spec_attr(E, t2), v2)], {})
    E.prove("strings ignoring case unless case-exact", zb(lt(k1, k2)) == zb(E.truth(want)))
    E.prove("a string comes before a resource without value", zb(lt(k1, last)))
    for x in (k1, last, SI(E.fresh("i", I)), SV(E.fresh("x", Val))):
        E.prove("a resource without value comes before nothing", z3.Not(zb(lt(last, x))))
        E.prove("every other value comes before a resource without value", zb(gt(last, x)))
    E.completed += 1


SORTED = "sorted(data, key, reverse) is Python's: stable, by '<' of the keys, equal elements keep their order also in reverse"
EQUAL = "resources that are equal are given the same schema"
ATTR_KEY = "_attr_key by its contract (above)"
s_attrs = z3.Function("s_attrs", T.Sch, T.AttrsS)


class Res(Model):
    """any resource schema"""

    def __init__(self, t):
        self.t = t

    def attr(self, E, name):
        if name == "attrs":
            return attrs.SymAttrs(E, s_attrs(self.t), False)
        return super().attr(E, name)

    def isinstance(self, E, cls):
        return issubclass(m_sorter.ResourceSchema, cls)

    def truth(self, E):
        return True

    def equals(self, E, other):
        return self.t == other.t if isinstance(other, Res) else False

    def subst(self, E, pairs, funs):
        return Res(E.subst(self.t, pairs, funs))


class Items(Model):
    """the resources (or their schemas), any number of them"""

    def __init__(self, n, elem, index=None):
        self.n, self.elem, self.index = n, elem, index

    def pieces(self, E):
        return [Seq(self.n, self.elem)]

    def attr(self, E, name):
        if name == "index" and self.index:
            return Nat(self.index, name)
        return super().attr(E, name)

    def getitem(self, E, k):
        z = E.zi(k)
        if not E.decide(z3.And(0 <= z, z < self.n)):
            raise Unsupported("index outside the list")
        return self.elem(z)

    def isinstance(self, E, cls):
        return cls is list

    def length(self, E):
        return SI(self.n)

    def truth(self, E):
        return self.n > 0


class Distinct(Model):
    """set of the schemas"""

    def __init__(self, size):
        self.size = size

    def length(self, E):
        return SI(self.size)


class Result(Model):
    def __init__(self, data, key, reverse):
        self.data, self.key, self.reverse = data, key, reverse


class Key(Model):
    def __init__(self, item, schema):
        self.item, self.schema = item, schema


def call_(many):
    @contract("C13", f"Sorter.__call__, {'a schema per resource' if many else 'one schema'}")
    def c(E):
        attrs.install(E)
        E.trusted |= {SORTED, ATTR_KEY} | ({EQUAL} if many else set())
        n = E.fresh("n", I)
        E.assume(n >= 0)
        f, g = E.fresh_fun("item", I, T.Cont), E.fresh_fun("schema", I, T.Sch)
        one = Res(E.fresh("schema", T.Sch))

        def index(item):
            for k in range(1):
                j = E.fresh("j", I)
                E.assume(z3.And(0 <= j, j <= at, f(j) == f(at), g(j) == g(at)))
            if not E.force(item).term(E).eq(f(at)):
                raise Unsupported("index of another resource")
            return SI(j)
        data = Items(n, lambda k: SymCont(E, f(k)), index)
        schemas = Items(n, lambda k: Res(g(k))) if many else one

        def distinct(E, a, k):
            if not a or a[0] is not schemas or not many:
                return NotImplemented
            d, j = E.fresh("distinct", I), z3.Int(E.uniq("j"))
            E.assume(z3.And(d >= 0, (d == 0) == (n == 0),
                            (d == 1) == z3.And(n > 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), g(j) == g(0))))))
            return Distinct(d)
        E.constructors[set] = distinct
        E.constructors[functools.partial] = lambda E, a, k: Nat(
            lambda *b, **m: E.call(a[0], list(a[1:]) + list(b), dict(k, **m)), "partial")
        E.handlers["builtins.sorted"] = lambda E, a, k: Result(a[0], k.get("key"), k.get("reverse", False))
        E.handlers["src.sorter.Sorter._attr_key"] = lambda E, a, k: Key(*(list(a[1:]) + [k[x] for x in ("item", "schema") if x in k]))
        asc = SB(E.fresh("asc", B))
        srt = E.construct(m_sorter.Sorter, [rep(E)[0]], {"asc": asc})
        kind, r = world.outcome(E, lambda: E.call(E.getattr(srt, "__call__"), [data, schemas], {}))
        if kind == "raise":
            E.prove(f"does not raise ({type(r).__name__}: {r})", False)
        E.prove("the resources are sorted", isinstance(r, Result) and r.data is data and r.key is not None)
        E.prove("ascending unless asked otherwise", zb(E.truth(r.reverse)) == z3.Not(asc.z))
        at = E.fresh("at", I)
        E.assume(z3.And(0 <= at, at < n))
        k = E.call(r.key, [data.elem(at)], {})
        E.prove("by the key of the resource", isinstance(k, Key) and E.force(k.item).term(E) == f(at))
        E.prove("under its own schema", E.force(k.schema).t == (g(at) if many else one.t))
        E.completed += 1


call_(False)
call_(True)
