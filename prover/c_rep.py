"""C04: attribute notation: its parts, equality and top-level equality."""
import z3

from oracle import core
import src.data.attributes as m_attributes
import src.data.container as m_container

from . import attrs, models, theory as T, world
from .engine import Model, zb
from .models import same
from .run import contract
from .theory import Nat, SB, SS, Seq

USERS = ["C04", "C09", "C21"]


def parts(E, name):
    return [SS(E.fresh(name + x, T.Str)) for x in ("schema", "attr", "sub")] + [SB(E.fresh(name + "ext", z3.BoolSort()))]


def by_contract(E):
    """callers reason about the comparison of notations through its contract (proved below)"""
    rep = m_container.AttrRep

    def compare(spec):
        def h(E, a, k):
            if len(a) != 2 or k:
                return NotImplemented
            a = [E.force(x) for x in a]
            if not all(type(x) is rep for x in a):
                return NotImplemented
            g = lambda x, n: E.getattr(x, n)  # noqa: E731
            x, y = [attrs.spec_rep(E, g(r, "schema"), g(r, "attr"), g(r, "sub_attr"), g(r, "extension")) for r in a]
            return E.call(spec, [x, y], {})
        return h
    E.handlers["src.data.container.AttrRep.__eq__"] = compare(core.rep_eq)
    E.handlers["src.data.container.AttrRep.top_level_equals"] = compare(core.top_eq)


@contract(USERS, "AttrRep.__init__")
def c_init(E):
    attrs.install(E)
    p = parts(E, "x")
    kind, r = world.outcome(E, lambda: E.construct(m_container.AttrRep, [], dict(
        schema=p[0], attr=p[1], sub_attr=p[2], extension=p[3])))
    if kind == "raise":
        E.prove(f"an unusable notation is a ValueError, not {type(r).__name__}", isinstance(r, ValueError))
        E.completed += 1
        return
    for n, v in zip(("schema", "attr", "sub_attr", "extension"), p):
        same(E, E.getattr(r, n), v, f"notation keeps its {n}")
    same(E, E.getattr(r, "attr_with_schema"), E.call(core.with_schema, p[:2], {}), "attr_with_schema is URN:attribute")
    E.prove("an extension's notation has a schema", z3.Implies(p[3].z, p[0].z != E.lit("")))
    E.completed += 1


def comparison(name, spec):
    @contract(USERS, f"AttrRep.{name}")
    def c(E):
        attrs.install(E)
        p, q = parts(E, "x"), parts(E, "y")
        x, y = attrs.impl_rep(E, *p), attrs.impl_rep(E, *q)
        kind, r = world.outcome(E, lambda: E.call(E.getattr(x, name), [y], {}))
        if kind == "raise":
            E.prove(f"{name} does not raise ({type(r).__name__})", False)
        want = E.call(spec, [attrs.spec_rep(E, *p), attrs.spec_rep(E, *q)], {})
        E.prove(f"{name} decides as prescribed", zb(E.truth(r)) == zb(E.truth(want)))
        E.completed += 1


comparison("__eq__", core.rep_eq)
comparison("top_level_equals", core.top_eq)


class Table(Model):
    """the declared attributes under their notation, in order of declaration"""

    def __init__(self, E, t):
        self.t = t

    def key(self, k):
        a = T.a_at(self.t, k)
        return SS(attrs.a_schema(a)), SS(attrs.a_attr(a)), SS(attrs.a_sub(a))

    def attr(self, E, name):
        at = lambda k: attrs.impl_attr(E, T.a_at(self.t, k))  # noqa: E731
        if name in ("items", "values", "keys"):
            f = {"items": lambda k: (self.key(k), at(k)), "values": at, "keys": self.key}[name]
            return Nat(lambda: Seq(T.a_len(self.t), f), name)
        return super().attr(E, name)

    def pieces(self, E):
        return [Seq(T.a_len(self.t), self.key)]

    def truth(self, E):
        return T.a_len(self.t) > 0


TABLE = "Attributes keeps the declared attributes in order, under their notation (Attributes.__init__, bounded)"


def collection(E):
    attrs.install(E)
    by_contract(E)
    E.trusted |= {TABLE, "AttrRep comparison by its contract (above)"}
    A_ = E.fresh("attrs", T.AttrsS)
    c = E.new(object.__new__(m_attributes.Attributes))
    c.__dict__.update(_attrs=Table(E, A_))
    return c, Seq(T.a_len(A_), lambda k: attrs.spec_attr(E, T.a_at(A_, k)))


def found(E, r, want):
    r, want = E.force(r), E.force(want)
    if r is None or want is None:
        E.prove("an attribute is found exactly if one matches", r is None and want is None)
    else:
        E.prove("the first attribute that matches", r.__dict__["__att__"] == want.__dict__["__att__"])


@contract(["C04"], "Attributes.get")
def get(E):
    c, l = collection(E)
    p = parts(E, "x")
    kind, r = world.outcome(E, lambda: E.call(E.getattr(c, "get"), [attrs.impl_rep(E, *p)], {}))
    if kind == "raise":
        E.prove(f"does not raise ({type(r).__name__}: {r})", False)
    found(E, r, E.call(core.lookup, [l, attrs.spec_rep(E, *p)], {}))
    E.completed += 1
