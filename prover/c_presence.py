"""C09: the presence checker against the presence rules, for every schema, body and selection."""
import z3

from harness.adapter import AttributePresenceChecker
from oracle import presence as spec

from . import attrs, c_rep, models, theory as T, world
from .attrs import B, I
from .models import SymCont, same
from .run import contract
from .theory import SB, SS, Seq, Val

DATA = ("the value of a multi-valued attribute with sub-attributes is absent, null, invalid or a list whose items are "
        "invalid or objects (what attribute processing yields, C06/C07)")
CLOSED = "a collection that holds a sub-attribute also holds its parent (C21)"


def rep_list(E, name):
    n = E.fresh("n_" + name, I)
    E.assume(n >= 0)
    fs = [E.fresh_fun(name + x, I, T.Str) for x in ("schema", "attr", "sub")] + [E.fresh_fun(name + "ext", I, B)]
    parts = lambda k: [SS(f(k)) for f in fs[:3]] + [SB(fs[3](k))]  # noqa: E731
    return (Seq(n, lambda k: attrs.impl_rep(E, *parts(k))), Seq(n, lambda k: attrs.spec_rep(E, *parts(k))))


def rule(include, direction):
    @contract("C09", f"AttributePresenceChecker[include={include},{direction}]")
    def c(E):
        attrs.install(E)
        c_rep.by_contract(E)
        E.assumptions |= {DATA, CLOSED}
        A, D = E.fresh("A", T.AttrsS), E.fresh("data", T.Cont)
        r1, r2 = rep_list(E, "rep")
        g1, g2 = rep_list(E, "ign")
        empty = E.lit("")
        attrs.impl_template(E)

        def on_at(t):
            if not t.arg(0).eq(A):
                return []
            keys = [T.lower(attrs.a_schema(t)), T.lower(attrs.a_attr(t)), empty]
            return [z3.Implies(attrs.a_sub(t) != empty, z3.And(T.a_found(A, *keys), attrs.a_complex(T.a_find(A, *keys)),
                                                              attrs.valid_name(E, attrs.a_sub(t))))]

        def many(s, a):
            f = T.a_find(A, s, a, empty)
            return z3.And(T.a_found(A, s, a, empty), attrs.a_complex(f), attrs.a_multi(f))

        def on_get(t):
            if not t.arg(0).eq(D) or not t.arg(3).eq(empty):
                return []
            return [z3.Implies(many(t.arg(1), t.arg(2)),
                               z3.Or(Val.is_none(t), Val.is_missing(t), Val.is_invalid(t), Val.is_lst_(t)))]

        def on_item(t):
            l = t.arg(0)
            if not (l.decl().eq(Val.l) and l.arg(0).decl().eq(T.c_get)):
                return []
            g = l.arg(0)
            if not g.arg(0).eq(D) or not g.arg(3).eq(empty):
                return []
            return [z3.Implies(many(g.arg(1), g.arg(2)), z3.Or(Val.is_invalid(t), Val.is_cont_(t)))]
        E.extra_axioms.update(a_at=on_at, c_get=on_get, l_item=on_item)
        obj = E.construct(AttributePresenceChecker, [r1, include, g1], {})
        ck = E.construct(spec.Checker, [r2, include, g2], {})
        kind, r = world.outcome(E, lambda: E.call(obj_call(E, obj), [SymCont(E, D), attrs.SymAttrs(E, A, False), direction], {}))
        if kind == "raise":
            E.prove(f"presence check does not raise ({type(r).__name__})", False)
        want = E.call(spec.presence, [ck, SymCont(E, D), attrs.SymAttrs(E, A, True), direction], {})
        same(E, r, want, "presence check reports exactly what the rules demand")
        E.completed += 1
    return c


def obj_call(E, obj):
    return E.getattr(obj, "__call__")


for _i in (None, True, False):
    for _d in ("REQUEST", "RESPONSE"):
        rule(_i, _d)
