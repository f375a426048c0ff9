"""C11: comparison operators and presence against the relation they denote."""
import z3

from harness.adapter import OPS, TYPES, op
from oracle import filters as spec

from . import attrs, models, theory as T, world
from .attrs import B
from .c_filters import check
from .run import contract
from .theory import SB, SFlt, SI, SS, SV

GIVEN = {"str": lambda E: SS(E.fresh("given", T.Str)), "int": lambda E: SI(E.fresh("given", z3.IntSort())),
         "bool": lambda E: SB(E.fresh("given", B)), "float": lambda E: SFlt(E.fresh("given", T.Flt)),
         "None": lambda E: None}
PY = {"str": str, "int": int, "bool": bool, "float": float, "None": type(None)}
PLAIN = "co, sw, ew: values of the attribute are scalars or lists, as parsing yields them (C05, C06)"
GROUPS = {"simple": [t for t in TYPES if t not in ("Complex",)], "complex": ["Complex"]}


def setup(E, group):
    attrs.install(E, attrs.SIMPLE_TYPES)
    A = E.fresh("A", T.AttrsS)
    strict = SB(E.fresh("strict", B))
    parts = [SS(E.fresh(x, T.Str)) for x in ("schema", "attr", "sub")] + [SB(E.fresh("ext", B))]
    lows = [models.low(E, p) for p in parts[:3]]
    found = T.a_found(A, *lows)
    t = T.a_find(A, *lows)
    if group == "complex":
        E.assume(z3.And(found, attrs.a_complex(t)))
    else:
        E.assume(z3.Or(z3.Not(found), z3.Not(attrs.a_complex(t))))
    return A, strict, parts, world.val(E, "v")


def binary(name, cls, kind, group):
    @contract("C11", f"{cls.__name__}.match[{kind},{group}]")
    def c(E):
        A, strict, parts, v = setup(E, group)
        g = GIVEN[kind](E)
        if name in ("co", "sw", "ew"):
            E.assumptions.add(PLAIN)
            odd = lambda z: z3.Or(T.Val.is_cont_(z), T.Val.is_dict_(z), T.Val.is_oth_(z))  # noqa: E731
            j, l = z3.Int("j"), z3.Const("lst", T.Lst)
            if group == "simple":
                E.assume(z3.Not(odd(v.z)))
                E.assume(z3.ForAll([j], z3.Not(odd(T.l_item(T.Val.l(v.z), j)))))
            else:
                c, a, b, d, e = z3.Const("c", T.Cont), *(z3.Const(x, T.Str) for x in "abd"), z3.Const("e", B)
                E.assume(z3.ForAll([c, a, b, d, e], z3.Not(odd(T.c_get(c, a, b, d, e))), patterns=[T.c_get(c, a, b, d, e)]))
        obj = E.construct(cls, [attrs.impl_rep(E, *parts), g], {})
        check(E, f"{cls.__name__}.match",
              lambda: E.call(E.getattr(obj, "match"), [v, attrs.SymAttrs(E, A, False), strict], {}),
              lambda: E.call(spec.ev_value, [(name, attrs.spec_rep(E, *parts), g), v, attrs.SymAttrs(E, A, True),
                                             strict], {}), 5, strict)
    return c


for _n, _c in OPS.items():
    if _n == "pr":
        continue
    for _k in GIVEN:
        if PY[_k] in _c.SUPPORTED_TYPES:
            for _g in GROUPS:
                binary(_n, _c, _k, _g)


def presence(group):
    @contract("C11", f"Present.match[{group}]")
    def c(E):
        A, strict, parts, v = setup(E, group)
        obj = E.construct(op.Present, [attrs.impl_rep(E, *parts)], {})
        check(E, "Present.match",
              lambda: E.call(E.getattr(obj, "match"), [v, attrs.SymAttrs(E, A, False), strict], {}),
              lambda: E.call(spec.ev_value, [("pr", attrs.spec_rep(E, *parts)), v, attrs.SymAttrs(E, A, True),
                                             strict], {}), 4, strict)
    return c


for _g in GROUPS:
    presence(_g)
