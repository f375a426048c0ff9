"""C07: complex attributes; their sub-attributes are processed by contract (the same property, one level down)."""
import z3

from harness.adapter import at
from oracle import attributes as spec
from oracle.core import A
import src.data.attributes as m_attributes

from . import attrs, c_attr, c_rep, models, theory as T, world
from .models import Ent, Reg, SymCont, same
from .run import contract
from .theory import Nat, OPAQUE, SB, SI, SS, SV, Seq, Val

I, B = z3.IntSort(), z3.BoolSort()
SUBS = ("processing a sub-attribute is a function of the sub-attribute and its value (induction: contract of the "
        "sub-attribute, C06/C07)")
PLAIN = "sub-attributes are declared by plain names"


def sub_process(E, t, v, mode):
    z = E.toval(v)
    f, r = z3.Function(f"att_{mode}", T.Att, Val, Val), z3.Function(f"att_{mode}_reg", T.Att, Val, T.RegS)
    return SV(f(t, z)), Reg(E, [Ent((), z3.BoolVal(True), (), None, None, r(t, z))])


def subs_by_contract(E):
    E.trusted.add(SUBS)

    def impl(mode):
        def h(E, a, k):
            o = E.force(a[0])
            t = getattr(o, "__dict__", {}).get("__att__")
            if t is None:
                return NotImplemented
            return sub_process(E, t, a[1] if len(a) > 1 else k["value"], mode)
        return h
    for cls in ("Attribute", "ComplexAttribute"):
        for mode in ("parse", "dump"):
            E.handlers[f"src.data.attributes.{cls}.{mode}"] = impl(mode)

    def process(E, a, k):
        t = E.force(a[0]).__dict__.get("__att__")
        return NotImplemented if t is None else sub_process(E, t, a[1], a[2])
    E.handlers["oracle.attributes.process"] = process


def primary_by_contract(E):
    def h(E, a, k):
        v = E.force(a[0])
        z = E.toval(v)
        r = z3.Function("single_primary_reg", Val, T.RegS)
        return v, Reg(E, [Ent((), z3.BoolVal(True), (), None, None, r(z))])
    E.handlers["src.data.attributes.validate_single_primary_value"] = h
    E.handlers["oracle.attributes.single_primary"] = h
    E.trusted.add("validate_single_primary_value: by its contract (proved separately)")


def setup(E, multi, procs):
    attrs.install(E)
    subs_by_contract(E)
    E.assumptions |= {PLAIN, models.AXIOMS_NOTE}
    S = E.fresh("subs", T.AttrsS)
    e = E.lit("")

    def on_at(t):
        if not t.arg(0).eq(S):
            return []
        return [attrs.a_schema(t) == e, attrs.a_sub(t) == e, z3.Not(attrs.a_ext(t))]
    E.extra_axioms.update(a_at=on_at)
    ps, ds = E.new([]), E.new([])
    cps, cds = (c_attr.processors(E, "cparsers"), c_attr.processors(E, "cdumpers")) if procs else (E.new([]), E.new([]))
    a = E.construct(m_attributes.ComplexAttribute, [], dict(
        sub_attributes=attrs.SymAttrs(E, S, False), name="attr", description=OPAQUE, multi_valued=multi,
        parsers=ps, dumpers=ds, complex_parsers=cps, complex_dumpers=cds))
    b = E.new(object.__new__(A))
    b.__dict__.update(name="attr", type="Complex", case_exact=False, multi_valued=multi, canonical=None, enforce=False,
                      parsers=ps, dumpers=ds, complex_parsers=cps, complex_dumpers=cds, subs=attrs.SymAttrs(E, S, True))
    return a, b


def complex_(mode, multi, procs):
    name = f"ComplexAttribute.{mode}[{'multi' if multi else 'single'}{',processors' if procs else ''}]"

    @contract("C07", name)
    def c(E):
        primary_by_contract(E)
        a, b = setup(E, multi, procs)
        v = world.val(E, "v")
        kind, r = world.outcome(E, lambda: E.call(E.getattr(a, mode), [v], {}))
        if kind == "raise":
            E.prove(f"{mode} does not raise ({type(r).__name__})", False)
        want, issues = E.call(spec.process, [b, v, mode], {})
        same(E, r[1], issues, f"{mode} reports exactly the prescribed issues, each under its item and sub-attribute")
        same(E, r[0], want, f"{mode} keeps exactly the declared sub-attributes that were provided")
        E.completed += 1


for _m in ("parse", "dump"):
    for _multi in (False, True):
        for _p in (False, True):
            complex_(_m, _multi, _p)


@contract("C07", "validate_single_primary_value")
def c_primary(E):
    n, f = E.fresh("n", I), E.fresh_fun("item", I, T.Cont)
    E.assume(n >= 0)
    items = Seq(n, lambda k: SymCont(E, f(k)))
    kind, r = world.outcome(E, lambda: E.call(m_attributes.validate_single_primary_value, [items], {}))
    if kind == "raise":
        E.prove(f"does not raise ({type(r).__name__})", False)
    want, issues = E.call(spec.single_primary, [items], {})
    same(E, r[1], issues, "more than one primary item is reported, at most one is not")
    same(E, r[0], want, "the items stay as they are")
    E.completed += 1
