"""C06: processing of attribute values, for any type that keeps the contract of C05, any canonical
values and any custom processors."""
import z3

from oracle import attributes as spec
from oracle.core import A
import src.data.attributes as m_attributes

from . import attrs, models, theory as T, world
from .engine import Model
from .models import Ent, Reg, same
from .run import contract
from .theory import Nat, OPAQUE, SB, SI, SS, SV, Seq, Val

I, B = z3.IntSort(), z3.BoolSort()
TYPE = ("a type's parse and dump return a value and blocking issues at the root, both functions of the given value "
        "(contract of the scalar types, C05)")
PROC = "a custom processor is a function of the value it is given and returns a value and a registry of its own"


class AnyType(Model):
    """some attribute type, known by its contract only"""

    def __init__(self, E):
        self.val = {m: z3.Function(f"type_{m}", Val, Val) for m in ("parse", "dump")}
        self.cnt = {m: z3.Function(f"type_{m}_issues", Val, I) for m in ("parse", "dump")}
        self.code = {m: z3.Function(f"type_{m}_code", Val, I, I) for m in ("parse", "dump")}

    def outcome(self, E, mode, v):
        z = E.toval(v)
        n = self.cnt[mode](z)
        E.fact(n >= 0)
        return SV(self.val[mode](z)), n, lambda k: self.code[mode](z, k)

    def attr(self, E, name):
        if name in ("parse", "dump"):
            def run(value):
                out, n, code = self.outcome(E, name, value)
                k = z3.Int(E.uniq("k"))
                return out, Reg(E, [Ent(((k, n),), z3.BoolVal(True), (), code(k), True)])
            return Nat(run, name)
        if name in ("__name__", "SCIM_NAME"):
            return OPAQUE
        return super().attr(E, name)

    def equals(self, E, other):
        return self is other

    def subst(self, E, pairs, funs):
        return self


def processors(E, name):
    """any number of custom processors"""
    n = E.fresh("n_" + name, I)
    E.assume(n >= 0)
    return Seq(n, lambda k: Processor(name, k))


class Processor(Model):
    """custom processor number k"""

    def __init__(self, name, k):
        self.name, self.k = name, k

    def invoke(self, E, args, kw):
        v, = args
        z = E.toval(v)
        f, r = z3.Function(f"proc_{self.name}", I, Val, Val), z3.Function(f"proc_{self.name}_reg", I, Val, T.RegS)
        return SV(f(self.k, z)), Reg(E, [Ent((), z3.BoolVal(True), (), None, None, r(self.k, z))])

    def equals(self, E, other):
        if isinstance(other, Processor):
            return False if other.name != self.name else self.k == other.k
        return False

    def subst(self, E, pairs, funs):
        return Processor(self.name, E.subst(self.k, pairs, funs))


def setup(E, multi, canonical):
    attrs.install(E)
    E.trusted |= {TYPE, PROC}
    E.assumptions |= {models.AXIOMS_NOTE}
    ty = AnyType(E)
    ce, enf = SB(E.fresh("case_exact", B)), SB(E.fresh("enforce", B))
    values = None
    if canonical:
        n, f = E.fresh("n_canonical", I), E.fresh_fun("canonical", I, Val)
        E.assume(n >= 0)
        values = Seq(n, lambda k: SV(f(k)))
    ps, ds = processors(E, "parsers"), processors(E, "dumpers")
    a = E.construct(m_attributes.Attribute, [], dict(
        name="attr", type_=ty, description=OPAQUE, case_exact=ce, multi_valued=multi, canonical_values=values,
        validate_canonical_values=enf, parsers=ps, dumpers=ds))
    b = E.new(object.__new__(A))
    b.__dict__.update(name="attr", type=ty, case_exact=ce, multi_valued=multi, canonical=values, enforce=enf,
                      parsers=ps, dumpers=ds, subs=None)

    def rule(E, x, k):
        out, n, code = ty.outcome(E, x[2], x[1])
        return out, Seq(n, lambda j: SI(code(j)))
    E.handlers["oracle.attributes.rule"] = E.handlers["oracle.types.rule"] = rule
    return a, b


def simple(mode, multi, canonical):
    @contract("C06", f"Attribute.{mode}[{'multi' if multi else 'single'},{'canonical' if canonical else 'free'}]")
    def c(E):
        a, b = setup(E, multi, canonical)
        v = world.val(E, "v")
        kind, r = world.outcome(E, lambda: E.call(E.getattr(a, mode), [v], {}))
        if kind == "raise":
            E.prove(f"{mode} does not raise ({type(r).__name__})", False)
        want, issues = E.call(spec.process_simple, [b, v, mode], {})
        same(E, r[1], issues, f"{mode} reports exactly the prescribed issues, each at its item")
        same(E, r[0], want, f"{mode} yields the prescribed value")
        E.completed += 1


for _m in ("parse", "dump"):
    for _multi in (False, True):
        for _c in (False, True):
            simple(_m, _multi, _c)
