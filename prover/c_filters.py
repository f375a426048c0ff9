"""C10: logical and bracketed operators against the meaning of filter expressions.

Operands are arbitrary: an operand is known only by the contract of match (its result is a function
of the operand, the value, the attributes and the strictness; FAILED_NO_ATTR for unknown attributes)."""
import z3

from harness.adapter import op
from oracle import filters as spec
from oracle.core import MISSING

from . import attrs, models, theory as T, world
from .attrs import F, I, B
from .engine import Model, conj, disj, zb
from .interp import StarSeq
from .models import SymCont, same
from .run import contract
from .theory import Nat, SB, SEnum, SI, SS, SV, Seq, Unsupported, Val

KINDS = ["and", "or", "not", "complex", "pr", "eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"]
STATUS = ["PASSED", "FAILED", "FAILED_NO_ATTR", "MISSING_DATA"]
o_op = F("o_op", T.Opr, I)
o_schema, o_attr, o_sub = (F("o_" + n, T.Opr, T.Str) for n in ("schema", "attr", "sub"))
o_ext = F("o_ext", T.Opr, B)
m_log = F("match_logical", T.Opr, Val, T.AttrsS, B, I)
m_val = F("match_value", T.Opr, Val, T.AttrsS, B, I)
OPERANDS = "operands: any operator, known by the contract of match (induction over the expression)"


class SymOp(Model):
    def __init__(self, E, t, spec_side):
        self.t, self.spec_side = t, spec_side
        E.new(self)

    def subst(self, E, pairs, funs):
        return SymOp(E, E.subst(self.t, pairs, funs), self.spec_side)

    def wf(self, E):
        E.solver.add(z3.And(0 <= o_op(self.t), o_op(self.t) < len(KINDS)))

    def isinstance(self, E, cls):
        self.wf(E)
        z = o_op(self.t)
        if cls is op.LogicalOperator:
            return SB(z <= 2)
        if cls is op.MultiOperandLogicalOperator:
            return SB(z <= 1)
        if cls is op.AttributeOperator:
            return SB(z >= 4)
        if cls is op.BinaryAttributeOperator:
            return SB(z >= 5)
        from harness.adapter import OPS
        table = {op.And: 0, op.Or: 1, op.Not: 2, op.ComplexAttributeOperator: 3, **{c: KINDS.index(n) for n, c in OPS.items()}}
        if cls in table:
            return SB(z == table[cls])
        return False

    def rep(self, E):
        t = self.t
        if self.spec_side:
            return attrs.spec_rep(E, SS(o_schema(t)), SS(o_attr(t)), SS(o_sub(t)), SB(o_ext(t)))
        return attrs.impl_rep(E, SS(o_schema(t)), SS(o_attr(t)), SS(o_sub(t)), SB(o_ext(t)))

    def status(self, E, value, collection, strict):
        """contract of match"""
        self.wf(E)
        st = zb(E.truth(strict))
        v = E.toval(value)
        if E.decide(o_op(self.t) <= 2):
            z = m_log(self.t, norm(v), collection.t, st)
        else:
            found = T.a_found(collection.t, *[models.low(E, SS(f(self.t))) for f in (o_schema, o_attr, o_sub)])
            z = z3.If(found, m_val(self.t, v, collection.t, st), 2)
        E.solver.add(z3.And(0 <= z, z < 4, possible(o_op(self.t), st, z)))
        return z

    def attr(self, E, name):
        if name == "match":
            def match(value, attrs=None, strict=True, **k):
                a = attrs if attrs is not None else k["attrs"]
                z = self.status(E, value, a, strict)
                return E.construct(op.MatchResult, [SEnum(z, [op.MatchStatus(s) for s in STATUS])], {})
            return Nat(match)
        if name == "attr_rep":
            if E.decide(o_op(self.t) <= 2):
                from .engine import PyRaise
                raise PyRaise(AttributeError(name))
            return self.rep(E)
        raise Unsupported(f"operand.{name}")

    def getitem(self, E, k):
        self.wf(E)
        if k == 0:
            return SEnum(o_op(self.t), KINDS)
        if k == 1 and not E.decide(o_op(self.t) <= 2):
            return self.rep(E)
        raise Unsupported("part of an operand")


def possible(kind, strict, z):
    """outcomes an operator can have, by its kind: proved of each (check below), assumed of operands"""
    return z3.And(z3.Or(strict, z != 3), z3.Implies(z3.And(2 <= kind, kind <= 4), z != 3), z3.Implies(kind <= 2, z != 2))


def norm(v):
    """logical operators take absent data for an empty object"""
    return z3.If(z3.Or(Val.is_none(v), Val.is_missing(v)), Val.cont_(T.c_empty), v)


def install(E):
    attrs.install(E)
    E.trusted.add(OPERANDS)
    t, v, c, st = z3.Const("t!", T.Opr), z3.Const("v!", Val), z3.Const("c!", T.AttrsS), z3.Const("st!", B)
    for m in (m_log, m_val):
        z = m(t, v, c, st)
        E.solver.add(z3.ForAll([t, v, c, st], z3.And(0 <= z, z < 4, possible(o_op(t), st, z)), patterns=[z]))

    def evaluate(E, a, k):
        e = E.force(a[0])
        if not isinstance(e, SymOp):
            return NotImplemented
        data, coll, strict = a[1], a[2], a[3]
        e.wf(E)
        if not E.decide(o_op(e.t) <= 2):
            at = coll.lookup(E, e.rep(E))
            data = E.force(data)
            if at is None:
                data = MISSING
            elif isinstance(data, SymCont):
                data = data.getitem(E, E.getattr(at, "rep"))
            else:
                raise Unsupported("data")
        return SEnum(e.status(E, data, coll, strict), STATUS)

    def ev(E, a, k):
        e = E.force(a[0])
        if not isinstance(e, SymOp):
            return NotImplemented
        return SEnum(e.status(E, a[1], a[2], a[3]), STATUS)
    E.handlers["oracle.filters.evaluate"] = evaluate
    E.handlers["oracle.filters.ev_value"] = ev
    E.handlers["oracle.filters.ev_logical"] = ev


def data(E):
    """absent or an object"""
    c = E.fresh("data", T.Cont)
    if E.decide(E.fresh("absent", B)):
        return None, None
    return SymCont(E, c), SymCont(E, c)


def z3_pick(z, terms):
    out = terms[-1]
    for i in range(len(terms) - 2, -1, -1):
        out = z3.If(z == i, terms[i], out)
    return out


def check(E, name, fn, want, kind_=None, strict=None):
    kind, r = world.outcome(E, fn)
    if kind == "raise":
        E.prove(f"{name} does not raise ({type(r).__name__})", False)
    status = E.getattr(r, "status")
    w = want()
    text = lambda x: E.zs(x.value) if isinstance(x, op.MatchStatus) else E.zs(x)  # noqa: E731
    as_text = lambda x: (z3_pick(x.z, [text(m) for m in x.members]) if isinstance(x, SEnum) else text(x))  # noqa: E731
    E.prove(f"{name}: outcome is the one the expression denotes", as_text(status) == as_text(w))
    if kind_ is not None:
        z = E.fresh("outcome", I)
        E.assume(z3.And(0 <= z, z < 4, z3_pick(z, [E.lit(s) for s in STATUS]) == as_text(status)))
        E.prove(f"{name}: undecidable only under strict evaluation, of a comparison or of a connective of one",
                possible(z3.IntVal(kind_), zb(E.truth(strict)), z))
    E.completed += 1


def multi(name, cls):
    @contract("C10", f"{cls.__name__}.match")
    def c(E):
        install(E)
        A = E.fresh("A", T.AttrsS)
        n, at = E.fresh("n", I), E.fresh_fun("operand", I, T.Opr)
        E.assume(n >= 0)
        strict = SB(E.fresh("strict", B))
        d1, d2 = data(E)
        obj = E.construct(cls, [StarSeq(Seq(n, lambda k: SymOp(E, at(k), False)))], {})
        ops = E.new([E.seq_seg(Seq(n, lambda k: SymOp(E, at(k), True)))])
        check(E, f"{cls.__name__}.match",
              lambda: E.call(E.getattr(obj, "match"), [d1, attrs.SymAttrs(E, A, False), strict], {}),
              lambda: E.call(spec.ev_logical, [(name, ops), d2, attrs.SymAttrs(E, A, True), strict], {}), KINDS.index(name), strict)
    return c


multi("and", op.And)
multi("or", op.Or)


@contract("C10", "Not.match")
def c_not(E):
    install(E)
    A, o = E.fresh("A", T.AttrsS), E.fresh("o", T.Opr)
    strict = SB(E.fresh("strict", B))
    d1, d2 = data(E)
    obj = E.construct(op.Not, [SymOp(E, o, False)], {})
    check(E, "Not.match", lambda: E.call(E.getattr(obj, "match"), [d1, attrs.SymAttrs(E, A, False), strict], {}),
          lambda: E.call(spec.ev_logical, [("not", SymOp(E, o, True)), d2, attrs.SymAttrs(E, A, True), strict], {}), 2, strict)


@contract("C10", "ComplexAttributeOperator.match")
def c_complex(E):
    install(E)
    E.assumptions.add("data of complex attributes: nothing, an object, or a list of objects")
    A, o = E.fresh("A", T.AttrsS), E.fresh("o", T.Opr)
    strict = SB(E.fresh("strict", B))
    s, a, u = (SS(E.fresh(x, T.Str)) for x in ("schema", "attr", "sub"))
    ext = SB(E.fresh("ext", B))
    v = world.val(E, "v")
    j = z3.Int("j")
    E.assume(z3.Or(Val.is_none(v.z), Val.is_missing(v.z), Val.is_cont_(v.z), Val.is_lst_(v.z)))
    E.assume(z3.ForAll([j], Val.is_cont_(T.l_item(Val.l(v.z), j))))
    obj = E.construct(op.ComplexAttributeOperator, [attrs.impl_rep(E, s, a, u, ext), SymOp(E, o, False)], {})
    rep = attrs.spec_rep(E, s, a, u, ext)
    E.handlers["oracle.filters.ev_value"] = (lambda old: lambda E, x, k: old(E, x, k))(E.handlers["oracle.filters.ev_value"])
    check(E, "ComplexAttributeOperator.match",
          lambda: E.call(E.getattr(obj, "match"), [v, attrs.SymAttrs(E, A, False), strict], {}),
          lambda: E.call(spec.ev_value, [("complex", rep, SymOp(E, o, True)), v, attrs.SymAttrs(E, A, True), strict], {}), 3, strict)
