"""C12: what a condition of a filter text denotes, given its words; how the parts of a patch path fit together.

Finding words, brackets and quoted strings in the text is by contract (enumerated in the bounded part)."""
import z3

from harness.adapter import OPS, op
from oracle import core as spec_core, filtertext as spec
import src.data.container as m_container
import src.data.path as m_path
import src.filter as m_filter
import src.utils as m_utils

from . import attrs, models, theory as T, world
from .c_rep import by_contract
from .engine import Model, PyRaise, zb
from .interp import StarSeq
from .models import Ent, Reg, same
from .run import contract
from .theory import LSeg, OPAQUE, SI, SS, SV, Seq, Unsupported, Val

I, B = z3.IntSort(), z3.BoolSort()
F = z3.Function
bare = F("bare", T.Str, T.Str)                 # without surrounding whitespace
w_len, w_at = F("words", T.Str, I), F("word", T.Str, I, T.Str)
literal = F("literal", T.Str, T.Str)           # quoted strings put back
n_ok = F("notation", T.Str, B)
n_part = {n: F("notation_" + n, T.Str, T.Str) for n in ("schema", "attr", "sub")}
v_ok, v_of = F("comparison_ok", T.Str, B), F("comparison", T.Str, Val)
g_has, g_op, g_reg = F("bracketed", T.Str, B), F("bracketed_op", T.Str, T.Opr), F("bracketed_reg", T.Str, T.RegS)
NOTATION = "AttrRep.parse decides and splits notations as prescribed (enumerated: C04, C12)"
WORDS = "the words of a condition are what OP_REGEX separates (enumerated)"
VALUE = "parse_comparison_value types a value as written (enumerated)"
STRINGS = "_encode_placeholders puts the quoted strings back (enumerated)"
BRACKETS = "_get_parsed_group_or_complex_op finds the bracketed part a text stands for, and its issues (enumerated)"


def notation(E, text, of_spec):
    z = E.zs(E.force(text))
    if not E.decide(n_ok(z)):
        if of_spec:
            raise PyRaise(spec.Bad("notation"))
        return models.INVALID
    p = [SS(n_part[n](z)) for n in ("schema", "attr", "sub")]
    # what was accepted can be built again from its parts
    E.fact(attrs.valid_name(E, p[1].z))
    E.fact(z3.Implies(p[2].z != E.lit(""), attrs.valid_name(E, p[2].z)))
    return (attrs.spec_rep if of_spec else attrs.impl_rep)(E, *p, False)


def comparison(E, text, of_spec):
    z = E.zs(E.force(text))
    if not E.decide(v_ok(z)):
        raise PyRaise(spec.Bad("value") if of_spec else ValueError("value"))
    v = v_of(z)
    E.fact(z3.Or(Val.is_none(v), Val.is_bool_(v), Val.is_int_(v), Val.is_flt_(v), Val.is_str_(v)))
    return SV(v)


def install(E):
    attrs.install(E)
    by_contract(E)
    E.trusted |= {NOTATION, WORDS, VALUE, STRINGS}
    E.known_strip = bare
    E.handlers["src.data.container.AttrRep.parse"] = lambda E, a, k: notation(E, list(k.values())[0] if k else a[-1], False)
    E.handlers["oracle.filtertext.notation"] = lambda E, a, k: notation(E, a[0], True)
    E.handlers["src.utils.parse_comparison_value"] = lambda E, a, k: comparison(E, a[0], False)
    E.handlers["oracle.filtertext.comparison_value"] = lambda E, a, k: comparison(E, SS(literal(E.zs(a[0][1]))), True)

    def encode(E, a, k):
        k = dict(zip(("exp", "string_values", "parsed_group_ops", "parsed_complex_ops"), a), **k)
        if k.get("parsed_group_ops") is None and k.get("parsed_complex_ops") is None and k.get("string_values") is not None:
            return SS(literal(E.zs(E.force(k["exp"]))))
        return SS(E.fresh("message", T.Str))
    E.handlers["src.filter.Filter._encode_placeholders"] = encode

    def bracketed(E, a, k):
        z = E.zs(E.force(k["op_exp"] if "op_exp" in k else a[0]))
        if not E.decide(g_has(z)):
            return None
        return Part(z)
    E.handlers["src.filter.Filter._get_parsed_group_or_complex_op"] = bracketed

    def words(E, pat, args):
        z = E.zs(E.force(args[0]))
        if pat.pattern != r"\s+" or len(args) > 1:
            raise Unsupported("split")
        E.fact(w_len(z) >= 1)
        return Seq(w_len(z), lambda k: SS(w_at(z, k)))
    E.known_split = words


class Part(Model):
    """a bracketed part, parsed"""

    def __init__(self, z):
        self.z = z

    def attr(self, E, name):
        if name == "operator":
            return Operand(g_op(self.z))
        if name == "issues":
            return Reg(E, [Ent((), z3.BoolVal(True), (), None, None, g_reg(self.z))])
        if name == "expression":
            return SS(E.fresh("message", T.Str))
        return super().attr(E, name)

    def truth(self, E):
        return True


class Operand(Model):
    """an operator, known only by its identity"""

    def __init__(self, t):
        self.t = t

    def subst(self, E, pairs, funs):
        return Operand(E.subst(self.t, pairs, funs))

    def truth(self, E):
        return True

    def equals(self, E, other):
        return self.t == other.t


def rep_same(E, r, w, what):
    for n, m in (("schema", "schema"), ("attr", "attr"), ("sub_attr", "sub"), ("extension", "ext")):
        same(E, E.getattr(r, n), E.getattr(w, m), f"{what}: {n}")


def denotes(E, r, w):
    """the operator is the expression"""
    r, w = E.force(r), E.force(w)
    if isinstance(r, Operand) or isinstance(w, Operand):
        E.prove("the bracketed part itself", isinstance(r, Operand) and isinstance(w, Operand) and r.t == w.t)
        return
    kind = E.force(w[0])
    if isinstance(kind, str) and kind == "complex":
        E.prove("a condition on the parts of a complex attribute", type(r) is op.ComplexAttributeOperator)
        rep_same(E, E.getattr(r, "attr_rep"), w[1], "attribute")
        denotes(E, E.getattr(r, "sub_operator"), w[2])
        return
    if isinstance(kind, SS):
        for n in ("pr", *spec.BINARY):
            if E.decide(kind.z == E.lit(n)):
                kind = n
                break
    E.prove("the operator named", getattr(type(r), "SCIM_OP", None) == kind)
    rep_same(E, E.getattr(r, "attr_rep"), w[1], "attribute")
    if kind != "pr":
        same(E, E.getattr(r, "value"), w[2], "the value compared to")


@contract("C12", "Filter._parse_op_attr_exp")
def condition(E):
    install(E)
    E.trusted.add(BRACKETS)
    text = world.str_(E, "text")
    z = bare(text.z)
    kind, r = world.outcome(E, lambda: E.call(m_filter.Filter._parse_op_attr_exp, [text, OPAQUE, OPAQUE, OPAQUE], {}))
    if kind == "raise":
        if isinstance(r, TypeError) and "argument" in str(r):
            raise Unsupported(str(r))
        E.prove(f"never raises ({type(r).__name__}: {r})", False)
    if not isinstance(r, tuple) or len(r) != 2:
        raise Unsupported("result of the helper")
    got, reg = r
    if E.decide(g_has(z)):
        denotes(E, got, Operand(g_op(z)))
        same(E, reg, Reg(E, [Ent((), z3.BoolVal(True), (), None, None, g_reg(z))]), "issues of the bracketed part")
        E.completed += 1
        return
    E.fact(w_len(z) >= 1)
    ws = Seq(w_len(z), lambda k: ("word", SS(w_at(z, k))))
    kind, w = world.outcome(E, lambda: E.call(spec.condition, [ws], {}))
    ok = zb(E.truth(E.call(E.getattr(reg, "can_proceed"), [], {})))
    E.prove("accepted exactly if well formed", ok == (kind == "value"))
    if kind == "value":
        E.prove("no issues", z3.Not(zb(E.truth(E.call(E.getattr(reg, "has_issues"), [], {})))))
        denotes(E, got, w)
    else:
        E.prove("no filter is returned", E.force(got) is models.INVALID or E.force(got) is None)
    E.completed += 1


# ---------------------------------------------------------------- logical operators
SPLIT = "_split_exp_to_logical_operands gives the texts between the operators and a blocking issue if one is missing (enumerated)"
NEGATION = "an operand is negated if NOT_LOGICAL_OPERATOR_REGEX matches; the rest is what is negated (enumerated)"
LOWER = "the parser of the operands accepts what is well formed and says what it denotes (contract of the next level)"
o_len, o_at = F("operands", T.Str, I), F("operand", T.Str, I, T.Str)
o_ok = F("operands_complete", T.Str, B)
p_ok, p_op = F("well_formed", T.Str, B), F("denotes", T.Str, T.Opr)
p_reg, o_reg = F("operand_reg", T.Str, T.RegS), F("operands_reg", T.Str, T.RegS)
is_not, not_of = F("negated", T.Str, B), F("negated_part", T.Str, T.Str)


def issues_of(E, R, ok):
    return Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])


def accounts(E):
    """issues exactly for what is not accepted"""
    x, nil = z3.Const("x", T.Str), T.Loc.nil
    for reg, ok in ((p_reg, p_ok), (o_reg, o_ok)):
        E.assume(z3.ForAll([x], z3.And(T.r_blk(reg(x), nil) == z3.Not(ok(x)), T.r_has(reg(x), nil) == z3.Not(ok(x))),
                           patterns=[reg(x)]))
    E.extra_axioms["operands"] = lambda x: [0 <= x, z3.Implies(o_ok(x.arg(0)), 1 <= x)]


def first(a, k):
    return list(k.values())[0] if not a else a[0]


def lower_level(E, name):
    def h(E, a, k):
        z = E.zs(E.force(first(a, k)))
        reg = issues_of(E, p_reg(z), p_ok(z))
        if E.decide(p_ok(z)):
            return (Operand(p_op(z)), reg)
        return (models.INVALID, reg)
    E.handlers["src.filter.Filter." + name] = h


def split(E, word):
    def h(E, a, k):
        k = dict(zip(("op_exp", "regexp", "operator_name"), a), **k)
        if k["operator_name"] != word or k["regexp"] is not getattr(m_filter, word.upper() + "_LOGICAL_OPERATOR_SPLIT_REGEX", None):
            raise Unsupported("split of operands")
        z = E.zs(E.force(k["op_exp"]))
        reg = issues_of(E, o_reg(z), o_ok(z))
        for n in (1, 2, 3):     # few operands: exact; any number: by induction
            if E.decide(o_len(z) == n):
                return (E.new([SS(o_at(z, z3.IntVal(i))) for i in range(n)]), reg)
        return (Seq(o_len(z), lambda i: SS(o_at(z, i))), reg)
    E.handlers["src.filter.Filter._split_exp_to_logical_operands"] = h


def level(method, word, cls, below):
    @contract("C12", "Filter." + method)
    def c(E):
        E.trusted |= {SPLIT, LOWER}
        attrs.install(E)
        accounts(E)
        split(E, word)
        lower_level(E, below)
        E.handlers["src.filter.Filter._encode_placeholders"] = lambda E, a, k: SS(E.fresh("message", T.Str))
        if word == "and":
            pat = m_filter.NOT_LOGICAL_OPERATOR_REGEX
            if pat.pattern != r"\s*\bnot\b\s*(.*)":
                raise Unsupported("pattern of the negation")
            p = f"{pat.pattern} {int(pat.flags)}"
            E.re_known, E.re_groups = {(p, "match"): is_not}, {(p, "match", 1): not_of}
            E.trusted.add(NEGATION)
        text = world.str_(E, "text")
        z = text.z
        kind, r = world.outcome(E, lambda: E.call(getattr(m_filter.Filter, method), [text, OPAQUE, OPAQUE, OPAQUE], {}))
        if kind == "raise":
            if isinstance(r, TypeError) and "argument" in str(r):
                raise Unsupported(str(r))
            E.prove(f"never raises ({type(r).__name__}: {r})", False)
        if not isinstance(r, tuple) or len(r) != 2:
            raise Unsupported("result of the helper")
        got, reg = r
        i = z3.Int("i")
        well = z3.And(o_ok(z), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o_len(z)), accepted(E, word, o_at(z, i)))))
        ok = zb(E.truth(E.call(E.getattr(reg, "can_proceed"), [], {})))
        E.prove("accepted exactly if no operand is missing and all are well formed", ok == well)
        got = E.force(got)
        if got is models.INVALID or got is None:
            E.prove("a filter is returned for a well-formed text", z3.Not(well))
            E.completed += 1
            return
        E.prove("no filter is returned for other texts", well)
        if E.decide(o_len(z) == 1):
            is_operand(E, got, word, o_at(z, z3.IntVal(0)))
        else:
            E.prove(f"{word} of the operands", type(got) is cls)
            subs = E.force(E.getattr(got, "sub_operators"))
            same(E, E.call(len, [subs], {}), SI(o_len(z)), "as many operands as written")
            if isinstance(subs, list) and not any(isinstance(x, LSeg) for x in subs):
                for j, x in enumerate(subs):
                    is_operand(E, x, word, o_at(z, z3.IntVal(j)))
            else:
                j = E.fresh("j", I)
                E.assume(z3.And(0 <= j, j < o_len(z)))
                is_operand(E, E.getitem(subs, SI(j)), word, o_at(z, j))
        E.completed += 1


def accepted(E, word, z):
    if word == "or":
        return p_ok(z)
    return z3.If(is_not(z), z3.And(not_of(z) != E.lit(""), p_ok(not_of(z))), p_ok(z))


def is_operand(E, x, word, z):
    x = E.force(x)
    if word == "and" and E.decide(is_not(z)):
        E.prove("the negated operand is negated", type(x) is op.Not)
        x, z = E.force(E.getattr(x, "sub_operator")), not_of(z)
    E.prove("the operand in its place", isinstance(x, Operand) and x.t == p_op(z))


level("_parsed_op_or_exp", "or", op.Or, "_parse_op_and_exp")
level("_parse_op_and_exp", "and", op.And, "_parse_op_attr_exp")


# ---------------------------------------------------------------- filters as dictionaries
@contract("C12", "Filter._to_dict")
def to_dict(E):
    """to_dict says what the operator is; operands by induction"""
    attrs.install(E)
    E.trusted.add(INDUCTION)
    d_of = F("dict_of", T.Opr, Val)
    fn = m_filter.Filter._to_dict
    p = [SS(E.fresh("x" + n, T.Str)) for n in ("schema", "attr", "sub")]
    rep = attrs.impl_rep(E, *p, False)
    v = world.val(E, "value")
    kinds = ["pr", *spec.BINARY, "complex", "not", "and", "or"]
    which = E.fresh("kind", I)
    E.assume(z3.And(0 <= which, which < len(kinds)))
    kind = kinds[E.choose([which == i for i in range(len(kinds))])]
    sub = Operand(E.fresh("operand", T.Opr))
    n, at = E.fresh("n", I), E.fresh_fun("operand", I, T.Opr)
    E.assume(n >= 0)
    if kind == "complex":
        o = E.construct(op.ComplexAttributeOperator, [rep, sub], {})
    elif kind == "not":
        o = E.construct(op.Not, [sub], {})
    elif kind in ("and", "or"):
        o = E.construct({"and": op.And, "or": op.Or}[kind], [StarSeq(Seq(n, lambda k: Operand(at(k))))], {})
    elif kind == "pr":
        o = E.construct(op.Present, [rep], {})
    else:
        E.assume(z3.Or(Val.is_none(v.z), Val.is_bool_(v.z), Val.is_int_(v.z), Val.is_flt_(v.z), Val.is_str_(v.z)))
        made, o = world.outcome(E, lambda: E.construct(OPS[kind], [rep, v], {}))
        if made == "raise":
            E.completed += 1
            return

    def h(E, a, k):
        x = E.force(first(a, k))
        return SV(d_of(x.t)) if isinstance(x, Operand) else NotImplemented
    E.handlers["src.filter.Filter._to_dict"] = h
    kind_, r = world.outcome(E, lambda: E.call(fn, [o], {}))
    if kind_ == "raise":
        E.prove(f"does not raise ({type(r).__name__}: {r})", False)
    r = E.force(r)
    if not isinstance(r, dict):
        raise Unsupported("representation")
    want = {"op": kind}
    if kind not in ("not", "and", "or"):
        want["attr_rep"] = p[2] if E.decide(p[2].z != E.lit("")) else E.call(spec_core.with_schema, p[:2], {})
    if kind in spec.BINARY:
        want["value"] = v
    if kind in ("complex", "not"):
        want["sub_op"] = SV(d_of(sub.t))
    if kind in ("and", "or"):
        want["sub_ops"] = Seq(n, lambda k: SV(d_of(at(k))))
    E.prove("exactly the parts of the operator", set(r) == set(want))
    for m, x in want.items():
        same(E, r[m], x, f"{m} is that of the operator")
    E.completed += 1


INDUCTION = "operands are represented by their dictionaries (induction over the expression)"


# ---------------------------------------------------------------- patch paths
@contract("C12", "PatchPath._get_sub_attr_rep")
def sub_attribute(E):
    attrs.install(E)
    by_contract(E)
    install(E)
    p = [SS(E.fresh("x" + n, T.Str)) for n in ("schema", "attr")]
    text = world.str_(E, "text")
    reg = Reg(E)
    kind, r = world.outcome(E, lambda: E.call(m_path.PatchPath._get_sub_attr_rep, [
        reg, attrs.impl_rep(E, p[0], p[1], "", False), text], {}))
    if kind == "raise":
        if isinstance(r, TypeError) and "argument" in str(r):
            raise Unsupported(str(r))
        E.prove(f"never raises ({type(r).__name__}: {r})", False)
    z, e = text.z, E.lit("")
    ok = z3.Not(zb(E.truth(E.call(E.getattr(reg, "has_issues"), [], {}))))
    E.prove("text that is no notation is reported", z3.Implies(z3.Not(n_ok(z)), z3.Not(ok)))
    if E.decide(z3.And(n_ok(z), n_part["schema"](z) == e, n_part["sub"](z) == e)):
        E.prove("the name of a sub-attribute is accepted", ok)
        rep_same(E, r, attrs.spec_rep(E, p[0], p[1], SS(n_part["attr"](z)), False), "sub-attribute")
    E.completed += 1


@contract("C12", "PatchPath.__init__")
def path(E):
    """parts that belong together are accepted and kept"""
    attrs.install(E)
    by_contract(E)
    p = [SS(E.fresh("x" + n, T.Str)) for n in ("schema", "attr", "sub")]
    bracket, tail = E.decide(E.fresh("bracket", B)), E.decide(E.fresh("tail", B))
    filter_ = sub = None
    if bracket:
        filter_ = E.construct(m_filter.Filter, [E.construct(op.ComplexAttributeOperator, [
            attrs.impl_rep(E, p[0], p[1], "", False), Operand(E.fresh("operand", T.Opr))], {})], {})
        if tail:
            E.assume(p[2].z != E.lit(""))
            sub = attrs.impl_rep(E, *p, False)
    rep = attrs.impl_rep(E, p[0], p[1], "" if bracket else p[2], False)
    kind, r = world.outcome(E, lambda: E.construct(m_path.PatchPath, [rep, filter_, sub], {}))
    if kind == "raise":
        E.prove(f"parts of one path are accepted ({type(r).__name__})", False)
    E.prove("the attribute is kept", E.getattr(r, "attr_rep") is rep)
    E.prove("the filter is kept", E.getattr(r, "complex_filter") is filter_)
    E.prove("the sub-attribute is kept", E.getattr(r, "complex_filter_attr_rep") is sub)
    E.completed += 1
