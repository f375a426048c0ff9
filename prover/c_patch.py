"""PATCH (C14): the rules for one operation, any schema, path and value."""
import z3

from oracle import messages as spec
from oracle.core import MISSING
import src.assets.schemas.patch_op as m_patch
import src.request_validators as rv

from . import attrs, models, theory as T, world
from .c_complex import subs_by_contract
from .c_list import loc
from .c_valid import CkS, const, install, judge as judge_request, new, presence_reg, process, s_attrs, schema
from .engine import Model
from .models import Ent, Reg, SymCont, same
from .run import contract
from .theory import Nat, OPAQUE, SB, SI, SS, SV, Seq, Unsupported, Val

I, B = z3.IntSort(), z3.BoolSort()
PathS = z3.DeclareSort("Path")
p_part = {n: z3.Function("path_" + n, PathS, B if n.endswith("ext") else T.Str) for n in (
    "schema", "attr", "sub", "ext", "f_schema", "f_attr", "f_sub", "f_ext")}
p_filter = z3.Function("path_has_filter", PathS, B)
p_sub = z3.Function("path_has_sub", PathS, B)
p_obj = z3.Function("path_object", PathS, T.Oth)
PATHS = "a parsed path is an attribute notation, perhaps a filter, perhaps a notation of a filtered sub-attribute (C12)"
PARENTS = "the parent of every attribute of a schema is an attribute of that schema (C21)"


def rep(E, t, which, is_spec):
    x = [SS(p_part[which + n](t)) for n in ("schema", "attr", "sub")] + [SB(p_part[which + "ext"](t))]
    return (attrs.spec_rep if is_spec else attrs.impl_rep)(E, *x)


class FilterTok(Model):
    """the filter of a path: on the attribute of the path"""

    def __init__(self, t):
        self.t = t

    def attr(self, E, name):
        if name == "operator":
            return self
        if name == "attr_rep":
            return rep(E, self.t, "", False)
        return super().attr(E, name)

    def truth(self, E):
        return True

    def equals(self, E, other):
        return self.t == other.t if isinstance(other, FilterTok) else False


class Path(Model):
    """a parsed path as the code sees it"""

    def __init__(self, t):
        self.t = t

    def attr(self, E, name):
        if name == "attr_rep":
            return rep(E, self.t, "", False)
        if name == "complex_filter":
            return FilterTok(self.t) if E.decide(p_filter(self.t)) else None
        if name == "complex_filter_attr_rep":
            return rep(E, self.t, "f_", False) if E.decide(p_sub(self.t)) else None
        return super().attr(E, name)

    def truth(self, E):
        return True

    def equals(self, E, other):
        return self.t == other.t if isinstance(other, (Path, SpecPath)) else False

    def subst(self, E, pairs, funs):
        return type(self)(E.subst(self.t, pairs, funs))

    def as_val(self, E):
        return Val.oth_(p_obj(self.t))


class SpecPath(Model):
    def __init__(self, t):
        self.t = t

    def pieces(self, E):
        return [self.getitem(E, i) for i in range(4)]

    def getitem(self, E, i):
        t = self.t
        if i == 1:
            return rep(E, t, "", True)
        if i == 2:
            return FilterTok(t) if E.decide(p_filter(t)) else None
        if i == 3:
            return rep(E, t, "f_", True) if E.decide(p_sub(t)) else None
        return "path"

    truth, equals, subst, as_val = Path.truth, Path.equals, Path.subst, Path.as_val


def setup(E):
    install(E)
    subs_by_contract(E)
    E.trusted.add(PATHS)
    E.assumptions.add(PARENTS)
    s, t = schema(E)
    o = m_patch.PatchOp(None)
    E.new(o)
    E.handlers["src.data.schemas.BaseSchema.__init__"] = lambda E, a, k: None
    E.call(m_patch.PatchOp.__init__, [o, s], {})
    return o, t


def path(E):
    t = E.fresh("path", PathS)
    E.assume(parsed_path(E, t))
    return Path(t), SpecPath(t)


def parsed_path(E, t):
    """what the constructor of a path guarantees"""
    e = E.lit("")
    low = lambda n: T.lower(p_part[n](t))  # noqa: E731
    return z3.And(z3.Implies(p_sub(t), z3.And(p_filter(t), low("f_attr") == low("attr"), p_part["f_sub"](t) != e)),
                  z3.Implies(p_filter(t), p_part["sub"](t) == e))


def judge(E, what, run, want, values=True):
    w, wk = world.outcome(E, want)
    if w == "raise":
        E.completed += 1
        return
    kind, r = world.outcome(E, run)
    if kind == "raise":
        E.prove(f"{what} does not raise ({type(r).__name__}: {r})", False)
    value, issues = wk
    same(E, r[1], issues, f"{what}: exactly the prescribed issues")
    if values:
        same(E, r[0], value, f"{what}: its value")
    E.completed += 1


@contract("C14", "PatchOp._parse_remove_operation")
def remove(E):
    o, t = setup(E)
    p, sp = path(E)
    judge(E, "removal", lambda: E.call(E.getattr(o, "_parse_remove_operation"), [p], {}),
          lambda: E.call(spec.patch_removal, [t, sp], {}))


COMPLEX = "an accepted complex value is an object, or a list of objects if multi-valued (contract C07)"


def accepted_complex(E, t, z):
    """contract C07: a value accepted by a complex attribute"""
    out = z3.Function("att_parse", T.Att, Val, Val)(t, z)
    R = z3.Function("att_parse_reg", T.Att, Val, T.RegS)(t, z)
    j = z3.Int("j!")
    item = T.l_item(Val.l(out), j)
    E.fact(z3.Or(T.r_has(R, T.Loc.nil), z3.Not(attrs.a_complex(t)), Val.is_none(out),
                 z3.And(z3.Not(attrs.a_multi(t)), Val.is_cont_(out)),
                 z3.And(attrs.a_multi(t), Val.is_lst_(out), z3.ForAll([j], z3.Implies(
                     z3.And(0 <= j, j < T.l_len(Val.l(out))), Val.is_cont_(item)), patterns=[item]))))


def complex_values(E):
    E.trusted.add(COMPLEX)
    for name in ("src.data.attributes.Attribute.parse", "src.data.attributes.ComplexAttribute.parse", "oracle.attributes.process"):
        h = E.handlers[name]

        def g(E, a, k, h=h):
            t = getattr(E.force(a[0]), "__dict__", {}).get("__att__")
            if t is not None:
                accepted_complex(E, t, E.toval(a[1] if len(a) > 1 else k["value"]))
            return h(E, a, k)
        E.handlers[name] = g
    e = E.lit("")

    def on_at(t):
        # sub-attributes are declared by plain names
        if t.arg(0).decl().name() == "a_subs":
            return [attrs.a_schema(t) == e, attrs.a_sub(t) == e, z3.Not(attrs.a_ext(t))]
        return []
    E.extra_axioms.update(a_at=on_at)


@contract("C14", "PatchOp._parse_operation_value, no path")
def value_no_path(E):
    o, t = setup(E)
    v = world.val(E, "value")
    p = models.MISSING if E.decide(E.fresh("absent", B)) else None
    judge(E, "value", lambda: E.call(E.getattr(o, "_parse_operation_value"), [p, v], {}),
          lambda: E.call(spec.patch_value, [t, None, v], {}))


@contract("C14", "PatchOp._parse_operation_value, path")
def value_path(E):
    o, t = setup(E)
    complex_values(E)
    p, sp = path(E)
    v = world.val(E, "value")
    E.assume(E.truth(E.call(spec.patch_target_known, [t, sp], {})))
    judge(E, "value", lambda: E.call(E.getattr(o, "_parse_operation_value"), [p, v], {}),
          lambda: E.call(spec.patch_value, [t, sp, v], {}))


# ---------------------------------------------------------------------- the operations of a request
VALUE = "the value of an operation is a function of schema, path and value (contract of _parse_operation_value above)"
NO_PATH = z3.Const("no_path", PathS)


def path_term(E, p):
    p = E.force(p)
    if isinstance(p, (Path, SpecPath)):
        return p.t
    if p is None or p is models.MISSING:
        return NO_PATH
    raise Unsupported("path")


def function(E, name, t, sorts, args):
    """result and issues of a step known by contract"""
    ss = [T.Sch] + sorts
    out, R = (z3.Function(name + x, *ss, y)(t, *args) for x, y in (("", Val), ("_reg", T.RegS)))
    return SV(out), Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])


@contract("C14", "PatchOp._parse_add_or_replace_operation")
def update(E):
    o, t = setup(E)
    E.trusted.add(VALUE)
    val = lambda E, a, k: function(E, "patch_value", t.t, [PathS, Val], [path_term(E, a[1]), E.toval(a[2])])  # noqa: E731
    E.handlers["src.assets.schemas.patch_op.PatchOp._parse_operation_value"] = val
    E.handlers["oracle.messages.patch_value"] = val
    v, op = world.val(E, "value"), SS(E.fresh("op", T.Str))
    # containers convert what is given to them; the value of an operation comes from one
    f = z3.Function("patch_value", T.Sch, PathS, Val, Val)
    if E.decide(E.fresh("no_path", B)):
        p, sp = (None, None) if E.decide(E.fresh("null", B)) else (models.MISSING, MISSING)
        E.assume(z3.Not(Val.is_dict_(f(t.t, NO_PATH, v.z))))
    else:
        p, sp = path(E)
        E.assume(z3.Not(Val.is_dict_(f(t.t, p.t, v.z))))
    judge(E, "operation", lambda: E.call(E.getattr(o, "_parse_add_or_replace_operation"), [op, p, v], {}),
          lambda: E.call(spec.patch_update, [t, op, sp, v], {}))


STEPS = "_parse_remove_operation, _parse_add_or_replace_operation by their contracts (above)"
REQUEST = ("schema processing of a patch request (contracts C06, C07, C08, C12): unblocked Operations are absent, null or a list "
           "of objects; an operation type is one of the three words, null, absent or invalid, a path is parsed, null, absent or "
           "invalid, and invalid parts are reported under the operation")
OPS = ["add", "remove", "replace"]
o_kind = z3.Function("op_kind", T.Cont, I, I)          # 0-2 a word, 3 null, 4 absent, 5 invalid
o_pkind = z3.Function("op_path_kind", T.Cont, I, I)    # 0 a path, 1 null, 2 absent, 3 invalid
o_path = z3.Function("op_path", T.Cont, I, PathS)
o_value = z3.Function("op_value", T.Cont, I, Val)
o_list = z3.Function("operations_given", T.Cont, B)    # a list
o_null = z3.Function("operations_null", T.Cont, B)
o_len = z3.Function("operations_len", T.Cont, I)


def op_part(E, c, k, name, is_spec):
    if name == "op":
        z = o_kind(c, k)
        for i, w in enumerate(OPS):
            if E.decide(z == i):
                return w
        return None if E.decide(z == 3) else models.MISSING if E.decide(z == 4) else models.INVALID
    if name == "path":
        z = o_pkind(c, k)
        if E.decide(z == 0):
            return (SpecPath if is_spec else Path)(o_path(c, k))
        return None if E.decide(z == 1) else models.MISSING if E.decide(z == 2) else models.INVALID
    if name == "value":
        return SV(o_value(c, k))
    raise Unsupported(f"part {name} of an operation")


class OpItem(Model):
    def __init__(self, c, k):
        self.c, self.k = c, k

    def attr(self, E, name):
        if name == "get":
            return Nat(lambda n: op_part(E, self.c, self.k, n, True), name)
        return super().attr(E, name)

    def subst(self, E, pairs, funs):
        return OpItem(E.subst(self.c, pairs, funs), E.subst(self.k, pairs, funs))


class Request(SymCont):
    """a processed patch request"""
    is_spec = False

    def read(self, E, key):
        if isinstance(key[1], str) and key[1].lower() == "operations" and not self.writes:
            c = self.base
            if not E.decide(o_list(c)):
                return None if E.decide(o_null(c)) else models.MISSING
            if not key[2]:
                return Seq(o_len(c), lambda k: OpItem(c, k))
            return Seq(o_len(c), lambda k: op_part(E, c, k, key[2], False))
        return super().read(E, key)


def request(E, t, v):
    z = E.toval(v)
    c = z3.Function("patch_parse", T.Sch, Val, T.Cont)(t, z)
    ok = z3.Function("patch_parse_ok", T.Sch, Val, B)(t, z)
    R = z3.Function("patch_parse_reg", T.Sch, Val, T.RegS)(t, z)
    E.fact(z3.Or(ok, T.r_blk(R, T.Loc.nil)))
    reg = Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])
    if not E.decide(ok):
        return models.INVALID, reg
    E.fact(o_len(c) >= 0)
    return Request(E, c), reg


def facts_of_requests(E):
    def inv(x):
        c = x.arg(0)
        R = z3.Function("patch_parse_reg", T.Sch, Val, T.RegS)(c.arg(0), c.arg(1))
        return T.r_has(R, models.loc_term(models.atoms(E, ("Operations", SI(x.arg(1))))))

    def here(f):
        return lambda x: f(x) if x.arg(0).decl().name() == "patch_parse" else []
    E.extra_axioms.update(
        op_kind=here(lambda x: [0 <= x, x <= 5, z3.Or(x < 5, inv(x))]),
        op_path_kind=here(lambda x: [0 <= x, x <= 3, z3.Or(x < 3, inv(x))]),
        op_value=here(lambda x: [z3.Not(Val.is_dict_(x)), z3.Or(z3.Not(Val.is_invalid(x)), inv(x))]),
        op_path=here(lambda x: [parsed_path(E, x)]))


def steps(E, t):
    facts_of_requests(E)
    E.trusted |= {STEPS, REQUEST}

    def remove(p):
        return function(E, "patch_removal", t.t, [PathS], [path_term(E, p)])

    def update(op, p, v):
        return function(E, "patch_update", t.t, [T.Str, PathS, Val], [E.zs(op), path_term(E, p), E.toval(v)])
    h = E.handlers
    h["src.assets.schemas.patch_op.PatchOp._parse_remove_operation"] = lambda E, a, k: remove(a[1])
    h["src.assets.schemas.patch_op.PatchOp._parse_add_or_replace_operation"] = lambda E, a, k: update(a[1], a[2], a[3])
    h["oracle.messages.patch_removal"] = lambda E, a, k: remove(a[1])
    h["oracle.messages.patch_update"] = lambda E, a, k: update(a[1], a[2], a[3])
    h["src.data.schemas.BaseSchema.parse"] = lambda E, a, k: request(E, t.t, a[1])
    h["oracle.schemas.process_schema"] = lambda E, a, k: request(E, t.t, a[1])


@contract("C14", "PatchOp.parse")
def parse(E):
    o, t = setup(E)
    steps(E, t)
    v = world.val(E, "body")
    judge(E, "request", lambda: E.call(E.getattr(o, "parse"), [v], {}), lambda: E.call(spec.patch_op, [t, v], {}))


class RealItem(Model):
    """an operation as the code sees it"""

    def __init__(self, c, k):
        self.c, self.k = c, k

    def name_of(self, E, rep):
        n = E.force(E.getattr(rep, "attr"))
        if not isinstance(n, str):
            raise Unsupported("part of an operation")
        return n

    def getitem(self, E, rep):
        return op_part(E, self.c, self.k, self.name_of(E, rep), False)

    def delitem(self, E, rep):
        # only ever for an operation that is reported; what it leaves is not compared
        self.name_of(E, rep)

    def subst(self, E, pairs, funs):
        return RealItem(E.subst(self.c, pairs, funs), E.subst(self.k, pairs, funs))


@contract("C14", "validate_operations")
def operations(E):
    install(E)
    E.trusted.add(PATHS)
    E.assumptions.add("custom processors run on operations without issues (contract C06/C07)")
    c = E.fresh("operations", T.Cont)
    E.assume(o_len(c) >= 0)
    E.extra_axioms.update(
        op_kind=lambda x: [0 <= x, x <= 4], op_path_kind=lambda x: [0 <= x, x <= 2],
        op_value=lambda x: [z3.Not(Val.is_dict_(x)), z3.Not(Val.is_invalid(x))], op_path=lambda x: [parsed_path(E, x)])
    judge(E, "operations", lambda: E.call(m_patch.validate_operations, [Seq(o_len(c), lambda k: RealItem(c, k))], {}),
          lambda: E.call(spec._operations, [Seq(o_len(c), lambda k: OpItem(c, k))], {}), False)


ITEMS = "_check_complex_sub_attrs_presence by its contract (above)"
items_checker = z3.Function("items_checker", T.Att, CkS)


def items_effect(E, issues, a, v, loc, checker):
    """what the check of new items adds, in closed form"""
    a, v = E.force(a), E.force(v)
    if a is None:
        return
    t = a.__dict__["__att__"]
    if not E.decide(z3.And(attrs.a_complex(t), attrs.a_multi(t))):
        return
    if not (isinstance(v, SV) and E.decide(Val.is_lst_(v.z))):
        if isinstance(v, (SV, type(None))) or v in (models.MISSING, models.INVALID):
            return
        raise Unsupported("value of an operation")
    loc = models.as_loc(E, loc)
    j = z3.Int(E.uniq("j"))
    item = T.l_item(Val.l(v.z), j)
    R = presence_reg(checker(t), Val.c(item), T.a_subs(t), z3.BoolVal(True))
    g = z3.And(Val.is_cont_(item), z3.Not(issues.f_has(E, loc + (SI(j),))))
    issues.put(E, issues.entries + (Ent(((j, T.l_len(Val.l(v.z))),), g, loc + (SI(j),), None, None, R),))


@contract("C14", "ResourceObjectPATCH._check_complex_sub_attrs_presence")
def new_items(E):
    install(E)
    E.eager_checkers = True
    t = E.fresh("attr", T.Att)
    v = world.val(E, "value")
    R = E.fresh("before", T.RegS)
    regs = [Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)]) for _ in range(3)]
    kind, r = world.outcome(E, lambda: E.call(rv.ResourceObjectPATCH._check_complex_sub_attrs_presence, [], dict(
        issues=regs[0], attr=attrs.impl_attr(E, t), value=v, value_location=("x",))))
    if kind == "raise":
        E.prove(f"does not raise ({type(r).__name__}: {r})", False)
    E.call(spec.new_items, [regs[1], attrs.spec_attr(E, t), v, ("x",)], {})
    same(E, regs[0], regs[1], "exactly the prescribed issues of new items")
    terms = [x[2] for x in E.memo if x[0] == "checker"]
    items_effect(E, regs[2], attrs.spec_attr(E, t), v, ("x",), lambda t: terms[0])
    same(E, regs[1], regs[2], "the issues of new items in closed form")
    E.completed += 1


PARSED = ("PatchOp.parse by its contract (above): unblocked Operations are absent, null or a list of objects, rejected ones are "
          "invalid; no raw dictionaries")
o_inv = z3.Function("op_invalid", T.Cont, I, B)


class Parsed(SymCont):
    """a patch request after PatchOp.parse"""

    def read(self, E, key):
        if isinstance(key[1], str) and key[1].lower() == "operations":
            c = self.base
            if not E.decide(o_list(c)):
                return None if E.decide(o_null(c)) else models.MISSING
            if not key[2]:
                return Seq(o_len(c), lambda k: models.INVALID if E.decide(o_inv(c, k)) else ParsedItem(E, c, k))
            return Seq(o_len(c), lambda k: models.MISSING if E.decide(o_inv(c, k)) else op_part(E, c, k, key[2], False))
        return super().read(E, key)


class ParsedItem(SymCont):
    def __init__(self, E, c, k):
        self.c, self.k = c, k
        super().__init__(E, z3.Function("op_at", T.Cont, I, T.Cont)(c, k))

    def read(self, E, key):
        return op_part(E, self.c, self.k, key[1], True)

    def subst(self, E, pairs, funs):
        return ParsedItem(E, E.subst(self.c, pairs, funs), E.subst(self.k, pairs, funs))


@contract(["C14", "C15"], "ResourceObjectPATCH.parse_request")
def patch_request(E):
    install(E)
    E.carry_facts = False
    E.trusted |= {PARSED, ITEMS, PATHS, "the presence check blocks at a required attribute without value (contract C09)"}
    s, t = schema(E)
    real = m_patch.PatchOp(None)
    E.constructors[m_patch.PatchOp] = lambda E, a, k: real
    E.attr_tokens.append((real.attrs, s_attrs(const(real.schema))))
    E.extra_axioms.update(
        op_kind=lambda x: [0 <= x, x <= 5], op_path_kind=lambda x: [0 <= x, x <= 3],
        op_value=lambda x: [z3.Not(Val.is_dict_(x))], op_path=lambda x: [parsed_path(E, x)])

    def parsed(E, v):
        z = E.toval(v)
        c = z3.Function("patched", T.Sch, Val, T.Cont)(t.t, z)
        ok = z3.Function("patched_ok", T.Sch, Val, B)(t.t, z)
        R = z3.Function("patched_reg", T.Sch, Val, T.RegS)(t.t, z)
        E.fact(z3.Or(ok, T.r_blk(R, T.Loc.nil)))
        E.fact(o_len(c) >= 0)
        reg = Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])
        return (Parsed(E, c) if E.decide(ok) else models.INVALID), reg

    own = s_attrs(const(real.schema))
    E.extra_axioms["presence_reg"] = lambda R: [z3.Or(T.r_blk(R, loc(E, "Operations")), o_list(R.arg(1)))] if R.arg(2).eq(own) and str(R.arg(0)) == "checker:None" else []
    h = E.handlers
    h["src.assets.schemas.patch_op.PatchOp.parse"] = lambda E, a, k: parsed(E, a[1])
    h["oracle.messages.patch_op"] = lambda E, a, k: parsed(E, a[1])
    h["src.request_validators.ResourceObjectPATCH._check_complex_sub_attrs_presence"] = lambda E, a, k: items_effect(
        E, k["issues"], k["attr"], k["value"], k["value_location"], items_checker)
    h["oracle.messages.new_items"] = lambda E, a, k: items_effect(E, *a, items_checker)
    S, nothing = s_attrs(t.t), E.lit("")
    E.trusted.add("multi-valued complex attributes of a schema are no sub-attributes and differ in name")
    E.extra_axioms.update(a_at=lambda x: [z3.Implies(z3.And(attrs.a_complex(x), attrs.a_multi(x)), attrs.a_sub(x) == nothing)]
                          if x.arg(0).eq(S) else [])
    E.distinct = lambda x, k: x.eq(T.Atom.as_(attrs.a_attr(T.a_at(S, k))))
    v = world.val(E, "body")
    o = new(E, rv.ResourceObjectPATCH, resource_schema=s)
    judge_request(E, "PATCH request", lambda: E.call(E.getattr(o, "parse_request"), [], {"body": v}),
                  lambda: E.call(spec.patch_request, [t, v], {}))
