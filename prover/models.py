"""Abstract views (by contract) of the classes the code builds on, and models of builtins."""
import ast
import base64
import binascii
import builtins
import collections
import collections.abc
import copy
import enum
import functools
import itertools
import math
import operator
import re
import types
import typing
import urllib.parse
from datetime import datetime

import z3

from oracle.core import C as SpecC, INVALID, Issues as SpecIssues, MISSING

from . import theory as T
from .engine import Abort, Bound, Closure, Fn, Model, PyRaise, Refuted, UNDEF, conj, disj, zb
from .theory import (
    Err, LSeg, Lazy, Nat, OPAQUE, Opaque, SB, SDate, SEnum, SFlt, SI, SS, SV, Seq, Sym, Unsupported, Val,
)

I, B = z3.IntSort(), z3.BoolSort()
Bytes = z3.DeclareSort("Bytes")
F = z3.Function


class SX(Sym):
    """value of some uninterpreted sort that only supports equality"""


# ---------------------------------------------------------------------- strings
s_cat = F("s_cat", T.Str, T.Str, T.Str)
s_has = F("s_has", T.Str, T.Str, B)
s_starts = F("s_starts", T.Str, T.Str, B)
s_ends = F("s_ends", T.Str, T.Str, B)
s_lt = F("s_lt", T.Str, T.Str, B)
s_of_val = F("s_of_val", Val, T.Str)
colon_free = F("colon_free", T.Str, B)
before_colon = F("before_colon", T.Str, T.Str)
after_colon = F("after_colon", T.Str, T.Str)
is_ascii = F("is_ascii", T.Str, B)
ascii_bytes = F("ascii_bytes", T.Str, Bytes)
b64_ok = F("b64_ok", Bytes, B)
b64d = F("b64d", Bytes, Bytes)
b64e = F("b64e", Bytes, Bytes)
url_ok = F("url_ok", T.Str, B)
url_part = {n: F("url_" + n, T.Str, T.Str) for n in ("scheme", "netloc", "path", "query", "fragment", "params")}
iso_ok = F("iso_ok", T.Str, B)
iso_date = F("iso_date", T.Str, T.Date)
date_iso_f = F("date_iso", T.Date, T.Str)
f_fin = F("f_fin", T.Flt, B)
f_floor = F("f_floor", T.Flt, I)
f_trunc = F("f_trunc", T.Flt, I)
f_eq_int = F("f_eq_int", T.Flt, I, B)
f_big = F("f_big", I, B)
f_of_int = F("f_of_int", I, T.Flt)
peq = F("peq", Val, Val, B)
deq = F("deq", T.Date, T.Date, B)
STR_METHODS = {"lower", "upper", "startswith", "endswith", "split", "strip", "encode", "count", "index", "replace",
               "isdigit", "find", "format", "join", "casefold", "rsplit", "partition", "rpartition", "removeprefix",
               "lstrip", "rstrip", "title", "isdecimal", "isalnum"}

AXIOMS_NOTE = "str.lower is idempotent and maps only '' to ''; == on floats and dates is reflexive (NaN excluded)"


def base_axioms():
    x = z3.Const("x", T.Str)
    return [z3.ForAll([x], T.lower(T.lower(x)) == T.lower(x), patterns=[T.lower(T.lower(x))])]


AXIOM_FUNS = {"int_ok", "d_has", "d_get", "strlen", "a_at", "l_item", "a_find", "lower", "s_cat", "l_len", "k_len", "a_len", "r_has", "r_blk", "c_get", "s_lt"}


def axioms_of(E, t):
    """instances of the theory axioms for the ground term t"""
    n = t.decl().name()
    e = E.lit("")
    if n.startswith("str:"):
        return E.strings.axioms_of(t)
    extra = E.extra_axioms.get(n)
    if extra is not None:
        return list(extra(t)) + axioms_of_(E, t, n, e)
    return axioms_of_(E, t, n, e)


def push_lower(E, z):
    """lower(z), distributed over concatenation"""
    if z3.is_app(z) and z.decl().eq(s_cat):
        return s_cat(push_lower(E, z.arg(0)), push_lower(E, z.arg(1)))
    n = z.decl().name() if z3.is_app(z) else ""
    if n.startswith("str:"):
        return E.lit(n[4:].lower())
    if n == "lower":
        return z
    return T.lower(z)


def axioms_of_(E, t, n, e):
    if n in RE_FUNS:
        return [z3.Implies(t, RE_FUNS[n](E, t.arg(0)))]
    if n == "lower":
        x = t.arg(0)
        return [T.lower(t) == t, (t == e) == (x == e), colon_free(t) == colon_free(x)] if not (
            z3.is_app(x) and x.decl().eq(T.lower)) else []
    if n == "s_cat":
        a, b = t.arg(0), t.arg(1)
        out = [T.lower(t) == push_lower(E, t), (t == e) == z3.And(a == e, b == e),
               z3.Implies(a == e, t == b), z3.Implies(b == e, t == a)]
        if z3.is_app(a) and a.decl().eq(s_cat) and a.arg(1).eq(E.lit(":")):
            out.append(z3.Implies(colon_free(b), z3.And(before_colon(t) == a.arg(0), after_colon(t) == b)))
        return out
    if n == "strlen":
        return [t >= 0, (t == 0) == (t.arg(0) == e)]
    if n in ("l_len", "k_len", "a_len"):
        return [t >= 0]
    if n == "r_has":
        return [z3.Implies(t, T.r_has(t.arg(0), T.Loc.nil))]
    if n == "r_blk":
        return [z3.Implies(t, T.r_has(t.arg(0), T.Loc.nil)), z3.Implies(T.r_blk(t.arg(0), T.Loc.nil), t)]
    if n == "d_has":
        return [z3.Implies(t, T.d_len(t.arg(0)) > 0)]
    if n == "int_ok":
        return int_lemmas(t)
    if n == "d_get":
        return [z3.Not(Val.is_missing(t)), z3.Not(Val.is_invalid(t))]
    if n == "c_get":
        return [z3.Implies(t.arg(0) == T.c_empty, Val.is_missing(t))]
    if n == "s_lt":
        x, y = t.arg(0), t.arg(1)
        u = s_lt(y, x)
        return [z3.Not(z3.And(t, u)), z3.Or(t, u, x == y), z3.Implies(x == y, z3.Not(t))]
    return []


def concat(E, a, b):
    a, b = E.force(a), E.force(b)
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and a == "":
        return b
    if isinstance(b, str) and b == "":
        return a
    za, zb_ = E.zs(a), E.zs(b)
    r = s_cat(za, zb_)
    return SS(r)


def s_contains(a, b):
    return s_has(a, b)


def str_slice(E, o, lo, hi, st):
    if isinstance(o, SV):
        if E.decide(Val.is_lst_(o.z)):
            raise Unsupported("slice of a symbolic list")
        o = SS(E.zs(o))
    o = E.force(o)
    if st is not None:
        raise Unsupported("slice step")
    n = lambda x: "N" if x is None else x  # noqa: E731
    if all(x is None or isinstance(x, int) for x in (lo, hi)):
        f = F(f"slice_{n(lo)}_{n(hi)}", T.Str, T.Str)
        return SS(f(E.zs(o)))
    f = F("slice_i", T.Str, I, I, T.Str)
    return SS(f(E.zs(o), z3.IntVal(0) if lo is None else E.zi(lo), T.strlen(E.zs(o)) if hi is None else E.zi(hi)))


def str_method(E, s, name):
    z = s.z

    def arg(x):
        x = E.force(x)
        if isinstance(x, SV):
            if not E.decide(Val.is_str_(x.z)):
                raise PyRaise(TypeError("string expected"))
            return Val.s(x.z)
        if not isinstance(x, (str, SS)):
            raise PyRaise(TypeError("string expected"))
        return E.zs(x)
    if name in ("lower", "casefold"):
        if name == "casefold":
            raise Unsupported("casefold")
        return Nat(lambda: lower_of(E, z))
    if name == "upper":
        return Nat(lambda: SS(F("upper", T.Str, T.Str)(z)))
    if name in ("startswith", "endswith"):
        f = s_starts if name == "startswith" else s_ends

        def m(x, *rest):
            if rest:
                raise Unsupported(name)
            x = E.force(x)
            if isinstance(x, tuple):
                return E.mkb(disj([f(z, arg(y)) for y in x]))
            return SB(f(z, arg(x)))
        return Nat(m, name)
    if name == "encode":
        def enc(c="utf-8", *a):
            if c != "ascii" or a:
                raise Unsupported("encode")
            if E.decide(is_ascii(z)):
                return SX(ascii_bytes(z))
            raise PyRaise(UnicodeEncodeError("ascii", "", 0, 1, ""))
        return Nat(enc, name)
    if name in ("isdigit", "isdecimal", "isalnum"):
        return Nat(lambda: SB(F("s_" + name, T.Str, B)(z)))
    if name == "format":
        return Nat(lambda *a, **k: SS(E.fresh("fmt", T.Str)))
    if name in ("strip", "lstrip", "rstrip", "title"):
        def st(*a):
            if a:
                raise Unsupported(name)
            if name == "strip" and hasattr(E, "known_strip"):
                return SS(E.known_strip(z))
            return SS(F("s_" + name, T.Str, T.Str)(z))
        return Nat(st)
    if name in ("split", "rsplit", "partition", "rpartition"):
        def sp(*a):
            if any(not isinstance(x, (str, int)) for x in a):
                raise Unsupported(name)
            tag = "_".join(map(str, a))
            if name.endswith("partition"):
                return tuple(SS(F(f"s_{name}_{tag}_{i}", T.Str, T.Str)(z)) for i in range(3))
            l = F(f"s_{name}_{tag}", T.Str, T.Lst)(z)
            if a:
                E.fact(T.l_len(l) >= 1)
            return str_list(E, l)
        return Nat(sp)
    if name == "replace":
        return Nat(lambda a, b, *c: SS(F("s_replace" + "_".join(map(str, c)), T.Str, T.Str, T.Str, T.Str)(z, arg(a), arg(b))))
    if name == "count":
        return Nat(lambda a: SI(F("s_count", T.Str, T.Str, I)(z, arg(a))))
    if name == "join":
        return Nat(lambda a: SS(E.fresh("join", T.Str)))
    if callable(getattr(str, name, None)):
        raise Unsupported(f"str.{name}")
    raise PyRaise(AttributeError(name))


def str_list(E, l):
    return Seq(T.l_len(l), lambda k: SS(Val.s(T.l_item(l, k))), of=None)


def lower_of(E, z):
    return SS(T.lower(z))


# ---------------------------------------------------------------------- numbers, dates, equality
def f_is_int(z):
    return z3.And(f_fin(z), f_eq_int(z, f_floor(z)))


def date_eq(a, b):
    return z3.Or(a == b, deq(a, b))


def date_iso(z):
    return date_iso_f(z)


def py_eq(a, b):
    """Python == of two values"""
    if a.eq(b):
        return z3.BoolVal(True)
    single = lambda z: z3.Or(Val.is_none(z), Val.is_missing(z), Val.is_invalid(z))  # noqa: E731
    return z3.If(z3.And(Val.is_str_(a), Val.is_str_(b)), Val.s(a) == Val.s(b),
                 z3.If(z3.Or(single(a), single(b)), a == b,
                       z3.If(z3.And(Val.is_bool_(a), Val.is_bool_(b)), a == b,
                             z3.If(z3.And(Val.is_int_(a), Val.is_int_(b)), a == b,
                                   z3.If(z3.And(Val.is_str_(a) != Val.is_str_(b), z3.Not(Val.is_oth_(a)),
                                                z3.Not(Val.is_oth_(b))), False,
                                         z3.If(z3.And(Val.is_flt_(a), Val.is_int_(b)), f_eq_int(Val.f(a), Val.i(b)),
                                               z3.If(z3.And(Val.is_int_(a), Val.is_flt_(b)),
                                                     f_eq_int(Val.f(b), Val.i(a)), z3.Or(a == b, peq(a, b), peq(b, a)))))))))


cmp_f = {n: F("cmp" + n, Val, Val, B) for n in ("<", "<=", ">", ">=")}
cmp_ok = F("cmp_ok", Val, Val, B)


def order(E, name, a, b):
    """Python ordering with at least one symbolic operand: TypeError unless comparable"""
    if isinstance(a, (SS, str)) and isinstance(b, (SS, str)):
        x, y = E.zs(a), E.zs(b)
        lt = lambda p, q: s_lt(p, q)  # noqa: E731
        return {"<": lt(x, y), ">": lt(y, x), "<=": z3.Not(lt(y, x)), ">=": z3.Not(lt(x, y))}[name]
    x, y = E.toval(a), E.toval(b)
    isnum = lambda z: z3.Or(Val.is_int_(z), Val.is_bool_(z))  # noqa: E731
    if E.decide(z3.And(isnum(x), isnum(y))):
        num = lambda z: z3.If(Val.is_int_(z), Val.i(z), z3.If(Val.b(z), 1, 0))  # noqa: E731
        p, q = num(x), num(y)
        return {"<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[name]
    if E.decide(z3.And(Val.is_str_(x), Val.is_str_(y))):
        return order(E, name, SS(Val.s(x)), SS(Val.s(y)))
    isn2 = lambda z: z3.Or(isnum(z), Val.is_flt_(z))  # noqa: E731
    kinds = [z3.And(isn2(x), isn2(y)), z3.And(Val.is_date_(x), Val.is_date_(y)), z3.And(Val.is_lst_(x), Val.is_lst_(y)),
             z3.Or(Val.is_oth_(x), Val.is_oth_(y))]
    if E.decide(disj(kinds)):
        # floats always compare; naive and aware dates, lists and other objects may not
        if E.decide(z3.Or(kinds[0], cmp_ok(x, y))):
            if name in (">", ">="):
                name, x, y = {">": "<", ">=": "<="}[name], y, x
            return cmp_f[name](x, y)
    raise PyRaise(TypeError("not supported between instances"))


def arith_val(E, op, a, b):
    import ast
    if isinstance(op, ast.Mod) and isinstance(a, (str, SS)):
        return SS(E.fresh("fmt", T.Str))
    a, b = refine(E, a), refine(E, b)
    if isinstance(a, SV) or isinstance(b, SV):
        raise Unsupported("arithmetic on unknown values")
    return E.binop(op, a, b)


def refine(E, v):
    """split an unknown value by its kind"""
    v = E.force(v)
    if not isinstance(v, SV):
        return v
    z = v.z
    if E.decide(Val.is_str_(z)):
        return SS(Val.s(z))
    if E.decide(Val.is_int_(z)):
        return SI(Val.i(z))
    if E.decide(Val.is_bool_(z)):
        return SB(Val.b(z))
    if E.decide(Val.is_none(z)):
        return None
    if E.decide(Val.is_flt_(z)):
        return SFlt(Val.f(z))
    if E.decide(Val.is_lst_(z)):
        return E.seq_of_lst(Val.l(z))
    if E.decide(Val.is_missing(z)):
        return MISSING
    if E.decide(Val.is_invalid(z)):
        return INVALID
    if E.decide(Val.is_date_(z)):
        return SDate(Val.t(z))
    if E.decide(Val.is_cont_(z)):
        return cont_of(E, v)
    return v


# ---------------------------------------------------------------------- issue registries
class Ent(Model):
    """binders: ((k, n), ...) ; guard; R is None: one issue at loc, else everything in R below loc"""

    def __init__(self, binders, guard, loc, code, blocking, R=None):
        self.binders, self.guard, self.loc, self.code, self.blocking, self.R = binders, guard, loc, code, blocking, R

    def subst(self, E, pairs, funs):
        s = lambda v: E.subst(v, pairs, funs)  # noqa: E731
        return Ent(tuple((k, s(n)) for k, n in self.binders), s(self.guard), s(self.loc), s(self.code), s(self.blocking),
                   None if self.R is None else s(self.R))

    def mentions(self, E, k):
        from .interp import occurs
        parts = [n for _, n in self.binders] + [self.code, self.blocking, self.R] + list(atoms(E, self.loc))
        return any(isinstance(x, z3.ExprRef) and occurs(x, k) for x in parts)

    def under(self, g):
        return Ent(self.binders, conj([self.guard, g]), self.loc, self.code, self.blocking, self.R)

    def bound(self, k, n, g):
        return Ent(((k, n),) + self.binders, conj([g, self.guard]), self.loc, self.code, self.blocking, self.R)

    def at(self, prefix):
        return Ent(self.binders, self.guard, prefix + self.loc, self.code, self.blocking, self.R)

    def __repr__(self):
        return f"Ent({self.binders},{self.guard},{self.loc},{self.code},{self.blocking},{self.R})"


def atom(E, x):
    x = E.force(x)
    if isinstance(x, SV):
        x = refine(E, x)
    if isinstance(x, (str, SS)):
        return T.Atom.as_(E.zs(x))
    if isinstance(x, (SI, int)):
        return T.Atom.ai_(E.zi(x))
    raise Unsupported(f"location part {x!r}")


def atoms(E, loc):
    return [atom(E, x) for x in loc]


def loc_term(ats):
    out = T.Loc.nil
    for a in reversed(ats):
        out = T.Loc.cons(a, out)
    return out


def as_loc(E, loc):
    loc = E.force(loc)
    if loc is None:
        return ()
    ps = E.pieces(loc)
    if any(isinstance(p, Seq) for p in ps):
        raise Unsupported("location of unknown length")
    return tuple(ps)


def close(binders, f):
    for k, n in reversed(binders):
        f = z3.Exists([k], z3.And(0 <= k, k < n, f))
    return f


R_POP = F("r_pop", T.RegS, T.Loc, I, T.RegS)


def popped(E, R, L, code):
    """an unknown registry without its issues with this code at this location; removals commute"""
    todo = {(str(L), code): (L, code)}
    while R.decl().name() == "r_pop":
        todo[str(R.arg(1)), R.arg(2).as_long()] = (R.arg(1), R.arg(2).as_long())
        R = R.arg(0)
    for _, (L, code) in sorted(todo.items()):
        out = R_POP(R, L, z3.IntVal(code))
        if not L.eq(T.Loc.nil):
            E.fact(T.r_blk(out, T.Loc.nil) == T.r_blk(R, T.Loc.nil))
        R = out
    return R


class Reg(Model):
    """registry of issues: abstractly the multiset of its entries"""

    def __init__(self, E, entries=()):
        self.entries = tuple(entries)
        E.new(self)

    # -- cells
    def put(self, E, entries):
        E.set_cell("model", self, "entries", tuple(entries))

    def placeholder(self, E, key, init, R):
        return init + (Ent((), z3.BoolVal(True), (), None, None, R),)

    def accumulator(self, E, key):
        return E.fresh_fun("R", I, T.RegS)

    def accumulated(self, E, key, init, alts, k, upto, R):
        out = list(init)
        for g, final in alts:
            for e in self.new_of(init, final):
                some = None
                if hasattr(g, "once") and not e.binders and not e.mentions(E, k):
                    some = g.once(conj([g, e.guard]))
                if some is not None:
                    out.append(Ent((), some, e.loc, e.code, e.blocking, e.R))
                else:
                    out.append(e.bound(k, upto, g))
        return tuple(out)

    def new_of(self, init, final):
        if final is None:
            return ()
        if len(final) <= len(init) or any(a is not b for a, b in zip(init, final)) or final[len(init)].R is None:
            # substitution may have copied the common part: compare by position
            if len(final) <= len(init):
                raise Unsupported("registry shrinks in a loop")
        return final[len(init) + 1:]

    def deltas(self, E, key, init, alts):
        return [e.under(g) for g, final in alts for e in self.new_of(init, final)]

    def formulas(self, key, v):
        out = []
        for e in v:
            out.append(e.guard)
            if e.R is not None and not (not e.binders and e.loc == ()):
                out.append(e.R)
        return out

    def merge_cells(self, E, t, a, b, old):
        n = len(old)
        for v in (a, b):
            if len(v) < n or any(x is not y for x, y in zip(v, old)):
                raise Abort
        return old + tuple(e.under(t) for e in a[n:]) + tuple(e.under(z3.Not(t)) for e in b[n:])

    def subst(self, E, pairs, funs):
        if E.birth(self) == 0:
            return self
        return Reg(E, [e.subst(E, pairs, funs) for e in self.entries])

    # -- operations
    def add(self, E, loc, code, blocking):
        code = code if isinstance(code, int) else E.zi(code) if isinstance(code, SI) else code
        blocking = blocking if isinstance(blocking, bool) else E.truth(blocking)
        self.put(E, self.entries + (Ent((), z3.BoolVal(True), as_loc(E, loc), code, blocking),))

    def merge(self, E, other, prefix):
        other = E.force(other)
        if not isinstance(other, Reg):
            raise Unsupported("merging an unknown registry")
        p = as_loc(E, prefix)
        self.put(E, self.entries + tuple(e.at(p) for e in other.entries))

    def framed(self, E, init, finals, frame):
        p, t = frame
        for final in finals:
            for e in self.new_of(init, final):
                a = atoms(E, e.loc)
                if len(a) <= p or not a[p].eq(t):
                    return False
        return True

    def own(self, E, e, q):
        """an entry for what earlier iterations of a running loop put in, asked for a location that names this iteration:
        nothing, given the invariant (checked when the loop is left) that every entry names its own iteration"""
        if e.loc != () or e.binders or not z3.is_app(e.R) or e.R.num_args() == 0:
            return False
        f, k = e.R.decl().name(), e.R.arg(e.R.num_args() - 1)
        if f not in E.loop_regs or f in E.unframed or not k.eq(E.loop_regs[f]):
            return False
        for p, t in enumerate(q):
            if E.frames.get(f, (p, t))[0] != p:
                continue
            if t.eq(T.Atom.ai_(k)) or E.distinct(t, k):
                if f not in E.frames:
                    E.frames[f] = (p, t)
                return E.frames[f][1].eq(t)
        return False

    def f_has(self, E, loc):
        out = []
        q = atoms(E, loc)
        for e in self.entries:
            if e.R is not None and self.own(E, e, q):
                continue
            a = atoms(E, e.loc)
            m = [x == y for x, y in zip(a, q)]
            if e.R is None:
                if len(a) < len(q):
                    continue
                f = conj(m)
            else:
                f = conj(m + [r_has(E, e.R, loc_term(q[len(a):]))])
            out.append(close(e.binders, conj([e.guard, f])))
        return disj(out)

    def f_block(self, E, loc):
        out = []
        q = atoms(E, loc)
        for e in self.entries:
            a = atoms(E, e.loc)
            if e.R is not None and self.own(E, e, q):
                continue
            if len(a) > len(q):
                continue
            m = [x == y for x, y in zip(a, q)]
            f = conj(m + [zb(e.blocking)]) if e.R is None else conj(m + [r_blk(E, e.R, loc_term(q[len(a):]))])
            out.append(close(e.binders, conj([e.guard, f])))
        return disj(out)

    def has(self, E, locs):
        locs = [as_loc(E, l) for l in locs] or [()]
        return E.mkb(self.known(E, "has", locs, disj([self.f_has(E, l) for l in locs])))

    def known(self, E, what, locs, f):
        """a registry with the same content was asked the same before: the same answer"""
        if not any(e.binders for e in self.entries) or z3.is_false(z3.simplify(f)):
            return f
        for w, ls, entries, g in E.asked:
            if w != what or len(ls) != len(locs):
                continue
            if any(len(x) != len(y) or not all(p.eq(q) for p, q in zip(atoms(E, x), atoms(E, y)))
                   for x, y in zip(ls, locs)):
                continue
            try:
                compare_entries(E, self.entries, entries, "content", True)
                return g
            except (Differ, Unsupported):
                continue
        E.set_cell("recs", E, "asked", E.asked + [(what, locs, self.entries, f)])
        return f

    def can_proceed(self, E, locs):
        locs = [as_loc(E, l) for l in locs] or [()]
        return E.mkb(z3.Not(self.known(E, "block", locs, disj([self.f_block(E, l) for l in locs]))))

    def get(self, E, loc):
        loc = as_loc(E, loc)
        q = atoms(E, loc)
        out = []
        for e in self.entries:
            a = atoms(E, e.loc)
            m = [x == y for x, y in zip(a, q)]
            if len(a) >= len(q):
                out.append(Ent(e.binders, conj([e.guard] + m), e.loc[len(q):], e.code, e.blocking, e.R))
            elif e.R is not None:
                f = F("r_sub", T.RegS, T.Loc, T.RegS)
                out.append(Ent(e.binders, conj([e.guard] + m), (), None, None, f(e.R, loc_term(q[len(a):]))))
        return Reg(E, out)

    def pop(self, E, loc, code):
        loc = as_loc(E, loc)
        q = atoms(E, loc)
        keep, out = [], []
        for e in self.entries:
            a = atoms(E, e.loc)
            if e.R is not None:
                if len(a) > len(q) or any(isinstance(x, str) and isinstance(y, str) and x != y for x, y in zip(e.loc, loc)):
                    keep.append(e)
                    continue
                if e.binders or not isinstance(code, int) or not all(x.eq(y) for x, y in zip(a, q)):
                    raise Unsupported("removing from an unknown registry")
                L = loc_term(q[len(a):])
                keep.append(Ent((), e.guard, e.loc, None, None, popped(E, e.R, L, code)))
                out.append(Ent((), e.guard, (), None, None, F("r_taken", T.RegS, T.Loc, I, T.RegS)(e.R, L, code)))
                continue
            if len(a) != len(q):
                keep.append(e)
                continue
            m = conj([x == y for x, y in zip(a, q)] + [zb(e.code == code)])
            keep.append(e.under(z3.Not(m)))
            out.append(Ent(e.binders, conj([e.guard, m]), (), e.code, e.blocking))
        self.put(E, [e for e in keep if not z3.is_false(z3.simplify(e.guard))])
        return Reg(E, [e for e in out if not z3.is_false(z3.simplify(e.guard))])

    # -- the two interfaces
    def attr(self, E, name):
        if name == "add":
            return Nat(lambda *a, **k: self.api_add(E, a, k), name)
        if name == "merge":
            def merge(*a, **k):
                a = list(a)
                other = a.pop(0) if a else k.get("issues", k.get("other"))
                prefix = a.pop(0) if a else k.get("location", k.get("prefix"))
                return self.merge(E, other, prefix if prefix is not None else ())
            return Nat(merge, name)
        if name in ("has_issues", "has"):
            return Nat(lambda *locs: self.has(E, locs), name)
        if name == "can_proceed":
            return Nat(lambda *locs: self.can_proceed(E, locs), name)
        if name == "get":
            return Nat(lambda location: self.get(E, location), name)
        if name == "pop":
            return Nat(lambda location, code: self.pop(E, location, code), name)
        raise Unsupported(f"registry attribute {name}")

    def api_add(self, E, a, k):
        if "issue" in k or "proceed" in k or (a and isinstance(E.force(a[0]), Err)):
            a = list(a)
            issue = a.pop(0) if a else k["issue"]
            proceed = a.pop(0) if a else k["proceed"]
            loc = a.pop(0) if a else k.get("location")
            p = E.truth(proceed)
            self.add(E, loc, E.force(issue).code, (not p) if isinstance(p, bool) else z3.Not(p))
        else:
            a = list(a)
            self.add(E, a[0], a[1], E.truth(a[2]))
        return None

    def truth(self, E):
        return True


def carried_facts(E, f, deltas, k, n):
    """what a loop has put into a registry before iteration m stems from one of its earlier iterations"""
    m, L = z3.Int(E.uniq("m")), z3.Const(E.uniq("L"), T.Loc)

    def has(e):
        at, out, here = L, [], []
        for a in atoms(E, e.loc):
            out.append(conj(here + [T.Loc.is_nil(at)]))
            here = here + [T.Loc.is_cons(at), T.Loc.hd(at) == a]
            at = T.Loc.tl(at)
        out.append(conj(here + [T.Loc.is_nil(at) if e.R is None else T.r_has(e.R, at)]))
        return disj(out)

    def blk(e):
        at, here = L, []
        for a in atoms(E, e.loc):
            here = here + [T.Loc.is_cons(at), T.Loc.hd(at) == a]
            at = T.Loc.tl(at)
        return conj(here + [zb(e.blocking) if e.R is None else T.r_blk(e.R, at)])
    for q, match in ((T.r_has, has), (T.r_blk, blk)):
        some = disj([close(e.binders, conj([e.guard, match(e)])) for e in deltas])
        t = q(f(m), L)
        yield z3.ForAll([m, L], z3.Implies(z3.And(t, 0 <= m, m <= n), z3.Exists([k], z3.And(0 <= k, k < m, some))),
                        patterns=[t])


def r_has(E, R, loc):
    return T.r_has(R, loc)


def r_blk(E, R, loc):
    return T.r_blk(R, loc)


class Differ(Exception):
    pass


def compare_entries(E, a, b, name, quiet=False):
    """the two entry lists denote the same multiset"""
    a, b = list(a), list(b)
    # cancel identical ones
    for e in list(a):
        for f in b:
            if same_ent(E, e, f):
                a.remove(e)
                b.remove(f)
                break
    if not a and not b:
        if not quiet:
            E.prove(name, True)
        return
    groups = []
    for side, es in ((0, a), (1, b)):
        for e in es:
            for g in groups:
                if len(g[0]) == len(e.binders):
                    ren = rename(E, e, [k for k, _ in g[0]])
                    if all(x.eq(y) or E.valid(x == y) for (_, x), (_, y) in zip(g[0], ren.binders)):
                        g[1 + side].append(ren)
                        break
            else:
                g = (e.binders, [], [])
                g[1 + side].append(e)
                groups.append(g)
    L = z3.Const(E.uniq("L"), T.Loc)
    code = z3.Int(E.uniq("code"))
    blocking = z3.Bool(E.uniq("blk"))
    for binders, ea, eb in groups:
        E.solver.push()
        try:
            for k, n in binders:
                E.solver.add(z3.And(0 <= k, k < n))
            f = count_at(E, ea, L, code, blocking) == count_at(E, eb, L, code, blocking)
            if quiet:
                if not E.valid(f):
                    raise Differ
            else:
                E.prove(name, f)
        finally:
            E.solver.pop()


def rename(E, e, ks):
    pairs = [(old, new) for (old, _), new in zip(e.binders, ks)]
    r = e.subst(E, pairs, ())
    r.binders = tuple((new, E.subst(n, pairs)) for (_, n), new in zip(e.binders, ks))
    return r


def same_ent(E, e, f):
    if len(e.binders) != len(f.binders) or len(e.loc) != len(f.loc) or (e.R is None) != (f.R is None):
        return False
    f = rename(E, f, [k for k, _ in e.binders])
    if not all(x.eq(y) for (_, x), (_, y) in zip(e.binders, f.binders)):
        return False
    if not all(x.eq(y) for x, y in zip(atoms(E, e.loc), atoms(E, f.loc))):
        return False
    if not z3.simplify(e.guard).eq(z3.simplify(f.guard)):
        return False
    if e.R is not None:
        return e.R.eq(f.R)
    return zi_(e.code).eq(zi_(f.code)) and z3.simplify(zb(e.blocking)).eq(z3.simplify(zb(f.blocking)))


def zi_(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def count_at(E, es, L, code, blocking):
    total = z3.IntVal(0)
    for e in es:
        cur, m = L, []
        for a in atoms(E, e.loc):
            m += [T.Loc.is_cons(cur), T.Loc.hd(cur) == a]
            cur = T.Loc.tl(cur)
        if e.R is None:
            m += [T.Loc.is_nil(cur), zi_(e.code) == code, zb(e.blocking) == blocking]
            one = z3.IntVal(1)
        else:
            one = T.r_cnt(e.R, cur, code, blocking)
            E.solver.add(z3.And(one >= 0, z3.Implies(one > 0, T.r_has(e.R, T.Loc.nil)),
                                z3.Implies(z3.And(one > 0, blocking), T.r_blk(e.R, cur))))
        total = total + z3.If(conj([e.guard] + m), one, 0)
    return total


# ---------------------------------------------------------------------- data containers
class Wr(Model):
    """guarded write: key = (schema, attr, sub, ext)"""

    def __init__(self, binders, guard, key, value, name):
        self.binders, self.guard, self.key, self.value, self.name = binders, guard, key, value, name

    def subst(self, E, pairs, funs):
        s = lambda v: E.subst(v, pairs, funs)  # noqa: E731
        return Wr(tuple((k, s(n)) for k, n in self.binders), s(self.guard), s(self.key), s(self.value), s(self.name))

    def under(self, g):
        return Wr(self.binders, conj([self.guard, g]), self.key, self.value, self.name)

    def bound(self, k, n, g):
        return Wr(((k, n),) + self.binders, conj([g, self.guard]), self.key, self.value, self.name)


class SymCont(Model):
    """case-insensitive attribute store; abstractly: base contents overwritten by writes, in order.
    A write with value MISSING is a deletion."""

    def __init__(self, E, base=T.c_empty, writes=()):
        self.base, self.writes = base, tuple(writes)
        E.new(self)

    def subst(self, E, pairs, funs):
        base = E.subst(self.base, pairs, funs)
        out = SymCont(E, base, [w.subst(E, pairs, funs) for w in self.writes])
        return out

    # -- cells
    def placeholder(self, E, key, init, R):
        return init + (Wr((), None, None, None, None),)

    def accumulator(self, E, key):
        return None

    def accumulated(self, E, key, init, alts, k, upto, R):
        out = list(init)
        news = []
        for g, final in alts:
            if final is None:
                continue
            if len(final) <= len(init):
                raise Unsupported("container changed in a loop")
            ws = final[len(init) + 1:]
            if len(ws) > 1:
                raise Unsupported("several writes per iteration")
            news += [w.bound(k, upto, g) for w in ws]
        return tuple(out + news)

    def deltas(self, *a):
        raise Unsupported("container read in a loop")

    def formulas(self, key, v):
        return []

    def merge_cells(self, E, t, a, b, old):
        n = len(old)
        for v in (a, b):
            if len(v) < n or any(x is not y for x, y in zip(v, old)):
                raise Abort
        return old + tuple(e.under(t) for e in a[n:]) + tuple(e.under(z3.Not(t)) for e in b[n:])

    # -- views
    def term(self, E):
        if not self.writes:
            return self.base
        if any(w.guard is None for w in self.writes):
            raise Unsupported("reading a container that is filled by the loop")
        for t, base, writes in E.objs:
            if base.eq(self.base) and self.same_writes(E, writes):
                return t
        t = E.fresh("cont", T.Cont)
        E.set_cell("recs", E, "objs", E.objs + [(t, self.base, self.writes)])
        E.abstracted_terms.add(str(t))
        return t

    def same_writes(self, E, writes):
        try:
            compare_writes(E, self.writes, writes, "contents", quiet=True)
            return True
        except (Differ, Unsupported):
            return False

    def read(self, E, key):
        z = lambda x: E.zs(x)  # noqa: E731
        lows = [low(E, x) for x in key[:3]]
        ext = zb(E.truth(key[3]))
        if any(w.guard is None for w in self.writes):
            raise Unsupported("reading a container that is filled by the loop")
        if any(w.binders for w in self.writes):
            return SV(c_get(E, self.term(E), lows, ext))
        for w in reversed(self.writes):
            wl = [low(E, x) for x in w.key[:3]]
            same = same_key(lows, ext, wl, zb(E.truth(w.key[3])))
            if E.decide(z3.And(w.guard, same)):
                return w.value
            related = z3.And(w.guard, z3.Or(z3.And(lows[1] == wl[1], lows[2] != wl[2]), lows[0] == wl[1],
                                            z3.And(lows[1] == wl[1], lows[2] == wl[2])))
            if E.decide(related):
                raise Unsupported("read of a part of what was written")
        if self.base.eq(T.c_empty):
            return MISSING
        return SV(c_get(E, self.base, lows, ext))

    def key_of(self, E, rep):
        rep = E.force(rep)
        if isinstance(rep, (str, SS)):
            if isinstance(rep, str) and (":" in rep or "." in rep):
                if re.fullmatch(r"[a-zA-Z]+\.[a-zA-Z]+", rep):
                    return ("", *rep.split("."), False)
                raise Unsupported("notation text as key")
            return ("", rep, "", False)
        if isinstance(rep, SV):
            raise Unsupported("unknown key")
        g = lambda n: E.getattr(rep, n)  # noqa: E731
        if hasattr(rep, "sub"):
            return (g("schema"), g("attr"), g("sub"), g("ext"))
        return (g("schema"), g("attr"), g("sub_attr"), g("extension"))

    def getitem(self, E, k):
        return self.read(E, self.key_of(E, k))

    def setitem(self, E, k, v):
        key = self.key_of(E, k)
        E.set_cell("model", self, "writes", self.writes + (Wr((), z3.BoolVal(True), key, v, key[1]),))

    def delitem(self, E, k):
        self.setitem(E, k, MISSING)

    def attr(self, E, name):
        if name == "get":
            return Nat(lambda rep: self.getitem(E, rep), name)
        if name == "put":
            return Nat(lambda n, v: self.setitem(E, n, v), name)
        if name == "set":
            return Nat(lambda rep, v: (self.setitem(E, rep, v), True)[1], name)
        if name == "delete":
            return Nat(lambda rep: self.delitem(E, rep), name)
        if name == "copy":
            return Nat(lambda: SymCont(E, self.base, self.writes), name)
        if name == "has":
            return Nat(lambda n: E.mkb(z3.Not(zb(E.is_(self.getitem(E, n), MISSING)))), name)
        if name in ("items", "to_dict"):
            return Nat(lambda: KeyView(E, self) if name == "to_dict" else KeyView(E, self).items(E), name)
        raise Unsupported(f"container attribute {name}")

    def truth(self, E):
        return True

    def equals(self, E, other):
        other = E.force(other)
        if isinstance(other, SymCont):
            a, b = self.term(E), other.term(E)
            return True if a.eq(b) else py_eq(Val.cont_(a), Val.cont_(b))
        if isinstance(other, (str, int, float, type(None), SS, SI, SB, list)) or other is MISSING or other is INVALID:
            return False
        raise Unsupported("container comparison")


class SymDict(Model):
    """dictionary with string keys: unknown contents overwritten under known keys"""
    merged = False    # absent entries as nulls, where read with that default

    def __init__(self, E, base, writes=()):
        self.base, self.writes = base, tuple(writes)
        E.new(self)

    def key(self, E, k):
        k = E.force(k)
        if isinstance(k, (str, SS)):
            return E.zs(k)
        raise Unsupported("key of a dictionary")

    def find(self, E, k):
        z = self.key(E, k)
        for w, v in reversed(self.writes):
            if w.eq(z) or E.decide(w == z):
                return True, v
        if E.decide(T.d_has(self.base, z)):
            return True, SV(T.d_get(self.base, z))
        return False, None

    def contains(self, E, k):
        z = self.key(E, k)
        return disj([w == z for w, _ in self.writes] + [T.d_has(self.base, z)])

    def getitem(self, E, k):
        ok, v = self.find(E, k)
        if not ok:
            raise PyRaise(KeyError("key"))
        return v

    def setitem(self, E, k, v):
        E.set_cell("model", self, "writes", self.writes + ((self.key(E, k), v),))

    def attr(self, E, name):
        if name == "get":
            def get(k, default=None):
                if default is None and self.merged:
                    z = self.key(E, k)
                    if not any(w.eq(z) or E.decide(w == z) for w, _ in self.writes):
                        return SV(z3.If(T.d_has(self.base, z), T.d_get(self.base, z), Val.none))
                ok, v = self.find(E, k)
                return v if ok else default
            return Nat(get, name)
        if name == "copy":
            return Nat(lambda: SymDict(E, self.base, self.writes), name)
        raise Unsupported(f"dictionary attribute {name}")

    def truth(self, E):
        return True if self.writes else T.d_len(self.base) > 0

    def isinstance(self, E, cls):
        import collections.abc
        return cls in (dict, collections.abc.Mapping, collections.abc.MutableMapping)

    def equals(self, E, other):
        raise Unsupported("equality of dictionaries")

    def merge_cells(self, E, t, a, b, old):
        raise Abort

    def placeholder(self, E, key, init, R):
        raise Unsupported("dictionary changed in a loop")


k_len = F("k_len", T.Cont, I)
k_at = F("k_at", T.Cont, I, T.Str)
k_val = F("k_val", T.Cont, I, Val)


class KeyView(Model):
    """what export() shows: keys as spelled, with values"""

    def __init__(self, E, cont):
        self.t = cont.term(E)

    def items(self, E):
        t = self.t
        return Seq(k_len(t), lambda k: (SS(k_at(t, k)), SV(k_val(t, k))))

    def attr(self, E, name):
        if name == "items":
            return Nat(lambda: self.items(E))
        if name == "keys":
            return Nat(lambda: self.pieces(E)[0])
        raise Unsupported(f"attribute {name} of an exported container")

    def pieces(self, E):
        return [Seq(k_len(self.t), lambda k: SS(k_at(self.t, k)))]

    def truth(self, E):
        return k_len(self.t) > 0

    def subst(self, E, pairs, funs):
        v = object.__new__(KeyView)
        v.t = E.subst(self.t, pairs, funs)
        return v


def low(E, x):
    x = E.force(x)
    if isinstance(x, str):
        return E.lit(x.lower())
    return lower_of(E, E.zs(x)).z


def c_get(E, base, lows, ext):
    if z3.is_false(z3.simplify(ext)):
        # only extension attributes are found by their schema
        lows = [E.lit("")] + list(lows[1:])
    return T.c_get(base, *lows, ext)


def same_key(x, ex, y, ey):
    """only extension attributes are told apart by their schema"""
    return z3.simplify(z3.And(x[1] == y[1], x[2] == y[2], ex == ey, z3.Or(z3.Not(ex), x[0] == y[0])))


def plain_key(E, w):
    """the key of an unconditional write to a known attribute, or None"""
    ext = E.force(w.key[3])
    parts = [E.force(p) for p in w.key[:3]]
    if not z3.is_true(z3.simplify(w.guard)) or not isinstance(ext, bool) or not all(isinstance(p, str) for p in parts[1:]):
        return None
    if ext:
        return None
    return parts[1].lower(), parts[2].lower()


def settled(E, ws):
    """the writes by attribute, the last one to each, if they do not touch each other"""
    out = {}
    for w in ws:
        k = plain_key(E, w)
        if k is None or any(o[0] == k[0] and o != k for o in out):
            return None
        out[k] = w
    return out


def cont_of(E, sv):
    return SymCont(E, Val.c(sv.z))


def compare_writes(E, a, b, name, quiet=False):
    a, b = list(a), list(b)

    def group(ws):
        out = []
        for w in ws:
            if w.guard is None:
                raise Unsupported("contents of a container inside a loop")
            out.append(w)
        return out
    a, b = group(a), group(b)
    sig = []
    for side, ws in ((0, a), (1, b)):
        for w in ws:
            for g in sig:
                if len(g[0]) == len(w.binders):
                    pairs = [(o, n) for (o, _), (n, _) in zip(w.binders, g[0])]
                    r = w.subst(E, pairs, ())
                    if all(E.subst(x, pairs).eq(y) or E.valid(E.subst(x, pairs) == y)
                           for (_, x), (_, y) in zip(w.binders, g[0])):
                        r.binders = g[0]
                        g[1 + side].append(r)
                        break
            else:
                g = (w.binders, [], [])
                g[1 + side].append(w)
                sig.append(g)

    def ob(nm, f):
        if quiet:
            if not E.valid(f):
                raise Differ
        else:
            E.prove(nm, f)
    for binders, wa, wb in sig:
        E.solver.push()
        try:
            for k, n in binders:
                E.solver.add(z3.And(0 <= k, k < n))
            if not binders and (len(wa) != 1 or len(wb) != 1):
                # several unconditional writes: by attribute, or else pairwise in order
                sa, sb = settled(E, wa), settled(E, wb)
                if sa is not None and sb is not None and set(sa) == set(sb):
                    wa, wb = list(sa.values()), [sb[k] for k in sa]
                if len(wa) != len(wb):
                    raise (Differ() if quiet else Unsupported("different numbers of writes"))
                pairs = list(zip(wa, wb))
                for x, y in pairs:
                    ob(name + ": written under the same condition", x.guard == y.guard)
            else:
                ob(name + ": written under the same condition", disj([w.guard for w in wa]) == disj([w.guard for w in wb]))
                pairs = [(x, y) for x in wa for y in wb]
            for x, y in pairs:
                E.solver.push()
                try:
                    E.solver.add(z3.And(x.guard, y.guard))
                    if E.check()[0] == z3.unsat:
                        continue
                    kx, ky = ([low(E, p) for p in w.key[:3]] for w in (x, y))
                    f = same_key(kx, zb(E.truth(x.key[3])), ky, zb(E.truth(y.key[3])))
                    if not quiet and len(pairs) > 1 and not E.valid(f):
                        raise Unsupported("writes in another order")
                    ob(name + ": same attribute", f)
                    same(E, x.value, y.value, name + ": same value", quiet)
                finally:
                    E.solver.pop()
        finally:
            E.solver.pop()


def same(E, a, b, name, quiet=False):
    """prove that implementation value a and specification value b denote the same value"""
    a, b = E.force(E.canon(a)), E.force(E.canon(b))

    def ob(f):
        if quiet:
            if not E.valid(f):
                raise Differ
        else:
            E.prove(name, f)
    if a is b:
        return ob(True)
    if isinstance(a, Reg) and isinstance(b, Reg):
        return compare_entries(E, a.entries, b.entries, name, quiet)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return ob(False)
        for x, y in zip(a, b):
            same(E, x, y, name, quiet)
        return None
    if isinstance(a, KeyView) and isinstance(b, SymCont):
        return ob(True if a.t.eq(b.term(E)) else a.t == b.term(E))
    if isinstance(a, SymCont) and isinstance(b, SymCont):
        if a.base.eq(b.base):
            return compare_writes(E, a.writes, b.writes, name, quiet)
        return ob(a.term(E) == b.term(E))
    if isinstance(a, (list, Seq)) and isinstance(b, (list, Seq)) and not (
            isinstance(a, Seq) and isinstance(b, Seq) and a.of is not None and b.of is not None and a.of.eq(b.of)):
        return same_list(E, a, b, name, quiet, ob)
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return ob(zb(E.truth(a)) == zb(E.truth(b)))
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum) or isinstance(a, SEnum) or isinstance(b, SEnum):
        return ob(E.eq(a, b))
    if isinstance(a, type) or isinstance(b, type) or callable(a) or callable(b):
        return ob(a is b)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return None
    if isinstance(a, Model) and type(a) is type(b) and not isinstance(a, SymCont) and hasattr(a, "equals"):
        return ob(a.equals(E, b))
    va, vb = E.toval(a), E.toval(b)
    return ob(True if va.eq(vb) else va == vb)


def quiet_ob(E):
    def ob(f):
        if not (f is True or not isinstance(f, bool) and E.valid(f)):
            raise Differ
    return ob


def same_list(E, a, b, name, quiet, ob):
    if (isinstance(a, Seq) and a.of is not None and isinstance(b, Seq) and b.of is not None):
        return ob(a.of == b.of)
    la, lb = E.list_of(a), E.list_of(b)
    if len(la) != len(lb):
        if not any(isinstance(x, LSeg) for x in la + lb):
            return ob(False)
        na, nb = E.length(la), E.length(lb)
        ob(E.eq(na, nb))
        if not E.valid(zb(E.eq(na, 0))):
            raise Unsupported("lists of different shape")
        return None
    for x, y in zip(la, lb):
        if isinstance(x, LSeg) != isinstance(y, LSeg):
            raise Unsupported("lists of different shape")
        if not isinstance(x, LSeg):
            same(E, x, y, name, quiet)
            continue
        y = LSeg(x.k, E.subst(y.n, [(y.k, x.k)]), [(E.subst(g, [(y.k, x.k)]), E.subst(v, [(y.k, x.k)])) for g, v in y.alts],
                 y.total) if not x.k.eq(y.k) else y
        ob(x.n == y.n if not x.n.eq(y.n) else True)
        E.solver.push()
        try:
            E.solver.add(z3.And(0 <= x.k, x.k < x.n))
            if not (x.total and y.total):
                ob(disj([g for g, _ in x.alts]) == disj([g for g, _ in y.alts]))
            for g, v in x.alts:
                for h, w in y.alts:
                    E.solver.push()
                    try:
                        E.solver.add(z3.And(g, h))
                        if E.check()[0] == z3.unsat:
                            continue
                        same(E, v, w, name, quiet)
                    finally:
                        E.solver.pop()
        finally:
            E.solver.pop()
    return None


# ---------------------------------------------------------------------- regular expressions
class SMatch(Model):
    def __init__(self, pattern, how, z, pred):
        self.pattern, self.how, self.z, self.pred = pattern, how, z, pred

    def subst(self, E, pairs, funs):
        return SMatch(self.pattern, self.how, E.subst(self.z, pairs, funs), E.subst(self.pred, pairs, funs))

    def truth(self, E):
        return self.pred

    def is_none(self, E):
        return z3.Not(self.pred)

    def attr(self, E, name):
        if name in ("group", "groups", "span", "start", "end"):
            if not E.decide(self.pred):
                raise PyRaise(AttributeError(name))
            if name == "group":
                def group(i=0):
                    if i == 0 and self.how == "fullmatch":
                        return SS(self.z)
                    known = getattr(E, "re_groups", {}).get((self.pattern, self.how, i))
                    if known is not None:
                        return SS(known(self.z))
                    return SV(F(f"re_group_{self.how}_{self.pattern}_{i}", T.Str, Val)(self.z))
                return Nat(group)
        raise Unsupported(f"match.{name}")


RE_FUNS = {}
INT_OK = F("int_ok", T.Str, B)


def int_lemmas(t):
    """which texts int() accepts"""
    z = t.arg(0)
    return [z3.Implies(z3.And(F("re_fullmatch_[+-]?[0-9]+", T.Str, B)(z), T.strlen(z) < 1000), t),
            z3.Implies(t, F(r"re_search_\d", T.Str, B)(z))]


RE_LEMMAS = {r"(\w+|\$ref)": lambda E, z: z3.And(colon_free(z), z != E.lit("")),
             "[0-9]{1,18}": lambda E, z: INT_OK(z)}


def re_pred(E, pattern, how, z):
    known = getattr(E, "re_known", {}).get((pattern, how))
    if known is not None:
        return known(z)
    f = F(f"re_{how}_{pattern}", T.Str, B)(z)
    lemma = RE_LEMMAS.get(pattern)
    if lemma is not None and how == "fullmatch":
        RE_FUNS[f.decl().name()] = lemma
    return f


RE_CALLS = (re.fullmatch, re.match, re.search)


def regex(E, pat, how, args):
    if how in ("fullmatch", "match", "search"):
        x = E.force(args[0])
        if isinstance(x, SV):
            if not E.decide(Val.is_str_(x.z)):
                raise PyRaise(TypeError("expected string or bytes-like object"))
            x = SS(Val.s(x.z))
        if not isinstance(x, SS) or len(args) > 1:
            raise Unsupported("regular expression argument")
        p = pat.pattern if pat.flags == re.UNICODE else f"{pat.pattern} {int(pat.flags)}"
        return SMatch(p, how, x.z, re_pred(E, p, how, x.z))
    if how == "split" and hasattr(E, "known_split"):
        return E.known_split(E, pat, args)
    raise Unsupported(f"pattern.{how}")


# ---------------------------------------------------------------------- builtins
def unwrap_class(c):
    o = typing.get_origin(c)
    return o if isinstance(o, type) else c


KNOWN_TAGS = {}


def tag_formula(E, z, cls):
    """isinstance(value, cls) for an unknown value"""
    cls = unwrap_class(cls)
    real = E.classes
    if cls is bool:
        return Val.is_bool_(z)
    if cls is int:
        return z3.Or(Val.is_int_(z), Val.is_bool_(z))
    if cls is float:
        return Val.is_flt_(z)
    if cls is str:
        return Val.is_str_(z)
    if cls is list:
        return Val.is_lst_(z)
    if cls is dict:
        return Val.is_dict_(z)
    if cls is datetime:
        return Val.is_date_(z)
    if cls is type(None):
        return Val.is_none(z)
    if cls is SpecC or cls is real.get("container"):
        return Val.is_cont_(z)
    if cls in (collections.abc.Mapping, collections.abc.MutableMapping):
        return Val.is_dict_(z)
    if cls in (collections.abc.Sequence, collections.abc.Collection, collections.abc.Iterable, object):
        raise Unsupported(f"isinstance of {cls}")
    if cls in (tuple, set, frozenset, bytes):
        return z3.BoolVal(False)   # not among the values considered
    if isinstance(cls, type) and E.interpretable_class(cls):
        if cls is type(INVALID):
            return z3.Or(Val.is_invalid(z), Val.is_missing(z))
        if cls is type(real.get("Invalid")):
            return Val.is_invalid(z)
        if cls is type(real.get("Missing")):
            return Val.is_missing(z)
        return z3.BoolVal(False)
    raise Unsupported(f"isinstance of {cls}")


def b_isinstance(E, v, cls):
    if isinstance(cls, tuple) or isinstance(cls, types.UnionType):
        cs = cls if isinstance(cls, tuple) else typing.get_args(cls)
        out = []
        for c in cs:
            r = E.truth(b_isinstance(E, v, c))
            if r is True:
                return True
            out.append(zb(r))
        return E.mkb(disj(out))
    cls = unwrap_class(cls)
    if isinstance(v, SV):
        return E.mkb(tag_formula(E, v.z, cls))
    if isinstance(v, SEnum):
        return E.mkb(disj([v.z == i for i, m in enumerate(v.members) if isinstance(m, cls)]))
    if isinstance(v, Lazy):
        return b_isinstance(E, E.force(v), cls)
    real = E.classes
    kind = {SB: bool, SI: int, SS: str, SFlt: float, SDate: datetime, Seq: list}.get(type(v))
    if kind is not None:
        return issubclass(kind, cls)
    if isinstance(v, SymCont):
        return cls is SpecC or cls is real.get("container")
    if isinstance(v, Reg):
        return cls is SpecIssues or cls is real.get("issues")
    if isinstance(v, Model):
        if hasattr(v, "isinstance"):
            return v.isinstance(E, cls)
        raise Unsupported(f"isinstance of {v!r}")
    if v is INVALID:
        return cls in (type(INVALID), type(real.get("Invalid")), object)
    if v is MISSING:
        return cls in (type(MISSING), type(real.get("Missing")), object)
    if isinstance(v, Opaque):
        raise Unsupported("isinstance of an opaque value")
    if isinstance(v, Err):
        return cls is real.get("error")
    if isinstance(v, (Closure, Bound, Fn, Nat)):
        return cls in (types.FunctionType, collections.abc.Callable, object)
    return isinstance(v, cls)


def b_len(E, v):
    return E.length(v)


def b_list(E, v=()):
    v = E.force(v)
    if isinstance(v, SV):
        if E.decide(Val.is_lst_(v.z)):
            return E.seq_of_lst(Val.l(v.z))
        return refuse(E, v, "list")
    if isinstance(v, Seq) and v.of is not None:
        return v
    if isinstance(v, Model) and hasattr(v, "as_list"):
        return v.as_list(E)
    return E.new(E.list_of(v))


def refuse(E, v, what):
    if E.decide(z3.Or(Val.is_str_(v.z), Val.is_dict_(v.z), Val.is_cont_(v.z), Val.is_oth_(v.z))):
        raise Unsupported(f"{what} of an unknown value")
    raise PyRaise(TypeError("not iterable"))


def b_tuple(E, v=()):
    v = E.force(v)
    if isinstance(v, Model) and hasattr(v, "as_tuple"):
        return v.as_tuple(E)
    ps = E.pieces(v)
    if any(isinstance(p, Seq) for p in ps):
        raise Unsupported("tuple of unknown length")
    return tuple(ps)


def b_set(E, v=()):
    v = E.force(v)
    if isinstance(v, Model) and hasattr(v, "as_set"):
        return v.as_set(E)
    ps = E.pieces(v)
    if any(isinstance(p, Seq) for p in ps) or any(E.deep_symbolic(p) for p in ps):
        raise Unsupported("symbolic set")
    return E.new(set(ps))


def b_dict(E, *a, **k):
    if a and isinstance(E.force(a[0]), (Model, Sym)):
        raise Unsupported("dict of a symbolic value")
    return E.new(dict(*a, **k))


def any_all(E, v, is_any):
    out = []
    if isinstance(v, list):
        items = v
    else:
        items = E.pieces(v)
    for p in items:
        if isinstance(p, LSeg):
            f = []
            for g, x in p.alts:
                t = zb(E.truth(x))
                f.append(conj([g, t if is_any else z3.Not(t)]))
            q = disj(f)
            q = z3.Exists([p.k], z3.And(0 <= p.k, p.k < p.n, q)) if not z3.is_false(z3.simplify(q)) else z3.BoolVal(False)
            out.append(q if is_any else z3.Not(q))
        elif isinstance(p, Seq) and items is not v:
            q = E.exists(p, lambda x: E.truth(x) if is_any else E.neg(E.truth(x)))
            out.append(q if is_any else z3.Not(q))
        else:
            t = E.truth(p)
            if t is is_any:
                return is_any
            if not isinstance(t, bool):
                out.append(t)
    if not out:
        return not is_any
    return E.mkb(disj(out) if is_any else conj(out))


class SetM(Model):
    """a set comprehension over a symbolic run: the values its pieces contribute"""

    def __init__(self, items, minus=None):
        self.items, self.minus = list(items), minus

    def attr(self, E, name):
        if name == "difference" and self.minus is None:
            return Nat(lambda o: self.without(E, o), name)
        if name == "issubset" and self.minus is None:
            return Nat(lambda o: E.mkb(zb(subset(E, self, set_of(E, o)))), name)
        if name == "issuperset" and self.minus is None:
            return Nat(lambda o: E.mkb(zb(subset(E, set_of(E, o), self))), name)
        return super().attr(E, name)

    def without(self, E, o):
        return SetM(self.items, set_of(E, o))

    def binop(self, E, op, a, b):
        if isinstance(op, ast.Sub) and a is self and self.minus is None:
            return self.without(E, b)
        raise Unsupported("operator on a set")

    def truth(self, E):
        return z3.Not(zb(subset(E, self, self.minus or SetM([]))))

    def contains(self, E, x):
        t = zb(has(E, self.items, x))
        return t if self.minus is None else z3.And(t, z3.Not(zb(has(E, self.minus.items, x))))


def set_of(E, o):
    o = E.force(o)
    if isinstance(o, SetM) and o.minus is None:
        return o
    if isinstance(o, (set, frozenset, list, tuple)):
        return SetM(sorted(o) if isinstance(o, (set, frozenset)) else o)
    raise Unsupported("set of symbolic content")


def has(E, items, x):
    out = []
    for p in items:
        if isinstance(p, LSeg):
            q = disj([conj([g, zb(E.eq(y, x))]) for g, y in p.alts])
            out.append(z3.Exists([p.k], z3.And(0 <= p.k, p.k < p.n, q)))
        else:
            out.append(zb(E.eq(p, x)))
    return disj(out) if out else z3.BoolVal(False)


def subset(E, a, b):
    out = []
    for p in a.items:
        if isinstance(p, LSeg):
            q = conj([z3.Implies(g, zb(has(E, b.items, y))) for g, y in p.alts])
            out.append(z3.ForAll([p.k], z3.Implies(z3.And(0 <= p.k, p.k < p.n), q)))
        else:
            out.append(zb(has(E, b.items, p)))
    return conj(out) if out else z3.BoolVal(True)


def b_sum(E, v, start=0):
    items = v if isinstance(v, list) else E.pieces(v)
    total, syms = start, []
    for p in items:
        if isinstance(p, LSeg):
            if any(not (isinstance(x, int) and x == 1) for _, x in p.alts):
                raise Unsupported("sum of a symbolic run")
            syms.append(E.seg_count(p))
        elif isinstance(p, Seq):
            raise Unsupported("sum of a symbolic sequence")
        elif isinstance(p, (SI, SB)):
            syms.append(E.zi(p))
        else:
            total += p
    if not syms:
        return total
    return SI(sum(syms[1:], syms[0]) + total)


def b_bool(E, v=False):
    t = E.truth(v)
    return t if isinstance(t, bool) else E.mkb(t)


def b_int(E, v=0, *a):
    if a:
        raise Unsupported("int with a base")
    if isinstance(v, SV):
        z = v.z
        t = F("int_of", T.Str, I)(Val.s(z))
        if E.decide(z3.Or(Val.is_int_(z), z3.And(Val.is_str_(z), INT_OK(Val.s(z))))):
            return SI(z3.If(Val.is_int_(z), Val.i(z), t))
        if E.decide(z3.Or(Val.is_lst_(z), Val.is_dict_(z), Val.is_none(z), Val.is_date_(z), Val.is_cont_(z))):
            raise PyRaise(TypeError("int() argument"))
    v = refine(E, v) if isinstance(v, SV) else v
    if isinstance(v, SFlt):
        if not E.decide(f_fin(v.z)):
            raise PyRaise(OverflowError("cannot convert float infinity to integer"))
        return SI(f_trunc(v.z))
    if isinstance(v, SI):
        return v
    if isinstance(v, SB):
        return SI(E.zi(v))
    if isinstance(v, SS):
        f = F("int_ok", T.Str, B)(v.z)
        if E.decide(f):
            return SI(F("int_of", T.Str, I)(v.z))
        raise PyRaise(ValueError("invalid literal for int()"))
    if isinstance(v, SV) and E.decide(Val.is_dict_(v.z)) or isinstance(v, (SymCont, SymDict, SDate)):
        raise PyRaise(TypeError("int() argument"))
    if isinstance(v, (SV, Opaque, Model)):
        raise Unsupported("int of an unknown value")
    try:
        return int(v)
    except (TypeError, ValueError, OverflowError) as e:
        raise PyRaise(e) from None


def b_float(E, v=0.0):
    v = refine(E, v) if isinstance(v, SV) else v
    if isinstance(v, (SI, SB)):
        z = E.zi(v)
        if E.decide(f_big(z)):
            raise PyRaise(OverflowError("int too large to convert to float"))
        return SFlt(f_of_int(z))
    if isinstance(v, SFlt):
        return v
    if isinstance(v, (Sym, Opaque, Model)):
        raise Unsupported("float of an unknown value")
    try:
        return float(v)
    except (TypeError, ValueError, OverflowError) as e:
        raise PyRaise(e) from None


def b_str(E, v=""):
    if isinstance(v, (str, SS)) and not isinstance(v, enum.Enum):
        return v
    if isinstance(v, SV):
        if E.decide(Val.is_str_(v.z)):
            return SS(Val.s(v.z))
        return SS(s_of_val(v.z))
    if isinstance(v, SI):
        return SS(s_of_val(Val.int_(v.z)))
    if E.deep_symbolic(v):
        return OPAQUE
    return str(v)


def b_repr(E, v):
    return OPAQUE if E.deep_symbolic(v) else repr(v)


class SType(Model):
    """type(v) of an unknown value"""

    def __init__(self, v):
        self.v = v

    def contains(self, *a):
        raise Unsupported("type")

    def equals(self, E, other):
        if isinstance(other, type):
            if other is int:
                return Val.is_int_(self.v.z)
            return tag_formula(E, self.v.z, other)
        raise Unsupported("type comparison")

    def is_type(self, E, other):
        return self.equals(E, other)

    def attr(self, E, name):
        return OPAQUE

    def subst(self, E, pairs, funs):
        return SType(E.subst(self.v, pairs, funs))


def b_type(E, v, *rest):
    if rest:
        raise Unsupported("type()")
    if isinstance(v, SV):
        return SType(v)
    for c, k in ((SB, bool), (SI, int), (SS, str), (SFlt, float), (SDate, datetime), (Seq, list)):
        if isinstance(v, c):
            return k
    if isinstance(v, SymCont):
        return E.classes["container"]
    if v is INVALID:
        return type(E.classes["Invalid"])
    if v is MISSING:
        return type(E.classes["Missing"])
    if isinstance(v, (Opaque, SEnum, Model)):
        return OPAQUE
    return type(v)


def b_getattr(E, o, name, *default):
    name = E.force(name)
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    try:
        return E.getattr(o, name)
    except PyRaise as e:
        if default and isinstance(e.exc, AttributeError):
            return default[0]
        raise


def b_hasattr(E, o, name):
    try:
        E.getattr(o, name)
        return True
    except PyRaise:
        return False


def b_enumerate(E, v, start=0):
    out = []
    base = start
    for p in E.pieces(v):
        if isinstance(p, Seq):
            if out:
                raise Unsupported("enumerate of a mixed list")
            off = base
            out.append(Seq(p.n, lambda k, p=p: (SI(k + off) if off != 0 else SI(k), p.elem(k))))
            base = None
        else:
            if base is None:
                raise Unsupported("enumerate of a mixed list")
            out.append((base, p))
            base += 1
    if len(out) == 1 and isinstance(out[0], Seq):
        return out[0]
    return E.new(out)


def b_zip(E, *vs):
    pss = [E.pieces(v) for v in vs]
    if all(not any(isinstance(p, Seq) for p in ps) for ps in pss):
        return E.new(list(zip(*pss)))
    if any(not ps for ps in pss):
        return E.new([])
    if all(len(ps) == 1 and isinstance(ps[0], Seq) for ps in pss):
        n = pss[0][0].n
        for ps in pss[1:]:
            m = ps[0].n
            if not m.eq(n) and not E.valid(m == n):
                n = z3.If(n <= m, n, m)
        return Seq(n, lambda k: tuple(ps[0].elem(k) for ps in pss))
    raise Unsupported("zip of mixed lists")


def b_range(E, *a):
    if all(isinstance(x, int) for x in a):
        return E.new(list(range(*a)))
    if len(a) == 1:
        n = E.zi(a[0])
        return Seq(n, lambda k: SI(k))
    if len(a) == 2:
        lo, hi = E.zi(a[0]), E.zi(a[1])
        return Seq(hi - lo, lambda k: SI(lo + k))
    raise Unsupported("range")


def b_map(E, f, v):
    out = []
    for p in E.pieces(v):
        if isinstance(p, Seq):
            out.append(E.seq_seg(Seq(p.n, lambda k, p=p: E.call(f, [p.elem(k)], {}))))
        else:
            out.append(E.call(f, [p], {}))
    return E.new(out)


def b_filter(E, f, v):
    raise Unsupported("filter()")


def b_next(E, v, *default):
    if isinstance(v, list):
        if not v:
            if default:
                return default[0]
            raise PyRaise(StopIteration())
        if not isinstance(v[0], LSeg):
            return v[0]
        seg = v[0]
        g = disj([a for a, _ in seg.alts])
        some = z3.Exists([seg.k], z3.And(0 <= seg.k, seg.k < seg.n, g))
        if E.decide(some):
            k0, j = E.fresh("k0", I), z3.Int(E.uniq("j"))
            E.assume(z3.And(0 <= k0, k0 < seg.n, z3.substitute(g, (seg.k, k0))))
            E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k0), z3.Not(z3.substitute(g, (seg.k, j))))))
            i = E.choose([z3.substitute(a, (seg.k, k0)) for a, _ in seg.alts])
            return E.subst(seg.alts[i][1], [(seg.k, k0)])
        return b_next(E, v[1:], *default)
    raise Unsupported("next")


def b_iter(E, v):
    v = E.force(v)
    if isinstance(v, (list, Seq)):
        return v
    ps = E.pieces(v)
    if len(ps) == 1 and isinstance(ps[0], Seq):
        return ps[0]
    return E.new(E.list_of(v))


def b_min(E, *a, **k):
    return min_max(E, a, k, True)


def b_max(E, *a, **k):
    return min_max(E, a, k, False)


def min_max(E, a, k, is_min):
    if k:
        raise Unsupported("min/max with a key")
    items = list(a) if len(a) > 1 else E.pieces(a[0])
    if any(isinstance(p, Seq) for p in items):
        raise Unsupported("min/max of a symbolic list")
    if not any(E.symbolic(x) for x in items):
        return (min if is_min else max)(items)
    z = E.zi(items[0])
    for x in items[1:]:
        y = E.zi(x)
        z = z3.If(z <= y, z, y) if is_min else z3.If(z >= y, z, y)
    return SI(z)


def b_sorted(E, v, **k):
    if E.deep_symbolic(v) or k:
        raise Unsupported("sorted")
    return E.new(sorted(v))


def b_bytes(E, v, enc=None, *a):
    v = refine(E, v) if isinstance(v, SV) else v
    if isinstance(v, SS) and enc == "ascii" and not a:
        return str_method(E, v, "encode").fn("ascii")
    raise Unsupported("bytes")


def b_b64decode(E, v, *a, **k):
    if isinstance(v, SX) and not a and not k:
        if E.decide(b64_ok(v.z)):
            return SX(b64d(v.z))
        raise PyRaise(binascii.Error("Incorrect padding"))
    raise Unsupported("b64decode")


def b_b64encode(E, v, *a, **k):
    if isinstance(v, SX) and not a and not k:
        return SX(b64e(v.z))
    raise Unsupported("b64encode")


class Url(Model):
    def __init__(self, z):
        self.z = z

    def attr(self, E, name):
        if name in url_part:
            return SS(url_part[name](self.z))
        raise Unsupported("url." + name)

    def subst(self, E, pairs, funs):
        return Url(E.subst(self.z, pairs, funs))


def b_urlparse(E, v, *a, **k):
    v = refine(E, v) if isinstance(v, SV) else v
    if not isinstance(v, SS) or a or k:
        raise Unsupported("urlparse")
    if E.decide(url_ok(v.z)):
        return Url(v.z)
    raise PyRaise(ValueError("Invalid URL"))


def b_fromiso(E, v):
    v = refine(E, v) if isinstance(v, SV) else v
    if isinstance(v, str):
        v = SS(E.lit(v))
    if isinstance(v, SS):
        if E.decide(iso_ok(v.z)):
            return SDate(iso_date(v.z))
        raise PyRaise(ValueError("Invalid isoformat string"))
    raise PyRaise(TypeError("fromisoformat: argument must be str"))


def b_isfinite(E, v):
    if isinstance(v, SFlt):
        return SB(f_fin(v.z))
    if isinstance(v, SV) and E.decide(Val.is_flt_(v.z)):
        return SB(f_fin(Val.f(v.z)))
    raise Unsupported("isfinite")


def b_floor(E, v):
    if isinstance(v, SV) and E.decide(Val.is_flt_(v.z)):
        v = SFlt(Val.f(v.z))
    if isinstance(v, SFlt):
        return SI(f_floor(v.z))
    raise Unsupported("floor")


def b_setattr(E, o, n, v):
    return E.setattr(o, n, v)


def b_issubclass(E, c, d):
    if isinstance(c, SEnum):
        return E.mkb(disj([c.z == i for i, m in enumerate(c.members) if issubclass(m, d)]))
    if E.deep_symbolic(c):
        raise Unsupported("issubclass")
    return issubclass(c, d)


def b_callable(E, v):
    return isinstance(v, (Closure, Bound, Fn, Nat)) or callable(v)


def op2(name):
    import ast
    table = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}

    def f(E, a, b):
        t = E.compare(table[name](), a, b)
        return t if isinstance(t, bool) else E.mkb(t)
    return f


def b_contains(E, a, b):
    t = E.contains(b, a)
    return t if isinstance(t, bool) else E.mkb(t)


def b_deepcopy(E, v, *a):
    v = E.force(v)
    if isinstance(v, (Sym, SEnum, str, int, float, type(None))) or v is MISSING or v is INVALID:
        return v
    if isinstance(v, SymCont):
        return SymCont(E, v.base, v.writes)
    raise Unsupported("deepcopy")


BUILTINS = {
    isinstance: b_isinstance, len: b_len, list: b_list, tuple: b_tuple, set: b_set, frozenset: b_set, dict: b_dict,
    any: lambda E, v: any_all(E, v, True), all: lambda E, v: any_all(E, v, False), sum: b_sum, bool: b_bool, int: b_int,
    float: b_float, str: b_str, repr: b_repr, type: b_type, getattr: b_getattr, hasattr: b_hasattr, enumerate: b_enumerate,
    zip: b_zip, range: b_range, map: b_map, filter: b_filter, next: b_next, iter: b_iter, min: b_min, max: b_max,
    sorted: b_sorted, bytes: b_bytes, base64.b64decode: b_b64decode, base64.b64encode: b_b64encode,
    urllib.parse.urlparse: b_urlparse, datetime.fromisoformat: b_fromiso, math.isfinite: b_isfinite, math.floor: b_floor,
    setattr: b_setattr, issubclass: b_issubclass, callable: b_callable, operator.contains: b_contains,
    copy.deepcopy: b_deepcopy, copy.copy: b_deepcopy,
    typing.cast: lambda E, t, v: v,
}
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    BUILTINS[getattr(operator, _n)] = op2(_n)
