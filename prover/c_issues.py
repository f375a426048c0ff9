"""C01, C02: the issue registry itself: two maps from locations, one to the issues, one to the blocking codes."""
import ast
from collections import defaultdict

import z3

import src.error as m_error

from . import theory as T, world
from .engine import Abort, Model, PyRaise, Refuted, Undecided, disj, zb
from .interp import StarSeq, occurs
from .models import atom, same
from .run import contract
from .theory import LSeg, Nat, SB, SI, Seq, Unsupported

LocQ = z3.SeqSort(T.Atom)
I, B = z3.IntSort(), z3.BoolSort()
Iss = z3.DeclareSort("Iss")
IL = z3.DeclareSort("IssueList")
CS = z3.DeclareSort("CodeSet")
Tab = z3.DeclareSort("Table")
F = z3.Function
i_code = F("i_code", Iss, I)
il_len = F("il_len", IL, I)
il_at = F("il_at", IL, I, Iss)
cs_mem = F("cs_mem", CS, I, B)
cs_ne = F("cs_ne", CS, B)
cs_wit = F("cs_wit", CS, I)
t_n = F("t_n", Tab, I)
t_dom = F("t_dom", Tab, LocQ, B)
t_key = F("t_key", Tab, I, LocQ)
t_idx = F("t_idx", Tab, LocQ, I)
t_list = F("t_list", Tab, LocQ, IL)
t_set = F("t_set", Tab, LocQ, CS)
t_wit = F("t_wit", Tab, LocQ, I, I)       # position of an issue with this (blocking) code
EMPTY = z3.Empty(LocQ)


def term(E, x):
    x = E.force(x)
    if isinstance(x, SLoc):
        return x.z
    if isinstance(x, tuple):
        us = [z3.Unit(atom(E, p)) for p in x]
        return EMPTY if not us else us[0] if len(us) == 1 else z3.Concat(*us)
    if isinstance(x, (list, dict, set)):
        raise PyRaise(TypeError("unhashable type"))
    raise Unsupported(f"location {x!r}")


class SLoc(Model):
    """a location: tuple of names and indices of any length"""

    def __init__(self, z):
        self.z = z

    def subst(self, E, pairs, funs):
        return SLoc(E.subst(self.z, pairs, funs))

    def truth(self, E):
        return z3.Length(self.z) > 0

    def length(self, E):
        return SI(z3.Length(self.z))

    def equals(self, E, other):
        other = E.force(other)
        if isinstance(other, (tuple, SLoc)):
            return self.z == term(E, other)
        if other is None or isinstance(other, (list, str, int, SI)):
            return False
        raise Unsupported("location compared")

    def binop(self, E, op, a, b):
        if not isinstance(op, ast.Add):
            raise Unsupported("operator on a location")
        for x in (a, b):
            if not isinstance(E.force(x), (tuple, SLoc)):
                raise Unsupported("location joined to something else")
        return SLoc(z3.Concat(term(E, a), term(E, b)))

    def slice(self, E, lo, hi, st):
        def num(x):
            x = E.zi(x)
            if not E.valid(x >= 0):
                raise Unsupported("slice counted from the end")
            return x
        if st is not None:
            raise Unsupported("slice with a step")
        z = self.z
        if hi is not None:
            z = z3.SubSeq(z, z3.IntVal(0), num(hi))
        if lo is not None:
            lo = num(lo)
            z = z3.SubSeq(z, lo, z3.Length(z) - lo)
        return SLoc(z)

    def as_tuple(self, E):
        return self


class SIss(Model):
    def __init__(self, z):
        self.z = z

    def subst(self, E, pairs, funs):
        return SIss(E.subst(self.z, pairs, funs))

    def attr(self, E, name):
        if name == "code":
            return SI(i_code(self.z))
        raise Unsupported(f"issue attribute {name}")

    def equals(self, E, other):
        if isinstance(other, SIss):
            return self.z == other.z
        raise Unsupported("issue compared")


class Base:
    """contents of a registry before the call: any that satisfy the invariant"""

    def __init__(self, E, name):
        self.I, self.S = (E.fresh(name + x, Tab) for x in ("issues", "stop"))
        E.bases.append(self)
        for t in (self.I, self.S):
            E.fact(t_n(t) >= 0)


def invariant(E):
    """representation invariant of every registry, for the locations, positions and codes that occur"""
    def base(t):
        for b in E.bases:
            if t.eq(b.I) or t.eq(b.S):
                return b
        return None

    def dom(t, q):
        out = [z3.Implies(t_dom(t, q), z3.And(0 <= t_idx(t, q), t_idx(t, q) < t_n(t), t_key(t, t_idx(t, q)) == q))]
        b = base(t)
        if b is not None and t.eq(b.I):
            out.append(z3.Implies(t_dom(t, q), il_len(t_list(t, q)) > 0))
        elif b is not None:
            s = t_set(t, q)
            out.append(z3.Implies(t_dom(t, q), z3.And(t_dom(b.I, q), cs_mem(s, cs_wit(s)))))
        return out

    def key(t, k):
        x = t_key(t, k)
        return [z3.Implies(z3.And(0 <= k, k < t_n(t)), z3.And(t_dom(t, x), t_idx(t, x) == k))]

    def mem(s, c):
        if s.decl().name() != "t_set":
            return []
        t, q = s.children()
        b = base(t)
        if b is None:
            return []
        w, l = t_wit(t, q, c), t_list(b.I, q)
        return [z3.Implies(z3.And(t_dom(t, q), cs_mem(s, c)), z3.And(
            t_dom(b.I, q), 0 <= w, w < il_len(l), i_code(il_at(l, w)) == c))]
    for n, f in (("t_dom", dom), ("t_key", key), ("cs_mem", mem)):
        E.extra_axioms[n] = lambda x, f=f: f(*x.children())


def run_of(l):
    k = z3.Int("e")
    return LSeg(k, il_len(l), [(z3.BoolVal(True), SIss(il_at(l, k)))], True)


class Codes:
    """a set of codes: base or empty, then additions and removals"""

    def __init__(self, kind, prev=None, x=None):
        self.kind, self.prev, self.x = kind, prev, x

    def mem(self, c):
        if self.kind == "empty":
            return z3.BoolVal(False)
        if self.kind == "base":
            return cs_mem(self.x, c)
        p = self.prev.mem(c)
        if self.kind == "add":
            return z3.Or(p, c == self.x)
        if self.kind == "remove":
            return z3.And(p, c != self.x)
        if self.kind == "union":
            return z3.Or(p, self.x.mem(c))
        k, n, alts = self.x
        return z3.Or(p, z3.Exists([k], z3.And(0 <= k, k < n, disj([z3.And(g, code == c) for g, code in alts]))))

    def ne(self):
        if self.kind == "empty":
            return z3.BoolVal(False)
        if self.kind == "add":
            return z3.BoolVal(True)
        if self.kind == "union":
            return z3.Or(self.prev.ne(), self.x.ne())
        d = z3.Int("d")
        return z3.Exists([d], self.mem(d))

    def subst(self, E, pairs, funs):
        x = self.x
        if self.kind == "union":
            x = x.subst(E, pairs, funs)
        elif self.kind == "bulk":
            x = (x[0], E.subst(x[1], pairs, funs), [(E.subst(g, pairs, funs), E.subst(c, pairs, funs)) for g, c in x[2]])
        elif x is not None:
            x = E.subst(x, pairs, funs)
        return Codes(self.kind, self.prev and self.prev.subst(E, pairs, funs), x)


class SCodes(Model):
    """a set of codes that belongs to nobody yet"""

    def __init__(self, v):
        self.v = v

    def subst(self, E, pairs, funs):
        return SCodes(self.v.subst(E, pairs, funs))

    def read(self, E):
        return self.v

    def truth(self, E):
        return self.v.ne()

    def contains(self, E, x):
        return self.v.mem(E.zi(x))


class Op(Model):
    def __init__(self, kind, key, x=None, src=None):
        self.kind, self.key, self.x, self.src = kind, key, x, src

    def subst(self, E, pairs, funs):
        x = self.x.subst(E, pairs, funs) if isinstance(self.x, Codes) else E.subst(self.x, pairs, funs)
        return Op(self.kind, E.subst(self.key, pairs, funs) if self.key is not None else None, x, self.src)


class Bulk(Model):
    """what a loop did: at iteration k of n, the alternative whose guard holds"""

    def __init__(self, k, n, alts, key, inverse):
        self.k, self.n, self.alts, self.key, self.inverse = k, n, alts, key, inverse

    def at(self, E, i):
        return [(E.subst(g, [(self.k, i)]), [o.subst(E, [(self.k, i)], ()) for o in ops]) for g, ops in self.alts]

    def some(self, i):
        return z3.And(0 <= i, i < self.n, disj([z3.substitute(g, (self.k, i)) for g, _ in self.alts]))

    def instance(self, E, i):
        if self.inverse is not None:
            E.fact(z3.Implies(self.some(i), self.inverse(z3.substitute(self.key, (self.k, i))) == i))

    def subst(self, *a):
        raise Unsupported("nested loops over locations")


class LocMap(Model):
    """dictionary keyed by locations that creates missing entries on access"""

    def __init__(self, E, kind, table=None, creates=True):
        self.kind, self.table, self.creates, self.ops, self.iterated = kind, table, creates, (), False
        E.new(self)

    # -- loops
    def placeholder(self, E, key, init, R):
        return init + (Op("unknown", None),)

    def accumulator(self, E, key):
        return None

    def accumulated(self, E, key, init, alts, k, upto, R):
        news = []
        for g, final in alts:
            ops = final[len(init) + 1:] if final is not None else ()
            if final is not None and final[len(init)].kind != "unknown" or any(isinstance(o, Bulk) for o in ops):
                raise Unsupported("map changed in a loop")
            if ops:
                news.append((g, ops))
        if not news:
            return init
        keys = [o.key for _, ops in news for o in ops]
        if any(not x.eq(keys[0]) for x in keys):
            raise Unsupported("several locations per iteration")
        x, inv = keys[0], None
        b = Bulk(k, upto, news, x, None)
        if occurs(x, k):
            i, j = E.fresh("i", I), E.fresh("j", I)
            xi, xj = z3.substitute(x, (k, i)), z3.substitute(x, (k, j))
            if not E.valid(z3.Implies(z3.And(b.some(i), b.some(j), xi == xj), i == j)):
                raise Unsupported("iterations may write to the same location")
            b.inverse = E.fresh_fun("inv", LocQ, I)
        return init + (b,)

    def deltas(self, *a):
        raise Unsupported("map read in a loop")

    def formulas(self, key, v):
        return []

    def merge_cells(self, E, t, a, b, old):
        raise Abort

    def subst(self, E, pairs, funs):
        raise Unsupported("map in a loop result")

    # -- contents
    def emit(self, E, kind, key, x=None, src=None):
        if self.iterated:
            raise Unsupported("map changed after or while iterating over it")
        E.set_cell("model", self, "ops", self.ops + (Op(kind, key, x, src),))

    def instances(self, E, i):
        for o in self.ops:
            if isinstance(o, Bulk):
                o.instance(E, i)

    def read(self, E, q):
        """contents at a location, None: no entry"""
        v = None
        if self.table is not None and E.decide(t_dom(self.table, q)):
            v = E.new([run_of(t_list(self.table, q))]) if self.kind is list else Codes("base", None, t_set(self.table, q))
        for o in self.ops:
            v = self.apply_bulk(E, o, q, v) if isinstance(o, Bulk) else self.apply(E, o, q, v)
        return v

    def apply(self, E, o, q, v, hit=False):
        if o.kind == "unknown":
            raise Unsupported("reading a map that is filled by the loop")
        if not hit and not E.decide(q == o.key):
            return v
        if o.src is not None and not (len(o.src[0]) == len(o.src[1]) and all(a is b for a, b in zip(*o.src))):
            raise Unsupported("list changed after it was stored")
        if o.kind == "ensure":
            return v if v is not None else (E.new([]) if self.kind is list else Codes("empty"))
        if o.kind == "put":
            return o.x
        if o.kind == "del":
            return None
        if v is None:
            raise Unsupported("change of a removed entry")
        if o.kind == "append":
            return E.new(v + [o.x])
        if o.kind == "extend":
            return E.new(v + o.x)
        return Codes(o.kind, v, o.x)

    def apply_bulk(self, E, b, q, v):
        if b.inverse is None:
            if not E.decide(q == b.key):
                return v
            alts = []
            for g, ops in b.alts:
                xs = [o for o in ops if o.kind != "ensure"]
                if len(xs) > 1 or any(o.kind not in ("append", "add") for o in xs):
                    raise Unsupported("repeated change of an entry")
                alts += [(g, o.x) for o in xs]
            if not E.decide(z3.Exists([b.k], z3.And(0 <= b.k, b.k < b.n, disj([g for g, _ in b.alts])))):
                return v
            if self.kind is list:
                return E.new((v or []) + [LSeg(b.k, b.n, alts, False)])
            return Codes("bulk", v or Codes("empty"), (b.k, b.n, alts))
        j = b.inverse(q)
        if not E.decide(z3.And(b.some(j), z3.substitute(b.key, (b.k, j)) == q)):
            return v
        alts = b.at(E, j)
        for o in alts[E.choose([g for g, _ in alts])][1]:
            v = self.apply(E, o, q, v, hit=True)
        return v

    # -- dictionary protocol
    def contains(self, E, k):
        q = term(E, k)
        if not self.ops and self.table is not None:
            return t_dom(self.table, q)
        return self.read(E, q) is not None

    def getitem(self, E, k):
        q = term(E, k)
        if not self.creates:
            if self.read(E, q) is None:
                raise PyRaise(KeyError(k))
        else:
            self.emit(E, "ensure", q)
        return Ref(self, q)

    def setitem(self, E, k, v):
        q, v = term(E, k), E.force(v)
        if isinstance(v, Ref) and v.map is self and v.key.eq(q):
            return          # m[x] += y
        if self.kind is list and type(v) is list:
            self.emit(E, "put", q, list(v), (v, list(v)))
        elif self.kind is set and isinstance(v, SCodes):
            self.emit(E, "put", q, v.v)
        elif self.kind is set and type(v) is set and not v:
            self.emit(E, "put", q, Codes("empty"))
        else:
            raise Unsupported("entry shared with another map")

    def delitem(self, E, k):
        q = term(E, k)
        if self.read(E, q) is None:
            raise PyRaise(KeyError(k))
        self.emit(E, "del", q)

    def seq(self, E, f):
        if self.ops:
            raise Unsupported("iteration over a changed map")
        self.iterated = True
        if self.table is None:
            return E.new([])
        return Seq(t_n(self.table), lambda k: f(t_key(self.table, k)))

    def pieces(self, E):
        return E.pieces(self.seq(E, SLoc))

    def truth(self, E):
        if self.ops:
            raise Unsupported("size of a changed map")
        return False if self.table is None else t_n(self.table) > 0

    def length(self, E):
        if self.ops:
            raise Unsupported("size of a changed map")
        return 0 if self.table is None else SI(t_n(self.table))

    def attr(self, E, name):
        if name == "get":
            def get(k, default=None):
                q = term(E, k)
                return default if self.read(E, q) is None else Ref(self, q)
            return Nat(get, name)
        if name == "items":
            return Nat(lambda: self.seq(E, lambda q: (SLoc(q), Ref(self, q))), name)
        if name == "keys":
            return Nat(lambda: self.seq(E, SLoc), name)
        if name == "values":
            return Nat(lambda: self.seq(E, lambda q: Ref(self, q)), name)
        if name == "setdefault":
            def setdefault(k, default=None):
                d = E.force(default)
                if type(d) is not self.kind or d:
                    raise Unsupported("default entry")
                q = term(E, k)
                self.emit(E, "ensure", q)
                return Ref(self, q)
            return Nat(setdefault, name)
        if name == "pop":
            def pop(k, *default):
                q = term(E, k)
                v = self.read(E, q)
                if v is None:
                    if not default:
                        raise PyRaise(KeyError(k))
                    return default[0]
                self.emit(E, "del", q)
                return v if self.kind is list else SCodes(v)
            return Nat(pop, name)
        raise Unsupported(f"map attribute {name}")


class Ref(Model):
    """the list or set a map holds at a location"""

    def __init__(self, map_, key):
        self.map, self.key, self.since = map_, key, len(map_.ops)

    def subst(self, E, pairs, funs):
        return Ref(self.map, E.subst(self.key, pairs, funs))

    def live(self):
        if any(isinstance(o, Bulk) or o.kind in ("put", "del") for o in self.map.ops[self.since:]):
            raise Unsupported("entry used after it was replaced")

    def read(self, E):
        self.live()
        v = self.map.read(E, self.key)
        if v is None:
            raise Unsupported("entry used after it was removed")
        return v

    def change(self, E, kind, x):
        self.live()
        self.map.emit(E, kind, self.key, x)

    def pieces(self, E):
        if self.map.kind is set:
            raise Unsupported("iteration over codes")
        return E.pieces(self.read(E))

    def truth(self, E):
        v = self.read(E)
        return v.ne() if self.map.kind is set else E.truth(v)

    def length(self, E):
        v = self.read(E)
        if self.map.kind is list:
            return E.length(v)
        n = E.fresh("size", I)
        E.define(z3.And(n >= 0, (n > 0) == v.ne()))
        return SI(n)

    def contains(self, E, x):
        if self.map.kind is list:
            raise Unsupported("search in a list of issues")
        return self.read(E).mem(E.zi(x))

    def as_list(self, E):
        return E.new(list(self.read(E)))

    def as_set(self, E):
        if self.map.kind is list:
            raise Unsupported("set of issues")
        return SCodes(self.read(E))

    def codes(self, E, x):
        x = E.force(x)
        if isinstance(x, (Ref, SCodes)) and not (isinstance(x, Ref) and x.map.kind is list):
            return x.read(E)
        v = Codes("empty")
        for p in E.pieces(x):
            if isinstance(p, Seq):
                raise Unsupported("codes of a sequence")
            v = Codes("add", v, E.zi(p))
        return v

    def binop(self, E, op, a, b):
        if a is not self:
            raise Unsupported("operator on an entry")
        if self.map.kind is list and isinstance(op, ast.Add):
            return E.new(list(self.read(E)) + E.list_of(b))
        if self.map.kind is set and isinstance(op, ast.BitOr):
            return SCodes(Codes("union", self.read(E), self.codes(E, b)))
        raise Unsupported("operator on an entry")

    def iop(self, E, op, b):
        if self.map.kind is list and isinstance(op, ast.Add):
            self.change(E, "extend", E.list_of(b))
        elif self.map.kind is set and isinstance(op, ast.BitOr):
            self.change(E, "union", self.codes(E, b))
        else:
            raise Unsupported("operator on an entry")
        return self

    def attr(self, E, name):
        if self.map.kind is list:
            if name == "append":
                return Nat(lambda x: self.change(E, "append", x), name)
            if name == "extend":
                return Nat(lambda xs: self.change(E, "extend", E.list_of(xs)), name)
            if name == "copy":
                return Nat(lambda: self.as_list(E), name)
        else:
            if name == "add":
                return Nat(lambda x: self.change(E, "add", E.zi(x)), name)
            if name in ("update", "union"):
                if name == "update":
                    return Nat(lambda xs: self.change(E, "union", self.codes(E, xs)), name)
                return Nat(lambda xs: SCodes(Codes("union", self.read(E), self.codes(E, xs))), name)
            if name in ("remove", "discard"):
                def remove(x):
                    if name == "remove" and not E.decide(self.read(E).mem(E.zi(x))):
                        raise PyRaise(KeyError(x))
                    self.change(E, "remove", E.zi(x))
                return Nat(remove, name)
            if name == "copy":
                return Nat(lambda: self.as_set(E), name)
        raise Unsupported(f"attribute {name} of an entry")


# ---------------------------------------------------------------------- contracts
def make_map(E, a, k):
    if k or len(a) > 1:
        raise Unsupported("defaultdict with contents")
    if a[0] not in (list, set):
        raise Unsupported("defaultdict of something else")
    return LocMap(E, a[0])


def setup(E):
    E.constructors[defaultdict] = make_map
    E.trusted |= {"list, set and defaultdict of the standard library: by their documented behaviour",
                  "an issue is known by its identity and its code"}
    E.carry_facts = False
    E.bases = []
    E.FEAS_MS = 400
    invariant(E)


def registry(E, name):
    b = Base(E, name)
    r = E.new(object.__new__(m_error.ValidationIssues))
    r.__dict__.update(_issues=LocMap(E, list, b.I), _stop_proceeding=LocMap(E, set, b.S))
    return r, b


def before(E, b, q):
    """(issues, codes) at a location of a registry as it was"""
    v = E.new([run_of(t_list(b.I, q))]) if E.decide(t_dom(b.I, q)) else None
    s = Codes("base", None, t_set(b.S, q)) if E.decide(t_dom(b.S, q)) else None
    return v, s


def now(E, r, q):
    m = [E.force(E.getattr(r, n)) for n in ("_issues", "_stop_proceeding")]
    if not all(isinstance(x, LocMap) for x in m) or (m[0].kind, m[1].kind) != (list, set):
        raise Unsupported("registry represented in another way")
    return m[0].read(E, q), m[1].read(E, q)


def agree(E, got, want, what):
    """issues and blocking codes at a location are those wanted; the invariant holds there"""
    (gi, gs), (wi, ws) = got, want
    n = None if gi is None else E.length(E.new(list(gi)))
    if n is not None:
        n = z3.IntVal(n) if isinstance(n, int) else n.z
    if gi is None or wi is None:
        E.prove(f"{what}: issues are reported there exactly if they should",
                (gi is None) == (wi is None) if wi is not None or gi is None else n == 0)
        kept(E, "no entry without issues", gi is None)
    else:
        same(E, E.new(list(gi)), E.new(list(wi)), f"{what}: exactly these issues, in order")
        kept(E, "no entry without issues", n > 0)
    if gs is None or ws is None:
        E.prove(f"{what}: a block is there exactly if it should",
                (gs is None) == (ws is None) if ws is not None or gs is None else z3.Not(gs.ne()))
        kept(E, "no block without a code", gs is None)
    else:
        c = E.fresh("c", I)
        E.prove(f"{what}: exactly these codes block", gs.mem(c) == ws.mem(c))
        kept(E, "no block without a code", gs.ne())
        kept(E, "every blocking code has an issue", z3.Implies(gs.mem(c), has_code(E, gi, c)))


def kept(E, what, f):
    """the invariant the other contracts rely on; a representation could be correct without it"""
    try:
        E.prove("invariant: " + what, f)
    except Refuted as e:
        raise Undecided(f"the representation no longer keeps its invariant: {what}") from e


def unchanged(E, r, b, what):
    m = [E.force(E.getattr(r, n)) for n in ("_issues", "_stop_proceeding")]
    if all(isinstance(x, LocMap) and not x.ops for x in m):
        E.prove(what, m[0].table.eq(b.I) and m[1].table.eq(b.S))
        return
    q = E.fresh("p", LocQ)
    agree(E, now(E, r, q), before(E, b, q), what)


def has_code(E, l, c):
    if l is None:
        return z3.BoolVal(False)
    out = []
    for x in l:
        if isinstance(x, LSeg):
            out.append(z3.Exists([x.k], z3.And(0 <= x.k, x.k < x.n, disj(
                [z3.And(g, i_code(v.z) == c) for g, v in x.alts]))))
        else:
            out.append(i_code(x.z) == c)
    return disj(out)


def run(E, fn, args=(), kw=None):
    kind, r = world.outcome(E, lambda: E.call(fn, list(args), kw or {}))
    if kind == "raise":
        E.prove(f"does not raise ({type(r).__name__}: {r})", False)
    return r


def loc(E, name):
    return SLoc(E.fresh(name, LocQ))


def optional(E, name):
    """a location, or none given -> (arguments, term)"""
    if E.decide(E.fresh("given", B)):
        l = loc(E, name)
        return {"location": l}, l.z
    if E.decide(E.fresh("none", B)):
        return {"location": None}, EMPTY
    return {}, EMPTY


USERS = ["C01", "C02"]


@contract(USERS, "ValidationIssues.__init__", issues=False)
def c_init(E):
    setup(E)
    r = E.construct(m_error.ValidationIssues, [], {})
    q = E.fresh("q", LocQ)
    agree(E, now(E, r, q), (None, None), "a new registry is empty")
    E.completed += 1


@contract(USERS, "ValidationIssues.add", issues=False)
def c_add(E):
    setup(E)
    r, b = registry(E, "r")
    kw, L = optional(E, "at")
    i, p = SIss(E.fresh("issue", Iss)), SB(E.fresh("proceed", B))
    run(E, E.getattr(r, "add"), [], dict(kw, issue=i, proceed=p))
    q = E.fresh("q", LocQ)
    v, s = before(E, b, q)
    if E.decide(q == L):
        v = E.new((v or []) + [i])
        if E.decide(z3.Not(p.z)):
            s = Codes("add", s or Codes("empty"), i_code(i.z))
    agree(E, now(E, r, q), (v, s), "adding changes its own location only")
    E.completed += 1


@contract(USERS, "ValidationIssues.merge", issues=False)
def c_merge(E):
    setup(E)
    r, b = registry(E, "r")
    o, ob = registry(E, "other")
    kw, L = optional(E, "under")
    run(E, E.getattr(r, "merge"), [o], kw)
    q = E.fresh("q", LocQ)
    v, s = before(E, b, q)
    if E.decide(z3.PrefixOf(L, q)):
        rest = z3.SubSeq(q, z3.Length(L), z3.Length(q) - z3.Length(L))
        E.fact(q == z3.Concat(L, rest))
        for m in (r.__dict__["_issues"], r.__dict__["_stop_proceeding"]):
            m.instances(E, t_idx(ob.I, rest))
            m.instances(E, t_idx(ob.S, rest))
        w, t = before(E, ob, rest)
        if w is not None:
            v = E.new((v or []) + w)
        if t is not None:
            s = Codes("union", s or Codes("empty"), t)
    agree(E, now(E, r, q), (v, s), "merging carries every issue over, once, under the prefix")
    unchanged(E, o, ob, "the merged registry is left as it was")
    E.completed += 1


@contract(USERS, "ValidationIssues.get", issues=False)
def c_get(E):
    setup(E)
    r, b = registry(E, "r")
    L = loc(E, "at")
    c = run(E, E.getattr(r, "get"), [L])
    q = E.fresh("q", LocQ)
    full = z3.Concat(L.z, q)
    E.fact(z3.SubSeq(full, z3.Length(L.z), z3.Length(full) - z3.Length(L.z)) == q)
    for m in (c.__dict__["_issues"], c.__dict__["_stop_proceeding"]):
        m.instances(E, t_idx(b.I, full))
        m.instances(E, t_idx(b.S, full))
    agree(E, now(E, c, q), before(E, b, full), "what is extracted is what lies at or below the location, re-based")
    unchanged(E, r, b, "the registry is left as it was")
    E.completed += 1


@contract(USERS, "ValidationIssues.pop", issues=False)
def c_pop(E):
    setup(E)
    r, b = registry(E, "r")
    L = loc(E, "at")
    code = SI(E.fresh("code", I))
    p = run(E, E.getattr(r, "pop"), [L, code])
    v, s = before(E, b, L.z)

    def part(eq):
        if v is None:
            return None
        x = v[0]
        k = z3.Int("e")
        g = (i_code(il_at(t_list(b.I, L.z), k)) == code.z) == eq
        if not E.decide(z3.Exists([k], z3.And(0 <= k, k < x.n, g))):
            return None
        return E.new([LSeg(k, x.n, [(g, x.alts[0][1])], False)])
    taken, left = part(True), part(False)
    blocked = s is not None and E.decide(s.mem(code.z))
    q = E.fresh("q", LocQ)
    if E.decide(q == EMPTY):
        agree(E, now(E, p, EMPTY), (taken, Codes("add", Codes("empty"), code.z) if blocked else None),
              "removing returns the issues with that code")
    else:
        agree(E, now(E, p, q), (None, None), "removing returns nothing else")
    q = E.fresh("p", LocQ)
    want = before(E, b, q)
    if E.decide(q == L.z):
        if s is not None:
            rest = Codes("remove", s, code.z)
            s = rest if E.decide(rest.ne()) else None
        want = left, s
    agree(E, now(E, r, q), want, "removing changes its own location and code only")
    E.completed += 1


def locations(E):
    """none, or any number of them -> (arguments, n, k -> term)"""
    if E.decide(E.fresh("noargs", B)):
        return [], z3.IntVal(1), lambda k: EMPTY
    f = E.fresh_fun("loc", I, LocQ)
    n = E.fresh("n", I)
    E.assume(n >= 1)
    return [StarSeq(Seq(n, lambda k: SLoc(f(k))))], n, f


@contract(["C02"], "ValidationIssues.can_proceed", issues=False)
def c_proceed(E):
    setup(E)
    r, b = registry(E, "r")
    a, n, f = locations(E)
    x = run(E, E.getattr(r, "can_proceed"), a)
    k, i = z3.Int("k"), z3.Int("i")
    q = z3.Const("q", LocQ)
    blocked = z3.Exists([k, i], z3.And(0 <= k, k < n, 0 <= i, i <= z3.Length(f(k)),
                                       t_dom(b.S, z3.SubSeq(f(k), z3.IntVal(0), i))))
    E.prove("may proceed exactly if no location or ancestor of one is blocked", zb(E.truth(x)) == z3.Not(blocked))
    unchanged(E, r, b, "the registry is left as it was")
    E.completed += 1


@contract(["C01"], "ValidationIssues.has_issues", issues=False)
def c_has(E):
    setup(E)
    r, b = registry(E, "r")
    a, n, f = locations(E)
    x = run(E, E.getattr(r, "has_issues"), a)
    k, i = z3.Int("k"), z3.Int("i")
    some = z3.Exists([k, i], z3.And(0 <= k, k < n, 0 <= i, i < t_n(b.I), z3.PrefixOf(f(k), t_key(b.I, i))))
    E.prove("has issues exactly if something is reported at or below a location", zb(E.truth(x)) == some)
    unchanged(E, r, b, "the registry is left as it was")
    E.completed += 1
