"""C03: the attribute store itself: a map of values by spelling and a map of spellings by lower-case name."""
import z3

import src.data.container as m_container
from oracle.core import MISSING

from . import attrs, models, theory as T, world
from .c_issues import kept
from .engine import Model, PyRaise, zb
from .models import SymCont, cont_of, same
from .run import contract
from .theory import Nat, SB, SS, SV, Seq, Unsupported, Val

B = z3.BoolSort()
Tab = z3.DeclareSort("Names")
m_dom = z3.Function("m_dom", Tab, T.Str, B)
m_val = z3.Function("m_val", Tab, T.Str, Val)
m_orig = z3.Function("m_orig", Tab, T.Str, T.Str)


class StrMap(Model):
    """dictionary with string keys: contents before the call, then changes"""

    def __init__(self, E, table, names):
        self.table, self.names, self.ops, self.nested = table, names, (), ()
        E.new(self)

    def emit(self, E, *op):
        E.set_cell("model", self, "ops", self.ops + (op,))

    def read(self, E, q, hold=False):
        """value at a key, None: absent; containers held here are known by their key"""
        for kind, key, v in reversed(self.ops):
            if E.decide(q == key):
                return v if kind == "put" else None
        if self.table is None or not E.decide(m_dom(self.table, q)):
            return None
        if self.names:
            return SS(m_orig(self.table, q))
        v = SV(m_val(self.table, q))
        for key, c in self.nested:
            if E.decide(q == key):
                return c
        if hold and E.decide(Val.is_cont_(v.z)):
            c = cont_of(E, v)
            E.set_cell("model", self, "nested", self.nested + ((q, c),))
            return c
        return v

    def key(self, E, k):
        k = E.force(k)
        if not isinstance(k, (str, SS)):
            raise Unsupported("key that is not a text")
        return E.zs(k)

    def contains(self, E, k):
        return self.read(E, self.key(E, k)) is not None

    def getitem(self, E, k):
        v = self.read(E, self.key(E, k), hold=True)
        if v is None:
            raise PyRaise(KeyError("key"))
        return v

    def setitem(self, E, k, v):
        v = E.force(v)
        if self.names and not isinstance(v, (str, SS)):
            raise Unsupported("spelling that is not a text")
        self.emit(E, "put", self.key(E, k), SS(E.zs(v)) if self.names else v)

    def delitem(self, E, k):
        self.getitem(E, k)
        self.emit(E, "del", self.key(E, k), None)

    def attr(self, E, name):
        if name == "get":
            def get(k, default=None):
                v = self.read(E, self.key(E, k), hold=True)
                return default if v is None else v
            return Nat(get, name)
        if name == "pop":
            def pop(k, *default):
                v = self.read(E, self.key(E, k), hold=True)
                if v is None:
                    if default:
                        return default[0]
                    raise PyRaise(KeyError("key"))
                self.emit(E, "del", self.key(E, k), None)
                return v
            return Nat(pop, name)
        raise Unsupported(f"dictionary attribute {name}")

    def truth(self, E):
        raise Unsupported("size of a dictionary")


class Box:
    """a container before the call, its contents by lower-case name"""

    def __init__(self, E):
        attrs.install(E)
        E.trusted |= {"containers held in a container: by this contract",
                      "the dictionaries of the standard library: by their documented behaviour"}
        E.FEAS_MS = 400
        self.D, self.L = E.fresh("data", Tab), E.fresh("names", Tab)

        def inv(t):
            tab, x = t.children()
            if tab.eq(self.L):
                o = m_orig(tab, x)
                return [z3.Implies(t, z3.And(m_dom(self.D, o), T.lower(o) == x))]
            if tab.eq(self.D):
                l = T.lower(x)
                return [z3.Implies(t, z3.And(m_dom(self.L, l), m_orig(self.L, l) == x, z3.Not(Val.is_invalid(m_val(tab, x))),
                                             z3.Not(Val.is_dict_(m_val(tab, x)))))]
            return []
        E.extra_axioms["m_dom"] = inv
        E.bases = []
        self.E = E
        c = self.c = E.new(object.__new__(m_container.SCIMDataContainer))
        c.__dict__.update(_data=StrMap(E, self.D, False), _lower_case_to_original=StrMap(E, self.L, True))

    def rep(self):
        """any well-formed notation -> (implementation's, parts, lower-case parts)"""
        E = self.E
        p = [SS(E.fresh(x, T.Str)) for x in ("schema", "attr", "sub")] + [SB(E.fresh("ext", B))]
        r = attrs.impl_rep(E, *p)
        E.fact(z3.Implies(p[2].z != E.lit(""), attrs.valid_name(E, p[2].z)))
        return r, p, [models.low(E, x) for x in p[:3]]

    def before(self, l):
        """value under a lower-case name before the call, None: absent"""
        if not self.E.decide(m_dom(self.L, l)):
            return None
        return SV(m_val(self.D, m_orig(self.L, l)))

    def now(self, l):
        E = self.E
        d, n = (E.force(E.getattr(self.c, x)) for x in ("_data", "_lower_case_to_original"))
        if not isinstance(d, StrMap) or not isinstance(n, StrMap):
            raise Unsupported("container represented in another way")
        o = n.read(E, l)
        if o is None:
            return None
        kept(E, "a spelling belongs to its name", T.lower(E.zs(o)) == l)
        v = d.read(E, E.zs(o))
        kept(E, "a registered name has a value", v is not None)
        if isinstance(v, SymCont) and not any(w.binders for w in v.writes):
            return SymCont(E, v.base, [models.Wr((), z3.BoolVal(True), w.key, w.value, w.name) for w in v.writes
                                       if E.decide(w.guard)])
        return v

    def rest(self):
        """every value held is registered under its name"""
        E = self.E
        x = E.fresh("x", T.Str)
        d, n = (E.force(E.getattr(self.c, y)) for y in ("_data", "_lower_case_to_original"))
        if d.read(E, x) is None:
            return
        o = n.read(E, T.lower(x))
        kept(E, "every entry is registered", o is not None and E.zs(o) == x)

    def check(self, l, want, what):
        E = self.E
        got = self.now(l)
        if got is None or want is None:
            E.prove(f"{what}: an attribute is there exactly if it should be", got is None and want is None)
        elif isinstance(got, SymCont) and isinstance(want, SymCont):
            E.prove(what, got.base == want.base)
            models.compare_writes(E, got.writes, want.writes, what)
        else:
            same(E, got, want, what)


def inner(E, attr, sub=""):
    """specification: the notation of a part of a held container"""
    return attrs.spec_rep(E, "", attr, sub, False)


def spec_get(E, b, p, l):
    if E.decide(p[0].z != E.lit("")):
        v = b.before(l[0])
        if v is not None:
            return cont_of(E, v).getitem(E, inner(E, p[1], p[2])) if E.decide(Val.is_cont_(v.z)) else MISSING
    if E.decide(p[3].z):
        return MISSING
    v = b.before(l[1])
    if v is None:
        return MISSING
    if E.decide(p[2].z == E.lit("")):
        return v
    part = inner(E, p[2])
    if E.decide(Val.is_cont_(v.z)):
        return cont_of(E, v).getitem(E, part)
    if E.decide(Val.is_lst_(v.z)):
        def item(x):
            return cont_of(E, x).getitem(E, part) if E.decide(Val.is_cont_(x.z)) else MISSING
        s = E.seq_of_lst(Val.l(v.z))
        return Seq(s.n, lambda k: item(s.elem(k)))
    return MISSING


@contract(["C03"], "SCIMDataContainer.__getitem__")
def c_get(E):
    b = Box(E)
    r, p, l = b.rep()
    kind, x = world.outcome(E, lambda: E.call(E.getattr(b.c, "__getitem__"), [r], {}))
    if kind == "raise":
        E.prove(f"reading never raises ({type(x).__name__}: {x})", False)
    same(E, x, spec_get(E, b, p, l), "reading yields the value held under that name, else 'missing'")
    q = T.lower(E.fresh("q", T.Str))
    b.check(q, b.before(q), "reading changes nothing")
    b.rest()
    E.completed += 1


@contract(["C03"], "SCIMDataContainer.__setitem__")
def c_set(E):
    b = Box(E)
    r, p, l = b.rep()
    v = world.val(E, "value")
    E.assume(z3.Or(p[2].z == E.lit(""), z3.Not(Val.is_lst_(v.z))))
    E.assumptions.add("writing a list of sub-attribute values item by item: bounded")
    E.solver.add(z3.Not(Val.is_invalid(v.z)))
    is_ext, q = E.decide(p[3].z), T.lower(E.fresh("q", T.Str))
    own = l[0] if is_ext else l[1]
    old = b.before(own)
    if is_ext:
        E.assume(z3.BoolVal(True) if old is None else Val.is_cont_(old.z))
    kind, x = world.outcome(E, lambda: E.call(E.getattr(b.c, "__setitem__"), [r, v], {}))
    whole = not is_ext and E.decide(p[2].z == E.lit(""))
    refused = not is_ext and not whole and old is not None and not E.decide(Val.is_cont_(old.z))
    if kind == "raise":
        E.prove(f"writing raises only if a part of something simple is written ({type(x).__name__}: {x})",
                refused and isinstance(x, KeyError))
        E.completed += 1
        return
    E.prove("a part of something simple is not written", not refused)
    want = b.before(q)
    if E.decide(q == own):
        if whole:
            want = v
        else:
            want = SymCont(E) if old is None else cont_of(E, old)
            want.setitem(E, inner(E, p[1], p[2]) if is_ext else inner(E, p[2]), v)
    b.check(q, want, "writing changes what is written and nothing else")
    b.rest()
    E.completed += 1


def absent(E, v, rep):
    return Val.is_missing(E.toval(cont_of(E, SV(v)).getitem(E, rep)))


def without(E, v, rep, got):
    """the held container without a part; nothing needs to be done where there is none"""
    c = cont_of(E, v)
    if isinstance(got, SymCont) and not got.writes and E.decide(absent(E, v.z, rep)):
        return c
    c.delitem(E, rep)
    return c


class Deleted(Model):
    """what was deleted from the items of a list"""

    def __init__(self, E):
        self.log = ()
        E.new(self)

    def placeholder(self, E, key, init, R):
        return init

    def accumulator(self, E, key):
        return None

    def accumulated(self, E, key, init, alts, k, upto, R):
        return init + tuple((k, upto, g, item, rep) for g, final in alts if final is not None
                            for _, _, _, item, rep in final[len(init):])

    def merge_cells(self, *a):
        from .engine import Abort
        raise Abort

    def formulas(self, key, v):
        return []

    def note(self, E, item, rep):
        E.set_cell("model", self, "log", self.log + ((None, None, None, item, rep),))


@contract(["C03"], "SCIMDataContainer.__delitem__")
def c_del(E):
    b = Box(E)
    r, p, l = b.rep()
    q = T.lower(E.fresh("q", T.Str))
    log = E.deleted = Deleted(E)
    kind, x = world.outcome(E, lambda: E.call(E.getattr(b.c, "__delitem__"), [r], {}))
    if kind == "raise":
        E.prove(f"deleting never raises ({type(x).__name__}: {x})", False)
    in_ext = E.decide(p[0].z != E.lit("")) and b.before(l[0]) is not None
    ext, sub = E.decide(p[3].z), E.decide(p[2].z != E.lit(""))
    want = b.before(q)
    items = None
    if in_ext:
        if E.decide(q == l[0]) and E.decide(Val.is_cont_(want.z)):
            want = without(E, want, inner(E, p[1], p[2]), b.now(q))
    elif not ext:
        old = b.before(l[1])
        if sub and old is not None and E.decide(Val.is_lst_(old.z)):
            items = E.seq_of_lst(Val.l(old.z))
        if E.decide(q == l[1]):
            if not sub:
                want = None
            elif want is not None and E.decide(Val.is_cont_(want.z)):
                want = without(E, want, inner(E, p[2]), b.now(q))
    b.check(q, want, "deleting removes what is named and nothing else")
    b.rest()
    if items is None:
        E.prove("nothing is deleted from items", not log.log)
    else:
        E.prove("the part is deleted from the items", len(log.log) == 1)
        k, n, g, item, rep = log.log[0]
        i = E.fresh("i", z3.IntSort())
        s = lambda f: E.subst(f, [(k, i)])  # noqa: E731
        x = items.elem(i).z
        E.prove("for every item that has parts", z3.Implies(z3.And(0 <= i, i < items.n), z3.And(
            n == items.n, z3.Implies(s(g), z3.And(Val.is_cont_(x), s(item) == x)),
            z3.Implies(z3.And(Val.is_cont_(x), z3.Not(absent(E, x, inner(E, p[2])))), s(g)))))
        key = SymCont.key_of(None, E, rep)
        E.prove("exactly that part", z3.And(key[0] == "" if isinstance(key[0], str) else E.zs(key[0]) == E.lit(""),
                                            models.low(E, key[1]) == l[2], zb(E.eq(key[2], ""))))
    E.completed += 1
