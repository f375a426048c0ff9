"""Sorts, uninterpreted functions and the symbolic Python values built from them."""
import z3

z3.set_param("smt.random_seed", 1)

Str = z3.DeclareSort("Str")
Flt = z3.DeclareSort("Flt")
Lst = z3.DeclareSort("Lst")
Cont = z3.DeclareSort("Cont")
Dct = z3.DeclareSort("Dct")
Date = z3.DeclareSort("Date")
Oth = z3.DeclareSort("Oth")
RegS = z3.DeclareSort("Reg")
Att = z3.DeclareSort("Att")
AttrsS = z3.DeclareSort("Attrs")
Opr = z3.DeclareSort("Opr")       # filter operators
Unit = z3.DeclareSort("Unit")
Sch = z3.DeclareSort("Sch")        # schemas

Val = z3.Datatype("Val")
Val.declare("none")
Val.declare("missing")
Val.declare("invalid")
Val.declare("bool_", ("b", z3.BoolSort()))
Val.declare("int_", ("i", z3.IntSort()))
Val.declare("flt_", ("f", Flt))
Val.declare("str_", ("s", Str))
Val.declare("lst_", ("l", Lst))
Val.declare("cont_", ("c", Cont))
Val.declare("dict_", ("d", Dct))
Val.declare("date_", ("t", Date))
Val.declare("oth_", ("o", Oth))
Val = Val.create()

Atom = z3.Datatype("Atom")
Atom.declare("as_", ("as_s", Str))
Atom.declare("ai_", ("ai_i", z3.IntSort()))
Atom = Atom.create()
Loc = z3.Datatype("Loc")
Loc.declare("nil")
Loc.declare("cons", ("hd", Atom), ("tl", Loc))
Loc = Loc.create()

I, B = z3.IntSort(), z3.BoolSort()
F = z3.Function
lower = F("lower", Str, Str)
strlen = F("strlen", Str, I)
l_len = F("l_len", Lst, I)
l_item = F("l_item", Lst, I, Val)
f_truth = F("f_truth", Flt, B)
d_len = F("d_len", Dct, I)
d_has = F("d_has", Dct, Str, z3.BoolSort())
d_get = F("d_get", Dct, Str, Val)
o_truth = F("o_truth", Oth, B)
c_get = F("c_get", Cont, Str, Str, Str, B, Val)   # container, lower schema, lower attr, lower sub, ext
c_of_dict = F("c_of_dict", Dct, Cont)
c_empty = z3.Const("c_empty", Cont)
r_cnt = F("r_cnt", RegS, Loc, I, B, I)
r_has = F("r_has", RegS, Loc, B)                   # anything at or below
r_blk = F("r_blk", RegS, Loc, B)                   # blocked at or above
a_len = F("a_len", AttrsS, I)
a_at = F("a_at", AttrsS, I, Att)
a_found = F("a_found", AttrsS, Str, Str, Str, B)
a_find = F("a_find", AttrsS, Str, Str, Str, Att)
a_subs = F("a_subs", Att, AttrsS)


class Strings:
    """literal strings as distinct constants"""

    def __init__(self):
        self.tab = {}

    def lit(self, s):
        if s not in self.tab:
            self.tab[s] = z3.Const("str:" + s, Str)
        return self.tab[s]

    def axioms_of(self, c):
        """facts about a literal: it differs from every other one; its lower-case form"""
        text = c.decl().name()[4:]
        return [lit_id(c) == list(self.tab).index(text), lower(c) == self.lit(text.lower())]


lit_id = F("lit_id", Str, I)


class Unsupported(Exception):
    pass


class Sym:
    """base class of symbolic scalars"""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f"<{type(self).__name__} {str(self.z)[:80]}>"

    def __bool__(self):
        raise Unsupported("truth of a symbolic value in native code")

    def __eq__(self, other):
        raise Unsupported("equality of a symbolic value in native code")

    __hash__ = object.__hash__


class SB(Sym):
    pass


class SI(Sym):
    pass


class SS(Sym):
    pass


class SV(Sym):
    pass


class SDate(Sym):
    pass


class SFlt(Sym):
    pass


class SEnum:
    """symbolic member of an enumeration; z: Int index into members"""

    def __init__(self, z, members, names=None):
        self.z, self.members = z, list(members)

    def __repr__(self):
        return f"<SEnum {self.z}>"

    def __eq__(self, other):
        raise Unsupported("equality of a symbolic value in native code")

    __hash__ = object.__hash__


class Opaque:
    """a value nothing may depend on (message texts, types of bad values)"""

    def __repr__(self):
        return "<opaque>"

    def __bool__(self):
        raise Unsupported("truth of an opaque value")


OPAQUE = Opaque()


class Poison:
    def __init__(self, cell):
        self.cell = cell


class Lazy:
    """value built (with forking) when first needed; cache per path by the key"""

    def __init__(self, key, make):
        self.key, self.make = key, make


class Seq:
    """symbolic sequence: n elements, elem(k: z3 Int) -> value"""

    def __init__(self, n, elem, of=None):
        self.n, self.elem, self.of = n, elem, of

    def __repr__(self):
        return f"<Seq n={self.n}>"


class Skip(Exception):
    """the element at this index was filtered out"""


class FSeq(Seq):
    """run of which only some indices contribute; can be iterated, but has no plain length"""

    def __init__(self, bound, elem):
        self.bound, self.elem, self.of = bound, elem, None

    @property
    def n(self):
        raise Unsupported("length of or access into a filtered run")

    def __repr__(self):
        return f"<FSeq {self.bound}>"


def bound_of(seq):
    return seq.bound if isinstance(seq, FSeq) else seq.n


class LSeg:
    """a run inside a native list: for k in 0..n-1, the alternatives whose guard holds
    contribute their value (at most one of them; none: the element is skipped)"""

    def __init__(self, k, n, alts, total):
        self.k, self.n, self.alts, self.total = k, n, alts, total

    def __repr__(self):
        return f"<LSeg n={self.n} {self.alts}>"


class Nat:
    """native callable that takes symbolic arguments"""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name or getattr(fn, "__name__", "")

    def __repr__(self):
        return f"<Nat {self.name}>"


class Err:
    """model of ValidationError: only the code matters"""

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return f"Err({self.code})"
