"""Bulk (C19): the rules for the operations of a bulk request and response, any number and mix of operations."""
import ast

import z3

from oracle import messages as spec
import src.assets.schemas.bulk_ops as m_bulk
import src.request_validators as rv

from . import attrs, models, theory as T, world
from .c_cont import Deleted
from .c_patch import judge
from .c_list import Schs, loc, ss_at, ss_len
from .c_valid import Schema, const, install, s_attrs
from .engine import Model
from .models import Ent, Reg, SymCont, same
from .run import contract
from .theory import Nat, OPAQUE, SB, SI, SS, SV, Seq, Unsupported, Val

I, B = z3.IntSort(), z3.BoolSort()
METHODS = ["GET", "POST", "PATCH", "PUT", "DELETE"]
b_len = z3.Function("bulk_len", T.Cont, I)
b_part = {n: z3.Function("bulk_" + n, T.Cont, I, Val)
          for n in ("method", "bulkId", "version", "path", "data", "location", "status", "response")}
CLEAN = "custom processors run on operations without issues: their parts are absent, null or of the declared type (contracts C06, C07)"
PATTERNS = "the patterns /\\w+ and /\\w+/.* mean what of_type and of_resource of the specification say (enumerated in the bounded part)"
path_ok = {(r"/\w+", "fullmatch"): z3.Function("path_of_type", T.Str, B),
           (r"/\w+/.*", "fullmatch"): z3.Function("path_of_resource", T.Str, B)}


def axioms(E):
    def text(x):
        return [z3.Or(Val.is_none(x), Val.is_missing(x), Val.is_str_(x))]
    E.extra_axioms.update({f"bulk_{n}": text for n in ("bulkId", "version", "path", "location")})
    clean = lambda x: [z3.Not(Val.is_dict_(x)), z3.Not(Val.is_invalid(x))]  # noqa: E731
    E.extra_axioms.update(
        bulk_method=lambda x: text(x) + one_of_methods(E, x), bulk_len=lambda x: [0 <= x], bulk_data=clean, bulk_response=clean,
        bulk_status=lambda x: text(x) + [z3.Implies(Val.is_str_(x), z3.And(models.INT_OK(Val.s(x)), Val.s(x) != E.lit("")))])


def one_of_methods(E, x):
    return [z3.Implies(Val.is_str_(x), z3.Or([Val.s(x) == E.lit(m) for m in METHODS]))]


def part(E, c, k, name):
    if name not in b_part:
        raise Unsupported(f"part {name} of an operation")
    return SV(b_part[name](c, k))


class Item(Model):
    """an operation; what is deleted from it is logged"""

    def __init__(self, c, k, log):
        self.c, self.k, self.log = c, k, log

    def attr(self, E, name):
        if name == "get":
            return Nat(lambda n: self.read(E, n), name)
        if name == "rm":
            return Nat(lambda n: self.log.note(E, self.k, n), name)
        return super().attr(E, name)

    def read(self, E, name):
        for k, _, _, item, n in self.log.log:
            if n == name:
                if k is not None or not item.eq(self.k):
                    raise Unsupported("reading after a deletion")
                return models.MISSING
        return part(E, self.c, self.k, name)

    def name_of(self, E, rep):
        n = E.force(E.getattr(rep, "attr"))
        if not isinstance(n, str) or E.force(E.getattr(rep, "sub_attr")):
            raise Unsupported("part of an operation")
        return n

    def getitem(self, E, rep):
        return self.read(E, self.name_of(E, rep))

    def delitem(self, E, rep):
        self.log.note(E, self.k, self.name_of(E, rep))

    def subst(self, E, pairs, funs):
        return Item(E.subst(self.c, pairs, funs), E.subst(self.k, pairs, funs), self.log)


def items(E, c):
    log = Deleted(E)
    return Seq(b_len(c), lambda k: Item(c, k, log)), log


def gone(E, log, i, n):
    """whether the part of the item was deleted"""
    out = []
    for k, upto, g, item, name in log.log:
        if k is None or name not in b_part:
            raise Unsupported("deletion")
        if name == n:
            s = lambda f: E.subst(f, [(k, i)])  # noqa: E731
            if not s(item).eq(i):
                raise Unsupported("deletion from another item")
            out.append(z3.And(0 <= i, i < upto, s(g)))
    return z3.Or(out)


def setup(E):
    install(E)
    E.trusted.add(CLEAN)
    axioms(E)
    return E.fresh("operations", T.Cont)


def check(E, run, want):
    c = setup(E)
    s1, log1 = items(E, c)
    s2, log2 = items(E, c)
    kind, r = world.outcome(E, lambda: E.call(run, [s1], {}))
    if kind == "raise":
        E.prove(f"checking operations does not raise ({type(r).__name__}: {r})", False)
    value, issues = E.call(want, [s2], {})
    same(E, r[1], issues, "exactly the prescribed issues of the operations")
    if E.force(r[0]) is not s1:
        raise Unsupported("another list of operations")
    i = E.fresh("i", I)
    for n in b_part:
        E.prove(f"{n} is dropped exactly where prescribed", gone(E, log1, i, n) == gone(E, log2, i, n))
    E.completed += 1


@contract("C19", "validate_request_operations")
def request_operations(E):
    E.trusted.add(PATTERNS)
    by_meaning(E)
    check(E, m_bulk.validate_request_operations, spec._request_operations)


def by_meaning(E):
    E.re_known = path_ok
    E.WEAK = E.WEAK + ("re_",)
    for n, k in (("of_type", r"/\w+"), ("of_resource", r"/\w+/.*")):
        def h(E, a, kw, f=path_ok[k, "fullmatch"]):
            x = E.force(a[0])
            return SB(f(E.zs(x) if not isinstance(x, SV) else Val.s(x.z)))
        E.handlers["oracle.messages." + n] = h


@contract("C19", "validate_response_operations")
def response_operations(E):
    check(E, m_bulk.validate_response_operations, spec._response_operations)


@contract("C19", "normalize_operation_method, _validate_status")
def parts(E):
    install(E)
    v = SS(E.fresh("value", T.Str))
    for f, g in ((m_bulk.normalize_operation_method, spec._upper), (m_bulk._validate_status, spec._status)):
        judge(E, f.__name__, lambda f=f: E.call(f, [v], {}), lambda g=g: E.call(g, [v], {}))


# ---------------------------------------------------------------------- requests
REQUEST = ("schema processing of a bulk request (contracts C06, C07, C08): unblocked Operations are absent, null or a list of objects; "
           "a method is one of the five, null, absent or invalid, a path is a text, null, absent or invalid, and an invalid part is "
           "blocked at its place")
REQUIRED = "the presence check blocks at a required attribute without value (contract C09)"
FORM = ("a path without a blocking issue has the form its method requires (validate_request_operations above, which runs unless an "
        "operation has a part of a wrong type; such requests are rejected anyway and what else they report about malformed paths is "
        "left to the bounded part)")
TABLE = ("BulkOperations.__init__ makes, for every method, one validator per plural name (contract below); endpoints of operations are "
         "functions of method, resource and data and report about body, status and headers, and a body is handed on unless there are issues (contracts C14-C16, C18)")
NAMES = "partition at the first slash"
q_given = z3.Function("bulk_given", T.Cont, B)
q_null = z3.Function("bulk_null", T.Cont, B)
known = z3.Function("known_resource", T.Str, B)
t_len = z3.Int("table_len")
t_name = z3.Function("table_name", I, T.Str)
is_located = z3.Function("is_located", Val, B)
first_at = z3.Function("first_at", Val, I)
cut = [z3.Function(f"s_partition_/_{i}", T.Str, T.Str) for i in range(3)]
OWN = {False: s_attrs(const(spec.BULK_REQUEST.urn)), True: s_attrs(const(spec.BULK_RESPONSE.urn))}


def result(E, name, places, *args):
    """body and issues of an endpoint"""
    ss = [a.sort() for a in args]
    out = z3.Function(name, *ss, Val)(*args)
    return SV(out), Reg(E, [Ent((), z3.BoolVal(True), (p,), None, None, z3.Function(f"{name}_{p}", *ss, T.RegS)(*args)) for p in places])


class Log(Deleted):
    """what was written into operations; () marks a loop in progress"""

    def placeholder(self, E, key, init, R):
        return init + ((),)

    def accumulated(self, E, key, init, alts, k, upto, R):
        return init + tuple((k, upto, g, *e[3:]) for g, final in alts if final is not None for e in final[len(init):] if e)

    def names(self):
        return {"data", "response"} if () in self.log else {e[4][0] for e in self.log}


class Message(SymCont):
    """a processed bulk message; what is written into its operations is logged"""

    def __init__(self, E, c):
        super().__init__(E, c)
        self.log = Log(E)

    def read(self, E, key):
        c, log = self.base, self.log
        if not (isinstance(key[1], str) and key[1].lower() == "operations") or self.writes:
            raise Unsupported("part of a bulk message")
        if not E.decide(q_given(c)):
            return None if E.decide(q_null(c)) else models.MISSING
        if not key[2]:
            return Seq(b_len(c), lambda k: Operation(c, k, log))
        if not isinstance(key[2], str):
            raise Unsupported("part of an operation")
        if key[2] in log.names():
            raise Unsupported("reading after a write")
        return Seq(b_len(c), lambda k: Operation(c, k, log).original(E, key[2]))

    def subst(self, E, pairs, funs):
        return self


class Operation(Item):
    def attr(self, E, name):
        if name == "put":
            return Nat(lambda n, v: self.write(E, n, v), name)
        if name == "rm":
            raise Unsupported("deletion")
        return super().attr(E, name)

    def read(self, E, name):
        if name in {e[4][0] for e in self.log.log if e}:
            raise Unsupported("reading after a write")
        return self.original(E, name)

    def original(self, E, name):
        return part(E, self.c, self.k, name)

    def write(self, E, name, v):
        # containers convert dictionaries
        z = E.toval(v)
        self.log.note(E, self.k, (name, z3.If(Val.is_dict_(z), Val.cont_(T.c_of_dict(Val.d(z))), z)))

    def name_of(self, E, rep):
        rep = E.force(rep)
        return rep if isinstance(rep, str) else super().name_of(E, rep)

    def setitem(self, E, rep, v):
        self.write(E, self.name_of(E, rep), v)

    def delitem(self, E, rep):
        raise Unsupported("deletion")

    def subst(self, E, pairs, funs):
        return Operation(E.subst(self.c, pairs, funs), E.subst(self.k, pairs, funs), self.log)


def written(E, log, i, n):
    """(guard, value) of the writes into a part of the item"""
    out = []
    for k, upto, g, item, (name, v) in log.log:
        if k is None or name not in b_part:
            raise Unsupported("write")
        if name == n:
            s = lambda f: E.subst(f, [(k, i)])  # noqa: E731
            if not s(item).eq(i):
                raise Unsupported("write into another item")
            out.append((z3.And(0 <= i, i < upto, s(g)), s(v)))
    return out


def same_messages(E, a, b):
    if not (isinstance(a, Message) and isinstance(b, Message)):
        return same(E, a, b, "the document is handed on exactly if nothing is reported")
    E.prove("the document is handed on", a.base == b.base)
    i = E.fresh("i", I)
    for n in b_part:
        w1, w2 = written(E, a.log, i, n), written(E, b.log, i, n)
        E.prove(f"{n} of operations is replaced exactly where prescribed, by what the endpoint hands on", z3.And(
            z3.Or([g for g, _ in w1]) == z3.Or([g for g, _ in w2]),
            z3.And([z3.Implies(z3.And(g, h), v == w) for g, v in w1 for h, w in w2])))


class MessageSchema(Model):
    """a bulk schema: its declaration is the real object, its processing is by contract"""

    def __init__(self, real, mode):
        self.real, self.mode = real, mode

    def attr(self, E, name):
        if name == self.mode:
            return Nat(lambda data: processed(E, data, name), name)
        if name in ("parse", "dump"):
            raise Unsupported(name)
        return E.getattr(self.real, name)

    def truth(self, E):
        return True


def processed(E, v, mode):
    z = E.toval(v)
    c, ok, R = (z3.Function(f"bulk_{mode}{x}", Val, y)(z) for x, y in (("", T.Cont), ("_ok", B), ("_reg", T.RegS)))
    E.fact(z3.Or(ok, T.r_blk(R, T.Loc.nil)))
    reg = Reg(E, [Ent((), z3.BoolVal(True), (), None, None, R)])
    return (Message(E, c) if E.decide(ok) else models.INVALID), reg


def place(E, k, name):
    return models.loc_term(models.atoms(E, ("Operations", SI(k), name)))


def facts(E, mode):
    from .c_valid import CkS, presence_reg
    ck = z3.Const("checker:None", CkS)

    def regs(c):
        R = z3.Function(f"bulk_{mode}_reg", Val, T.RegS)(c.arg(0))
        P = presence_reg(ck, c, OWN[mode == "dump"], z3.BoolVal(False))
        return R, P

    def invalid(x, name):
        return T.r_blk(regs(x.arg(0))[0], place(E, x.arg(1), name))

    def absent(x, name):
        return T.r_blk(regs(x.arg(0))[1], place(E, x.arg(1), name))

    def text(n, required=False):
        def f(x):
            out = [z3.Or(Val.is_none(x), Val.is_missing(x), Val.is_str_(x), z3.And(Val.is_invalid(x), invalid(x, n)))]
            if required:
                out.append(z3.Or(Val.is_str_(x), Val.is_invalid(x), absent(x, n)))
            return out
        return f
    E.extra_axioms.update({f"bulk_{n}": text(n, n in ("method", "path", "status")) for n in b_part})
    E.extra_axioms.update({f"bulk_{n}": lambda x: [z3.Not(Val.is_dict_(x)), z3.Not(Val.is_invalid(x))] for n in ("data", "response")})
    E.extra_axioms.update(
        bulk_len=lambda x: [0 <= x], bulk_method=lambda x: text("method", True)(x) + one_of_methods(E, x),
        bulk_given=lambda x: [z3.Or(x, T.r_blk(regs(x.arg(0))[1], loc(E, "Operations")))])
    return regs


def method_of(E, m):
    m = E.force(m)
    return Val.s(m.z) if isinstance(m, SV) else E.zs(m)


class Validators(Model):
    def __init__(self, method=None):
        self.method = method

    def getitem(self, E, m):
        if self.method is None:
            m = E.toval(m)
            if not E.decide(z3.And(Val.is_str_(m), z3.Or([Val.s(m) == E.lit(x) for x in METHODS]))):
                raise models.PyRaise(KeyError("method"))
            return Validators(Val.s(m))
        if not E.decide(known(E.zs(m))):
            raise models.PyRaise(KeyError("resource"))
        return Endpoint(self.method, E.zs(m))

    def attr(self, E, name):
        if name == "get" and self.method is not None:
            return Nat(lambda n: Endpoint(self.method, E.zs(n)) if E.decide(known(E.zs(n))) else None, name)
        if name == "items" and self.method is not None:
            return Nat(lambda: Seq(t_len, lambda k: (SS(t_name(k)), Endpoint(self.method, t_name(k)))), name)
        return super().attr(E, name)

    def contains(self, E, x):
        if self.method is None:
            raise Unsupported("methods of a table")
        return known(E.zs(x))


class Endpoint(Model):
    def __init__(self, method, name):
        self.method, self.name = method, name

    def truth(self, E):
        return True

    def attr(self, E, name):
        if name == "parse_request":
            def run(body=None, headers=None, query_string=None):
                if headers is not None or query_string is not None:
                    raise Unsupported("request with headers")
                v, reg = operation(E, self.method, self.name, body)
                return rv.RequestData(headers=None, query_string=None, body=v), reg
            return Nat(run, name)
        if name == "dump_response":
            def run(status_code, body=None, headers=None):
                if not isinstance(headers, dict) or list(headers) != ["Location"]:
                    raise Unsupported("response with other headers")
                v, reg = answer(E, self.method, self.name, body, status_code, headers["Location"])
                return rv.ResponseData(headers=None, body=v), reg
            return Nat(run, name)
        return super().attr(E, name)

    def subst(self, E, pairs, funs):
        s = lambda v: E.subst(v, pairs, funs)  # noqa: E731
        return Endpoint(s(self.method) if self.method is not None else None, s(self.name))


def operation(E, method, name, body):
    def handed(x):
        R = z3.Function("request_body", *[a.sort() for a in x.children()], T.RegS)(*x.children())
        return [z3.If(T.r_has(R, T.Loc.nil), Val.is_none(x), Val.is_cont_(x))]
    E.extra_axioms["request"] = handed
    return result(E, "request", ["body"], method, name, E.toval(body))


def answer(E, method, name, body, status, location):
    E.extra_axioms["response"] = lambda x: [z3.Or(Val.is_none(x), Val.is_dict_(x))]
    return result(E, "response", ["body", "status", "headers"], method, name, E.toval(body), E.zi(status), E.toval(location))


class ErrorEndpoint(Model):
    def attr(self, E, name):
        if name == "dump_response":
            def run(status_code, body=None):
                v, reg = failure(E, body, status_code)
                return rv.ResponseData(headers=None, body=v), reg
            return Nat(run, name)
        return super().attr(E, name)

    def truth(self, E):
        return True


def failure(E, body, status):
    E.extra_axioms["response_error"] = lambda x: [z3.Or(Val.is_none(x), Val.is_dict_(x))]
    return result(E, "response_error", ["body", "status"], E.toval(body), E.zi(status))


class Limits(Model):
    def __init__(self, n):
        self.n = n

    def subst(self, E, pairs, funs):
        return self

    def attr(self, E, name):
        if name == "bulk":
            return self
        if name == "max_operations":
            return self.n
        return super().attr(E, name)


def bulk(E):
    install(E)
    E.WEAK = tuple(x for x in E.WEAK if x != "s_partition")
    E.trusted |= {REQUIRED, TABLE, NAMES}
    n = SI(E.fresh("max_operations", I))
    for cls, mode, spec_ in ((m_bulk.BulkRequest, "parse", False), (m_bulk.BulkResponse, "dump", True)):
        real = cls()
        E.attr_tokens.append((real.attrs, OWN[spec_]))
        E.constructors[cls] = lambda E, a, k, real=real, mode=mode: MessageSchema(real, mode)
    o = E.construct(rv.BulkOperations, [Limits(n)], {"resource_schemas": []})
    tables = [k for k, v in vars(o).items() if isinstance(v, dict) and sorted(v) == sorted(METHODS)]
    if len(tables) != 1 or any(v for v in vars(o)[tables[0]].values()):
        raise Unsupported("table of validators")
    E.setattr(o, tables[0], Validators())
    return o, n


@contract("C19", "BulkOperations.parse_request")
def parse_request(E):
    o, n = bulk(E)
    E.trusted |= {REQUEST, FORM}
    E.WEAK += ("re_",)
    regs = facts(E, "parse")
    typ, obj = path_ok[r"/\w+", "fullmatch"], path_ok[r"/\w+/.*", "fullmatch"]

    def form(x):
        p, R = Val.s(x), regs(x.arg(0))[0]
        rest = cut[2](p)
        m = b_part["method"](x.arg(0), x.arg(1))
        return [z3.Or(z3.Not(Val.is_str_(x)), T.r_blk(R, place(E, x.arg(1), "path")), z3.Not(Val.is_str_(m)),
                      z3.If(Val.s(m) == E.lit("POST"), typ(p), obj(p))),
                z3.Implies(typ(p), z3.And(cut[0](rest) == rest, cut[0](p) == E.lit("")))]
    base = E.extra_axioms["bulk_path"]
    E.extra_axioms["bulk_path"] = lambda x: base(x) + form(x)
    h = E.handlers
    h["oracle.schemas.process_schema"] = lambda E, a, k: processed(E, a[1], a[2])

    def name(E, a, k):
        rest = cut[2](E.zs(a[1]) if not isinstance(a[1], SV) else Val.s(a[1].z))
        return SS(rest if E.decide(method_of(E, a[0]) == E.lit("POST")) else cut[0](rest))
    h["oracle.messages.resource_name"] = name
    h["oracle.messages.by_plural"] = lambda E, a, k: Endpoint(None, E.zs(a[1])) if E.decide(known(E.zs(a[1]))) else None
    h["oracle.messages.operation_request"] = lambda E, a, k: operation(E, method_of(E, a[1]), a[0].name, a[2])
    v = world.val(E, "body")
    kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "parse_request"), [], {"body": v}))
    if kind == "raise":
        E.prove(f"bulk request does not raise ({type(r).__name__}: {r})", False)
    body, issues = E.call(spec.bulk_request, [OPAQUE, v, n], {})
    same(E, r[1], issues, "bulk request: exactly the prescribed issues")
    same_messages(E, E.force(E.getattr(r[0], "body")), E.force(body))
    E.completed += 1


# ---------------------------------------------------------------------- the table of validators
s_plural = z3.Function("s_plural", T.Sch, T.Str)
CLASSES = {"GET": rv.ResourceObjectGET, "POST": rv.ResourcesPOST, "PUT": rv.ResourceObjectPUT,
           "PATCH": rv.ResourceObjectPATCH, "DELETE": rv.ResourceObjectDELETE}


class Named(Schema):
    def attr(self, E, name):
        if name == "plural_name":
            return SS(s_plural(self.t))
        return super().attr(E, name)

    def subst(self, E, pairs, funs):
        return Named(E.subst(self.t, pairs, funs), self.spec)


class Table(Model):
    """a dictionary, as the writes into it"""

    def __init__(self, E):
        self.log = Log(E)

    def setitem(self, E, k, v):
        self.log.note(E, E.zs(k), v)


class Made(Model):
    """a new validator: its class and what it was made from"""

    def __init__(self, cls, args, kw):
        self.cls, self.args, self.kw = cls, args, kw

    def truth(self, E):
        return True

    def subst(self, E, pairs, funs):
        s = lambda v: E.subst(v, pairs, funs)  # noqa: E731
        return Made(self.cls, [s(a) for a in self.args], {k: s(v) for k, v in self.kw.items()})


@contract("C19", "BulkOperations.__init__")
def table(E):
    install(E)
    E.trusted.add("a dictionary holds what was written last under a key")
    for cls in CLASSES.values():
        E.constructors[cls] = lambda E, a, k, cls=cls: Made(cls, a, k)
    t = E.fresh("schemas", Schs)
    E.assume(ss_len(t) >= 0)
    for cls, mode in ((m_bulk.BulkRequest, "parse"), (m_bulk.BulkResponse, "dump")):
        E.constructors[cls] = lambda E, a, k, cls=cls, mode=mode: MessageSchema(cls(), mode)
    config = Limits(None)
    E.empty_dict = Table
    o = E.construct(rv.BulkOperations, [config], {"resource_schemas": Seq(ss_len(t), lambda k: Named(ss_at(t, k), False))})
    tables = [k for k, v in vars(o).items() if isinstance(v, dict) and sorted(v) == sorted(METHODS)]
    if len(tables) != 1:
        raise Unsupported("table of validators")
    i = E.fresh("i", I)
    for m, tab in vars(o)[tables[0]].items():
        if not isinstance(tab, Table):
            raise Unsupported("table of validators")
        if len(tab.log.log) > 1:
            raise Unsupported("several writes")
        E.prove(f"{m}: one validator per resource", len(tab.log.log) == 1)
        k, upto, g, key, v = tab.log.log[0]
        s = lambda f: E.subst(f, [(k, i)])  # noqa: E731
        if not isinstance(v, Made):
            raise Unsupported("validator")
        v = s(v)
        E.prove(f"{m}: of the endpoint of the method", v.cls is CLASSES[m])
        names = ["config", "resource_schema"][:2 - (m == "DELETE")]
        a = dict(zip(names, v.args), **v.kw)
        if sorted(a) != names or not isinstance(a.get("resource_schema", config), (Schema, Limits)):
            raise Unsupported("arguments of a validator")
        E.prove(f"{m}: with the configuration", a["config"] is config)
        E.prove(f"{m}: for every schema, in order, under its plural name", z3.And(
            upto == ss_len(t), z3.Implies(z3.And(0 <= i, i < upto), z3.And(s(g), s(key) == s_plural(ss_at(t, i)),
                                          m == "DELETE" or a["resource_schema"].t == ss_at(t, i)))))
    E.completed += 1


# ---------------------------------------------------------------------- responses
RESPONSE = ("schema processing of a bulk response (contracts C06, C07, C08): unblocked Operations are absent, null or a list of objects; "
            "a method is one of the five, null, absent or invalid, a status is the text of a number, and a location, a version is a "
            "text, or null, absent or invalid, and an invalid part is blocked at its place")
FIRST = "the resource of a location is the first of the table whose name is a part of the location's path"


def part_of(E, k, v):
    return E.compare(ast.In(), models.concat(E, models.concat(E, "/", SS(t_name(k))), "/"), SS(Val.s(v)))


def first_match(E, k, n, ex):
    """the first resource whose name is in a location"""
    if not n.eq(t_len):
        return None
    todo, locs = [ex], []
    while todo:
        t = todo.pop()
        if z3.is_app(t):
            if t.decl().name() == "bulk_location" and not any(t.eq(x) for x in locs):
                locs.append(t)
            todo += t.children()
    if len(locs) != 1:
        return None
    want = part_of(E, k, locs[0])
    if not z3.simplify(want == ex).eq(z3.BoolVal(True)):
        return None
    return is_located(locs[0]), first_at(locs[0])


@contract("C19", "BulkOperations.dump_response")
def dump_response(E):
    E.light, E.carry_facts, E.small = "only", False, ("bulk_len",)
    o, n = bulk(E)
    E.trusted |= {RESPONSE, FIRST}
    E.first_match = first_match
    # what the two names mean
    E.extra_axioms["is_located"] = lambda x: [z3.Implies(x, z3.And(
        0 <= first_at(x.arg(0)), first_at(x.arg(0)) < t_len, part_of(E, first_at(x.arg(0)), x.arg(0))))]
    facts(E, "dump")
    status = E.extra_axioms["bulk_status"]
    E.extra_axioms["bulk_status"] = lambda x: status(x) + [z3.Implies(Val.is_str_(x), z3.And(
        models.INT_OK(Val.s(x)), Val.s(x) != E.lit("")))]
    E.constructors[rv.Error] = lambda E, a, k: ErrorEndpoint()
    h = E.handlers
    h["oracle.schemas.process_schema"] = lambda E, a, k: processed(E, a[1], a[2])

    def located(E, a, k):
        z = E.toval(a[1])
        return Endpoint(None, t_name(first_at(z))) if E.decide(is_located(z)) else None

    def response(E, a, k):
        v, reg = answer(E, method_of(E, a[1]), a[0].name, a[2], a[3], a[4])
        return (None if E.decide(Val.is_none(v.z)) else SymCont(E, T.c_of_dict(Val.d(v.z)))), reg
    h["oracle.messages.located"] = located
    h["oracle.messages.operation_response"] = response
    h["oracle.messages.error_response"] = lambda E, a, k: failure(E, a[0], a[1])
    v, st = world.val(E, "body"), SI(E.fresh("status", I))
    limit = SI(E.fresh("fail_on_errors", I)) if E.decide(E.fresh("limited", B)) else None
    kind, r = world.outcome(E, lambda: E.call(E.getattr(o, "dump_response"), [], {
        "body": v, "status_code": st, "fail_on_errors": limit}))
    if kind == "raise":
        E.prove(f"bulk response does not raise ({type(r).__name__}: {r})", False)
    body, issues = E.call(spec.bulk_response, [OPAQUE, v, st, limit], {})
    same(E, r[1], issues, "bulk response: exactly the prescribed issues")
    same_messages(E, E.force(E.getattr(r[0], "body")), E.force(body))
    E.completed += 1
