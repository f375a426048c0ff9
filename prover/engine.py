"""Symbolic interpreter and verification-condition generator for Python source.

Functions are executed from the AST of the file they were loaded from, so the verified text is the
code that runs.  Straight-line code forks on symbolic conditions (decision traces, re-executed);
a loop over a symbolic sequence is summarised from one arbitrary iteration, for every number of
iterations.  Classes named in `models` are replaced by the abstract view given by their contract.
"""
import ast
import builtins
import operator
import time
import types

import z3

from . import theory as T
from .theory import (
    Err, FSeq, LSeg, Lazy, Skip, bound_of, Nat, OPAQUE, Opaque, Poison, SB, SDate, SEnum, SFlt, SI, SS, SV, Seq, Sym, Unsupported, Val,
)


class Prune(Exception):
    """infeasible path"""


class Abort(Exception):
    """speculative execution would have to fork"""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class NeedLive(Exception):
    def __init__(self, cell):
        self.cell = cell


class Refuted(Exception):
    def __init__(self, name, model, detail=""):
        self.name, self.model, self.detail = name, model, detail


class Undecided(Exception):
    pass


UNDEF = object()


class Deferred:
    """value of a variable after a symbolic loop, worked out when read"""

    def __init__(self, fn):
        self.fn = fn


def models_():
    from . import models
    return models


class Model:
    """abstract object; subclasses answer attribute access and operators"""

    def attr(self, E, name):
        raise Unsupported(f"attribute {name} of {type(self).__name__}")


class Frame:
    def __init__(self, E, globals_, parent=None, func="", owner=None, closure=None):
        self.locals, self.globals, self.parent = {}, globals_, parent
        self.func, self.owner, self.closure = func, owner, closure
        self.yields = None
        self.nonlocals = set()
        E.new(self)


class Closure:
    def __init__(self, node, frame, defaults, kwdefaults, owner=None):
        self.node, self.frame, self.defaults, self.kwdefaults, self.owner = node, frame, defaults, kwdefaults, owner
        self.name = getattr(node, "name", "<lambda>")


class Bound:
    def __init__(self, fn, self_, owner=None):
        self.fn, self.self_, self.owner = fn, self_, owner

    def __repr__(self):
        return f"<Bound {getattr(self.fn, '__qualname__', self.fn)}>"


class Fn:
    """plain function found in a class (owner known, for super())"""

    def __init__(self, fn, owner):
        self.fn, self.owner = fn, owner


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Ctx:
    def __init__(self):
        self.trace, self.pos = [], 0
        self.pc, self.fresh, self.defs, self.facts = [], [], [], []

    def restart(self):
        self.pos = 0
        self.pc, self.fresh, self.defs, self.facts = [], [], [], []

    def next(self):
        while self.trace and not self.trace[-1][1]:
            self.trace.pop()
        if not self.trace:
            return False
        e = self.trace[-1]
        e[0] = e[1].pop(0)
        return True


class Path:
    def __init__(self, pc, fresh, defs, sig, finals):
        self.pc, self.fresh, self.defs, self.sig, self.finals = pc, fresh, defs, sig, finals

    @property
    def guard(self):
        return conj(self.pc)


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    return z3.BoolVal(True) if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)


def disj(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    return z3.BoolVal(False) if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class TSolver:
    """z3 solver to which the relevant instances of the theory axioms are added with each formula"""

    def __init__(self, E):
        self.E, self.s, self.levels = E, z3.Solver(), [set()]
        self.g = z3.Solver()      # the quantifier-free part, if the contract asks for it

    def add(self, *fs):
        for f in fs:
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            self.put(f)
            for a in self.E.closure(f):
                i = a.get_id()
                if not any(i in l for l in self.levels):
                    self.levels[-1].add(i)
                    self.put(a)

    def put(self, f):
        self.s.add(f)
        if self.E.light and not quantified(f):
            self.g.add(f)

    def refuted_lightly(self, ms):
        """contradictory without its quantified facts"""
        if not self.E.light:
            return False
        self.g.set("timeout", ms)
        return self.g.check() == z3.unsat

    def push(self):
        self.s.push()
        self.g.push()
        self.levels.append(set())

    def pop(self):
        self.s.pop()
        self.g.pop()
        self.levels.pop()

    def __getattr__(self, name):
        return getattr(self.s, name)


class NotSmall(Exception):
    pass


def subterms(f, names):
    """closed applications of the functions in a formula"""
    seen, todo, out = set(), [f], []
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().name() in names and not has_vars(t):
                out.append(t)
            todo += t.children()
    return out


def has_vars(t):
    return z3.is_var(t) or any(has_vars(x) for x in t.children())


def expand(f, known, size):
    """quantifiers over 0 <= k < n as instances, given n; anything else is not small"""
    def go(t):
        if z3.is_quantifier(t):
            if t.num_vars() != 1 or t.var_sort(0) != z3.IntSort() or t.is_lambda():
                raise NotSmall
            body = t.body()
            outside = z3.Int("outside!")
            b = z3.substitute_vars(body, outside)
            q = z3.Solver()
            q.set("timeout", 500)
            q.add(z3.Or(outside < 0, outside >= size), z3.Not(b) if t.is_forall() else b)
            if quantified(b) or q.check() != z3.unsat:
                raise NotSmall
            parts = [z3.substitute_vars(body, z3.IntVal(i)) for i in range(size)]
            return z3.And(parts) if t.is_forall() else z3.Or(parts)
        if z3.is_app(t) and quantified(t):
            return t.decl()(*[go(x) for x in t.children()]) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (
                z3.And if z3.is_and(t) else z3.Or)([go(x) for x in t.children()])
        return t
    return go(z3.substitute(f, *known) if known else f)


_QUANT = {}


def quantified(f):
    """does a formula hold a quantifier"""
    i = f.get_id()
    c = _QUANT.get(i)
    if c is None:
        c = _QUANT[i] = (f, z3.is_quantifier(f) or any(quantified(x) for x in f.children()))
    return c[1]


_INDEX = {}


def source_index(filename):
    if filename not in _INDEX:
        tree = ast.parse(open(filename).read())
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = min([node.lineno] + [d.lineno for d in getattr(node, "decorator_list", [])])
                idx.setdefault((line, getattr(node, "name", "<lambda>")), []).append(node)
        _INDEX[filename] = idx
    return _INDEX[filename]


def node_of(fn):
    code = fn.__code__
    nodes = source_index(code.co_filename).get((code.co_firstlineno, code.co_name))
    if not nodes or len(nodes) != 1:
        raise Unsupported(f"source of {fn!r}")
    return nodes[0]


def has_node(stmts, kinds):
    """does the block contain such a statement (not looking into nested functions)"""
    for s in stmts:
        if isinstance(s, kinds):
            return True
        for f in ("body", "orelse", "finalbody"):
            sub = getattr(s, f, None)
            if isinstance(sub, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and has_node(sub, kinds):
                return True
        if isinstance(s, ast.Try) and any(has_node(h.body, kinds) for h in s.handlers):
            return True
    return False


_YIELD = {}


def is_generator(node):
    if node not in _YIELD:
        found = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
                stack.extend(ast.iter_child_nodes(n))
        _YIELD[node] = found
    return _YIELD[node]


class Engine:
    MAX_PATHS = 3000
    MAX_BODY_PATHS = 400
    FEAS_MS = 1500
    PROVE_MS = 20000

    def __init__(self, interpret=("src", "oracle", "prover.spec"), deadline=None):
        self.prefixes = interpret
        self.handlers = {}        # qualified name -> handler(E, args, kwargs) or NotImplemented
        self.constructors = {}    # class -> handler(E, args, kwargs)
        self.type_tests = {}      # class -> fn(E, value) -> bool/formula/None
        self.small = ()           # functions that give the length of the contract's sequences
        self.light = False        # first try without quantified facts
        self.strings = T.Strings()
        self.solver = TSolver(self)
        self.axiom_cache = {}
        self.closure_cache = {}
        self.solver.set("timeout", self.FEAS_MS)
        self.base = []            # assumptions of the contract, for all paths
        self.ctxs = [Ctx()]
        self.trail = []
        self.births = {}
        self.stamp = 0
        self.nofork = 0
        self.nuniq = 0
        self.recs, self.lsts = [], []
        self.objs, self.asked, self.memo = [], [], []
        self.loop_regs = {}       # state of a registry in a running loop -> the loop's index
        self.frames, self.unframed = {}, set()     # invariant: its entries name their iteration at this position
        self.distinct = lambda t, k: False         # terms that differ between iterations (precondition of the contract)
        self.carry_facts = True   # what a registry read in a loop may hold, as quantified facts
        self.extra_axioms = {}    # function name -> fn(ground term) -> facts (preconditions of the contract)
        self.first_match = None   # names the first iteration that leaves a loop, if the contract has a name for it
        self.empty_dict = None    # model of an empty dict display, if the contract needs one
        self.abstracted_terms = set()
        self.term_cache = {}
        self.classes = {}
        self.obligations = self.discharged = self.npaths = 0
        self.solver_s = 0.0
        self.backends = set()
        self.functions = set()
        self.assumptions = set()
        self.trusted = set()
        self.deadline = deadline
        self.cover = 0
        self.depth = 0
        self.canon_map = {}
        self.lazy_cache = {}
        self.nonce = 0
        self.completed = 0

    # ------------------------------------------------------------------ bookkeeping
    def new(self, obj):
        self.stamp += 1
        self.births[id(obj)] = (obj, self.stamp)
        return obj

    def birth(self, obj):
        b = self.births.get(id(obj))
        return b[1] if b and b[0] is obj else 0

    def note(self, kind, obj, key, old):
        self.trail.append((kind, obj, key, old))

    def undo(self, mark, stamp):
        while len(self.trail) > mark:
            kind, obj, key, old = self.trail.pop()
            if self.birth(obj) > stamp and kind != "recs":
                continue
            self.put_cell(kind, obj, key, old)

    def get_cell(self, kind, obj, key):
        if kind == "local":
            return obj.locals.get(key, UNDEF)
        if kind == "attr":
            return getattr(obj, key, UNDEF) if not hasattr(obj, "__dict__") else obj.__dict__.get(key, UNDEF)
        if kind == "model":
            return getattr(obj, key)
        if kind in ("list", "set", "dict"):
            return type(obj)(obj) if kind != "dict" else dict(obj)
        if kind == "recs":
            return getattr(self, key or "recs")
        raise AssertionError(kind)

    def put_cell(self, kind, obj, key, val):
        if kind == "local":
            if val is UNDEF:
                obj.locals.pop(key, None)
            else:
                obj.locals[key] = val
        elif kind == "attr":
            if val is UNDEF:
                try:
                    object.__delattr__(obj, key)
                except AttributeError:
                    pass
            else:
                object.__setattr__(obj, key, val)
        elif kind == "model":
            setattr(obj, key, val)
        elif kind == "list":
            obj[:] = val
        elif kind == "set":
            obj.clear()
            obj |= val
        elif kind == "dict":
            obj.clear()
            obj.update(val)
        elif kind == "recs":
            setattr(self, key or "recs", val)

    def set_cell(self, kind, obj, key, val):
        self.note(kind, obj, key, self.get_cell(kind, obj, key))
        self.put_cell(kind, obj, key, val)

    def uniq(self, base):
        self.nuniq += 1
        return f"{base}!{self.nuniq}"

    def fresh(self, base, sort):
        c = z3.Const(self.uniq(base), sort)
        self.ctx.fresh.append(c)
        return c

    def fresh_fun(self, base, *sorts):
        f = z3.Function(self.uniq(base), *sorts)
        self.ctx.fresh.append(f)
        return f

    @property
    def ctx(self):
        return self.ctxs[-1]

    # ------------------------------------------------------------------ solver
    def check(self, *extra, ms=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit")
        t0 = time.time()
        s = self.solver
        s.push()
        try:
            for e in extra:
                s.add(e)
            if s.refuted_lightly(ms or 1000):
                return z3.unsat, s
            if not ms and self.light == "only":
                return z3.unknown, s
            s.set("timeout", ms or self.FEAS_MS)
            return s.check(), s
        finally:
            self.solver_s += time.time() - t0
            self._last = s.model() if False else None
            s.pop()

    def sat(self, *extra):
        return self.check(*extra)[0] != z3.unsat

    def valid(self, f, ms=3000):
        """is the formula implied by the current path (no obligation recorded)"""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.check(z3.Not(f), ms=ms)[0] == z3.unsat

    def assume(self, f):
        """path constraint"""
        if isinstance(f, bool):
            if not f:
                raise Prune
            return
        self.ctx.pc.append(f)
        self.solver.add(f)

    def fact(self, f):
        """true of every state (instance of a theory axiom)"""
        self.solver.add(f)

    def closure(self, e):
        """ground instances of the theory axioms for the terms of a formula, transitively"""
        c = self.closure_cache.get(e.get_id())
        if c is not None:
            return c[1]
        from . import models
        out, seen = [], set()
        todo, rounds = [e], 0
        while todo and rounds < 4:
            rounds += 1
            new = []
            for f in todo:
                for t in self.ground_terms(f):
                    i = t.get_id()
                    if i in seen:
                        continue
                    seen.add(i)
                    ax = self.axiom_cache.get(i)
                    if ax is None:
                        ax = self.axiom_cache[i] = (t, models.axioms_of(self, t))
                    new.extend(ax[1])
            out.extend(new)
            todo = new
        self.closure_cache[e.get_id()] = (e, out)
        return out

    def ground_terms(self, e):
        """relevant applications without bound variables in e"""
        c = self.term_cache.get(e.get_id())
        if c is None:
            from . import models
            found, has_var = {}, {}

            def walk(x):
                i = x.get_id()
                if i in has_var:
                    return has_var[i]
                if z3.is_var(x):
                    has_var[i] = True
                    return True
                if z3.is_quantifier(x):
                    walk(x.body())
                    has_var[i] = False
                    return False
                v = False
                for ch in x.children():
                    v = walk(ch) or v
                has_var[i] = v
                if not v and z3.is_app(x):
                    n = x.decl().name()
                    if n in models.AXIOM_FUNS or n in self.extra_axioms or n in models.RE_FUNS or n.startswith("str:"):
                        found[i] = x
                return v
            walk(e)
            c = self.term_cache[e.get_id()] = (e, list(found.values()))
        return c[1]

    def define(self, f):
        """definitional fact about a fresh symbol"""
        self.ctx.defs.append(f)
        self.solver.add(f)

    def prove(self, name, f):
        self.obligations += 1
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        t0 = time.time()
        s = self.solver
        s.push()
        try:
            s.add(z3.Not(f))
            s.set("timeout", self.PROVE_MS)
            r = z3.unsat if s.refuted_lightly(self.PROVE_MS) else s.check()
            if r == z3.unsat:
                self.discharged += 1
                self.backends.add("z3")
                return
            if r == z3.sat:
                m = s.model()
                weak = self.weak_terms(s)
                if weak:
                    raise Undecided(f"{name}: not provable over the abstraction {weak}")
                raise Refuted(name, m, f"cannot prove {str(z3.simplify(f))[:1500]}")
            r2 = self.cvc5(s) if not self.small else "?"
            if r2 == "unsat":
                self.discharged += 1
                self.backends.add("cvc5")
                return
            m = self.small_model(s) if self.small else None
            if m is not None:
                raise Refuted(name, m, f"cannot prove {str(z3.simplify(f))[:1500]}")
            raise Undecided(f"{name}: solver says {r} ({s.reason_unknown()}) for {str(z3.simplify(f))[:600]}")
        finally:
            self.solver_s += time.time() - t0
            s.pop()

    WEAK = ("slice_", "s_strip", "s_lstrip", "s_rstrip", "s_split", "s_rsplit", "s_partition", "s_rpartition",
            "s_replace", "s_count", "s_title", "upper", "r_sub", "fmt", "join")

    def weak_terms(self, s):
        """a function in the assertions that the theory describes too weakly for a model to mean anything"""
        seen, todo = set(), list(s.assertions())
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                todo.append(t.body())
                continue
            if z3.is_app(t):
                n = t.decl().name()
                if n in self.abstracted_terms or n.startswith(self.WEAK):
                    return n
                todo.extend(t.children())
        return None

    def small_model(self, s):
        """a model in which the sequences of the contract have one or two elements: bounded quantifiers become instances"""
        for size in (1, 2):
            g = z3.Solver()
            g.set("timeout", 10000)
            ok = True
            sizes = {}
            for a in s.assertions():
                for t in subterms(a, self.small):
                    sizes[t.get_id()] = t
            known = [(t, z3.IntVal(size)) for t in sizes.values()]
            for a in s.assertions():
                try:
                    a = expand(a, known, size)
                except NotSmall:
                    ok = False
                    break
                g.add(a)
                for x in self.closure(a):
                    g.add(z3.substitute(x, *known))
            if ok and g.check() == z3.sat and not self.weak_terms(g):
                return g.model()
        return None

    def cvc5(self, s):
        import subprocess
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000", "--full-saturate-quant"],
                               input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True, text=True, timeout=30)
            return p.stdout.strip().splitlines()[0] if p.stdout.strip() else "?"
        except Exception:  # noqa: BLE001
            return "?"

    # ------------------------------------------------------------------ exploration
    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        ctx = self.ctx
        if ctx.pos < len(ctx.trace):
            choice, pending, forced = ctx.trace[ctx.pos]
        else:
            t = self.sat(cond)
            f = self.sat(z3.Not(cond))
            if not t and not f:
                raise Prune
            forced = not (t and f)
            if not forced and self.nofork:
                raise Abort
            choice = t
            ctx.trace.append([choice, [False] if not forced else [], forced])
        ctx.pos += 1
        lit = cond if choice else z3.Not(cond)
        if not forced:
            ctx.pc.append(lit)
            self.solver.add(lit)
        return choice

    def choose(self, conds):
        """n-ary decision: conds are exhaustive under the path; returns the index taken"""
        for i, c in enumerate(conds[:-1]):
            if self.decide(c):
                return i
        return len(conds) - 1

    def explore(self, run):
        """top-level exploration; run() is executed once per path"""
        ctx = self.ctx
        while True:
            ctx.restart()
            self.solver.push()
            for b in self.base:
                self.solver.add(b)
            self.births, self.stamp, self.trail, self.recs, self.objs, self.lsts = {}, 0, [], [], [], []
            self.asked, self.memo = [], []
            self.lazy_cache = {}
            self.abstracted_terms = set()
            self.nofork = 0
            try:
                run()
            except Prune:
                pass
            finally:
                self.solver.pop()
            self.npaths += 1
            if self.npaths > self.MAX_PATHS:
                raise Unsupported("too many paths")
            if not ctx.next():
                return

    def subexplore(self, setup, run, limit=None):
        """all paths of run() from the current state; the state is left unchanged"""
        limit = limit or self.MAX_BODY_PATHS
        ctx = Ctx()
        self.ctxs.append(ctx)
        paths, saved = [], self.nofork
        self.nofork = 0
        stamp0 = self.stamp
        try:
            n = 0
            while True:
                n += 1
                if n > limit:
                    raise Unsupported("too many paths in a loop body")
                ctx.restart()
                self.solver.push()
                mark = len(self.trail)
                cache = dict(self.lazy_cache)
                try:
                    setup()
                    mark2 = len(self.trail)
                    try:
                        sig = run()
                    except PyRaise as e:
                        sig = ("raise", e.exc)
                    finals = {}
                    for kind, obj, key, _ in self.trail[mark2:]:
                        if kind == "recs" or self.birth(obj) > stamp0:
                            continue
                        ck = (kind, id(obj), key)
                        if ck not in finals:
                            finals[ck] = (kind, obj, key, self.get_cell(kind, obj, key))
                    paths.append(Path(list(ctx.pc), list(ctx.fresh), list(ctx.defs), sig, finals))
                except Prune:
                    pass
                finally:
                    self.undo(mark, stamp0)
                    self.lazy_cache = cache
                    self.solver.pop()
                if not ctx.next():
                    return paths
        finally:
            self.nofork = saved
            self.ctxs.pop()

    def speculate(self, assumption, run):
        """run() without forking, under the assumption; -> (value, finals); raises Abort"""
        mark, stamp0 = len(self.trail), self.stamp
        ctx = self.ctx
        npc, nfr, ndf, npos = len(ctx.pc), len(ctx.fresh), len(ctx.defs), ctx.pos
        saved_trace = ctx.trace
        ctx.trace, ctx.pos = [], 0
        self.solver.push()
        self.nofork += 1
        ok = False
        cache = dict(self.lazy_cache)
        try:
            self.solver.add(assumption)
            if self.check()[0] == z3.unsat:
                return None, None
            v = run()
            finals = {}
            for kind, obj, key, _ in self.trail[mark:]:
                if kind == "recs":
                    raise Abort
                if self.birth(obj) > stamp0:
                    continue
                ck = (kind, id(obj), key)
                if ck not in finals:
                    finals[ck] = (kind, obj, key, self.get_cell(kind, obj, key))
            ok = True
            return v, finals
        except (PyRaise, Unsupported, Prune) as e:
            raise Abort from e
        finally:
            self.nofork -= 1
            ctx.trace, ctx.pos = saved_trace, npos
            del ctx.pc[npc:]
            extra = ctx.defs[ndf:]
            if not ok:
                del ctx.fresh[nfr:]
                del ctx.defs[ndf:]
            self.undo(mark, stamp0)
            self.lazy_cache = cache
            self.solver.pop()
            if ok:
                for d in extra:
                    self.solver.add(d)

    # ------------------------------------------------------------------ values
    def canon(self, v):
        try:
            return self.canon_map.get(id(v), v)
        except TypeError:
            return v

    def force(self, v):
        while isinstance(v, Lazy):
            if v.key not in self.lazy_cache:
                self.lazy_cache[v.key] = v.make()
            v = self.lazy_cache[v.key]
        return v

    def lit(self, s):
        return self.strings.lit(s)

    def zs(self, v):
        """string -> Str term"""
        v = self.force(v)
        if isinstance(v, SS):
            return v.z
        if isinstance(v, str):
            return self.lit(v)
        if isinstance(v, SV):
            if self.decide(Val.is_str_(v.z)):
                return Val.s(v.z)
            raise PyRaise(TypeError("not a string"))
        raise Unsupported(f"string expected, {v!r}")

    def zi(self, v):
        if isinstance(v, SI):
            return v.z
        if isinstance(v, SB):
            return z3.If(v.z, 1, 0)
        if isinstance(v, (bool, int)):
            return z3.IntVal(int(v))
        raise Unsupported(f"integer expected, {v!r}")

    def toval(self, v):
        from . import models
        v = self.force(v)
        if isinstance(v, SV):
            return v.z
        if v is None:
            return Val.none
        if v is models.INVALID:
            return Val.invalid
        if v is models.MISSING:
            return Val.missing
        if isinstance(v, (bool, SB)):
            return Val.bool_(zb(v) if isinstance(v, bool) else v.z)
        if isinstance(v, (int, SI)):
            return Val.int_(self.zi(v))
        if isinstance(v, float):
            return Val.flt_(z3.Const(f"flt:{v!r}", T.Flt))
        if isinstance(v, SFlt):
            return Val.flt_(v.z)
        if isinstance(v, (str, SS)) and not hasattr(v, "name"):
            return Val.str_(self.zs(v))
        if isinstance(v, SDate):
            return Val.date_(v.z)
        if isinstance(v, models.SymCont):
            return Val.cont_(v.term(self))
        if isinstance(v, Seq) and v.of is not None:
            return Val.lst_(v.of)
        if isinstance(v, (list, Seq)):
            return Val.lst_(self.lst_term(v))
        if hasattr(v, "as_val"):
            return v.as_val(self)
        raise Unsupported(f"no Val for {type(v).__name__}")

    def lst_term(self, v):
        """term for a list; lists with the same elements get the same term"""
        from . import models
        v = list(v) if isinstance(v, list) else v
        for old, l in self.lsts:
            try:
                models.same_list(self, v, old, "elements", True, models.quiet_ob(self))
                return l
            except (models.Differ, Unsupported):
                continue
        l = self.lst_term_(v)
        if any(isinstance(p, Seq) for p in self.pieces(v)):
            self.abstracted_terms.add(str(l))
        self.set_cell("recs", self, "lsts", self.lsts + [(v, l)])
        return l

    def lst_term_(self, v):
        pieces = self.pieces(v)
        l = self.fresh("lst", T.Lst)
        if all(not isinstance(p, Seq) for p in pieces):
            self.define(T.l_len(l) == len(pieces))
            for i, p in enumerate(pieces):
                self.define(T.l_item(l, i) == self.toval(p))
            return l
        if len(pieces) == 1:
            k = z3.Int(self.uniq("k"))
            self.define(T.l_len(l) == pieces[0].n)
            # element: merge of its alternatives; unknown if that is no simple term
            try:
                x = self.elem_val(pieces[0], k)
            except Unsupported:
                return l
            self.define(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < pieces[0].n), T.l_item(l, k) == x)))
            return l
        raise Unsupported("list of several symbolic runs as a value")

    def elem_val(self, seq, k):
        """Val term of element k without forking"""
        _, vals = None, None
        paths = self.subexplore(lambda: self.solver.add(z3.And(0 <= k, k < seq.n)),
                                lambda: ("value", self.toval(seq.elem(k))))
        if any(p.sig[0] != "value" or p.fresh or p.finals for p in paths):
            raise Unsupported("element value")
        out = paths[-1].sig[1]
        for p in reversed(paths[:-1]):
            out = z3.If(p.guard, p.sig[1], out)
        return out

    def val_truth(self, z):
        return disj([
            z3.And(Val.is_bool_(z), Val.b(z)),
            z3.And(Val.is_int_(z), Val.i(z) != 0),
            z3.And(Val.is_flt_(z), T.f_truth(Val.f(z))),
            z3.And(Val.is_str_(z), Val.s(z) != self.lit("")),
            z3.And(Val.is_lst_(z), T.l_len(Val.l(z)) > 0),
            Val.is_cont_(z),
            z3.And(Val.is_dict_(z), T.d_len(Val.d(z)) > 0),
            Val.is_date_(z),
            z3.And(Val.is_oth_(z), T.o_truth(Val.o(z))),
        ])

    def truth(self, v):
        """-> bool or z3 Bool"""
        v = self.force(v)
        if isinstance(v, SB):
            return v.z
        if isinstance(v, SI):
            return v.z != 0
        if isinstance(v, SS):
            return v.z != self.lit("")
        if isinstance(v, SV):
            return self.val_truth(v.z)
        if isinstance(v, SFlt):
            return T.f_truth(v.z)
        if isinstance(v, SDate):
            return True
        if isinstance(v, SEnum):
            return disj([v.z == i for i, m in enumerate(v.members) if m])
        if isinstance(v, Seq):
            return v.n > 0
        if isinstance(v, (list, tuple, set, frozenset)) and (
                isinstance(v, list) or any(isinstance(x, LSeg) for x in v)):
            if not isinstance(v, list) and any(not isinstance(x, LSeg) for x in v):
                return True
            n = self.length(list(v))
            return n > 0 if isinstance(n, int) else n.z > 0
        if isinstance(v, Model):
            if not hasattr(v, "truth"):
                raise Unsupported(f"truth of {type(v).__name__}")
            return v.truth(self)
        if isinstance(v, (Closure, Bound, Fn, Nat)):
            return True
        if isinstance(v, Opaque):
            raise Unsupported("truth of an opaque value")
        if self.interpretable_class(type(v)):
            owner, f = self.mro_lookup(type(v), "__bool__")
            if f is not None:
                return self.truth(self.call(Bound(f, v, owner), [], {}))
            owner, f = self.mro_lookup(type(v), "__len__")
            if f is not None:
                return self.truth(self.call(Bound(f, v, owner), [], {}))
            return True
        return bool(v)

    def branch(self, v):
        return self.decide(self.truth(v))

    def mkb(self, z):
        if isinstance(z, bool):
            return z
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SB(z)

    def length(self, v):
        v = self.force(v)
        if isinstance(v, Seq):
            return SI(v.n)
        if isinstance(v, (list, set)):
            total, sym = 0, []
            for x in v:
                if isinstance(x, LSeg):
                    sym.append(self.seg_count(x))
                else:
                    total += 1
            if isinstance(v, set) and len(v) > 1 and (sym or any(self.deep_symbolic(x) for x in v)):
                raise Unsupported("size of a set of symbolic elements")
            if not sym:
                return total
            return SI(z3.simplify(sum(sym[1:], sym[0]) + total))
        if isinstance(v, SS):
            return SI(T.strlen(v.z))
        if isinstance(v, SV):
            if self.decide(Val.is_lst_(v.z)):
                return SI(T.l_len(Val.l(v.z)))
            if self.decide(Val.is_str_(v.z)):
                return SI(T.strlen(Val.s(v.z)))
            if self.decide(Val.is_dict_(v.z)):
                return SI(T.d_len(Val.d(v.z)))
            if self.decide(Val.is_oth_(v.z)):
                raise Unsupported("len of other value")
            raise PyRaise(TypeError("object has no len()"))
        if isinstance(v, Model):
            if hasattr(v, "length"):
                return v.length(self)
            raise Unsupported(f"len of {v!r}")
        if isinstance(v, (Sym, SEnum, Opaque)):
            raise Unsupported(f"len of {v!r}")
        if self.interpretable_class(type(v)):
            return self.call(self.getattr(v, "__len__"), [], {})
        return len(v)

    def seg_count(self, seg):
        if seg.total:
            return seg.n
        g = disj([a[0] for a in seg.alts])
        return self.count(seg.k, seg.n, g)

    def count(self, k, n, g):
        """number of k in 0..n-1 with g(k)"""
        c = self.fresh("cnt", z3.IntSort())
        i, j = z3.Int(self.uniq("i")), z3.Int(self.uniq("j"))
        gi, gj = z3.substitute(g, (k, i)), z3.substitute(g, (k, j))
        rng = lambda x: z3.And(0 <= x, x < n)  # noqa: E731
        self.define(z3.And(c >= 0, c <= z3.If(n > 0, n, 0)))
        self.define((c > 0) == z3.Exists([i], z3.And(rng(i), gi)))
        self.define((c > 1) == z3.Exists([i, j], z3.And(rng(i), rng(j), i < j, gi, gj)))
        return c

    # ------------------------------------------------------------------ equality, identity
    def is_(self, a, b):
        from . import models
        a, b = self.force(self.canon(a)), self.force(self.canon(b))
        if isinstance(b, SV) and not isinstance(a, SV):
            a, b = b, a
        if isinstance(a, SV):
            if b is None:
                return Val.is_none(a.z)
            if b is models.INVALID:
                return Val.is_invalid(a.z)
            if b is models.MISSING:
                return Val.is_missing(a.z)
            if isinstance(b, bool):
                return z3.And(Val.is_bool_(a.z), Val.b(a.z) == b)
            if isinstance(b, SV):
                raise Unsupported("identity of two unknown values")
            return False
        if isinstance(b, SB) and not isinstance(a, SB):
            a, b = b, a
        if isinstance(a, SB):
            if isinstance(b, bool):
                return a.z if b else z3.Not(a.z)
            if isinstance(b, SB):
                return a.z == b.z
            return False
        if isinstance(b, SEnum) and not isinstance(a, SEnum):
            a, b = b, a
        if isinstance(a, SEnum):
            if isinstance(b, SEnum):
                return disj([z3.And(a.z == i, b.z == j) for i, x in enumerate(a.members)
                             for j, y in enumerate(b.members) if x is y])
            return disj([a.z == i for i, m in enumerate(a.members) if m is b])
        if isinstance(a, (SI, SS)) or isinstance(b, (SI, SS)):
            if b is None or a is None or isinstance(a, type(models.INVALID)) or isinstance(b, type(models.INVALID)):
                return False
            if type(a) is type(b):
                raise Unsupported("identity of symbolic scalars")
            if isinstance(a, (SI, SS)) and isinstance(b, (bool, type)):
                return False
            raise Unsupported("identity of symbolic scalars")
        for x, y in ((a, b), (b, a)):
            if y is None and hasattr(x, "is_none"):
                return x.is_none(self)
            if isinstance(y, type) and hasattr(x, "is_type"):
                return x.is_type(self, y)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("identity of an opaque value")
        ta, tb = getattr(a, "__att__", None), getattr(b, "__att__", None)
        if ta is not None and tb is not None and a is not b:
            raise Unsupported("identity of attributes")
        if isinstance(a, Model) and isinstance(b, Model) and a is not b and not (
                self.birth(a) > 0 and self.birth(b) > 0 and type(a) is not type(b)):
            raise Unsupported("identity of abstract objects")
        return a is b

    def eq(self, a, b):
        """Python == ; -> bool or z3 Bool"""
        from . import models
        a, b = self.force(self.canon(a)), self.force(self.canon(b))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("equality of an opaque value")
        if isinstance(b, SV) and not isinstance(a, SV):
            a, b = b, a
        if isinstance(a, SV):
            return self.eq_val(a.z, b)
        if isinstance(b, SEnum) and not isinstance(a, SEnum):
            a, b = b, a
        if isinstance(a, SEnum):
            if isinstance(b, SEnum):
                return disj([z3.And(a.z == i, b.z == j) for i, x in enumerate(a.members)
                             for j, y in enumerate(b.members) if x == y])
            if isinstance(b, SS):
                return disj([z3.And(a.z == i, b.z == self.lit(m)) for i, m in enumerate(a.members) if isinstance(m, str)])
            if isinstance(b, (Sym, Model)):
                raise Unsupported("enum comparison")
            return disj([a.z == i for i, m in enumerate(a.members) if m == b])
        if isinstance(a, (SB, SI, bool, int)) and isinstance(b, (SB, SI, bool, int)):
            if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
                za = zb(a) if isinstance(a, bool) else a.z
                zb_ = zb(b) if isinstance(b, bool) else b.z
                return za == zb_
            return self.zi(a) == self.zi(b)
        if isinstance(a, (SS, str)) and isinstance(b, (SS, str)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.zs(a) == self.zs(b)
        if isinstance(a, SDate) and isinstance(b, SDate):
            return models.date_eq(a.z, b.z)
        if isinstance(a, models.SX) and isinstance(b, models.SX) and a.z.sort() == b.z.sort():
            return a.z == b.z
        if isinstance(a, Model):
            return self.model_eq(a, b)
        if isinstance(b, Model):
            return self.model_eq(b, a)
        if isinstance(a, (list, tuple, Seq)) and isinstance(b, (list, tuple, Seq)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            pa, pb = self.pieces(a), self.pieces(b)
            if any(isinstance(x, Seq) for x in pa + pb):
                if not pa or not pb:
                    n = self.length(a if pa else b)
                    return n == 0 if isinstance(n, int) else n.z == 0
                raise Unsupported("equality of symbolic lists")
            if len(pa) != len(pb):
                return False
            out = []
            for x, y in zip(pa, pb):
                e = self.eq(x, y)
                if e is False:
                    return False
                if e is not True:
                    out.append(e)
            return conj(out) if out else True
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is None or b is None or a is models.INVALID or a is models.MISSING or b is models.INVALID \
                    or b is models.MISSING:
                return False
            if isinstance(a, (list, tuple, dict, Seq)) or isinstance(b, (list, tuple, dict, Seq)):
                return False
            if isinstance(a, (SS, str)) != isinstance(b, (SS, str)):
                return False
            raise Unsupported(f"equality of {a!r} and {b!r}")
        for x, y in ((a, b), (b, a)):
            if self.interpretable_class(type(x)):
                owner, f = self.mro_lookup(type(x), "__eq__")
                if f is not None:
                    return self.truth(self.call(Bound(f, x, owner), [y], {}))
        if isinstance(a, Seq) or isinstance(b, Seq):
            return False
        if a is not b and isinstance(a, (dict, set, frozenset)) and isinstance(b, type(a)) and (
                self.deep_symbolic(a) or self.deep_symbolic(b)):
            raise Unsupported("equality of symbolic collections")
        return a == b

    def model_eq(self, a, b):
        if a is b:
            return True
        if hasattr(a, "equals"):
            return a.equals(self, b)
        if b is None or isinstance(b, (str, int, float, SS, SI, SB)):
            return False
        raise Unsupported(f"equality of {type(a).__name__}")

    def eq_val(self, z, b):
        from . import models
        if isinstance(b, SV):
            return models.py_eq(z, b.z)
        if b is None:
            return Val.is_none(z)
        if b is models.INVALID:
            return Val.is_invalid(z)
        if b is models.MISSING:
            return Val.is_missing(z)
        if isinstance(b, (str, SS)):
            return z3.And(Val.is_str_(z), Val.s(z) == self.zs(b))
        if isinstance(b, (list, Seq)):
            if isinstance(b, list) and not b:
                return z3.And(Val.is_lst_(z), T.l_len(Val.l(z)) == 0)
            return models.py_eq(z, self.toval(b))
        if isinstance(b, (bool, int, SB, SI, float, SFlt, SDate)) or isinstance(b, models.SymCont):
            return models.py_eq(z, self.toval(b))
        if isinstance(b, (type, tuple)):
            raise Unsupported("equality with a type or tuple")
        if hasattr(b, "equals_value"):
            return b.equals_value(self, SV(z))
        raise Unsupported(f"equality of a value and {b!r}")

    def contains(self, item, coll):
        coll = self.force(coll)
        if isinstance(coll, Model):
            return coll.contains(self, item)
        if isinstance(coll, SV):
            if self.decide(Val.is_str_(coll.z)):
                return self.contains(item, SS(Val.s(coll.z)))
            if self.decide(Val.is_lst_(coll.z)):
                return self.contains(item, self.seq_of_lst(Val.l(coll.z)))
            if self.decide(Val.is_dict_(coll.z)):
                return models_().SymDict(self, Val.d(coll.z)).contains(self, item)
            if self.decide(z3.Or(Val.is_oth_(coll.z), Val.is_cont_(coll.z))):
                raise Unsupported("membership in an unknown collection")
            raise PyRaise(TypeError("not iterable"))
        if isinstance(coll, (SS, str)) and not isinstance(coll, SEnum):
            item = self.force(item)
            if isinstance(coll, str) and isinstance(item, str):
                return item in coll
            if isinstance(item, SV):
                if not self.decide(Val.is_str_(item.z)):
                    raise PyRaise(TypeError("requires string as left operand"))
                item = SS(Val.s(item.z))
            if not isinstance(item, (SS, str)):
                raise PyRaise(TypeError("requires string as left operand"))
            from . import models
            return models.s_contains(self.zs(coll), self.zs(item))
        if isinstance(coll, dict):
            item = self.force(item)
            if not self.symbolic(item):
                return item in coll
            coll = list(coll)
        if isinstance(coll, (set, frozenset)):
            coll = sorted(coll, key=repr)
        out = []
        for p in self.pieces(coll):
            if isinstance(p, Seq):
                out.append(self.exists(p, lambda x: self.same_or_eq(x, item)))
            else:
                e = self.same_or_eq(p, item)
                if e is True:
                    return True
                out.append(zb(e))
        return disj(out) if out else False

    def same_or_eq(self, x, y):
        try:
            i = self.is_(x, y)
        except Unsupported:
            i = False
        if i is True:
            return True
        e = self.eq(x, y)
        return e if i is False else disj([zb(i), zb(e)])

    def symbolic(self, v):
        if isinstance(v, (Sym, SEnum, Opaque, Lazy, Seq, Model)):
            return True
        if isinstance(v, (tuple, list)):
            return any(self.symbolic(x) for x in v)
        return False

    def exists(self, seq, pred):
        """formula: some element satisfies pred (pred -> bool or z3 Bool, may fork inside)"""
        k = z3.Int(self.uniq("k"))
        def run():
            try:
                x = seq.elem(k)
            except Skip:
                return False
            return pred(x)
        return self.quantify(k, bound_of(seq), run)

    def quantify(self, k, n, run):
        """Exists k in 0..n-1: run() is true"""
        paths = self.subexplore(lambda: self.solver.add(z3.And(0 <= k, k < n)), lambda: ("value", run()))
        out = []
        for p in paths:
            if p.sig[0] == "raise":
                raise Unsupported(f"exception under a quantifier: {p.sig[1]!r}")
            if p.finals:
                raise Unsupported("effect under a quantifier")
            body = conj(p.pc + [zb(p.sig[1])])
            if p.defs:
                body = conj(p.defs + [body])
            if z3.is_false(z3.simplify(body)):
                continue
            vs = [k]
            for c in p.fresh:
                if isinstance(c, z3.FuncDeclRef):
                    raise Unsupported("function under a quantifier")
                vs.append(c)
            out.append(z3.Exists(vs, z3.And(0 <= k, k < n, body)))
        return disj(out)

    # ------------------------------------------------------------------ iteration
    def seq_of_lst(self, l):
        self.solver.add(T.l_len(l) >= 0)
        return Seq(T.l_len(l), lambda k: SV(T.l_item(l, k)), of=l)

    def pieces(self, v):
        """-> list of elements; symbolic runs as Seq"""
        v = self.force(v)
        if isinstance(v, Seq):
            return [v]
        if isinstance(v, (list, tuple)):
            out = []
            for x in v:
                if isinstance(x, LSeg):
                    out.append(self.seg_seq(x))
                elif isinstance(x, Seq):     # an element that is itself a list
                    out.append(self.new([self.seq_seg(x)]))
                else:
                    out.append(x)
            return out
        if isinstance(v, SV):
            if self.decide(Val.is_lst_(v.z)):
                return [self.seq_of_lst(Val.l(v.z))]
            if self.decide(z3.Or(Val.is_str_(v.z), Val.is_dict_(v.z), Val.is_cont_(v.z), Val.is_oth_(v.z))):
                raise Unsupported("iteration over an unknown value")
            raise PyRaise(TypeError("not iterable"))
        if isinstance(v, Model):
            return v.pieces(self)
        if v is None or isinstance(v, (SB, SI, int, float)):
            raise PyRaise(TypeError("not iterable"))
        if isinstance(v, (Sym, SEnum, Opaque)):
            raise Unsupported(f"iteration over {v!r}")
        if isinstance(v, (set, frozenset)):
            if any(isinstance(x, LSeg) for x in v):
                # the order is unspecified: nothing may depend on the elements
                return [self.seg_seq(LSeg(x.k, x.n, [(g, OPAQUE) for g, _ in x.alts], x.total)) if isinstance(x, LSeg)
                        else OPAQUE for x in v]
            return sorted(v, key=repr)
        if self.interpretable_class(type(v)):
            owner, f = self.mro_lookup(type(v), "__iter__")
            if f is None:
                raise PyRaise(TypeError("not iterable"))
            return self.pieces(self.call(Bound(f, v, owner), [], {}))
        try:
            return list(v)
        except TypeError as e:
            raise PyRaise(e) from None

    def seg_seq(self, seg):
        if not seg.total:
            def felem(kz):
                conds = [self.subst(g, [(seg.k, kz)]) for g, _ in seg.alts]
                i = self.choose(conds + [True])
                if i == len(seg.alts):
                    raise Skip
                return self.subst(seg.alts[i][1], [(seg.k, kz)])
            return FSeq(seg.n, felem)

        def elem(kz):
            conds = [self.subst(g, [(seg.k, kz)]) for g, _ in seg.alts]
            i = self.choose(conds) if len(conds) > 1 else 0
            return self.subst(seg.alts[i][1], [(seg.k, kz)])
        return Seq(seg.n, elem)

    def subst(self, v, pairs, funs=(), memo=None):
        """substitute constants (pairs) and functions (funs) in a value"""
        memo = {} if memo is None else memo
        if isinstance(v, z3.ExprRef):
            if funs:
                v = z3.substitute_funs(v, *funs)
            return z3.substitute(v, *pairs) if pairs else v
        if isinstance(v, Sym):
            return type(v)(self.subst(v.z, pairs, funs))
        if isinstance(v, SEnum):
            return SEnum(self.subst(v.z, pairs, funs), v.members)
        if isinstance(v, (str, int, float, bool, type(None), Opaque, type, Err)):
            return v
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, tuple):
            out = tuple(self.subst(x, pairs, funs, memo) for x in v)
        elif isinstance(v, list):
            out = self.new([])
            memo[id(v)] = (v, out)
            out.extend(self.subst(x, pairs, funs, memo) for x in v)
        elif isinstance(v, FSeq):
            out = FSeq(self.subst(v.bound, pairs, funs), lambda k, v=v: self.subst(v.elem(k), pairs, funs))
        elif isinstance(v, Seq):
            out = Seq(self.subst(v.n, pairs, funs), lambda k, v=v: self.subst(v.elem(k), pairs, funs),
                      None if v.of is None else self.subst(v.of, pairs, funs))
        elif isinstance(v, LSeg):
            out = LSeg(v.k, self.subst(v.n, pairs, funs),
                       [(self.subst(g, pairs, funs), self.subst(x, pairs, funs)) for g, x in v.alts], v.total)
        elif isinstance(v, Lazy):
            out = Lazy((v.key, tuple((str(a), str(b)) for a, b in pairs)),
                       lambda v=v: self.subst(self.force(v), pairs, funs))
            if funs:
                raise Unsupported("lazy value under function substitution")
        elif isinstance(v, Model):
            out = v.subst(self, pairs, funs)
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType, Nat, types.ModuleType)):
            out = v
        elif isinstance(v, Exception):
            out = v
        elif self.interpretable_class(type(v)) and hasattr(v, "__dict__") and not self.is_constant_object(v):
            out = object.__new__(type(v))
            memo[id(v)] = (v, out)
            self.new(out)
            for a, x in v.__dict__.items():
                object.__setattr__(out, a, self.subst(x, pairs, funs, memo))
        elif self.interpretable_class(type(v)) and hasattr(type(v), "__slots__"):
            out = object.__new__(type(v))
            memo[id(v)] = (v, out)
            self.new(out)
            for a in type(v).__slots__:
                object.__setattr__(out, a, self.subst(getattr(v, a), pairs, funs, memo))
        elif isinstance(v, (Closure, Bound)):
            raise Unsupported("function value in a loop result")
        else:
            out = v
        memo[id(v)] = (v, out)
        return out

    def is_constant_object(self, v):
        import enum
        return isinstance(v, enum.Enum) or id(v) in self.canon_map or self.birth(v) == 0
