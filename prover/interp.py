"""Statements, expressions, calls and symbolic loops."""
import ast
import dataclasses
import builtins
import enum
import inspect
import operator
import types
import typing

import z3

from . import theory as T
from .engine import (
    Abort, Bound, Closure, Deferred, Engine, Fn, Frame, Model, NeedLive, Path, Prune, PyRaise, Super, UNDEF,
    conj, disj, is_generator, node_of, has_node, zb,
)
from .theory import (
    Err, LSeg, Lazy, Skip, bound_of, Nat, OPAQUE, Opaque, Poison, SB, SDate, SEnum, SFlt, SI, SS, SV, Seq, Sym, Unsupported, Val,
)

CTRL = (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.For, ast.While, ast.With, ast.Try, ast.Assert)
BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod,
       ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv, ast.BitOr: operator.or_, ast.BitAnd: operator.and_}
NATIVE_EXC = (TypeError, ValueError, KeyError, IndexError, AttributeError, OverflowError, ZeroDivisionError,
              UnicodeError, StopIteration)


class Interp(Engine):
    # ------------------------------------------------------------------ classes and attributes
    def interpretable_module(self, name):
        return any(name == p or (name or "").startswith(p + ".") for p in self.prefixes)

    def interpretable_class(self, cls):
        return isinstance(cls, type) and self.interpretable_module(cls.__module__) and not issubclass(cls, Model)

    def mro_lookup(self, cls, name, start=None):
        mro = cls.__mro__
        if start is not None:
            mro = mro[mro.index(start) + 1:]
        for c in mro:
            if c is object:
                break
            if name in c.__dict__:
                return c, c.__dict__[name]
        return None, None

    def bind(self, raw, owner, obj, cls):
        if isinstance(raw, property):
            if obj is None:
                return raw
            return self.call(Bound(raw.fget, obj, owner), [], {})
        if isinstance(raw, classmethod):
            return Bound(raw.__func__, cls, owner)
        if isinstance(raw, staticmethod):
            return Fn(raw.__func__, owner) if isinstance(raw.__func__, types.FunctionType) else raw.__func__
        if isinstance(raw, types.FunctionType):
            return Bound(raw, obj, owner) if obj is not None else Fn(raw, owner)
        return self.canon(raw)

    def getattr(self, obj, name):
        obj = self.force(obj)
        if isinstance(obj, Poison):
            raise NeedLive(obj.cell)
        if isinstance(obj, Super):
            if isinstance(obj.obj, type):
                owner, raw = self.mro_lookup(obj.obj, name, obj.cls)
                inst, cls = None, obj.obj
            else:
                owner, raw = self.mro_lookup(type(obj.obj), name, obj.cls)
                inst, cls = obj.obj, type(obj.obj)
            if owner is None:
                if name == "__init__":
                    return Nat(lambda *a, **k: None, "object.__init__")
                raise PyRaise(AttributeError(name))
            if isinstance(raw, classmethod):
                return Bound(raw.__func__, cls, owner)
            return self.bind(raw, owner, inst, cls)
        if isinstance(obj, Model):
            return obj.attr(self, name)
        if isinstance(obj, SEnum):
            vals = [self.getattr(m, name) for m in obj.members]
            if all(isinstance(x, (str, int, bool, type(None), enum.Enum, type, tuple)) for x in vals):
                if all(x is vals[0] or (type(x) is type(vals[0]) and x == vals[0]) for x in vals):
                    return vals[0]
                return SEnum(obj.z, vals)
            return SEnum(obj.z, vals)
        if isinstance(obj, (SS, SV, SI, SB, SDate, SFlt)):
            return self.sym_method(obj, name)
        if isinstance(obj, Seq):
            return self.seq_method(obj, name)
        if isinstance(obj, Opaque):
            return OPAQUE
        if isinstance(obj, Err):
            if name == "code":
                return obj.code
            return OPAQUE
        if isinstance(obj, Closure):
            if name == "__name__":
                return obj.name
            raise Unsupported("attribute of a closure")
        if isinstance(obj, type) and self.interpretable_class(obj):
            owner, raw = self.mro_lookup(obj, name)
            if owner is not None and self.interpretable_class(owner) and not (
                    issubclass(obj, enum.Enum) and not isinstance(raw, (types.FunctionType, classmethod, staticmethod))):
                return self.bind(raw, owner, None, obj)
            try:
                return self.canon(getattr(obj, name))
            except AttributeError as e:
                raise PyRaise(e) from None
        cls = type(obj)
        if self.interpretable_class(cls) and not isinstance(obj, (enum.Enum,)):
            owner, raw = self.mro_lookup(cls, name)
            if isinstance(raw, property):
                return self.bind(raw, owner, obj, cls)
            d = getattr(obj, "__dict__", None)
            if d is not None and name in d:
                v = d[name]
                if isinstance(v, Poison):
                    raise NeedLive(v.cell)
                if isinstance(v, Deferred):
                    v = v.fn()
                    self.set_cell("attr", obj, name, v)
                return self.canon(v)
            if owner is not None:
                if isinstance(raw, types.MemberDescriptorType):
                    try:
                        v = raw.__get__(obj)
                    except AttributeError as e:
                        raise PyRaise(e) from None
                    if isinstance(v, Poison):
                        raise NeedLive(v.cell)
                    return self.canon(v)
                return self.bind(raw, owner, obj, cls)
            if name in ("__class__", "__dict__"):
                return getattr(obj, name)
            owner, raw = self.mro_lookup(cls, "__getattr__")
            if raw is not None:
                return self.call(Bound(raw, obj, owner), [name], {})
            if isinstance(obj, Exception):
                return getattr(obj, name)
            if name == "__init__":
                return Nat(lambda *a, **k: None, "object.__init__")
            raise PyRaise(AttributeError(f"{cls.__name__} object has no attribute {name!r}"))
        if isinstance(obj, (list, dict, set, tuple)) and callable(getattr(type(obj), name, None)):
            return Nat(lambda *a, **k: self.native_method(obj, name, a, k), name)
        if isinstance(obj, str) and not isinstance(obj, enum.Enum) and callable(getattr(str, name, None)):
            return Nat(lambda *a, **k: self.str_method(obj, name, a, k), name)
        try:
            return self.canon(getattr(obj, name))
        except AttributeError as e:
            raise PyRaise(e) from None

    def setattr(self, obj, name, v):
        obj = self.force(obj)
        if isinstance(obj, Model):
            return obj.set_attr(self, name, v)
        if isinstance(obj, type) or isinstance(obj, (Sym, Opaque)):
            raise Unsupported("attribute assignment")
        self.set_cell("attr", obj, name, v)

    # ------------------------------------------------------------------ methods of symbolic scalars
    def str_method(self, s, name, args, kw):
        args = [self.force(a) for a in args]
        if not any(self.deep_symbolic(a) for a in args) and not self.deep_symbolic(kw):
            try:
                r = getattr(s, name)(*args, **kw)
            except NATIVE_EXC as e:
                raise PyRaise(e) from None
            return self.new(r) if isinstance(r, list) else r
        if name == "format":
            return SS(self.fresh("fmt", T.Str))
        if name == "join":
            return SS(self.fresh("join", T.Str))
        return self.getattr(SS(self.lit(s)), name).fn(*args, **kw)

    def sym_method(self, obj, name):
        from . import models
        if isinstance(obj, SV):
            if name in models.STR_METHODS:
                if self.decide(Val.is_str_(obj.z)):
                    return self.sym_method(SS(Val.s(obj.z)), name)
                if self.decide(Val.is_oth_(obj.z)):
                    raise Unsupported("method of other value")
                raise PyRaise(AttributeError(name))
            if name in ("get", "put", "set", "delete", "has", "val"):
                if self.decide(Val.is_cont_(obj.z)):
                    if name not in ("get", "has", "val"):
                        raise Unsupported("change of a container inside a value")
                    return models.cont_of(self, obj).attr(self, name)
                if self.decide(Val.is_dict_(obj.z)):
                    return models.SymDict(self, Val.d(obj.z)).attr(self, name)
                if self.decide(Val.is_oth_(obj.z)):
                    raise Unsupported("dict method")
                raise PyRaise(AttributeError(name))
            if name == "is_integer":
                if self.decide(Val.is_flt_(obj.z)):
                    return self.sym_method(SFlt(Val.f(obj.z)), name)
                if self.decide(z3.Or(Val.is_int_(obj.z), Val.is_bool_(obj.z))):
                    return Nat(lambda: True)
                raise PyRaise(AttributeError(name))
            if name == "isoformat":
                if self.decide(Val.is_date_(obj.z)):
                    return self.sym_method(SDate(Val.t(obj.z)), name)
                raise PyRaise(AttributeError(name))
            raise Unsupported(f"attribute {name} of an unknown value")
        if isinstance(obj, SFlt) and name == "is_integer":
            return Nat(lambda: SB(models.f_is_int(obj.z)))
        if isinstance(obj, SDate) and name == "isoformat":
            return Nat(lambda: SS(models.date_iso(obj.z)))
        if isinstance(obj, SS):
            return models.str_method(self, obj, name)
        if isinstance(obj, (SI, SB)):
            raise PyRaise(AttributeError(name))
        raise Unsupported(f"attribute {name} of {obj!r}")

    def seq_method(self, obj, name):
        if name == "copy":
            return Nat(lambda: obj)
        raise Unsupported(f"method {name} of a symbolic sequence")

    def native_method(self, obj, name, args, kw):
        if isinstance(obj, list):
            if name == "append":
                self.set_cell("list", obj, None, obj + [args[0]])
                return None
            if name == "extend":
                self.set_cell("list", obj, None, obj + self.list_of(args[0]))
                return None
            if name == "copy":
                return self.new(list(obj))
            if any(isinstance(x, LSeg) for x in obj) or any(self.symbolic(x) for x in obj) or any(
                    self.symbolic(a) for a in args):
                if name == "index":
                    for i, x in enumerate(obj):
                        if isinstance(x, LSeg):
                            raise Unsupported("index in a symbolic list")
                        if self.decide(self.same_or_eq(x, args[0])):
                            return i
                    raise PyRaise(ValueError("not in list"))
                if name == "pop" and not args and obj and not isinstance(obj[-1], LSeg):
                    v = obj[-1]
                    self.set_cell("list", obj, None, obj[:-1])
                    return v
                raise Unsupported(f"list.{name} on symbolic content")
            self.note("list", obj, None, list(obj))
        elif isinstance(obj, set):
            if name == "add":
                if self.symbolic(args[0]):
                    self.set_cell("set", obj, None, obj | {args[0]})
                    return None
                self.note("set", obj, None, set(obj))
            elif any(self.symbolic(a) for a in args) or any(isinstance(x, (LSeg, Sym)) for x in obj):
                raise Unsupported(f"set.{name} on symbolic content")
            else:
                self.note("set", obj, None, set(obj))
        elif isinstance(obj, dict):
            args = tuple(self.force(a) for a in args)
            if name in ("get", "pop", "setdefault") and self.symbolic(args[0]):
                if name != "get":
                    raise Unsupported("symbolic key")
                return self.dict_get(obj, args[0], args[1] if len(args) > 1 else None)
            if name in ("items", "values", "keys"):
                return self.new(list(getattr(obj, name)()))
            if name not in ("get", "copy"):
                self.note("dict", obj, None, dict(obj))
        elif any(self.symbolic(a) for a in args):
            raise Unsupported(f"{type(obj).__name__}.{name} with symbolic arguments")
        try:
            r = getattr(obj, name)(*args, **kw)
        except NATIVE_EXC as e:
            raise PyRaise(e) from None
        if isinstance(r, (list, dict, set)) and self.birth(r) == 0 and name == "copy":
            self.new(r)
        return r

    def dict_get(self, d, key, default=UNDEF):
        """lookup with a symbolic key"""
        if isinstance(key, SEnum):
            missing = [m not in d for m in key.members]
            if any(missing):
                if default is UNDEF:
                    raise Unsupported("symbolic key may be absent")
                vals = [d.get(m, default) for m in key.members]
            else:
                vals = [d[m] for m in key.members]
            return SEnum(key.z, vals)
        if isinstance(key, Opaque):
            return OPAQUE
        if isinstance(key, (SS, SI, SV)):
            for k, v in d.items():
                if self.decide(self.eq(k, key)):
                    return v
            if default is UNDEF:
                raise PyRaise(KeyError("symbolic"))
            return default
        from . import models
        if isinstance(key, models.SType) and default is not UNDEF:
            return OPAQUE
        raise Unsupported("symbolic dictionary key")

    # ------------------------------------------------------------------ calls
    def call(self, fn, args, kw):
        fn = self.force(fn)
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("recursion without a contract")
        try:
            return self.call_(fn, list(args), dict(kw))
        finally:
            self.depth -= 1

    def call_(self, fn, args, kw):
        if isinstance(fn, Nat):
            return fn.fn(*args, **kw)
        if isinstance(fn, Model) and hasattr(fn, "invoke"):
            return fn.invoke(self, args, kw)
        if isinstance(fn, SEnum):
            i = self.choose([fn.z == j for j in range(len(fn.members))])
            return self.call(fn.members[i], args, kw)
        owner = None
        if isinstance(fn, Bound):
            if isinstance(fn.fn, Nat):
                return fn.fn.fn(fn.self_, *args, **kw)
            args, owner, fn = [fn.self_] + args, fn.owner, fn.fn
        elif isinstance(fn, Fn):
            owner, fn = fn.owner, fn.fn
        if isinstance(fn, types.MethodType):
            args, fn = [fn.__self__] + args, fn.__func__
        if isinstance(fn, Closure):
            return self.run_function(fn.node, fn.frame.globals, args, kw, fn.defaults, fn.kwdefaults,
                                     parent=fn.frame, owner=fn.owner, name=fn.name)
        if isinstance(fn, types.FunctionType) and self.interpretable_module(fn.__module__):
            q = f"{fn.__module__}.{fn.__qualname__}"
            h = self.handlers.get(q)
            if h is None and owner is not None:
                h = self.handlers.get(f"{owner.__module__}.{owner.__qualname__}.{fn.__name__}")
            if h is not None:
                r = h(self, args, kw)
                if r is not NotImplemented:
                    return r
            node = node_of(fn)
            self.functions.add(q)
            defaults = [self.canon(d) for d in (fn.__defaults__ or ())]
            kwd = {k: self.canon(v) for k, v in (fn.__kwdefaults__ or {}).items()}
            if owner is None and "." in fn.__qualname__ and "<locals>" not in fn.__qualname__:
                owner = self.find_owner(fn)
            return self.run_function(node, fn.__globals__, args, kw, defaults, kwd, owner=owner,
                                     name=fn.__qualname__, closure=fn.__closure__, code=fn.__code__)
        if isinstance(fn, type):
            return self.construct(fn, args, kw)
        h = self.handlers.get(getattr(fn, "__qualname__", None) and f"{getattr(fn, '__module__', '')}.{fn.__qualname__}")
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        return self.call_native(fn, args, kw)

    def find_owner(self, fn):
        mod = fn.__globals__
        parts = fn.__qualname__.split(".")[:-1]
        o = mod.get(parts[0])
        for p in parts[1:]:
            o = getattr(o, p, None)
        return o if isinstance(o, type) else None

    def construct(self, cls, args, kw):
        h = self.constructors.get(cls)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        if self.interpretable_class(cls) and not issubclass(cls, (enum.Enum, Exception)):
            if dataclasses.is_dataclass(cls) and cls.__init__.__code__.co_filename == "<string>":
                return self.construct_data(cls, args, kw)
            obj = object.__new__(cls)
            self.new(obj)
            owner, init = self.mro_lookup(cls, "__init__")
            if init is not None:
                self.call(Bound(init, obj, owner), args, kw)
            return obj
        return self.call_native(cls, args, kw)

    def construct_data(self, cls, args, kw):
        obj = self.new(object.__new__(cls))
        fields = [f for f in dataclasses.fields(cls) if f.init]
        vals = dict(zip([f.name for f in fields], args), **kw)
        if len(args) > len(fields) or set(vals) - {f.name for f in fields} or hasattr(cls, "__post_init__"):
            raise Unsupported("data class construction")
        for f in fields:
            if f.name not in vals:
                if f.default is dataclasses.MISSING:
                    raise PyRaise(TypeError(f.name))
                vals[f.name] = self.canon(f.default)
            object.__setattr__(obj, f.name, vals[f.name])
        return obj

    def run_function(self, node, globals_, args, kw, defaults, kwdefaults, parent=None, owner=None, name="",
                     closure=None, code=None):
        fr = Frame(self, globals_, parent, name, owner)
        if closure and code is not None:
            for n, c in zip(code.co_freevars, closure):
                try:
                    fr.locals[n] = self.canon(c.cell_contents)
                except ValueError:
                    pass
        self.bind_args(node.args, fr, args, kw, defaults, kwdefaults, name)
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, fr)
        if is_generator(node):
            fr.yields = self.new([])
            self.block(node.body, fr)
            return fr.yields
        sig = self.block(node.body, fr)
        if sig and sig[0] == "return":
            return sig[1]
        return None

    def bind_args(self, a, fr, args, kw, defaults, kwdefaults, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        fr.first = args[0] if args else None
        vals = {}
        for n, v in zip(pos, args):
            if isinstance(v, StarSeq):
                raise Unsupported("symbolic argument list")
            vals[n] = v
        rest = args[len(pos):]
        if a.vararg:
            if len(rest) == 1 and isinstance(rest[0], StarSeq):
                vals[a.vararg.arg] = rest[0].seq
            else:
                vals[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyRaise(TypeError(f"{name}() takes {len(pos)} positional arguments"))
        for n in pos:
            if n in kw:
                if n in vals:
                    raise PyRaise(TypeError(f"{name}() got multiple values for {n!r}"))
                vals[n] = kw.pop(n)
        for n, d in zip(pos[len(pos) - len(defaults):], defaults):
            vals.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                vals[x.arg] = kwdefaults[x.arg]
        if a.kwarg:
            vals[a.kwarg.arg] = self.new(dict(kw))
        elif kw:
            raise PyRaise(TypeError(f"{name}() got unexpected keyword {list(kw)!r}"))
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise PyRaise(TypeError(f"{name}() missing argument {n!r}"))
        fr.locals.update(vals)

    def call_native(self, fn, args, kw):
        from . import models
        args = [self.force(a) for a in args]
        m = models.BUILTINS.get(fn) if self.hashable(fn) else None
        if m is not None:
            return m(self, *args, **kw)
        own = getattr(fn, "__self__", None)
        if isinstance(own, models.re.Pattern) and any(self.symbolic(a) for a in args):
            return models.regex(self, own, fn.__name__, args)
        if fn in models.RE_CALLS and len(args) == 2 and isinstance(args[0], (str, models.re.Pattern)) and self.symbolic(args[1]):
            return models.regex(self, models.re.compile(args[0], *kw.values()), fn.__name__, args[1:])
        if any(self.deep_symbolic(a) for a in args) or any(self.deep_symbolic(a) for a in kw.values()):
            if isinstance(fn, type) and issubclass(fn, Exception) and not self.interpretable_class(fn):
                return fn("(text)")     # the text of an exception is not looked at
            raise Unsupported(f"call of {fn!r} with symbolic arguments")
        try:
            r = fn(*args, **kw)
        except NATIVE_EXC as e:
            raise PyRaise(e) from None
        except Unsupported:
            raise
        if isinstance(r, (list, dict, set)):
            self.new(r)
        return self.canon(r)

    def hashable(self, x):
        try:
            hash(x)
            return True
        except TypeError:
            return False

    def deep_symbolic(self, v, seen=None):
        seen = seen or set()
        if id(v) in seen:
            return False
        if isinstance(v, (Sym, SEnum, Opaque, Lazy, Seq, LSeg, Model, Closure, Bound, Nat, Fn)):
            return True
        if isinstance(v, (tuple, list, set, frozenset)):
            return any(self.deep_symbolic(x, seen | {id(v)}) for x in v)
        if isinstance(v, dict):
            return any(self.deep_symbolic(x, seen | {id(v)}) for x in list(v.keys()) + list(v.values()))
        if self.interpretable_class(type(v)) and hasattr(v, "__dict__"):
            return any(self.deep_symbolic(x, seen | {id(v)}) for x in v.__dict__.values())
        return False

    def list_of(self, v):
        """contents as native list (runs kept)"""
        v = self.force(v)
        if isinstance(v, list):
            return list(v)
        out = []
        for p in self.pieces(v):
            out.append(self.seq_seg(p) if isinstance(p, Seq) else p)
        return out

    def seq_seg(self, seq):
        k = z3.Int(self.uniq("k"))
        paths = self.subexplore(lambda: self.solver.add(z3.And(0 <= k, k < seq.n)), lambda: ("value", seq.elem(k)))
        if any(p.sig[0] == "raise" or p.finals for p in paths):
            raise Unsupported("sequence elements with effects")
        lifted = [self.lift(p, k, seq.n) for p in paths]
        return LSeg(k, seq.n, [(p.guard, p.sig[1]) for p in lifted], True)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            sig = getattr(self, "x_" + type(s).__name__, self.x_unsupported)(s, fr)
            if sig is not None:
                return sig
        return None

    def x_unsupported(self, s, fr):
        raise Unsupported(f"statement {type(s).__name__} at line {s.lineno} in {fr.func}")

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        if isinstance(s.value, ast.Yield):
            f = fr
            while f.yields is None:
                f = f.parent
            v = self.ev(s.value.value, fr) if s.value.value else None
            self.set_cell("list", f.yields, None, f.yields + [v])
            return None
        if isinstance(s.value, ast.YieldFrom):
            self.set_cell("list", fr.yields, None, fr.yields + self.list_of(self.ev(s.value.value, fr)))
            return None
        self.ev(s.value, fr)
        return None

    def x_Pass(self, s, fr):
        return None

    def x_Import(self, s, fr):
        for a in s.names:
            import importlib
            m = importlib.import_module(a.name)
            self.setlocal(fr, a.asname or a.name.split(".")[0], m if a.asname else __import__(a.name))
        return None

    def x_ImportFrom(self, s, fr):
        import importlib
        if s.level:
            raise Unsupported("relative import in a function")
        m = importlib.import_module(s.module)
        for a in s.names:
            self.setlocal(fr, a.asname or a.name, self.canon(getattr(m, a.name)))
        return None

    def x_Return(self, s, fr):
        return ("return", self.ev(s.value, fr) if s.value else None)

    def x_Break(self, s, fr):
        return ("break",)

    def x_Continue(self, s, fr):
        return ("continue",)

    def x_Assert(self, s, fr):
        if not self.decide(self.evt(s.test, fr)):
            raise PyRaise(AssertionError())
        return None

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.force(self.ev(t.value, fr)), self.ev(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Name):
                self.set_cell("local", fr, t.id, UNDEF)
            else:
                raise Unsupported("del")
        return None

    def x_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(fr.exc)
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            e = e()
        raise PyRaise(e)

    def x_Try(self, s, fr):
        sig = None
        try:
            try:
                sig = self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.ev(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        match = isinstance(e.exc, ts)
                    if match:
                        if h.name:
                            self.setlocal(fr, h.name, e.exc)
                        fr.exc = e.exc
                        sig = self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                if sig is None and s.orelse:
                    sig = self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                sig2 = self.block(s.finalbody, fr)
                if sig2 is not None:
                    sig = sig2
        return sig

    def x_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        self.setlocal(fr, s.name, Closure(s, fr, defaults, kwd, fr.owner))
        return None

    def x_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)
        return None

    def x_If(self, s, fr):
        t = self.evt(s.test, fr)
        if not isinstance(t, bool):
            t = z3.simplify(t)
            if z3.is_true(t):
                t = True
            elif z3.is_false(t):
                t = False
        if isinstance(t, bool):
            return self.block(s.body if t else s.orelse, fr)
        if not has_node(s.body, CTRL) and not has_node(s.orelse, CTRL):
            try:
                if self.merge_if(t, s, fr):
                    return None
            except Abort:
                pass
        return self.block(s.body if self.decide(t) else s.orelse, fr)

    def merge_if(self, t, s, fr):
        _, f1 = self.speculate(t, lambda: self.block(s.body, fr))
        _, f2 = self.speculate(z3.Not(t), lambda: self.block(s.orelse, fr))
        if f1 is None or f2 is None:
            return False
        new = []
        for ck in list(f1) + [c for c in f2 if c not in f1]:
            kind, obj, key, _ = (f1.get(ck) or f2.get(ck))
            old = self.get_cell(kind, obj, key)
            v1 = f1[ck][3] if ck in f1 else old
            v2 = f2[ck][3] if ck in f2 else old
            new.append((kind, obj, key, self.merge(t, v1, v2, old, kind, obj)))
        for kind, obj, key, v in new:
            self.set_cell(kind, obj, key, v)
        return True

    def merge(self, t, a, b, old=None, kind=None, obj=None):
        if a is b:
            return a
        if kind == "model":
            return obj.merge_cells(self, t, a, b, old)
        if kind in ("list", "set", "dict"):
            if kind == "list" and len(a) == len(b) and all(x is y for x, y in zip(a, b)):
                return a
            raise Abort
        a, b = self.force(a), self.force(b)
        if a is UNDEF or b is UNDEF:
            raise Abort
        if isinstance(a, (Poison, Deferred)) or isinstance(b, (Poison, Deferred)):
            raise Abort
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return OPAQUE
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            za = zb(a) if isinstance(a, bool) else a.z
            zb_ = zb(b) if isinstance(b, bool) else b.z
            return self.mkb(z3.If(t, za, zb_))
        if isinstance(a, (int, SI)) and isinstance(b, (int, SI)) and not isinstance(a, bool) and not isinstance(b, bool):
            return SI(z3.If(t, self.zi(a), self.zi(b)))
        if isinstance(a, (str, SS)) and isinstance(b, (str, SS)) and not isinstance(a, enum.Enum) \
                and not isinstance(b, enum.Enum):
            if isinstance(a, str) and isinstance(b, str) and a == b:
                return a
            return SS(z3.If(t, self.zs(a), self.zs(b)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(t, x, y) for x, y in zip(a, b))
        if isinstance(a, SEnum) and isinstance(b, SEnum) and a.members == b.members:
            return SEnum(z3.If(t, a.z, b.z), a.members)
        from . import models
        simple = (SV, SB, SI, SS, bool, int, str, type(None), SDate, SFlt)

        def ok(x):
            return (isinstance(x, simple) and not isinstance(x, enum.Enum)) or x is models.INVALID or x is models.MISSING \
                or (isinstance(x, models.SymCont) and not x.writes and self.birth(x) == 0) or (isinstance(x, Seq) and x.of is not None)
        if ok(a) and ok(b):
            return SV(z3.simplify(z3.If(t, self.toval(a), self.toval(b))))
        raise Abort

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
        return None

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        return None

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
        else:
            o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
            cur = self.getitem(o, k)
        v = self.ev(s.value, fr)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            self.set_cell("list", cur, None, cur + self.list_of(v))
            return None
        if isinstance(cur, Model) and hasattr(cur, "iop"):
            r = cur.iop(self, s.op, v)
        else:
            r = self.binop(s.op, cur, v)
        if isinstance(t, ast.Name):
            self.setlocal(fr, t.id, r)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, r)
        else:
            self.setitem(o, k, r)
        return None

    def setlocal(self, fr, name, v):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.locals:
                f = f.parent
            fr = f
        self.set_cell("local", fr, name, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setlocal(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            vals = list(v) if isinstance(v, tuple) else self.pieces(v)
            if not isinstance(v, tuple) and any(isinstance(x, Seq) for x in vals):
                raise Unsupported("unpacking a symbolic sequence")
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(ValueError("not enough values to unpack"))
                vals = vals[:i] + [self.new(vals[i:len(vals) - after])] + vals[len(vals) - after:]
                elts = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
            else:
                elts = t.elts
            if len(vals) != len(elts):
                raise PyRaise(ValueError("wrong number of values to unpack"))
            for e, x in zip(elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    def x_While(self, s, fr):
        n = 0
        while True:
            t = self.evt(s.test, fr)
            if not self.decide(t):
                break
            n += 1
            if n > 50:
                raise Unsupported("while loop without a bound")
            sig = self.block(s.body, fr)
            if sig is None or sig[0] == "continue":
                continue
            if sig[0] == "break":
                return None
            return sig
        return self.block(s.orelse, fr)

    def x_For(self, s, fr):
        pieces = self.pieces(self.ev(s.iter, fr))
        for p in pieces:
            if isinstance(p, Seq):
                sig = self.sym_for(p, lambda v: self.assign(s.target, v, fr), lambda: self.block(s.body, fr))
            else:
                self.assign(s.target, p, fr)
                sig = self.block(s.body, fr)
            if sig is None or sig[0] == "continue":
                continue
            if sig[0] == "break":
                return None
            return sig
        return self.block(s.orelse, fr)

    # ------------------------------------------------------------------ symbolic loops
    def lift(self, p, k, n):
        """make the path's own symbols functions of the iteration k"""
        pairs, funs = [], []
        for c in p.fresh:
            if isinstance(c, z3.FuncDeclRef):
                dom = [c.domain(i) for i in range(c.arity())]
                g = self.fresh_fun(c.name().split("!")[0], z3.IntSort(), *dom, c.range())
                vs = [z3.Var(i, d) for i, d in enumerate(dom)]
                funs.append((c, g(k, *vs)))
            else:
                g = self.fresh_fun(str(c).split("!")[0], z3.IntSort(), c.sort())
                pairs.append((c, g(k)))
        if not p.fresh:
            q = p
        else:
            sub = lambda v: self.subst(v, pairs, funs)  # noqa: E731
            q = Path([sub(x) for x in p.pc], [], [sub(x) for x in p.defs],
                     None if p.sig is None else tuple(sub(x) if not isinstance(x, str) else x for x in p.sig),
                     {ck: (kd, o, key, self.subst_cell(kd, v, pairs, funs)) for ck, (kd, o, key, v) in p.finals.items()})
            # the functions choose witnesses: if the path is possible at k, it is possible with them
            own = [c for c in p.fresh if not isinstance(c, z3.FuncDeclRef)]
            if p.pc and not funs:
                g = conj(p.pc + p.defs)
                used = [c for c in own if occurs(g, c)]
                if used:
                    self.define(z3.ForAll([k] + used, z3.Implies(
                        z3.And(0 <= k, k < n, g), z3.substitute(g, *[(a, b) for a, b in pairs if any(a.eq(u) for u in used)]))))
        if q.defs:
            # definitions made on this path hold where the path is taken
            self.define(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, conj(q.pc)), conj(q.defs))))
            q.defs = []
        return q

    def subst_cell(self, kind, v, pairs, funs):
        if kind in ("local", "attr", "list", "model"):
            return self.subst(v, pairs, funs) if v is not UNDEF and not isinstance(v, (Poison, Deferred)) else v
        if kind == "set":
            return {self.subst(x, pairs, funs) for x in v}
        return v

    def sym_for(self, seq, assign, body):
        n = bound_of(seq)
        k = z3.Int(self.uniq("k"))
        known, live, regs = {}, {}, {}
        initial = {}

        def place(upto_k):
            for ck, (kind, obj, key) in known.items():
                if kind in ("local", "attr"):
                    if ck in live:
                        x, code = live[ck]
                        v = wrap(code, x(upto_k))
                    else:
                        v = Poison(ck)
                elif kind == "model":
                    v = obj.placeholder(self, key, initial[ck], regs[ck](upto_k) if ck in regs else None)
                elif kind == "list":
                    v = initial[ck] + [Poison(ck)]
                elif kind == "set":
                    v = initial[ck] | {self.poison_token(ck)}
                else:
                    raise Unsupported(f"dictionary changed in a symbolic loop: {kind} {str(obj)[:200]}")
                self.set_cell(kind, obj, key, v)

        def setup():
            self.solver.add(z3.And(0 <= k, k < n))
            place(k)

        def run():
            try:
                x = seq.elem(k)
            except Skip:
                return ("continue",)
            assign(x)
            return body()

        mark0, stamp0 = len(self.trail), self.stamp
        while True:
            try:
                paths = self.subexplore(setup, run)
            except NeedLive as e:
                if e.cell not in known:
                    raise
                ck = e.cell
                init = initial[ck]
                if known[ck][0] not in ("local", "attr") or ck in live:
                    raise Unsupported("reading an accumulated collection inside the loop") from None
                if isinstance(init, Deferred):
                    init = initial[ck] = init.fn()
                code = code_of(self, init)
                live[ck] = (self.fresh_fun("X", z3.IntSort(), SORTS[code]), code)
                continue
            fresh_cells = {}
            for p in paths:
                if not (p.sig is None or p.sig[0] == "continue"):
                    continue        # what an iteration that leaves the loop changes, no other iteration sees
                for ck, (kind, obj, key, _) in p.finals.items():
                    if ck not in known:
                        fresh_cells[ck] = (kind, obj, key)
            if not fresh_cells:
                # the invariants assumed while reading registries: every entry names its own iteration
                bad = [ck for ck, f in regs.items() if f.name() in self.frames and not known[ck][1].framed(
                    self, initial[ck], [p.finals[ck][3] for p in paths if ck in p.finals], self.frames[f.name()])]
                if not bad:
                    break
                for ck in bad:
                    self.frames.pop(regs[ck].name())
                    self.unframed.add(regs[ck].name())
                continue
            for ck, (kind, obj, key) in fresh_cells.items():
                known[ck] = (kind, obj, key)
                initial[ck] = self.get_cell(kind, obj, key)
                if kind == "model":
                    r = obj.accumulator(self, key)
                    if r is not None:
                        regs[ck] = r
                        self.loop_regs[r.name()] = k
        if not paths:
            # no feasible iteration: the sequence is empty
            self.assume(n <= 0)
            return None
        # kinds of variables: a live variable must keep its kind
        for ck, (x, code) in list(live.items()):
            for p in paths:
                if ck in p.finals and not fits(self, code, p.finals[ck][3]):
                    raise Unsupported("loop variable changes its kind")
        paths = [self.lift(p, k, n) for p in paths]
        paths, sticky = self.sticky_flags(k, paths, live, initial)
        paths = self.match_recurrence(k, n, paths, known, live, regs, initial)
        stay = [p for p in paths if p.sig is None or p.sig[0] == "continue"]
        exits = [p for p in paths if not (p.sig is None or p.sig[0] == "continue")]

        def set_state(upto):
            def once(p):
                g = p.guard
                if sticky:
                    g = z3.And(g)
                    g.once = lambda h: self.at_most_once(h, sticky, k, upto)
                return g
            for ck, (kind, obj, key) in known.items():
                init = initial[ck]
                if kind in ("local", "attr"):
                    if ck in sticky:
                        v = SB(sticky[ck](upto))
                    elif ck in live:
                        x, code = live[ck]
                        v = wrap(code, x(upto))
                    else:
                        v = Deferred(lambda ck=ck, init=init: self.last_write(ck, init, stay, k, upto))
                elif kind == "model":
                    v = obj.accumulated(self, key, init, [(once(p), p.finals[ck][3] if ck in p.finals else None) for p in stay],
                                        k, upto, regs.get(ck))
                elif kind == "list":
                    alts, total = [], True
                    for p in stay:
                        items = p.finals[ck][3][len(init) + 1:] if ck in p.finals else []
                        if ck in p.finals and not isinstance(p.finals[ck][3][len(init)], Poison):
                            raise Unsupported("list changed other than by appending")
                        if len(items) > 1:
                            raise Unsupported("several elements appended per iteration")
                        if items and isinstance(items[0], LSeg):
                            raise Unsupported("nested runs")
                        if items:
                            alts.append((p.guard, items[0]))
                        else:
                            total = False
                    v = init + [LSeg(k, upto, alts, total)]
                elif kind == "set":
                    alts = []
                    for p in stay:
                        items = [x for x in p.finals[ck][3] if not isinstance(x, PoisonToken) and x not in init] \
                            if ck in p.finals else []
                        if len(items) > 1:
                            raise Unsupported("several elements added per iteration")
                        if items:
                            if not (isinstance(items[0], SI) and items[0].z.eq(k)):
                                raise Unsupported("set of computed elements")
                            alts.append((p.guard, items[0]))
                    v = init | {LSeg(k, upto, alts, False)}
                self.set_cell(kind, obj, key, v)

        if not exits:
            set_state(n)
            return None
        ex = disj([p.guard for p in exits])
        some = z3.Exists([k], z3.And(0 <= k, k < n, ex))
        accum = [ck for ck, (kind, _, _) in known.items() if kind not in ("local", "attr")]
        first = exits[0].sig
        if not accum and not live and all(
                p.sig[0] == first[0] == "return" and same_const(p.sig[1], first[1]) for p in exits):
            # the outcome does not depend on which iteration leaves the loop
            if self.decide(some):
                return first
            set_state(n)
            return None
        named = self.first_match(self, k, n, ex) if self.first_match else None
        if named is not None:
            some = named[0]
        if not self.decide(some):
            set_state(n)
            return None
        k0 = self.fresh("k0", z3.IntSort()) if named is None else named[1]
        j = z3.Int(self.uniq("j"))
        if named is None:
            self.assume(z3.And(0 <= k0, k0 < n, z3.substitute(ex, (k, k0))))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k0), z3.Not(z3.substitute(ex, (k, j))))))
        set_state(k0)
        try:
            x0 = seq.elem(k0)
        except Skip:
            raise Prune from None
        assign(x0)
        sig = body()
        if sig is None or sig[0] == "continue":
            raise Prune
        return sig

    def sticky_flags(self, k, paths, live, initial):
        """flags that the loop only ever sets: set at k if an earlier iteration met the condition (induction over k)"""
        sticky = {}
        for ck in list(live):
            x, code = live[ck]
            init = self.force(initial[ck])
            if code != "b" or not isinstance(init, bool):
                continue
            f, t = (x(k), z3.BoolVal(init)), (x(k), z3.BoolVal(not init))
            sets = []
            for p in paths:
                if not (p.sig is None or p.sig[0] == "continue") or ck not in p.finals:
                    continue
                v = unwrap(self, "b", p.finals[ck][3])
                if init:
                    v = z3.Not(v)
                if not z3.is_true(z3.simplify(z3.substitute(v, t))):
                    sets = None
                    break
                parts = [z3.substitute(c, f) for c in p.pc + [v]]
                parts = [c for c in parts if not z3.is_true(z3.simplify(c))]
                if not any(z3.is_false(z3.simplify(c)) for c in parts):
                    sets.append(conj(parts))
            if not sets or any(occurs_fun(c, x) for c in sets):
                continue
            P = disj(sets)
            j = z3.Int(self.uniq("j"))

            def value(upto, met=False, P=P, j=j, init=init):
                e = z3.Exists([j], z3.And(0 <= j, j < upto, z3.substitute(P, (k, j))))
                return z3.Not(e) if init and not met else e
            value.P = P
            sticky[ck] = value
            pairs = [(x(k), value(k))]
            del live[ck]
            out = []
            for p in paths:
                q = Path([z3.substitute(c, *pairs) for c in p.pc], p.fresh, p.defs, None if p.sig is None else tuple(
                    self.subst(c, pairs, []) if not isinstance(c, str) else c for c in p.sig),
                    {c: (kd, o, key, self.subst_cell(kd, v, pairs, [])) for c, (kd, o, key, v) in p.finals.items()})
                out.append(q)
            paths = out
        return paths, sticky

    def at_most_once(self, h, sticky, k, upto):
        """h(k) happens only while a flag is unset and sets it: then in one iteration at most"""
        for value in sticky.values():
            met = value(k, True)
            if not z3.is_false(z3.simplify(z3.substitute(h, (met, z3.BoolVal(True))))):
                continue
            h0 = z3.substitute(h, (met, z3.BoolVal(False)))
            here = z3.And(0 <= k, k < upto)
            if not self.follows(z3.Implies(z3.And(here, h0), value.P)):
                continue
            if self.follows(z3.Implies(z3.And(here, value.P), h0)):
                return value(upto, True)
            return z3.Exists([k], z3.And(here, h))
        return None

    def follows(self, f):
        self.solver.push()
        try:
            self.solver.add(z3.Not(f))
            self.solver.set("timeout", 3000)
            return self.solver.check() == z3.unsat
        finally:
            self.solver.pop()
            self.solver.set("timeout", self.FEAS_MS)

    def poison_token(self, ck):
        return PoisonToken(ck)

    def last_write(self, ck, init, stay, k, upto):
        """value of a variable that the loop body only writes"""
        writes = [(p.guard, p.finals[ck][3]) for p in stay if ck in p.finals]
        if isinstance(init, Deferred):
            init = init.fn()
        if not writes:
            if init is UNDEF:
                raise PyRaise(UnboundLocalError("loop variable"))
            return init
        g = disj([w[0] for w in writes])
        some = z3.Exists([k], z3.And(0 <= k, k < upto, g))
        w0 = writes[0][1]
        if all(same_const(w0, w[1]) for w in writes[1:]) and is_const(w0):
            if init is not UNDEF:
                try:
                    return self.merge(some, w0, init)
                except Abort:
                    pass
            if self.decide(some):
                return w0
            if init is UNDEF:
                raise PyRaise(UnboundLocalError("loop variable"))
            return init
        if not self.decide(some):
            if init is UNDEF:
                raise PyRaise(UnboundLocalError("loop variable"))
            return init
        kl = self.fresh("kl", z3.IntSort())
        j = z3.Int(self.uniq("j"))
        self.assume(z3.And(0 <= kl, kl < upto, z3.substitute(g, (k, kl))))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(kl < j, j < upto), z3.Not(z3.substitute(g, (k, j))))))
        i = self.choose([z3.substitute(w[0], (k, kl)) for w in writes])
        return self.subst(writes[i][1], [(k, kl)])

    def match_recurrence(self, k, n, paths, known, live, regs, initial):
        """carried state (variables and registries read inside the loop): define it by recursion,
        or identify it with an earlier loop's state that obeys the same recursion"""
        stay = [p for p in paths if p.sig is None or p.sig[0] == "continue"]
        text = None
        used_regs = {}
        for ck, f in regs.items():
            if any(occurs_fun(x, f) for p in paths for x in self.formulas(p)):
                used_regs[ck] = f
        if not live and not used_regs:
            return paths

        def step(ck, ps):
            x, code = live[ck]
            out = x(k)
            for p in reversed(ps):
                if ck in p.finals:
                    out = z3.If(p.guard, unwrap(self, code, p.finals[ck][3]), out)
            return out

        rec = {"k": k, "n": n,
               "live": [(live[ck][0], live[ck][1], unwrap(self, live[ck][1], initial[ck]), ck) for ck in live],
               "regs": [(f, ck) for ck, f in used_regs.items()]}
        rec["steps"] = {live[ck][0].name(): step(ck, stay) for ck in live}
        rec["deltas"] = {f.name(): known[ck][1].deltas(self, known[ck][2], initial[ck],
                                                       [(p.guard, p.finals[ck][3] if ck in p.finals else None) for p in stay])
                         for ck, f in used_regs.items()}
        for old in self.recs:
            m = self.try_match(rec, old)
            if m is None:
                continue
            funs = m
            out = []
            for p in paths:
                sub = lambda v: self.subst(v, [], funs)  # noqa: E731
                out.append(Path([sub(x) for x in p.pc], p.fresh, [], None if p.sig is None else tuple(
                    sub(x) if not isinstance(x, str) else x for x in p.sig),
                    {ck: (kd, o, key, self.subst_cell(kd, v, [], funs)) for ck, (kd, o, key, v) in p.finals.items()}))
            names = {a.name(): b for a, b in m}
            for ck in list(live):
                f, code = live[ck]
                live[ck] = (names[f.name()].decl(), code)
            for ck in used_regs:
                regs[ck] = names[regs[ck].name()].decl()
            return out
        # a new recursion
        for f, code, init, ck in rec["live"]:
            self.define(f(0) == init)
            self.define(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f(k + 1) == rec["steps"][f.name()])))
        if used_regs:
            from . import models
            self.abstracted_terms |= {f.name() for f in used_regs.values()}
            for ck, f in used_regs.items():
                for fact in models.carried_facts(self, f, rec["deltas"][f.name()], k, n) if self.carry_facts else ():
                    self.define(fact)
        self.set_cell("recs", self, None, self.recs + [rec])
        return paths

    def formulas(self, p):
        out = list(p.pc)
        for kd, o, key, v in p.finals.values():
            if kd in ("local", "attr") and isinstance(v, Sym):
                out.append(v.z)
            elif kd == "model":
                out.extend(o.formulas(key, v))
        if p.sig:
            out += [x.z for x in p.sig if isinstance(x, Sym)]
        return out

    def try_match(self, new, old):
        import itertools
        if len(new["live"]) != len(old["live"]) or len(new["regs"]) != len(old["regs"]):
            return None
        if not self.valid(new["n"] == old["n"]):
            return None
        from . import models
        for perm in itertools.permutations(old["live"]):
            if any(a[1] != b[1] for a, b in zip(new["live"], perm)):
                continue
            for rperm in itertools.permutations(old["regs"]):
                funs = [(a[0], b[0](z3.Var(0, z3.IntSort()))) for a, b in zip(new["live"], perm)]
                funs += [(a[0], b[0](z3.Var(0, z3.IntSort()))) for a, b in zip(new["regs"], rperm)]
                ok = all(self.valid(a[2] == b[2]) for a, b in zip(new["live"], perm))
                if not ok:
                    continue
                kk = old["k"]
                self.solver.push()
                try:
                    self.solver.add(z3.And(0 <= kk, kk < old["n"]))
                    for a, b in zip(new["live"], perm):
                        sa = z3.substitute(z3.substitute_funs(new["steps"][a[0].name()], *funs), (new["k"], kk))
                        if not self.valid(sa == old["steps"][b[0].name()]):
                            ok = False
                            break
                    if ok:
                        for a, b in zip(new["regs"], rperm):
                            da = self.subst(new["deltas"][a[0].name()], [(new["k"], kk)], funs)
                            try:
                                models.compare_entries(self, da, old["deltas"][b[0].name()], "recurrence", quiet=True)
                            except models.Differ:
                                ok = False
                                break
                finally:
                    self.solver.pop()
                if ok:
                    return funs
        return None

    # ------------------------------------------------------------------ expressions
    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise NeedLive(v.cell)
                if isinstance(v, Deferred):
                    v = v.fn()
                    self.set_cell("local", f, name, v)
                return v
            f = f.parent
        if name in fr.globals:
            return self.canon(fr.globals[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    def ev(self, e, fr):
        return getattr(self, "e_" + type(e).__name__, self.e_unsupported)(e, fr)

    def e_unsupported(self, e, fr):
        raise Unsupported(f"expression {type(e).__name__} at line {e.lineno} in {fr.func}")

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load(e.id, fr)

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.value, ast.Name) and e.attr.startswith("__") and not e.attr.endswith("__") and fr.owner:
            return self.getattr(o, f"_{fr.owner.__name__.lstrip('_')}{e.attr}")
        return self.getattr(o, e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self.elements(e.elts, fr))

    def e_List(self, e, fr):
        return self.new(self.elements(e.elts, fr))

    def e_Set(self, e, fr):
        vals = self.elements(e.elts, fr)
        return self.new(set(vals))

    def elements(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.list_of(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        if not e.keys and self.empty_dict is not None:
            return self.empty_dict(self)
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                if self.symbolic(kk):
                    raise Unsupported("symbolic key in a dict display")
                d[kk] = self.ev(v, fr)
        return self.new(d)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.force(self.ev(v.value, fr))
                if self.deep_symbolic(x) or v.format_spec is not None:
                    parts.append(x if isinstance(x, SS) and v.conversion == -1 else None)
                else:
                    parts.append({-1: format, 115: str, 114: repr, 97: ascii}[v.conversion](x))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        from . import models
        if all(p is not None for p in parts):
            out = None
            for p in parts:
                out = p if out is None else models.concat(self, out, p)
            return out
        return SS(self.fresh("fmt", T.Str))

    def e_IfExp(self, e, fr):
        t = self.evt(e.test, fr)
        if not isinstance(t, bool):
            t = z3.simplify(t)
            t = True if z3.is_true(t) else False if z3.is_false(t) else t
        if isinstance(t, bool):
            return self.ev(e.body if t else e.orelse, fr)
        try:
            a, f1 = self.speculate(t, lambda: self.ev(e.body, fr))
            b, f2 = self.speculate(z3.Not(t), lambda: self.ev(e.orelse, fr))
            if not f1 and not f2 and f1 is not None and f2 is not None:
                return self.merge(t, a, b)
        except Abort:
            pass
        return self.ev(e.body if self.decide(t) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if not isinstance(t, bool):
                if isinstance(v, (SB, bool)):
                    rest = ast.BoolOp(e.op, e.values[i + 1:]) if len(e.values) - i > 2 else e.values[i + 1]
                    ast.copy_location(rest, e)
                    try:
                        w, fin = self.speculate(t if is_and else z3.Not(t), lambda: self.ev(rest, fr))
                        if fin == {} and isinstance(w, (bool, SB)):
                            tw = self.truth(w)
                            return self.mkb(z3.And(t, zb(tw)) if is_and else z3.Or(t, zb(tw)))
                    except Abort:
                        pass
                t = self.decide(t)
            if t != is_and:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            t = self.evt(e.operand, fr)
            return (not t) if isinstance(t, bool) else self.mkb(z3.Not(t))
        v = self.force(self.ev(e.operand, fr))
        if isinstance(e.op, ast.USub):
            if isinstance(v, SI):
                return SI(-v.z)
            if isinstance(v, (Sym, Opaque)):
                raise Unsupported("negation")
            return -v
        raise Unsupported("unary operator")

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            t = self.compare(op, left, right)
            if t is False:
                return False
            if t is not True:
                out.append(t)
            left = right
        return True if not out else self.mkb(conj(out))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(a, b))
        name = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        return self.order(name, a, b)

    def neg(self, t):
        return (not t) if isinstance(t, bool) else z3.Not(t)

    def order(self, name, a, b):
        from . import models
        a, b = self.force(a), self.force(b)
        num = (SI, SB, int)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, int) and isinstance(b, int):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[name]
            x, y = self.zi(a), self.zi(b)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[name]
        if isinstance(a, (Sym, str)) and isinstance(b, (Sym, str)) or isinstance(a, Sym) or isinstance(b, Sym):
            return models.order(self, name, a, b)
        if isinstance(a, models.SetM) and isinstance(b, models.SetM) and name in ("<=", ">="):
            return models.subset(self, a, b) if name == "<=" else models.subset(self, b, a)
        meth = {"<": ("__lt__", "__gt__"), ">": ("__gt__", "__lt__"), "<=": ("__le__", "__ge__"),
                ">=": ("__ge__", "__le__")}[name]
        if self.interpretable_class(type(a)) or self.interpretable_class(type(b)):
            for x, y, m in ((a, b, meth[0]), (b, a, meth[1])):
                if self.interpretable_class(type(x)):
                    owner, f = self.mro_lookup(type(x), m)
                    if f is not None:
                        r = self.call(Bound(f, x, owner), [y], {})
                        if r is NotImplemented:
                            continue
                        return self.truth(r)
            raise PyRaise(TypeError("not comparable"))
        if isinstance(a, (Opaque, Model, Seq)) or isinstance(b, (Opaque, Model, Seq)):
            raise Unsupported("ordering")
        try:
            return {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[name](a, b)
        except TypeError as e:
            raise PyRaise(e) from None

    def evt(self, e, fr):
        """truth of an expression, as bool or formula"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            acc = []

            def rest(i):
                t = self.evt(e.values[i], fr)
                if i == len(e.values) - 1:
                    return t
                if isinstance(t, bool):
                    return rest(i + 1) if t == is_and else t
                t = z3.simplify(t)
                if z3.is_true(t) or z3.is_false(t):
                    return rest(i + 1) if z3.is_true(t) == is_and else z3.is_true(t)
                try:
                    w, fin = self.speculate(t if is_and else z3.Not(t), lambda: ("t", rest(i + 1)))
                    if fin == {}:
                        w = zb(w[1])
                        return z3.And(t, w) if is_and else z3.Or(t, w)
                    if fin is None:   # the first operand decides alone
                        return not is_and
                except Abort:
                    pass
                d = self.decide(t)
                return rest(i + 1) if d == is_and else d
            return rest(0)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.neg(self.evt(e.operand, fr))
        if isinstance(e, ast.Call):
            return self.evt_call(e, fr)
        return self.truth(self.ev(e, fr))

    def evt_call(self, e, fr):
        fn, args, kw = self.call_parts(e, fr)
        base = self.force(fn)
        while isinstance(base, (Bound, Fn)):
            base = base.fn
        if isinstance(base, Closure) or (isinstance(base, types.FunctionType)
                                         and self.interpretable_module(base.__module__)):
            return self.truth(self.merged_call(fn, args, kw))
        return self.truth(self.call(fn, args, kw))

    def merged_call(self, fn, args, kw):
        """call of a pure function: one value instead of one path per outcome, where possible"""
        if not any(self.deep_symbolic(a) for a in args) and not any(self.deep_symbolic(a) for a in kw.values()):
            return self.call(fn, args, kw)
        depth = self.depth
        try:
            paths = self.subexplore(lambda: None, lambda: ("value", self.call(fn, args, kw)), limit=60)
        except Unsupported:
            self.depth = depth
            return self.call(fn, args, kw)
        if len(paths) <= 1 or any(p.sig[0] != "value" or p.finals for p in paths):
            return self.call(fn, args, kw)
        vals = [p.sig[1] for p in paths]
        if not all(isinstance(v, (bool, SB)) for v in vals):
            return self.call(fn, args, kw)
        out = []
        for p, v in zip(paths, vals):
            f = conj(p.pc + p.defs + [zb(v) if isinstance(v, bool) else v.z])
            if z3.is_false(z3.simplify(f)):
                continue
            if any(isinstance(c, z3.FuncDeclRef) for c in p.fresh):
                return self.call(fn, args, kw)
            used = [c for c in p.fresh if occurs(f, c)]
            out.append(z3.Exists(used, f) if used else f)
        return self.mkb(disj(out))

    def call_parts(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f.owner is None or not hasattr(f, "first"):
                f = f.parent
            return Nat(lambda: Super(f.owner, f.first)), [], {}
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                ps = self.pieces(self.ev(a.value, fr))
                if any(isinstance(p, Seq) for p in ps):
                    if len(ps) == 1 and isinstance(fn, type) and self.interpretable_class(fn) and a is e.args[-1]:
                        args.append(StarSeq(ps[0]))
                        continue
                    raise Unsupported("symbolic argument list")
                args.extend(ps)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for x in e.keywords:
            if x.arg is None:
                kw.update(self.ev(x.value, fr))
            else:
                kw[x.arg] = self.ev(x.value, fr)
        return fn, args, kw

    def e_Call(self, e, fr):
        fn, args, kw = self.call_parts(e, fr)
        return self.call(fn, args, kw)

    def e_Lambda(self, e, fr):
        return Closure(e, fr, [self.ev(d, fr) for d in e.args.defaults], {}, fr.owner)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        from . import models
        a, b = self.force(a), self.force(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, list) and isinstance(op, ast.Add):
            return self.new(a + self.list_of(b))
        for x in (a, b):
            if isinstance(x, Model) and hasattr(x, "binop"):
                return x.binop(self, op, a, b)
        num = (SI, SB, int)
        if isinstance(a, SV) or isinstance(b, SV):
            return models.arith_val(self, op, a, b)
        if isinstance(a, num) and isinstance(b, num) and (isinstance(a, Sym) or isinstance(b, Sym)):
            x, y = self.zi(a), self.zi(b)
            if isinstance(op, ast.Add):
                return SI(x + y)
            if isinstance(op, ast.Sub):
                return SI(x - y)
            if isinstance(op, ast.Mult):
                return SI(x * y)
            raise Unsupported("arithmetic")
        if isinstance(a, (SS, str)) and isinstance(b, (SS, str)) and isinstance(op, ast.Add) and \
                (isinstance(a, SS) or isinstance(b, SS)):
            return models.concat(self, a, b)
        if isinstance(a, (Sym, Opaque, SEnum, Seq, Model)) or isinstance(b, (Sym, Opaque, SEnum, Seq, Model)):
            raise Unsupported(f"operator on {a!r} and {b!r}")
        try:
            r = BIN[type(op)](a, b)
        except KeyError:
            raise Unsupported("operator") from None
        except NATIVE_EXC as e:
            raise PyRaise(e) from None
        if isinstance(r, (list, dict, set)):
            self.new(r)
        return r

    def e_Subscript(self, e, fr):
        o = self.force(self.ev(e.value, fr))
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fr) if e.slice.lower else None
            hi = self.ev(e.slice.upper, fr) if e.slice.upper else None
            st = self.ev(e.slice.step, fr) if e.slice.step else None
            return self.slice(o, lo, hi, st)
        return self.getitem(o, self.ev(e.slice, fr))

    def slice(self, o, lo, hi, st):
        from . import models
        if isinstance(o, Model) and hasattr(o, "slice"):
            return o.slice(self, lo, hi, st)
        if isinstance(o, (SS, SV)) or (isinstance(o, str) and any(isinstance(x, Sym) for x in (lo, hi))):
            return models.str_slice(self, o, lo, hi, st)
        if isinstance(o, Seq) or any(isinstance(x, Sym) for x in (lo, hi, st)) or (
                isinstance(o, list) and any(isinstance(x, LSeg) for x in o)):
            if isinstance(o, Seq) and lo is None and hi is None and st is None:
                return o
            raise Unsupported("slice")
        r = o[slice(lo, hi, st)]
        return self.new(r) if isinstance(r, list) else r

    def getitem(self, o, k):
        o, k = self.force(o), self.force(k)
        from . import models
        if isinstance(o, Model):
            return o.getitem(self, k)
        if isinstance(o, SV):
            if self.decide(Val.is_cont_(o.z)):
                return models.cont_of(self, o).getitem(self, k)
            if self.decide(Val.is_lst_(o.z)):
                return self.getitem(self.seq_of_lst(Val.l(o.z)), k)
            if self.decide(z3.Or(Val.is_none(o.z), Val.is_missing(o.z), Val.is_invalid(o.z), Val.is_bool_(o.z),
                                 Val.is_int_(o.z), Val.is_flt_(o.z), Val.is_date_(o.z))):
                raise PyRaise(TypeError("not subscriptable"))
            if not isinstance(k, (int, SI)) and self.decide(Val.is_str_(o.z)):
                raise PyRaise(TypeError("string indices must be integers"))
            raise Unsupported("subscript of an unknown value")
        if isinstance(o, Seq):
            return self.index(o, k)
        if isinstance(o, (list, tuple)):
            if any(isinstance(x, LSeg) for x in o):
                ps = self.pieces(o)
                if len(ps) == 1:
                    return self.index(ps[0], k)
                raise Unsupported("index into a mixed list")
            if isinstance(k, SI):
                for i, x in enumerate(o):
                    if self.decide(k.z == i):
                        return x
                raise Unsupported("symbolic index")
            if isinstance(k, SEnum):
                return SEnum(k.z, [o[m] for m in k.members])
        if isinstance(o, dict) and self.symbolic(k):
            return self.dict_get(o, k)
        if isinstance(o, (SS, str)) and (isinstance(k, SI) or isinstance(o, SS)):
            raise Unsupported("character access")
        if isinstance(o, (SEnum, Opaque, Sym)):
            raise Unsupported("subscript")
        if isinstance(o, type) or isinstance(o, typing._SpecialForm) or getattr(o, "__module__", "") == "typing":
            return OPAQUE
        if self.interpretable_class(type(o)):
            owner, f = self.mro_lookup(type(o), "__getitem__")
            if f is None:
                raise PyRaise(TypeError("not subscriptable"))
            return self.call(Bound(f, o, owner), [k], {})
        try:
            v = o[k]
        except NATIVE_EXC as e:
            raise PyRaise(e) from None
        if isinstance(v, Poison):
            raise NeedLive(v.cell)
        return self.canon(v)

    def index(self, seq, k):
        kz = self.zi(k)
        if isinstance(k, int) and k < 0:
            kz = seq.n + k
        if self.decide(z3.And(0 <= kz, kz < seq.n)):
            return seq.elem(kz)
        if isinstance(k, SI) and self.decide(k.z < 0):
            raise Unsupported("negative symbolic index")
        raise PyRaise(IndexError("list index out of range"))

    def setitem(self, o, k, v):
        o, k = self.force(o), self.force(k)
        from . import models
        if isinstance(o, Model):
            return o.setitem(self, k, v)
        if isinstance(o, SV):
            raise Unsupported("assignment into an unknown value")
        if self.symbolic(k):
            raise Unsupported("assignment with a symbolic key")
        if isinstance(o, list):
            new = list(o)
            if any(isinstance(x, LSeg) for x in o):
                raise Unsupported("assignment into a symbolic list")
            new[k] = v
            self.set_cell("list", o, None, new)
        elif isinstance(o, dict):
            self.note("dict", o, None, dict(o))
            o[k] = v
        elif self.interpretable_class(type(o)):
            self.call(self.getattr(o, "__setitem__"), [k, v], {})
        else:
            raise Unsupported("item assignment")

    def delitem(self, o, k):
        if isinstance(o, Model):
            return o.delitem(self, k)
        if isinstance(o, SV) and hasattr(self, "deleted") and self.decide(Val.is_cont_(o.z)):
            return self.deleted.note(self, o.z, k)
        if isinstance(o, dict) and not self.symbolic(k):
            self.note("dict", o, None, dict(o))
            try:
                del o[k]
            except KeyError as e:
                raise PyRaise(e) from None
            return None
        if self.interpretable_class(type(o)):
            return self.call(self.getattr(o, "__delitem__"), [k], {})
        raise Unsupported("del item")

    # comprehensions
    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def e_SetComp(self, e, fr):
        out = self.comp(e, fr)
        if any(isinstance(x, LSeg) for x in out) or self.deep_symbolic(out):
            from . import models
            return models.SetM(out)
        return self.new(set(out))

    def e_DictComp(self, e, fr):
        pairs = ast.copy_location(ast.ListComp(ast.Tuple([e.key, e.value], ast.Load()), e.generators), e)
        ast.fix_missing_locations(pairs)
        out = self.comp(pairs, fr)
        if any(isinstance(x, LSeg) for x in out) or any(self.symbolic(x[0]) for x in out):
            raise Unsupported("symbolic dict comprehension")
        return self.new(dict(out))

    def comp(self, e, fr):
        out = self.new([])
        inner = Frame(self, fr.globals, fr, fr.func, fr.owner)
        if hasattr(fr, "first"):
            inner.first = fr.first

        def gen(i):
            if i == len(e.generators):
                v = self.ev(e.elt, inner)
                self.set_cell("list", out, None, out + [v])
                return None
            g = e.generators[i]

            def body():
                for c in g.ifs:
                    if not self.decide(self.evt(c, inner)):
                        return ("continue",)
                return gen(i + 1)
            for p in self.pieces(self.ev(g.iter, inner if i else fr)):
                if isinstance(p, Seq):
                    self.sym_for(p, lambda v: self.assign(g.target, v, inner), body)
                else:
                    self.assign(g.target, p, inner)
                    body()
            return None
        gen(0)
        return out

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v


class StarSeq:
    """*args of symbolic length"""

    def __init__(self, seq):
        self.seq = seq


class PoisonToken:
    def __init__(self, ck):
        self.ck = ck


SORTS = {"b": z3.BoolSort(), "i": z3.IntSort(), "s": T.Str, "v": Val}


def code_of(E, v):
    v = E.force(v)
    if isinstance(v, (bool, SB)):
        return "b"
    if isinstance(v, (int, SI)):
        return "i"
    if isinstance(v, (str, SS)) and not isinstance(v, enum.Enum):
        return "s"
    if v is UNDEF:
        raise Unsupported("variable read before it is set in the loop")
    E.toval(v)
    return "v"


def fits(E, code, v):
    try:
        unwrap(E, code, v)
        return True
    except Unsupported:
        return False


def unwrap(E, code, v):
    v = E.force(v)
    if code == "b":
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SB):
            return v.z
        raise Unsupported("boolean expected")
    if code == "i":
        if isinstance(v, (bool, SB)):
            raise Unsupported("integer expected")
        return E.zi(v)
    if code == "s":
        if not isinstance(v, (str, SS)):
            raise Unsupported("string expected")
        return E.zs(v)
    return E.toval(v)


def wrap(code, z):
    return {"b": SB, "i": SI, "s": SS, "v": SV}[code](z)


def is_const(v):
    return isinstance(v, (bool, int, str, float, type(None), enum.Enum, type)) or type(v).__name__ == "_Mark"


def same_const(a, b):
    return is_const(a) and is_const(b) and type(a) is type(b) and (a is b or a == b)


def occurs(f, c):
    seen = set()
    stack = [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        stack.extend(x.children())
        if z3.is_quantifier(x):
            stack.append(x.body())
    return False


def occurs_fun(f, d):
    seen = set()
    stack = [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(d):
            return True
        stack.extend(x.children())
        if z3.is_quantifier(x):
            stack.append(x.body())
    return False
