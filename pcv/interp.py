"""Symbolic interpreter for the Python subset the repository uses.  The text executed is the repository's own source
(parsed on every run); nothing is dropped except: annotations, docstrings, messages of exceptions and warnings."""
import ast
import builtins
import functools
import inspect
import itertools
import math
import operator
import types
from fractions import Fraction
import z3
import load
from load import E as X
from engine import *
from engine import ENG
from terms import *
from vals import *
import world as W

MISSING = object()
NONE = object()      # a class attribute whose value is None


class Env:
    __slots__ = ("vars", "parent", "globals", "cls", "first", "nonlocals", "qual", "loops")

    def __init__(self, vars, parent, globals_, cls=None, first=None, qual=""):
        self.vars = vars
        self.parent = parent
        self.globals = globals_
        self.cls = cls
        self.first = first
        self.nonlocals = set()
        self.qual = qual

    def child(self):
        e = Env({}, self, self.globals, self.cls, self.first, self.qual)
        return e

    def copy(self):
        e = Env(dict(self.vars), self.parent, self.globals, self.cls, self.first, self.qual)
        e.nonlocals = self.nonlocals
        return e

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        if n in self.globals:
            return self.globals[n]
        b = getattr(builtins, n, MISSING)
        if b is MISSING:
            raise Raised(NameError(n))
        return b

    def set(self, n, v):
        if n in self.nonlocals:
            e = self.parent
            while e is not None and n not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported("global assignment")
            if ENG.levels and len(ENG.levels) > 1:
                raise Unsupported("nonlocal assignment inside a loop")
            e.vars[n] = v
        else:
            self.vars[n] = v


class Meth:
    """a method implemented by the engine: called through BoundM(Meth, object)"""
    def __init__(self, f, name=None):
        self.f = f
        self.name = name

    def __hash__(self):
        return id(self)


class Signal(Exception):
    pass


class Ret(Signal):
    def __init__(self, v):
        self.v = v


class Brk(Signal):
    pass


class Cont(Signal):
    pass


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    return out


BINOPS = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.Pow: "__pow__",
          ast.Mod: "__mod__", ast.FloorDiv: "__floordiv__", ast.LShift: "__lshift__", ast.MatMult: "__matmul__"}
ROPS = {"__add__": "__radd__", "__sub__": "__rsub__", "__mul__": "__rmul__", "__truediv__": "__rtruediv__",
        "__pow__": "__rpow__", "__mod__": "__rmod__", "__floordiv__": "__rfloordiv__"}
PYOPS = {"__add__": operator.add, "__sub__": operator.sub, "__mul__": operator.mul, "__truediv__": operator.truediv,
         "__pow__": operator.pow, "__mod__": operator.mod, "__floordiv__": operator.floordiv, "__lshift__": operator.lshift, "__matmul__": operator.matmul}
CMPS = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
PYCMP = {"__eq__": operator.eq, "__ne__": operator.ne, "__lt__": operator.lt, "__le__": operator.le, "__gt__": operator.gt, "__ge__": operator.ge}
MIRROR = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__", "__eq__": "__eq__", "__ne__": "__ne__"}


def is_num(v):
    return isinstance(v, (int, Fraction, float)) and not isinstance(v, bool) or isinstance(v, NV)


def nv(v):
    """number -> (Poly, kind)"""
    if isinstance(v, NV):
        if v.kind == "num":
            return v.p, ENG.ctx.notes.get(("numkind", v.p), "num")
        return v.p, v.kind
    if isinstance(v, bool):
        return P(int(v)), "int"
    if isinstance(v, int):
        return P(v), "int"
    if isinstance(v, Fraction):
        return P(v), "frac"
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported("infinite float")
        if v == 3.141592653589793:
            return PI, "float"
        if v == 2.718281828459045:
            return EU, "float"
        return P(Fraction(v)), "float"
    raise Unsupported("not a number: %r" % (v,))


def mknum(p, kind):
    c = p.const()
    if c is not None:
        if kind == "int" and c.denominator == 1:
            return c.numerator
        if kind == "frac":
            return c
    return NV(p, kind)


class Interp:
    def __init__(self):
        self.contracts = {}     # key (function object id or class) -> contract
        self.skip = None        # the contract being verified: its outermost call runs the body
        self.loops = {}
        self.virt_comps = False
        self.comps = {}         # contracts of comprehensions, by the function they are in
        self.ops = {}           # operators of expressions by another form of their contract
        self.literals = {}      # contracts for the empty list a function starts from
        self.closures = {}     # contracts of nested functions, by qualified name         # (qualified name, ordinal) -> loop contract
        self.depth = 0
        self.trace = None

    # ------------------------------------------------------------ functions
    def call(self, f, args, kw=None):
        kw = kw or {}
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("call depth")
        try:
            return self._call(f, args, kw)
        finally:
            self.depth -= 1

    def _call(self, f, args, kw):
        if getattr(self, "texts", None):
            r = self.texts.call(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(f, BoundM):
            return self._call(f.f, [f.self] + list(args), kw)
        if isinstance(f, Meth):
            if f.name:
                ENG.used.add("virtual " + f.name)
            return f.f(self, *args, **kw)
        if isinstance(f, Closure):
            h = self.closures.get(f.qual)
            if h is not None:
                return h(self, f, args, kw)
            return self.run_closure(f, args, kw)
        if isinstance(f, types.MethodType):
            return self._call(f.__func__, [f.__self__] + list(args), kw)
        if isinstance(f, functools.partial):
            return self._call(f.func, list(f.args) + list(args), {**f.keywords, **kw})
        c = self.contract_for(f)
        if c is not None:
            r = c.apply(self, args, kw)
            if r is not NotImplemented:
                ENG.used.add(c.name)
                return r
        if load.is_repo(f):
            return self.inline(f, args, kw)
        if isinstance(f, types.FunctionType) and f.__code__.co_filename == "<string>" and f.__name__ == "__init__" and args and isinstance(args[0], Obj):
            return W.generated(self, f, args, kw)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        h = BUILTINS.get(f) if self.hashable(f) else None
        if h is not None:
            return h(self, args, kw)
        if isinstance(f, (types.MethodDescriptorType, types.BuiltinFunctionType, types.FunctionType, types.MethodWrapperType, types.WrapperDescriptorType)) or callable(f):
            return self.native(f, args, kw)
        if isinstance(f, SE):
            raise Unsupported("call of an expression object")
        raise Unsupported("call of %r" % (f,))

    def hashable(self, f):
        try:
            hash(f)
            return True
        except TypeError:
            return False

    def native(self, f, args, kw):
        """a standard library function on known arguments runs as it is"""
        a = [self.lower(x) for x in args]
        k = {n: self.lower(x) for n, x in kw.items()}
        try:
            r = f(*a, **k)
        except Exception as ex:
            raise Raised(ex)
        return self.lift(r)

    def lower(self, v):
        if isinstance(v, LObj):
            c = v.concrete()
            if c is None:
                raise Unsupported("native call on a list of unknown length")
            c = [self.lower(x) for x in c]
            return tuple(c) if v.kind == "tuple" else c
        if isinstance(v, tuple):
            return tuple(self.lower(x) for x in v)
        if isinstance(v, DObj):
            return {k: self.lower(x) for k, x in v.d.items()}
        if isinstance(v, (SE, NV, BV, SymStr, Closure, BoundM, Poison, Obj)):
            raise Unsupported("native call on a symbolic value")
        return v

    def lift(self, v):
        if isinstance(v, X.Expr):
            return W.lift_expr(self, v)
        if isinstance(v, list):
            return LObj([("v", self.lift(x)) for x in v], len(ENG.levels))
        if isinstance(v, tuple):
            return tuple(self.lift(x) for x in v)
        if isinstance(v, dict) and type(v) is dict:
            return DObj({k: self.lift(x) for k, x in v.items()}, len(ENG.levels))
        return v

    def contract_for(self, f):
        try:
            c = self.contracts.get(f)
        except TypeError:
            return None
        if c is not None and self.skip is c:
            self.skip = None
            return None
        return c

    def inline(self, f, args, kw):
        node = load.fn_ast(f)
        if node is None:
            # generated by dataclass
            return W.generated(self, f, args, kw)
        ENG.inlined.add(load.qual(f))
        cells = {}
        cls = None
        for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try:
                cells[n] = c.cell_contents
            except ValueError:
                continue
        cls = cells.get("__class__")
        outer = Env(cells, None, f.__globals__, cls)
        env = Env({}, outer, f.__globals__, cls, None, load.qual(f))
        defaults = [self.lift(d) for d in (f.__defaults__ or ())]
        kwd = {k: self.lift(v) for k, v in (f.__kwdefaults__ or {}).items()}
        self.bind(node.args, env, args, kw, defaults, kwd, f.__name__)
        if node.args.args and args:
            env.first = args[0]
        return self.run_body(node, env)

    def run_closure(self, f, args, kw):
        env = f.env.child()
        env.first = f.env.first
        env.qual = f.qual
        self.bind(f.node.args, env, args, kw, f.defaults, f.kwdefaults, f.qual)
        return self.run_body(f.node, env)

    def run_body(self, node, env):
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            raise Unsupported("generator")
        try:
            self.block(node.body, env)
        except Ret as r:
            return r.v
        return None

    def bind(self, a, env, args, kw, defaults, kwdefaults, name):
        args = list(args)
        kw = dict(kw)
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names):
            if not a.vararg:
                raise Raised(TypeError("%s: too many arguments" % name))
            env.vars[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            env.vars[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env.vars[n] = v
        for i, n in enumerate(names[len(args):], len(args)):
            if n in kw:
                env.vars[n] = kw.pop(n)
            else:
                k = i - (len(names) - len(defaults))
                if k < 0:
                    raise Raised(TypeError("%s: missing argument %s" % (name, n)))
                env.vars[n] = defaults[k]
        for x in a.kwonlyargs:
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                env.vars[x.arg] = kwdefaults[x.arg]
            else:
                raise Raised(TypeError("%s: missing argument %s" % (name, x.arg)))
        for n in list(kw):
            if n in names and n not in env.vars:
                env.vars[n] = kw.pop(n)
        if a.kwarg:
            env.vars[a.kwarg.arg] = DObj(kw, len(ENG.levels))
        elif kw:
            raise Raised(TypeError("%s: unexpected arguments %s" % (name, sorted(kw))))

    # ------------------------------------------------------------ construction of objects
    def construct(self, cls, args, kw):
        if cls is type:
            return self.type_of(args[0])
        h = BUILTINS.get(cls)
        if h is not None:
            return h(self, args, kw)
        if issubclass(cls, BaseException):
            try:
                return cls(*[x if isinstance(x, str) else "" for x in args])
            except Exception:
                return Exception()
        if not cls.__module__.startswith("simpy"):
            return self.native(cls, args, kw)
        new = self.mro_lookup(cls, "__new__")
        f = new.__func__ if isinstance(new, staticmethod) else new
        if f is object.__new__ or f is None:
            obj = self.alloc(cls)
        else:
            obj = self.call(f, [cls] + list(args), kw)
        if isinstance(obj, SE):
            inst = W.isinstance_se(obj, (cls,))
            if inst is False or not self.truth(BV(inst) if not isinstance(inst, bool) else inst):
                return obj
            groups = W.group_attr(self, obj, "__init__")
            init = groups
        elif isinstance(obj, Obj) and issubclass(obj.cls, cls):
            init = self.mro_lookup(obj.cls, "__init__")
        else:
            return obj
        if init is not None and init is not object.__init__:
            self.call(init, [obj] + list(args), kw)
        if isinstance(obj, SE):
            W.complete(obj)
        return obj

    def alloc(self, cls):
        if issubclass(cls, X.Expr):
            return W.alloc(cls)
        return Obj(cls, len(ENG.levels))

    def mro_lookup(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.__dict__:
                r = k.__dict__[name]
                return NONE if r is None else r
        return None

    def type_of(self, v):
        if isinstance(v, SE):
            return W.the_class(self, v)
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, LObj):
            return list if v.kind == "list" else tuple
        if isinstance(v, DObj):
            return dict
        if isinstance(v, NV):
            return {"int": int, "frac": Fraction, "float": float}.get(v.kind) or self.uns("type of a number")
        if isinstance(v, BV):
            return bool
        if isinstance(v, SymStr):
            return str
        if isinstance(v, Closure):
            return types.FunctionType
        return type(v)

    def uns(self, m):
        raise Unsupported(m)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=MISSING):
        if isinstance(o, SE):
            if name == "__class__":
                if getattr(self, "texts", None):
                    return self.texts.class_of(o)
                return W.the_class(self, o)
            v = W.get_field(self, o, name)
            if v is not MISSING_FIELD:
                return v
            h = W.VIRTUAL.get(name)
            if h is not None:
                v = h(self, o)
                if v is not NotImplemented:
                    if not isinstance(v, BoundM):
                        ENG.used.add("virtual " + name)
                    return v
            d = W.group_attr(self, o, name)
            if d is None:
                if default is not MISSING:
                    return default
                raise Raised(AttributeError(name))
            return self.bind_desc(d, o, None, name)
        if isinstance(o, Obj):
            v = W.obj_read(o, name)
            if v is not MISSING:
                return v
            if name == "__class__":
                return o.cls
            d = self.mro_lookup(o.cls, name)
            if d is None:
                if default is not MISSING:
                    return default
                raise Raised(AttributeError(name))
            return self.bind_desc(d, o, o.cls, name)
        if isinstance(o, SuperP):
            if isinstance(o.obj, type):
                d = self.mro_lookup(o.obj, name, o.cls)
                if d is None:
                    raise Raised(AttributeError(name))
                if isinstance(d, staticmethod):
                    return d.__func__
                if isinstance(d, classmethod):
                    return BoundM(d.__func__, o.obj)
                if name == "__new__":
                    return d.__func__ if isinstance(d, staticmethod) else d
                return self.bind_desc(d, None, o.obj, name)
            cls = W.the_class(self, o.obj) if isinstance(o.obj, SE) else o.obj.cls
            d = self.mro_lookup(cls, name, o.cls)
            if d is None:
                raise Raised(AttributeError(name))
            return self.bind_desc(d, o.obj, cls, name)
        if isinstance(o, type) and o.__module__.startswith("simpy"):
            if name in ("__name__", "__qualname__", "__mro__", "__dict__", "__module__"):
                return getattr(o, name)
            if name == "_special_values_cache" or name == "special_values":
                pass
            d = self.mro_lookup(o, name)
            if d is None:
                if default is not MISSING:
                    return default
                raise Raised(AttributeError(name))
            return self.bind_desc(d, None, o, name)
        if isinstance(o, LObj):
            if name in LISTM:
                return BoundM(LISTM[name], o)
            if hasattr(list, name):
                raise Unsupported("list." + name)
            if default is not MISSING:
                return default
            raise Raised(AttributeError(name))
        if isinstance(o, Virt):
            v = o.attr(self, name)
            if v is MISSING or v is None:
                raise Unsupported("attribute %s under a loop contract" % name)
            return v
        if hasattr(o, "methods") and name in o.methods:
            return BoundM(o.methods[name], o)
        if isinstance(o, DObj):
            if name in DICTM:
                return BoundM(DICTM[name], o)
            raise Unsupported("dict." + name)
        if isinstance(o, tuple):
            if name in ("index", "count"):
                raise Unsupported("tuple." + name)
        if is_num(o):
            try:
                return self.num_attr(o, name)
            except Raised:
                if default is not MISSING:
                    return default
                raise
        if isinstance(o, SymStr):
            return BoundM(lambda I, a, k: SymStr(None), o) if False else self.symstr_attr(o, name)
        if isinstance(o, (Closure, BoundM)):
            if name == "__name__":
                return "<function>"
            raise Unsupported("attribute %s of a function" % name)
        if isinstance(o, (BV, Poison)):
            raise Unsupported("attribute of %r" % (o,))
        try:
            r = getattr(o, name)
        except AttributeError as ex:
            if default is not MISSING:
                return default
            raise Raised(ex)
        if isinstance(o, types.ModuleType) or isinstance(r, (types.FunctionType, types.BuiltinFunctionType, type)):
            return self.lift(r) if isinstance(r, X.Expr) else r
        return self.lift(r)

    def symstr_attr(self, o, name):
        raise Unsupported("method of an unknown string")

    def bind_desc(self, d, o, cls, name):
        if d is NONE:
            return None
        if isinstance(d, property):
            return self.call(d.fget, [o])
        if isinstance(d, classmethod):
            return BoundM(d.__func__, cls or W.the_class(self, o))
        if isinstance(d, staticmethod):
            return d.__func__
        tn = type(d).__name__
        if tn == "classproperty":
            c = cls or W.the_class(self, o)
            if name in ("special_values", "_special_values"):
                # computed once from constants: run it natively
                ENG.inlined.add("expr.%s._special_values" % c.__name__)
                return self.lift(dict(getattr(c, name)))
            f = d.func
            if isinstance(f, types.FunctionType):
                return self.call(f, [c])
            return self.lift(getattr(c, name))
        if tn == "staticproperty":
            return self.call(d.func, [])
        if isinstance(d, types.FunctionType):
            return BoundM(d, o) if o is not None else d
        if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return BoundM(d, o) if o is not None else d
        if isinstance(d, (types.MemberDescriptorType, types.GetSetDescriptorType)):
            raise Unsupported("slot " + name)
        return self.lift(d)

    def setattr(self, o, name, v):
        if isinstance(o, SE):
            return W.set_field(self, o, name, v)
        if isinstance(o, Obj):
            W.write(o, name, v)
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    # ------------------------------------------------------------ truth, operators
    def truth(self, v):
        if isinstance(v, BV):
            return ENG.decide(v.f)
        if isinstance(v, NV):
            return ENG.decide(neg(v.p.eq(0)))
        if isinstance(v, LObj):
            return self.truth_len(v)
        if isinstance(v, DObj):
            return bool(v.d)
        if isinstance(v, SE):
            # Associative defines __len__ (always >= 2)
            return True
        if isinstance(v, (Obj, Closure, BoundM)):
            if isinstance(v, Obj) and (self.mro_lookup(v.cls, "__bool__") or self.mro_lookup(v.cls, "__len__")):
                raise Unsupported("truth of an object")
            return True
        if isinstance(v, Virt):
            return ENG.decide(neg(nv(v.size(self))[0].eq(0)))
        if isinstance(v, (SymStr, Poison)):
            raise Unsupported("truth of %r" % (v,))
        return bool(v)

    def truth_len(self, v):
        if any(k == "v" for k, _ in v.segs):
            return True
        if not v.segs:
            return False
        W.touch(v)
        n = W.length(v)
        return ENG.decide(neg(n.eq(0)), ("nonempty", tuple(self.segkey(s) for s in v.segs)))

    def segkey(self, s):
        return (s[1].bag,) if s[0] == "p" else ("v",)

    def binop(self, op, a, b):
        if isinstance(a, W.AccV) or isinstance(b, W.AccV):
            raise Unsupported("running total read inside its loop")
        if isinstance(a, Virt) or isinstance(b, Virt):
            return a.binop(self, op, b, False) if isinstance(a, Virt) else b.binop(self, op, a, True)
        if isinstance(a, (SE,)) or isinstance(b, SE):
            return W.expr_binop(self, op, a, b)
        if is_num(a) and is_num(b):
            return self.num_op(op, a, b)
        if isinstance(a, LObj) and isinstance(b, LObj) and op == "__add__":
            W.touch(a)
            W.touch(b)
            return LObj(list(a.segs) + list(b.segs), len(ENG.levels), a.kind)
        if isinstance(a, LObj) and isinstance(b, int) and op == "__mul__":
            return LObj(list(a.segs) * b, len(ENG.levels), a.kind)
        if isinstance(a, LObj) and isinstance(b, NV) and op == "__mul__" and a.kind == "list" and a.concrete() is not None and len(a.segs) == 1 and W.REPEAT:
            return W.REPEAT[0](self, a.segs[0][1], b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "__add__":
            return a + b
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and op == "__add__":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return SymStr(None)
        if isinstance(a, str) and op == "__mod__":
            return SymStr(None)
        if isinstance(a, BV) or isinstance(b, BV):
            raise Unsupported("arithmetic on bools")
        if isinstance(a, (LObj, DObj, Obj, Closure, Poison, SymStr)) or isinstance(b, (LObj, DObj, Obj, Closure, Poison, SymStr)):
            raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))
        for v in (a, b):
            if not (v is None or v is NotImplemented or isinstance(v, (int, float, Fraction, str, tuple, list, dict, set, type))):
                raise Unsupported("operator %s on %s" % (op, type(v).__name__))
        try:
            return self.lift(PYOPS[op](a, b))
        except Exception as ex:
            raise Raised(ex)

    def num_op(self, op, a, b):
        r = self.num_op_(op, a, b)
        if isinstance(r, NV) and "rounded" in (getattr(a, "tag", None), getattr(b, "tag", None)):
            r = NV(r.p, r.kind, "rounded")
        return r

    def num_op_(self, op, a, b):
        if not isinstance(a, NV) and not isinstance(b, NV):
            try:
                return PYOPS[op](a, b)
            except Exception as ex:
                raise Raised(ex)
        if isinstance(a, W.IdxV) and isinstance(b, int) and op in ("__add__", "__sub__"):
            return W.IdxV(a.segs, a.pos, a.key, a.off + (b if op == "__add__" else -b))
        p, k1 = nv(a)
        q, k2 = nv(b)
        fl = "float" in (k1, k2)
        num = "num" in (k1, k2)
        kind = "float" if fl else "num" if num else "frac" if "frac" in (k1, k2) else "int"
        if op == "__add__":
            return mknum(p + q, kind)
        if op == "__sub__":
            return mknum(p - q, kind)
        if op == "__mul__":
            return mknum(p * q, kind)
        if op == "__truediv__":
            if ENG.decide(q.eq(0)):
                raise Raised(ZeroDivisionError())
            return mknum(p * inv(q), "float" if kind == "int" else kind)
        if op == "__lshift__":
            return mknum(p * power(P(2), q), "int")
        if op == "__pow__":
            return W.num_pow(self, p, k1, q, k2, kind)
        if op in ("__floordiv__", "__mod__"):
            if ENG.decide(q.eq(0)):
                raise Raised(ZeroDivisionError())
            fl = W.floor(p * inv(q))
            if op == "__floordiv__":
                return mknum(fl, "int" if kind in ("int", "frac") else kind)
            return mknum(p - q * fl, kind)
        raise Unsupported("operator " + op)

    def num_attr(self, o, name):
        if isinstance(o, NV):
            if name in ("numerator", "denominator") and o.kind in ("frac", "int"):
                if o.kind == "int":
                    return o if name == "numerator" else 1
                n, d = W.numden(o.p)
                return mknum(n if name == "numerator" else d, "int")
            if name == "is_integer":
                return BoundM(lambda I, a, k: BV(isint(a[0].p)), o)
            if name == "bit_length" and o.kind == "int":
                return BoundM(Meth(W.bit_length), o)
            raise Unsupported("number.%s" % name)
        try:
            return getattr(o, name)
        except AttributeError as ex:
            raise Raised(ex)

    def compare(self, op, a, b):
        if isinstance(a, SE) or isinstance(b, SE):
            return W.expr_compare(self, op, a, b)
        if is_num(a) and is_num(b):
            if not isinstance(a, NV) and not isinstance(b, NV):
                return PYCMP[op](a, b)
            for x, y, m in ((a, b, 1), (b, a, -1)):
                if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
                    # the other one is finite
                    if op in ("__eq__", "__ne__") or math.isnan(x):
                        return op == "__ne__"
                    return (x < 0) == (op in ("__gt__", "__ge__")) if m == -1 else (x < 0) == (op in ("__lt__", "__le__"))
            if "rounded" in (getattr(a, "tag", None), getattr(b, "tag", None)):
                # an exact number was turned into a float: what is compared is not the number
                ENG.ctx.notes["rounded"] = True
            p, _ = nv(a)
            q, _ = nv(b)
            f = {"__eq__": lambda: p.eq(q), "__ne__": lambda: neg(p.eq(q)), "__lt__": lambda: p.lt(q), "__le__": lambda: p.le(q),
                 "__gt__": lambda: q.lt(p), "__ge__": lambda: q.le(p)}[op]()
            return self.fold(f)
        if op in ("__eq__", "__ne__"):
            r = self.eq_values(a, b)
            return self.fold(neg(r)) if op == "__ne__" else self.fold(r)
        if isinstance(a, (BV, LObj, DObj, Obj, SymStr, Closure, Poison)) or isinstance(b, (BV, LObj, DObj, Obj, SymStr, Closure, Poison)):
            raise Unsupported("comparison")
        try:
            return PYCMP[op](a, b)
        except Exception as ex:
            raise Raised(ex)

    def fold(self, f):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return BV(f)

    def form(self, v):
        """a value used as a bool, as a formula"""
        if isinstance(v, BV):
            return v.f
        if isinstance(v, bool):
            return z3.BoolVal(v)
        return z3.BoolVal(self.truth(v))

    def eq_values(self, a, b):
        if isinstance(a, Virt) or isinstance(b, Virt):
            return TRUE if a is b else a.equals(self, b) if isinstance(a, Virt) else b.equals(self, a)
        if isinstance(a, SE) or isinstance(b, SE) or (is_num(a) and is_num(b)):
            r = self.compare("__eq__", a, b)
            return self.form(r)
        if isinstance(a, (LObj, tuple)) and isinstance(b, (LObj, tuple)):
            ka = a.kind if isinstance(a, LObj) else "tuple"
            kb = b.kind if isinstance(b, LObj) else "tuple"
            if ka != kb:
                return FALSE
            return W.list_eq(self, a, b)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return W.str_eq(a, b)
        if isinstance(a, (BV,)) or isinstance(b, BV):
            if isinstance(a, (bool, BV)) and isinstance(b, (bool, BV)):
                return self.form(a) == self.form(b)
            raise Unsupported("comparison of a bool")
        if isinstance(a, (Obj, DObj, Closure, Poison)) or isinstance(b, (Obj, DObj, Closure, Poison)):
            if a is b:
                return TRUE
            if a is None or b is None:
                return FALSE
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and isinstance(y, str) and (x.cls.__eq__ is object.__eq__ or x.cls.__eq__.__code__.co_filename == "<string>"):
                    return FALSE
            raise Unsupported("comparison of objects")
        if isinstance(a, LObj) or isinstance(b, LObj):
            return FALSE
        return z3.BoolVal(bool(a == b))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, SE) and isinstance(b, SE):
            if a.uid == b.uid:
                return True
            return W.same_object(a, b)
        if isinstance(a, BV) and isinstance(b, bool):
            return self.fold(a.f if b else neg(a.f))
        if isinstance(b, BV) and isinstance(a, bool):
            return self.fold(b.f if a else neg(b.f))
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("read of a loop variable")
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return False
        if isinstance(a, (NV,)) or isinstance(b, NV):
            raise Unsupported("identity of numbers")
        if isinstance(a, (LObj, DObj, Obj, SE)) or isinstance(b, (LObj, DObj, Obj, SE)):
            return False
        return a is b

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for i, s in enumerate(stmts):
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("print", "debug_repr"):
            return
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "warnings":
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value else None)

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = BINOPS.get(type(s.op))
        if op is None:
            raise Unsupported("augmented operator")
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load()), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.subscript(o, k)
        val = self.ev(s.value, env)
        if isinstance(cur, W.AccV):
            # a running total: the loop sums what is added over the elements
            if op != "__add__" or not is_num(val):
                raise Unsupported("accumulator of something else than numbers")
            ENG.levels[-1].effects.setdefault(("acc", cur.name), (None, []))[1].append(("v", val))
            return
        if isinstance(cur, Virt):
            new = cur.inplace(self, op, val)
        elif isinstance(cur, LObj) and op == "__add__" and cur.kind == "list":
            W.list_extend(self, cur, val)
            new = cur
        else:
            new = self.binop(op, cur, val)
        if isinstance(t, ast.Name):
            if new is not cur:
                env.set(t.id, new)
            elif not isinstance(cur, (LObj, Virt)):
                env.set(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            self.setitem(o, k, new)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, env):
        star = [i for i, t in enumerate(elts) if isinstance(t, ast.Starred)]
        if star:
            vs, i = self.known_items(v), star[0]
            after = len(elts) - i - 1
            if len(vs) < len(elts) - 1:
                raise Raised(ValueError("unpack"))
            for t, x in zip(elts[:i], vs[:i]):
                self.assign(t, x, env)
            self.assign(elts[i].value, LObj([("v", x) for x in vs[i:len(vs) - after]], len(ENG.levels)), env)
            for t, x in zip(elts[i + 1:], vs[len(vs) - after:]):
                self.assign(t, x, env)
            return
        vs = self.known_items(v, len(elts))
        if len(vs) != len(elts):
            raise Raised(ValueError("unpack"))
        for t, x in zip(elts, vs):
            self.assign(t, x, env)

    def known_items(self, v, n=None):
        if isinstance(v, Virt):
            return v.items(self, n)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, LObj):
            if v.concrete() is None and n is not None:
                W.expose(self, v, n)
                W.expect_end(self, v, n)
            c = v.concrete()
            if c is None:
                raise Unsupported("unpacking a list of unknown length")
            return c
        if isinstance(v, SE):
            return self.known_items(self.getattr(v, "terms"), n)
        if isinstance(v, DObj):
            return list(v.d)
        if isinstance(v, (range, types.GeneratorType, dict, list, set, frozenset)) or hasattr(v, "__iter__"):
            return [self.lift(x) for x in v]
        raise Unsupported("iteration over %r" % (v,))

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise Raised(AssertionError())

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Raised(env.get("__exc__"))
        e = s.exc
        if isinstance(e, ast.Call):
            c = self.ev(e.func, env)
            if isinstance(c, type) and issubclass(c, BaseException):
                try:
                    x = c()
                except Exception:
                    x = Exception()
                raise Raised(x)
        v = self.ev(e, env)
        if isinstance(v, type):
            v = v()
        if isinstance(v, BaseException):
            raise Raised(v)
        raise Unsupported("raise")

    def s_Try(self, s, env):
        if s.finalbody:
            try:
                self.try_(s, env)
            except (Raised, Ret, Brk, Cont):
                self.block(s.finalbody, env)
                raise
            self.block(s.finalbody, env)
        else:
            self.try_(s, env)

    def try_(self, s, env):
        try:
            self.block(s.body, env)
        except Raised as r:
            for h in s.handlers:
                t = self.ev(h.type, env) if h.type else BaseException
                if isinstance(r.exc, t if isinstance(t, tuple) else (t,)):
                    if h.name:
                        env.set(h.name, r.exc)
                    self.block(h.body, env)
                    return
            raise
        else:
            self.block(s.orelse, env)

    def s_FunctionDef(self, s, env):
        c = Closure(s, env, self, env.qual + ".<locals>." + s.name)
        c.defaults = [self.ev(d, env) for d in s.args.defaults]
        c.kwdefaults = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        v = c
        for d in reversed(s.decorator_list):
            f = self.ev(d, env)
            v = self.call(f, [v], {})
        env.set(s.name, v)

    def s_ImportFrom(self, s, env):
        import importlib
        base = env.globals.get("__package__") or ""
        mod = importlib.import_module(("." * s.level) + (s.module or ""), base) if s.level else importlib.import_module(s.module)
        for a in s.names:
            env.set(a.asname or a.name, self.lift(getattr(mod, a.name)))

    def s_Import(self, s, env):
        import importlib
        for a in s.names:
            env.set(a.asname or a.name.split(".")[0], importlib.import_module(a.name))

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_Global(self, s, env):
        raise Unsupported("global")

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cont()

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(o, Virt):
                    o.delitem(self, k)
                    continue
                if isinstance(o, DObj) and not isinstance(k, (SE, NV)):
                    if k not in o.d:
                        raise Raised(KeyError(k))
                    del o.d[k]
                    continue
            raise Unsupported("del")

    def s_While(self, s, env):
        key = (env.qual, "while", self.ordinal(s, env))
        h = self.loops.get(key)
        if h:
            return h(self, s, env)
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 40:
                raise Unsupported("while loop without a contract")
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                continue
        self.block(s.orelse, env)

    def ordinal(self, s, env):
        return getattr(s, "_ordinal", 0)

    def s_For(self, s, env):
        h = self.loops.get((env.qual, "for"))
        if h:
            r = h(self, s, env)
            if r is not NotImplemented:
                return
        src = self.ev(s.iter, env)
        segs = self.iterate(src)
        W.for_loop(self, s, env, segs)

    def iterate(self, v):
        """segments ('v', value) / ('p', Piece) of an iterable"""
        if isinstance(v, LObj):
            W.touch(v)
            return W.open_split(self, list(v.segs))
        if isinstance(v, SE):
            f = self.getattr(v, "__iter__")
            r = self.call(f, [])
            return self.iterate(r)
        if isinstance(v, Obj):
            f = self.getattr(v, "__iter__")
            return self.iterate(self.call(f, []))
        if isinstance(v, W.Bounded):
            raise Unsupported("range of unknown length")
        return [("v", x) for x in self.known_items(v)]

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        v = env.get(n.id)
        if isinstance(v, Poison):
            raise Unsupported("variable %s carried around a loop: %s" % (n.id, v.why))
        if isinstance(v, (X.Expr, list, dict)):
            return self.lift(v)
        return v

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return SuperP(env.cls if env.cls is not None else env.get("__class__"), self.first_arg(env))
        if isinstance(n.func, ast.Name) and n.func.id == "cast" and False:
            pass
        f = self.ev(n.func, env)
        if f in (any, all, sum) if self.hashable(f) else False:
            pass
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, LObj) and v.concrete() is None:
                    args.append(Star(v))
                else:
                    args += self.known_items(v)
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                kw.update(d.d)
            else:
                kw[k.arg] = self.ev(k.value, env)
        if any(isinstance(a, Star) for a in args):
            h = STARCALLS.get(f) if self.hashable(f) else None
            c = self.contract_for(f)
            if c is not None:
                return c.apply(self, args, kw)
            if h is None:
                if load.is_repo(f) and len(args) == 1 and load.fn_ast(f).args.vararg and not load.fn_ast(f).args.args:
                    return self.inline_star(f, args[0].v, kw)
                raise Unsupported("starred call with a list of unknown length")
            return h(self, args, kw)
        return self.call(f, args, kw)

    def inline_star(self, f, lst, kw):
        node = load.fn_ast(f)
        ENG.inlined.add(load.qual(f))
        env = Env({}, Env({}, None, f.__globals__), f.__globals__, None, None, load.qual(f))
        kwd = {k: self.lift(v) for k, v in (f.__kwdefaults__ or {}).items()}
        self.bind(node.args, env, [], kw, [], kwd, f.__name__)
        env.vars[node.args.vararg.arg] = LObj(list(lst.segs), len(ENG.levels), "tuple")
        return self.run_body(node, env)

    def first_arg(self, env):
        e = env
        while e is not None:
            if e.first is not None:
                return e.first
            e = e.parent
        raise Unsupported("super()")

    def e_BinOp(self, n, env):
        op = BINOPS.get(type(n.op))
        if op is None:
            raise Unsupported("operator")
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(op, a, b)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, BV):
                return self.fold(neg(v.f))
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, SE):
                return W.expr_neg(self, v)
            if isinstance(v, NV):
                return mknum(-v.p, v.kind)
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BoolOp(self, n, env):
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return False if isinstance(v, BV) else v
            if isinstance(n.op, ast.Or) and t:
                return True if isinstance(v, BV) else v

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        r = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, env)
            if isinstance(op, ast.Is):
                r = self.is_(a, b)
            elif isinstance(op, ast.IsNot):
                x = self.is_(a, b)
                r = self.fold(neg(x.f)) if isinstance(x, BV) else not x
            elif isinstance(op, (ast.In, ast.NotIn)):
                r = self.contains(b, a)
                if isinstance(op, ast.NotIn):
                    r = self.fold(neg(r.f)) if isinstance(r, BV) else not r
            else:
                r = self.compare(CMPS[type(op)], a, b)
            if i < len(n.ops) - 1:
                if not self.truth(r):
                    return False
            a = b
        return r

    def contains(self, c, v):
        if isinstance(c, Virt):
            return c.contains(self, v)
        if isinstance(c, SymStr) and isinstance(v, str) and c.key is not None:
            return self.fold(pred("substr", v, c.key))
        if isinstance(c, DObj):
            if isinstance(v, (SE, NV, SymStr)):
                return W.dict_key(self, c, v) is not MISSING
            return v in c.d
        if isinstance(c, LObj) and c.concrete() is None and not isinstance(v, SymStr):
            return W.list_in(self, c, v)
        if isinstance(c, (LObj, tuple)):
            items = self.known_items(c)
            if isinstance(v, SymStr):
                return W.str_in(self, v, items)
            for x in items:
                if self.truth(self.fold(self.eq_values(v, x))):
                    return True
            return False
        if isinstance(c, (list, set, frozenset, dict)) and isinstance(v, SymStr):
            return W.str_in(self, v, list(c))
        if isinstance(v, (SE, NV, SymStr, BV)) or isinstance(c, (SE, SymStr)):
            raise Unsupported("membership")
        return v in c

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_List(self, n, env):
        h = self.literals.get(env.qual)
        if h is not None and not n.elts:
            return h(self)
        segs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                segs += self.iterate(self.ev(x.value, env))
            else:
                segs.append(("v", self.ev(x, env)))
        return LObj(segs, len(ENG.levels))

    def e_Tuple(self, n, env):
        vs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                vs += self.known_items(self.ev(x.value, env))
            else:
                vs.append(self.ev(x, env))
        return tuple(vs)

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env).d)
                continue
            k = self.ev(k, env)
            if isinstance(k, SymStr) and len(n.keys) == 1:
                return SymDict(k, self.ev(v, env))
            if isinstance(k, (SE, NV, SymStr)):
                raise Unsupported("symbolic dictionary key")
            d[k] = self.ev(v, env)
        return DObj(d, len(ENG.levels))

    def e_Set(self, n, env):
        raise Unsupported("set display")

    def e_Lambda(self, n, env):
        c = Closure(n, env, self, env.qual + ".<lambda>")
        c.defaults = [self.ev(d, env) for d in n.args.defaults]
        return c

    def e_JoinedStr(self, n, env):
        if getattr(self, "texts", None):
            return self.texts.joined(self, n, env)
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                try:
                    v = self.ev(x.value, env)
                except Unsupported:
                    return SymStr(None)
                if isinstance(v, str) or isinstance(v, int) and not isinstance(v, bool):
                    if x.conversion == -1 and x.format_spec is None:
                        parts.append(str(v))
                        continue
                return SymStr(None)
        return "".join(parts)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, env) if n.slice.lower else None
            hi = self.ev(n.slice.upper, env) if n.slice.upper else None
            if n.slice.step is not None:
                step = self.ev(n.slice.step, env)
                if any(isinstance(z, NV) for z in (lo, hi, step)):
                    raise Unsupported("slice with a step")
                if isinstance(o, (tuple, str)):
                    return o[lo:hi:step]
                if isinstance(o, LObj) and not isinstance(o, W.Perm) and o.concrete() is not None:
                    return LObj([("v", x) for x in o.concrete()[lo:hi:step]], len(ENG.levels), o.kind)
                raise Unsupported("slice with a step")
            if isinstance(o, (tuple, str)) and not isinstance(lo, NV) and not isinstance(hi, NV):
                return o[lo:hi]
            if isinstance(o, LObj):
                return W.list_slice(self, o, lo, hi)
            if isinstance(o, Virt):
                return o.slice(self, lo, hi)
            raise Unsupported("slice")
        return self.subscript(o, self.ev(n.slice, env))

    def subscript(self, o, k):
        if isinstance(o, Virt):
            return o.subscript(self, k)
        if isinstance(o, tuple):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError as ex:
                    raise Raised(ex)
        if isinstance(o, LObj):
            return W.list_get(self, o, k)
        if isinstance(o, DObj):
            r = W.dict_key(self, o, k)
            if r is MISSING:
                raise Raised(KeyError(k))
            return r
        if isinstance(o, Obj):
            f = self.getattr(o, "__getitem__")
            return self.call(f, [k])
        if isinstance(o, SymStr):
            return SymStr(None)
        if isinstance(o, (str, range, dict, list)) and not isinstance(k, (NV, SE, SymStr)):
            try:
                return self.lift(o[k])
            except Exception as ex:
                raise Raised(ex)
        if isinstance(o, type) or type(o).__module__ == "typing":
            return o
        raise Unsupported("subscript of %s" % type(o).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, Virt):
            return o.setitem(self, k, v)
        if isinstance(o, DObj):
            if isinstance(k, (SE, NV, SymStr, LObj)):
                raise Unsupported("symbolic dictionary key")
            W.write(o, k, v)
            return
        if isinstance(o, LObj):
            return W.list_set(self, o, k, v)
        raise Unsupported("item assignment")

    # comprehensions
    def e_ListComp(self, n, env):
        if self.comps and env.qual in self.comps:
            return self.comps[env.qual](self, n, env)
        if self.virt_comps:
            r = self.virt_comp(n, env)
            if r is not NotImplemented:
                return r
        return W.comprehension(self, n, env, n.elt)

    def e_GeneratorExp(self, n, env):
        if self.comps and env.qual in self.comps:
            return self.comps[env.qual](self, n, env)
        if self.virt_comps:
            r = self.virt_comp(n, env)
            if r is not NotImplemented:
                return r
        return W.comprehension(self, n, env, n.elt)

    def e_SetComp(self, n, env):
        if self.comps and env.qual in self.comps:
            return self.comps[env.qual](self, n, env)
        return W.SetOf(W.comprehension(self, n, env, n.elt))

    def virt_comp(self, n, env):
        """a comprehension over a value of a loop contract"""
        if len(n.generators) == 1:
            src = self.ev(n.generators[0].iter, env)
            if isinstance(src, Virt):
                return src.comp(self, n, env)
        return NotImplemented

    def e_DictComp(self, n, env):
        if self.virt_comps:
            r = self.virt_comp(n, env)
            if r is not NotImplemented:
                return r
        g = n.generators
        if len(g) != 1:
            raise Unsupported("nested dict comprehension")
        d = {}
        src = self.ev(g[0].iter, env)
        for x in self.known_items(src):
            e = env.child()
            self.assign(g[0].target, x, e)
            if all(self.truth(self.ev(c, e)) for c in g[0].ifs):
                d[self.ev(n.key, e)] = self.ev(n.value, e)
        return DObj(d, len(ENG.levels))


class Star:
    def __init__(self, v):
        self.v = v


MISSING_FIELD = W.MISSING_FIELD
BUILTINS = {}
STARCALLS = {}
LISTM = {}
DICTM = {}
W.MISSING = MISSING
import lib  # noqa: E402,F401
