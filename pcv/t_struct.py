"""Structure: casting, containment, signs, children, equality: what the other contracts rely upon."""
import dataclasses
import tasks
from tasks import *
from load import E as X

COMPOSITE = ["Sum", "Prod", "Power"] + FUNCS
ALLC = COMPOSITE + LEAVES + ["Symbol"]


def Task(*a, **k):
    k.setdefault("ghosts", ("v", "d"))
    return tasks.Task(*a, **k)


# ------------------------------------------------------------------ children, contains, has
def kids(se, cname):
    """the sub-expressions of an object of the class, as the meaning of the class uses them"""
    if cname in ("Sum", "Prod"):
        return None
    return [spec.fld(se, n) for n in W.FIELDSOF.get(cname, []) if n in ("base", "exponent", "inner")]


def t_children(cname):
    def fn(I):
        se = sym(cname)
        r = call_real(I, method(cname, "children"), [se])
        if cname in ("Sum", "Prod"):
            sg = terms_arg(I, r)
            same = len(sg) == 1 and sg[0][0] == "p" and sg[0][1].bag == W.terms_bag(se) and list(sg[0][1].emits.values()) == [[("v", SE(ELEM(W.terms_bag(se))))]]
            oblige("the children are the terms", z3.BoolVal(same))
        else:
            got = [x.uid for x in I.known_items(r)]
            oblige("the children are the fields", z3.BoolVal(set(got) == {k.uid for k in kids(se, cname)}))
    Task("C04", "expr.%s.children" % cname, fn)


for c in ALLC:
    t_children(c)


def t_contains(cname):
    def fn(I):
        se = sym(cname)
        if cname == "Symbol":
            # two symbols are the same variable exactly when they have the same name
            same = W.str_eq(I.getattr(se, "name"), I.getattr(VAR, "name"))
            ENG.fact(imp(neg(same), ghost("d", se).eq(0)))
        v = I.truth(call_real(I, method(cname, "contains"), [se, VAR]))
        if not v:
            oblige("not contained: the derivative vanishes", ghost("d", se).eq(0))
    Task("C04", "expr.%s.contains" % cname, fn)


for c in ALLC:
    t_contains(c)


def t_issub(cname):
    def fn(I):
        se = sym(cname)
        f = method(cname, "is_subtraction").fget
        r = I.truth(I.call(f, [se]))
        if cname in LEAVES:
            oblige("sign of the number", V(se).lt(0) if r else neg(V(se).lt(0)))
        else:
            oblige("never", z3.BoolVal(not r))
    Task("C01", "expr.%s.is_subtraction" % cname, fn)


for c in ["Rat", "Float", "Pi", "E", "Power", "Symbol"] + FUNCS:
    t_issub(c)


def t_cast(kind):
    def fn(I):
        v = sym(None) if kind == "expression" else num("x", kind)
        r = call_real(I, X._cast, [v])
        if kind == "expression":
            oblige("expressions stay as they are", z3.BoolVal(isinstance(r, SE) and r.uid == v.uid))
        else:
            r = W.to_se(I, r)
            oblige("the value of the number", V(r).eq(v.p))
            oblige("its class", z3.BoolVal(classes(r) == frozenset(["Float" if kind == "float" else "Rat"])))
    Task("C15", "expr._cast (%s)" % kind, fn)


for k in ("expression", "int", "frac", "float"):
    t_cast(k)


def t_cast_list(tup):
    def fn(I):
        import t_c01
        l = t_c01.bagarg()
        l.own = ("argument",)
        if tup:
            l.kind = "tuple"
        s0 = [W.seg_measure(k, l.segs, V) for k in ("SUM", "PROD")]
        r = call_real(I, X._cast, [l])
        if isinstance(r, tuple):
            raise Unsupported("tuple")
        oblige("a list of the same kind", z3.BoolVal(isinstance(r, LObj) and r.kind == l.kind))
        oblige("a list of its own", z3.BoolVal(r is not l or bool(tup)))
        oblige("the same elements", conj(*[W.seg_measure(k, r.segs, V).eq(x) for k, x in zip(("SUM", "PROD"), s0)]))
    Task("C15", "expr._cast (%s)" % ("tuple" if tup else "list"), fn)


t_cast_list(False)
t_cast_list(True)


def t_cast_dict(I):
    d = DObj({"a": sym(None, "a"), "b": num("n", "int")}, 0)
    keep = dict(d.d)
    r = call_real(I, X._cast, [d])
    oblige("a mapping of its own", z3.BoolVal(isinstance(r, DObj) and r is not d and list(r.d) == list(keep)))
    oblige("the argument stays", z3.BoolVal(d.d == keep))
    oblige("the same values", conj(*[V(W.to_se(I, r.d[k])).eq(V(W.to_se(I, keep[k]))) for k in keep]))


Task("C15", "expr._cast (mapping)", t_cast_dict)


def t_issub_prod(I):
    se = sym("Prod")
    r = I.truth(call_real(I, method("Prod", "is_subtraction").fget, [se]))
    t = I.subscript(I.getattr(se, "terms"), 0)
    rat = W.isinstance_se(t, (X.Rat,))
    oblige("the leading factor is a negative rational", conj(z3.BoolVal(rat), V(t).lt(0)) if r else neg(conj(z3.BoolVal(rat), V(t).lt(0))))


Task("C01", "expr.Prod.is_subtraction", t_issub_prod)


def t_has(cname):
    def fn(I):
        se = sym(cname)
        for k in (X.Expr, getattr(X, cname)):
            r = call_real(I, method(cname, "has"), [se, k])
            oblige("an instance of the class has it", z3.BoolVal(I.truth(r)))
    Task("C06", "expr.%s.has" % cname, fn)


for c in ALLC:
    t_has(c)


def t_equality(cname):
    def fn(I):
        cls = getattr(X, cname)
        own = next(k for k in cls.__mro__ if "__eq__" in k.__dict__)
        e = own.__dict__["__eq__"]
        # the method @dataclass generates: same class, equal fields
        if not (dataclasses.is_dataclass(own) and getattr(e, "__code__", None) and e.__code__.co_filename == "<string>"):
            raise Unsupported("equality is not the generated one")
        cmp_ = {f.name for f in dataclasses.fields(own) if f.compare}
        oblige("equality compares the class and every field the meaning depends on", z3.BoolVal(set(W.FIELDSOF[cname]) <= cmp_))
    Task("C16", "expr.%s.__eq__ (generated)" % cname, fn)


for c in COMPOSITE:
    t_equality(c)


def t_eqnum(a, b):
    def fn(I):
        x, y = sym(a, "self"), sym(b, "other")
        f = load.E.Num.__eq__ if a != "E" else method("E", "__eq__")
        r = I.truth(call_real(I, f, [x, y]))
        if a in W.NUMV and b in W.NUMV:
            oblige("equal numbers are those with equal values", V(x).eq(V(y)) if r else neg(V(x).eq(V(y))))
        else:
            oblige("constants equal only themselves", z3.BoolVal(r == (a == b)))
    Task("C16", "expr.%s.__eq__ (%s)" % (a, b), fn)


for a_ in LEAVES:
    for b_ in LEAVES:
        t_eqnum(a_, b_)


def t_eqsym(I):
    x, y = sym("Symbol", "self"), sym("Symbol", "other")
    r = I.truth(call_real(I, method("Symbol", "__eq__"), [x, y]))
    n = I.truth(I.compare("__eq__", I.getattr(x, "name"), I.getattr(y, "name")))
    oblige("symbols are equal exactly when their names are", z3.BoolVal(r == n))
    z = sym(None, "z")
    W.restrict(z, W.FINITE - {"Symbol"})
    oblige("no symbol equals anything else", z3.BoolVal(not I.truth(call_real(I, method("Symbol", "__eq__"), [x, z]))))


Task("C16", "expr.Symbol.__eq__", t_eqsym)


D = tasks.DISCHARGES
D["virtual contains"] = ["expr.%s.contains" % c for c in ALLC] + ["expr.%s.children" % c for c in ALLC]
D["virtual has"] = ["expr.%s.has" % c for c in ALLC]
D["virtual is_subtraction"] = ["expr.%s.is_subtraction" % c for c in ["Prod", "Rat", "Float", "Pi", "E", "Power", "Symbol"] + FUNCS]
D["virtual diff"] = ["expr.%s.diff" % c for c in ALLC]
D["virtual subs"] = ["expr.%s.subs" % c for c in ALLC]
D["virtual _evalf"] = ["expr.%s._evalf" % c for c in ALLC]
D["expr._cast"] = ["expr._cast (%s)" % k for k in ("expression", "int", "frac", "float")]
D["equality of expressions"] = (["expr.%s.__eq__ (generated)" % c for c in COMPOSITE] + ["expr.%s.__eq__ (%s)" % (a, b) for a in LEAVES for b in LEAVES]
                                + ["expr.Symbol.__eq__"])
D["comparison of numbers"] = ["expr.Num.__%s__ (Rat operand)" % o for o in ("lt", "le", "gt", "ge")]
D["Rat"] = ["expr.Rat.__init__ (int)", "expr.Rat.__init__ (frac)", "expr.Rat.__init__ (int, int)"]
ADDERS = ["expr.Sum (constructor)", "expr.Sum (constructor, skip_checks)", "expr.Sum._flatten_terms", "expr._combine_like_terms_sum"]
MULS = ["expr.Prod (constructor)", "expr.Prod (constructor, skip_checks)", "expr.Prod._flatten_terms", "expr._combine_like_terms", "expr._deconstruct_prod"]
POWERS = ["expr.Power (constructor, base: %s)" % c for c in ("product", "power", "number", "anything else")]
D["Sum"], D["Prod"], D["Power"] = ADDERS, MULS, POWERS
D["expr._combine_like_terms_sum"] = ["expr._combine_like_terms_sum"]
D["expr._combine_like_terms"] = ["expr._combine_like_terms"]
D["expr._multiply_exponents"] = ["expr._multiply_exponents (not the known finding KF1)"]
kinds = ("Rat", "int", "frac")
for n in ("__add__", "__sub__", "__mul__", "__truediv__", "__radd__", "__rsub__", "__rmul__", "__rtruediv__"):
    D["operator " + n] = ["expr.Expr." + n] + ["expr.Rat.%s (%s operand)" % (n, k) for k in kinds]
D["operator __pow__"] = ["expr.Expr.__pow__", "expr.Rat.__pow__ (integer exponent)"]
D["operator __neg__"] = ["expr.Expr.__neg__", "expr.Sum.__neg__", "expr.Rat.__neg__", "expr.Float.__neg__"]


def t_floatneg(I):
    x = sym("Float")
    r = W.to_se(I, call_real(I, method("Float", "__neg__"), [x]))
    oblige("value", V(r).eq(-V(x)))


Task("C02", "expr.Float.__neg__", t_floatneg)


def t_cmpnum(op):
    def fn(I):
        x, y = sym(None, "self"), sym(None, "other")
        W.restrict(x, W.NUMS)
        W.restrict(y, W.NUMS)
        r = I.truth(call_real(I, method("Float", op), [x, y]))
        f = {"__lt__": lambda p, q: p.lt(q), "__le__": lambda p, q: p.le(q), "__gt__": lambda p, q: q.lt(p), "__ge__": lambda p, q: q.le(p)}[op](V(x), V(y))
        oblige("order of the values", f if r else neg(f))
    Task("C02", "expr.Num.%s (any number)" % op, fn)


for o_ in ("__lt__", "__le__", "__gt__", "__ge__"):
    t_cmpnum(o_)
D["comparison of numbers"] = ["expr.Num.__%s__ (any number)" % o for o in ("lt", "le", "gt", "ge")]
