"""C02: exact rational arithmetic."""
import tasks
from tasks import *

PRES = {
    "__add__": lambda p, q: p + q, "__radd__": lambda p, q: q + p, "__sub__": lambda p, q: p - q, "__rsub__": lambda p, q: q - p,
    "__mul__": lambda p, q: p * q, "__rmul__": lambda p, q: q * p,
    "__truediv__": lambda p, q: p * inv(q), "__rtruediv__": lambda p, q: q * inv(p),
}


def operand(kind):
    """an arbitrary exact number as the other operand: a rational of the library, a Python int or a Fraction"""
    if kind == "Rat":
        o = sym("Rat", "other")
        return o, V(o)
    n = num("other", kind)
    return n, n.p


def exact(r, p, name="exact rational result"):
    """r is a Rat with exactly the value p"""
    if not isinstance(r, SE) or classes(r) != {"Rat"}:
        tasks.REC_PATH.append((name, "refuted", "the result is a %s" % (sorted(classes(r)) if isinstance(r, SE) else type(r).__name__), None))
        return
    oblige(name, V(r).eq(p))


def binop(name, kind):
    def fn(I):
        a = sym("Rat")
        b, q = operand(kind)
        p = V(a)
        if name == "__truediv__":
            ENG.fact(neg(q.eq(0)))
        if name == "__rtruediv__":
            ENG.fact(neg(p.eq(0)))
        exact(call_real(I, method("Rat", name), [a, b]), PRES[name](p, q))
    Task("C02", "expr.Rat.%s (%s operand)" % (name, kind), fn)


for n in PRES:
    for k in ("Rat", "int", "frac"):
        binop(n, k)


def fdiv(name):
    def fn(I):
        a, b = sym("Rat"), sym("Rat", "other")
        p, q = V(a), V(b)
        ENG.fact(neg(q.eq(0)))
        fl = W.floor(p * inv(q))
        exact(call_real(I, method("Rat", name), [a, b]), fl if name == "__floordiv__" else p - q * fl)
    Task("C02", "expr.Rat." + name, fn)


fdiv("__mod__")
fdiv("__floordiv__")


def un(name, val, prop=False, kind="Rat"):
    def fn(I):
        a = sym("Rat")
        f = method("Rat", name)
        r = call_real(I, f.fget if isinstance(f, property) else f, [a])
        if kind == "Rat":
            exact(r, val(V(a)))
        else:
            oblige("result", I.form(r) == val(V(a)) if kind == "bool" else interp.nv(r)[0].eq(val(V(a))))
    Task("C02", "expr.Rat." + name, fn)


un("__neg__", lambda p: -p)
un("__abs__", lambda p: fabs(p))
un("numerator", lambda p: W.numden(p)[0])
un("denominator", lambda p: W.numden(p)[1])
un("is_int", lambda p: isint(p), kind="bool")
un("is_subtraction", lambda p: p.lt(0), kind="bool")


def t_sign(I):
    a = sym("Rat")
    r = call_real(I, method("Rat", "sign").fget, [a])
    q = interp.nv(r)[0]
    oblige("sign", conj(imp(V(a).lt(0), q.eq(-1)), imp(P(0).lt(V(a)), q.eq(1))))


Task("C02", "expr.Rat.sign", t_sign)


def t_recip(I):
    a = sym("Rat")
    ENG.fact(neg(V(a).eq(0)))
    exact(call_real(I, method("Rat", "reciprocal"), [a]), inv(V(a)))


Task("C02", "expr.Rat.reciprocal", t_recip)


def t_pow(name):
    def fn(I):
        a, b = sym("Rat"), sym("Rat", "other")
        base, ex = (a, b) if name == "__pow__" else (b, a)
        p, q = V(base), V(ex)
        ENG.fact(isint(q))
        ENG.fact(disj(neg(p.eq(0)), P(0).le(q)))
        exact(call_real(I, method("Rat", name), [a, b]), power(p, q))
    Task("C02", "expr.Rat.%s (integer exponent)" % name, fn)


t_pow("__pow__")
t_pow("__rpow__")

for op, f in {"__eq__": lambda p, q: p.eq(q), "__lt__": lambda p, q: p.lt(q), "__le__": lambda p, q: p.le(q),
              "__gt__": lambda p, q: q.lt(p), "__ge__": lambda p, q: q.le(p)}.items():
    for kind in ("Rat", "int", "frac"):
        def mk(op=op, f=f, kind=kind):
            def fn(I):
                a = sym("Rat")
                b, q = operand(kind)
                r = call_real(I, method("Rat", op), [a, b])
                oblige("comparison", I.form(r) == f(V(a), q))
            Task("C02", "expr.Num.%s (%s operand)" % (op, kind), fn)
        mk()


def t_init(kinds):
    def fn(I):
        args = [num("value", kinds[0])] + ([num("denom", kinds[1])] if len(kinds) > 1 else [])
        p = args[0].p
        if len(args) > 1:
            ENG.fact(neg(args[1].p.eq(0)))
            p = p * inv(args[1].p)
        I.skip = I.contracts[X.Rat]
        r = I.call(X.Rat, args)
        W.complete(r)
        v = W.get_field(I, r, "value")
        oblige("stored exactly", interp.nv(v)[0].eq(p))
        oblige("stored as a fraction", z3.BoolVal(isinstance(v, Fraction) or isinstance(v, NV) and v.kind == "frac"))
    Task("C02", "expr.Rat.__init__ (%s)" % ", ".join(kinds), fn)


t_init(["int"])
t_init(["frac"])
t_init(["int", "int"])


def t_const(kind):
    def fn(I):
        n = num("value", kind)
        r = call_real(I, X.Const, [n])
        if kind == "float":
            oblige("value", V(W.to_se(I, r)).eq(n.p))
        else:
            exact(r, n.p)
    Task("C02", "expr.Const (%s)" % kind, fn)


for k in ("int", "frac", "float"):
    t_const(k)


def t_accumulate(type_):
    def fn(I):
        b = ("consts",)
        d = Delta()
        el = SE(ELEM(b))
        d.classes[el.uid] = frozenset(["Rat"])
        ENG.ctx.leafdelta[b] = d
        ENG.fact(P(1).le(W.count(b)))
        lst = LObj([("p", Piece(b, {b: [("v", el)]}))], len(ENG.levels))
        lst.kind = "tuple"
        I.skip = I.contracts.get(X.accumulate)
        r = I.inline_star(X.accumulate, lst, {"type_": type_})
        m = segsum(b, ELEM(b), A("g", "v", el.uid)) if type_ == "sum" else segprod(b, ELEM(b), A("g", "v", el.uid))
        exact(r, m)
    Task("C02", "expr.accumulate (%s of any number of rationals)" % type_, fn)


t_accumulate("sum")
t_accumulate("prod")


# ---- roots
def setup_root(I):
    I.loops_root = None


def t_int_power(I):
    n, x = num("n", "int"), num("x", "frac")
    ENG.fact(P(0).le(x.p))
    nn, k = W.numden(x.p)
    m = A("g", "num", ("m",))       # an arbitrary natural number: if it is the root, the search finds it
    ENG.fact(isint(m))
    ENG.fact(P(0).le(m))
    ENG.fact(P(0).le(nn))
    root = power(m, k).eq(n.p)

    def invariant(lo, hi):
        ENG.fact(imp(conj(isint(lo), isint(hi)), TRUE))
        return conj(isint(lo), isint(hi), P(0).le(lo), lo.le(hi), imp(root, conj(lo.le(m), m.le(hi))))

    def bound():
        """n < 2^bits, so the root is below 2^(bits//k + 1)"""
        b = A("bits", n.p)
        f = A("floor", b * inv(k))
        t = power(P(2), f + 1)
        law_mono_base(m, t, k)
        law_pow_pow(P(2), f + 1, k)
        law_mono_exp(P(2), b, (f + 1) * k)
        ENG.fact(t.eq(power(P(2), f) * 2))
        ENG.fact(imp(isint(f), conj(isint(power(P(2), f)), isint(t))) if False else imp(conj(isint(f), P(0).le(f)), isint(t)))

    def inv_(lo, hi):
        if not ENG.ctx.notes.get("rootlaws"):
            ENG.ctx.notes["rootlaws"] = True
            bound()
        mid = W.floor((lo + hi) * Fraction(1, 2))
        law_mono_base(mid, m, k)
        int_diffs(lo, hi, mid, m)
        return invariant(lo, hi)
    while_inv(I, "expr._int_power", {"lo": "int", "hi": "int"}, inv_, variant=lambda lo, hi: hi - lo)
    r = call_real(I, X._int_power, [n, x])
    want = power(n.p, x.p)
    if r is None:
        oblige("None only when there is no exact root", neg(conj(P(0).le(n.p), root)))
    else:
        p, kind = interp.nv(r)
        z = p.mono()
        base = None
        for a in p.atoms():
            if ATOMS[a][0] == "pow":
                base = ATOMS[a][1]
        if base is not None:
            law_pow_pow(base, k, x.p)
            law_cong(power(base, k), x.p, n.p, x.p)
            law_cong(base, k * x.p, base, nn)
            ENG.fact(imp(conj(P(0).lt(x.p)), power(ZERO, x.p).eq(0)))
            ENG.fact(imp(conj(P(0).lt(k)), power(ZERO, k).eq(0)))
        oblige("the power", p.eq(want))
        oblige("a Python int", z3.BoolVal(kind == "int"))


Task("C02", "expr._int_power", t_int_power)


def c_int_power(I):
    """contract of _int_power (discharged above): None, or exactly n**x as an int"""
    @fn_contract(I, X._int_power, "_int_power")
    def c(I, args, kw):
        (n, _), (x, _) = interp.nv(args[0]), interp.nv(args[1])
        if not ENG.entails(conj(isint(n), P(0).le(x))):
            raise Unsupported("precondition of _int_power")
        i = ENG.choose([(("root", n, x), TRUE, None), (("noroot", n, x), neg(isint(x)), None)])
        if i == 1:
            return None
        r = power(n, x)
        ENG.fact(isint(r))
        ENG.fact(disj(P(0).le(n), isint(x)))
        return mknum(r, "int")


tasks.DISCHARGES["_int_power"] = ["expr._int_power"]


def t_accpow(I):
    c_int_power(I)
    b, x = sym("Rat", "b"), sym("Rat", "x")
    p, q = V(b), V(x)
    ENG.fact(disj(P(0).lt(p), conj(p.eq(0), P(0).lt(q)), conj(isint(q), neg(p.eq(0)))))
    n, d = W.numden(p)
    an, ad = fabs(q), W.numden(q)[1]
    # (n/d)^q = n^q / d^q
    for e in (q, fabs(q)):
        ENG.fact(imp(P(0).lt(p), power(p, e).eq(power(n, e) * inv(power(d, e)))))
        ENG.fact(imp(conj(isint(e), neg(p.eq(0))), power(p, e).eq(power(n, e) * inv(power(d, e)))))
        for z in (n, d):
            ENG.fact(imp(disj(P(0).lt(z), conj(neg(z.eq(0)), isint(e))), (power(z, e) * power(z, -e)).eq(1)))
            ENG.fact(imp(disj(P(0).lt(z), conj(neg(z.eq(0)), isint(e))), neg(power(z, e).eq(0))))
    ENG.fact(imp(isint(q), isint(-q)))
    ENG.fact(imp(isint(q), isint(fabs(q))))
    ENG.fact(P(0).lt(p) == P(0).lt(n))
    ENG.fact(p.lt(0) == n.lt(0))
    r = call_real(I, X._accumulate_power, [b, x])
    if r is not None:
        oblige("value of the power", V(W.to_se(I, r)).eq(power(p, q)))
        if all(s != ("c", 0) for s in ()):
            pass
    else:
        tasks.REC_PATH.append(("left as it is", "proved", "", None))


Task("C02", "expr._accumulate_power (rational base and exponent)", t_accpow)


def t_accfloat(which):
    def fn(I):
        b, x = sym("Float" if which != "exponent" else "Rat", "b"), sym("Float" if which != "base" else "Rat", "x")
        p, q = V(b), V(x)
        ENG.fact(disj(P(0).lt(p), conj(p.eq(0), P(0).lt(q)), conj(isint(q), neg(p.eq(0)))))
        r = call_real(I, X._accumulate_power, [b, x])
        oblige("value of the power", V(W.to_se(I, r)).eq(power(p, q)))
    Task("C02", "expr._accumulate_power (float: %s)" % which, fn, exact=False)


for w_ in ("base", "exponent", "both"):
    t_accfloat(w_)


def t_float(I):
    n = num("x", "float")
    I.skip = I.contracts.get(X.Float)
    r = W.to_se(I, I.call(X.Float, [n]))
    oblige("the value", V(r).eq(n.p))
    oblige("the class", z3.BoolVal(classes(r) == {"Float"}))


Task("C02", "expr.Float (constructor)", t_float, exact=False)


def t_floatint(I):
    x = sym("Float", "self")
    for p in (V(x), -V(x)):
        ENG.fact(isint(V(x)) == W.floor(p).eq(p))
    r = I.truth(I.call(method("Float", "is_int").fget, [x]))
    oblige("integers exactly", isint(V(x)) if r else neg(isint(V(x))))


Task("C02", "expr.Float.is_int", t_floatint, exact=False)
D = tasks.DISCHARGES
D["Float"] = ["expr.Float (constructor)"]
D["expr._accumulate_power"] = ["expr._accumulate_power (rational base and exponent)"] + ["expr._accumulate_power (float: %s)" % w for w in ("base", "exponent", "both")]
D["virtual is_int"] = ["expr.Rat.is_int", "expr.Float.is_int"]
