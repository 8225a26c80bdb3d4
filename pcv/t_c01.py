"""C01: building sums, products and powers keeps the value."""
import tasks
from tasks import *
from t_c06 import construct, constant


def Task(*a, **k):
    k.setdefault("ghosts", ("v",))
    return tasks.Task(*a, **k)


OPVAL = {"__add__": lambda p, q: p + q, "__radd__": lambda p, q: q + p, "__sub__": lambda p, q: p - q, "__rsub__": lambda p, q: q - p,
         "__mul__": lambda p, q: p * q, "__rmul__": lambda p, q: q * p, "__truediv__": lambda p, q: p * inv(q), "__rtruediv__": lambda p, q: q * inv(p),
         "__div__": lambda p, q: p * inv(q), "__rdiv__": lambda p, q: q * inv(p), "__pow__": lambda p, q: power(p, q), "__rpow__": lambda p, q: power(q, p)}


def t_op(name):
    def fn(I):
        a, b = sym(None, "self"), sym(None, "other")
        ENG.fact(ok(a))
        ENG.fact(ok(b))
        p, q = V(a), V(b)
        if name in ("__truediv__", "__div__"):
            ENG.fact(neg(q.eq(0)))
        if name in ("__rtruediv__", "__rdiv__"):
            ENG.fact(neg(p.eq(0)))
        if name == "__pow__":
            ENG.fact(okpow(a, b))
        if name == "__rpow__":
            ENG.fact(okpow(b, a))
        r = W.to_se(I, call_real(I, method("Expr", name), [a, b]))
        oblige("value", V(r).eq(OPVAL[name](p, q)))
    Task("C01", "expr.Expr." + name, fn)


for n in OPVAL:
    t_op(n)


def t_neg(cname, name):
    def fn(I):
        a = sym("Sum" if cname == "Sum" else None)
        ENG.fact(ok(a))
        r = W.to_se(I, call_real(I, method(cname, name), [a]))
        oblige("value", V(r).eq(-V(a) if name == "__neg__" else fabs(V(a))))
    Task("C01", "expr.%s.%s" % (cname, name), fn)


t_neg("Expr", "__neg__")
t_neg("Expr", "__abs__")
t_neg("Sum", "__neg__")


def t_dp(I):
    e = sym(None, "expr")
    ENG.fact(ok(e))
    r = call_real(I, X.deconstruct_power, [e])
    b, x = I.known_items(r)
    oblige("base ^ exponent is the expression", power(V(b), V(x)).eq(V(e)))


Task("C01", "expr.deconstruct_power", t_dp)


def listval(kind, l, g="v"):
    """sum / product of the values of a list"""
    sg = terms_arg(None, l) if isinstance(l, (LObj, tuple)) else l
    return W.seg_measure(kind, sg, lambda y: ghost(g, y) if isinstance(y, SE) else interp.nv(y)[0])


def t_deprod(I):
    e = sym(None, "expr")
    ENG.fact(ok(e))
    r = call_real(I, X._deconstruct_prod, [e])
    c, f = I.known_items(r)
    oblige("coefficients times factors", (listval("PROD", c) * listval("PROD", f)).eq(V(e)))


Task("C01", "expr._deconstruct_prod", t_deprod)


def t_rcf(inc):
    def fn(I):
        e = sym(None, "expr")
        ENG.fact(ok(e))
        r = call_real(I, X.remove_const_factor, [e], {"include_factor": inc})
        if inc:
            a, b = I.known_items(r)
            oblige("factor times the rest", (V(W.to_se(I, a)) * V(W.to_se(I, b))).eq(V(e)))
        else:
            oblige("same when nothing is constant", TRUE)
    Task("C01", "expr.remove_const_factor" + (" (with the factor)" if inc else ""), fn)


t_rcf(True)


def t_flatten(cname):
    def fn(I):
        b = ("args",)
        d = Delta()
        el = SE(ELEM(b))
        d.classes[el.uid] = W.FINITE
        d.facts.append(ok(el))
        ENG.ctx.leafdelta[b] = d
        lst = LObj([("p", Piece(b, {b: [("v", el)]}))], len(ENG.levels))
        r = I.call(BoundM(method(cname, "_flatten_terms").__func__, getattr(X, cname)), [lst])
        k = "SUM" if cname == "Sum" else "PROD"
        m = segsum if k == "SUM" else segprod
        oblige("same total", listval(k, r).eq(m(b, ELEM(b), A("g", "v", el.uid))))
    Task("C01", "expr.%s._flatten_terms" % cname, fn)


t_flatten("Sum")
t_flatten("Prod")


import loops


def bagarg(cl=None, tag="args"):
    b = (tag,)
    d = Delta()
    el = SE(ELEM(b))
    d.classes[el.uid] = cl or W.FINITE
    d.facts.append(ok(el))
    ENG.ctx.leafdelta[b] = d
    return LObj([("p", Piece(b, {b: [("v", el)]}))], len(ENG.levels))


def deprod_contract(I):
    @fn_contract(I, X._deconstruct_prod)
    def c(I, args, kw):
        se = args[0]
        n = W.fresh("coeff", W.NUMV)
        ENG.fact(ok(n))
        f = LObj(loops.bag_of("factors"), len(ENG.levels))
        f.own = (se.uid, "_deconstruct_prod_cache")      # the lists are kept in a cache of the expression
        ENG.fact((V(n) * loops.total("PROD", f)).eq(V(se)))
        ENG.assumed.add("a product has at most one rational or float factor (Prod.__new__ merges them)")
        c = LObj([("v", n)], len(ENG.levels))
        c.own = f.own
        return (c, f)


def t_combine(name, kind):
    def setup(I):
        loops.install(I)
        deprod_contract(I)

    def fn(I):
        l = bagarg()
        s0 = loops.total(kind, l)
        r = call_real(I, getattr(X, name), [l])
        oblige("the total stays", loops.total(kind, r).eq(s0))
    Task("C01", "expr." + name, fn, setup=setup, limit=120, weight=3)


t_combine("_combine_like_terms_sum", "SUM")
t_combine("_combine_like_terms", "PROD")


def build_setup(I):
    """contracts of the helpers of Sum.__new__ and Prod.__new__ (each has its own task)"""
    def total_contract(fn, kind, one=None):
        @fn_contract(I, fn)
        def c(I, args, kw):
            l = args[-1]
            if isinstance(l, LObj) and l.own is not None:
                raise W.FrameViolation("a list of an existing object is handed to a helper that may change it")
            r = LObj(loops.bag_of("combined"), len(ENG.levels))
            ENG.fact(loops.total(kind, r).eq(loops.total(kind, LObj(terms_arg(I, l), len(ENG.levels)))))
            return r
    total_contract(X._combine_like_terms_sum, "SUM")
    total_contract(X._combine_like_terms, "PROD")
    total_contract(X.Sum._flatten_terms.__func__, "SUM") if False else None


def t_build(cname, setup=build_setup):
    kind = "SUM" if cname == "Sum" else "PROD"

    def fn(I):
        l = bagarg()
        l.own = ("argument",)
        s0 = loops.total(kind, l)
        cls = getattr(X, cname)
        I.skip = I.contracts.get(cls)
        r = W.to_se(I, I.call(cls, [l]))
        oblige("value of the " + cname.lower(), V(r).eq(s0))
    Task("C01", "expr.%s (constructor)" % cname, fn, setup=setup, limit=120, weight=3)

    def fn2(I):
        l = bagarg()
        l.own = ("argument",)
        s0 = loops.total(kind, l)
        cls = getattr(X, cname)
        I.skip = I.contracts.get(cls)
        r = W.to_se(I, I.call(cls, [l], {"skip_checks": True}))
        oblige("value of the " + cname.lower(), V(r).eq(s0))
    Task("C01", "expr.%s (constructor, skip_checks)" % cname, fn2, setup=setup, limit=120, weight=3)


t_build("Sum")
t_build("Prod")


def c_accpow(I):
    @fn_contract(I, X._accumulate_power)
    def c(I, args, kw):
        b, x = args
        if not (classes(b) <= W.NUMV and classes(x) <= W.NUMV):
            raise Unsupported("_accumulate_power of something else")
        i = ENG.choose([(("accpow", b.uid, x.uid), TRUE, None), (("accpow none", b.uid, x.uid), TRUE, None)])
        if i == 1:
            W.restrict(b, frozenset(["Rat"]))
            W.restrict(x, frozenset(["Rat"]))
            return None
        oblige("the power of numbers is defined", okpow(b, x))
        return result({"v": power(V(b), V(x)), "s": power(ghost("s", b), ghost("s", x)), "d": ZERO})


def law_powers(b, x1, x2):
    """(b^x1)^x2"""
    a, w = fabs(b), power(power(b, x1), x2)
    ENG.fact(imp(P(0).lt(b), w.eq(power(b, x1 * x2))))
    ENG.fact(imp(conj(isint(x1), isint(x2), neg(b.eq(0))), w.eq(power(b, x1 * x2))))
    ENG.fact(imp(conj(isint(x1), isint(x2)), isint(x1 * x2)))
    ENG.fact(imp(conj(b.eq(0), P(0).lt(x1), P(0).lt(x2)), w.eq(0)))
    ENG.fact(imp(conj(P(0).lt(x1), P(0).lt(x2)), P(0).lt(x1 * x2)))
    ENG.fact(imp(iseven(x1), isint(x1)))
    # an even exponent forgets the sign
    ENG.fact(imp(conj(iseven(x1), neg(b.eq(0))), w.eq(power(a, x1 * x2))))
    ENG.fact(imp(iseven(x1 * x2), conj(isint(x1 * x2), power(a, x1 * x2).eq(power(b, x1 * x2)))))
    # an odd power is positive only for a positive base
    ENG.fact(imp(conj(isint(x1), neg(iseven(x1)), P(0).lt(power(b, x1))), P(0).lt(b)))


def t_mulexp(I):
    inner, x2 = sym("Power", "inner"), sym(None, "x2")
    b, x1 = spec.fld(inner, "base"), spec.fld(inner, "exponent")
    for s in (b, x1, x2, inner):
        ENG.fact(ok(s))
    ENG.fact(okpow(b, x1))
    ENG.fact(okpow(inner, x2))
    pre_mulexp(b, x1, inner, x2)
    r = W.to_se(I, call_real(I, X._multiply_exponents, [b, x1, x2]))
    oblige("(b^x1)^x2", V(r).eq(power(power(V(b), V(x1)), V(x2))))


def pre_mulexp(b, x1, inner, x2):
    loops.basics(b, x1)
    loops.basics(inner, x2)
    p, q, w = V(b), V(x1), V(x2)
    law_powers(p, q, w)
    # domain: a power of a power with a non-integer outer exponent needs a positive inner base unless both exponents are
    # explicit rationals; then the inner power is positive
    ENG.fact(imp(pp(inner), conj(P(0).lt(power(p, q)), disj(pp(b), conj(pred("rat", x1.uid), pred("rat", x2.uid))))))
    # the known finding KF1: an even inner exponent, a negative outer one, base negative
    ENG.fact(disj(P(0).lt(p), neg(iseven(q)), P(0).lt(w), iseven(q * w)))


Task("C01", "expr._multiply_exponents (not the known finding KF1)", t_mulexp, limit=100)


def c_mulexp(I):
    @fn_contract(I, X._multiply_exponents)
    def c(I, args, kw):
        b, x1, x2 = (W.to_se(I, a) for a in args)
        return result({"v": power(power(V(b), V(x1)), V(x2))})


def power_setup(I):
    c_accpow(I)
    c_mulexp(I)


def t_power(label, cl):
    def fn(I):
        b, x = sym(None, "base"), sym(None, "exponent")
        W.restrict(b, cl)
        ENG.fact(ok(b))
        ENG.fact(ok(x))
        ENG.fact(okpow(b, x))
        if label == "product":
            # domain: a product under a non-integer power has positive factors
            ENG.choose([(("positive factors", b.uid), pp(b), None), (("integer", b.uid), conj(neg(pp(b)), rint(x)), None)])
        loops.basics(b, x)
        I.skip = I.contracts.get(X.Power)
        r = W.to_se(I, I.call(X.Power, [b, x]))
        oblige("value of the power", V(r).eq(power(V(b), V(x))))
    Task("C01", "expr.Power (constructor, base: %s)" % label, fn, limit=200, weight=3, setup=power_setup)


t_power("product", frozenset(["Prod"]))
t_power("power", frozenset(["Power"]))
t_power("number", W.NUMS)
t_power("anything else", W.FINITE - {"Prod", "Power"} - W.NUMS)
