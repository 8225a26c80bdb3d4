"""C06: the elementary functions are built with the value of the function."""
import tasks
from tasks import *


def construct(I, cls, args, kw=None):
    """run the real constructor (recursive calls through the contract)"""
    I.skip = I.contracts[cls]
    r = I.call(cls, args, kw or {})
    r = W.to_se(I, r)
    W.complete(r)
    constant(r)
    return r


def constant(r):
    """pi and e have their values"""
    for c in (X.Pi, X.E):
        if classes(r) <= {"Rat", "Float", "Pi", "E"}:
            W.isinstance_se(r, (c,))


KEYS = [Fraction(k) for k in X.TrigFunction._SPECIAL_KEYS]


def law_special(p):
    """the values of sin and cos at k*pi for the multiples k in the library's table, and their period 2*pi"""
    ENG.fact(imp(p.eq(0), conj(fsin(p).eq(0), fcos(p).eq(1))))
    c = p * inv(PI)
    m = c - W.floor(c * Fraction(1, 2)) * 2
    for k in KEYS:
        ENG.fact(imp(m.eq(k), conj(fsin(p).eq(prove.special("sin", k)), fcos(p).eq(prove.special("cos", k)))))


def floors():
    out = set()
    for f in ENG.ctx.facts:
        for n in engine.zconsts(f):
            if n[0] == "a" and ATOMS[int(n[1:])][0] == "floor":
                out.add(int(n[1:]))
    return [prove.one_atom(a) for a in sorted(out)]


def law_shift(a, b):
    """a = b + n*pi for an integer n: the same sine and cosine up to a common sign, which is + when n is even"""
    for f in floors():
        d = a - b
        ENG.fact(imp(conj(isint(f), d.eq(PI * f * 2)), conj(fsin(a).eq(fsin(b)), fcos(a).eq(fcos(b)))))
        ENG.fact(imp(conj(isint(f), d.eq(PI * f)), disj(conj(fsin(a).eq(fsin(b)), fcos(a).eq(fcos(b))),
                                                     conj(fsin(a).eq(-fsin(b)), fcos(a).eq(-fcos(b))))))


INVERSE = {"asin": ("sin", "csc"), "acos": ("cos", "sec"), "atan": ("tan", "cot")}


def principal(c, p):
    """p is on the principal branch of the inverse function c"""
    h = PI * Fraction(1, 2)
    return conj(P(0).le(p), p.le(PI)) if c == "acos" else conj((-h).le(p), p.le(h)) if c == "asin" else conj((-h).lt(p), p.lt(h))


def law_inverse(c, p):
    """c(f(p)) = p on the principal branch"""
    f = {"asin": fsin, "acos": fcos}.get(c)
    x = f(p) if f else fsin(p) * inv(fcos(p))
    ENG.fact(imp(principal(c, p), A(c, x).eq(p)))


def t_new(cname, inner=None, note=""):
    def fn(I):
        p = sym(inner, "inner")
        if cname in INVERSE and inner is None:
            # its own function: separate task; its reciprocal function: known finding KF2
            ENG.ctx.classes[p.uid] = W.FINITE - set(INVERSE[cname])
        ENG.fact(ok(p))
        ENG.fact(fn_dom(cname, V(p)))
        if cname in INVERSE and inner is not None:
            ENG.fact(principal(cname, V(fld(p, "inner"))))
        r = construct(I, LEAFCLS[cname], [p])
        law_special(V(p))
        if cname in INVERSE and inner is not None:
            law_inverse(cname, V(fld(p, "inner")))
        if classes(r) == {cname}:
            i = fld(r, "inner")
            if isinstance(i, SE) and i.uid != p.uid:
                law_shift(V(p), V(i))
        oblige("value of the function", V(r).eq(fn_val(cname, V(p))))
    Task("C06", "expr.%s.__new__%s" % (cname, note), fn, limit=250, weight=5 if cname in spec.TRIG else 1)


for c in ["sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "Abs"]:
    t_new(c, note=" (inner not %s)" % "/".join(INVERSE[c]) if c in INVERSE else "")
for c in INVERSE:
    t_new(c, INVERSE[c][0], " (inner %s, principal branch)" % INVERSE[c][0])


def t_log(base):
    def fn(I):
        p = sym(None, "inner")
        q = sym(None, "base") if base else W.lit("E")
        ENG.fact(ok(p))
        ENG.fact(ok(q))
        ENG.fact(fn_dom("log", V(p), V(q)))
        r = construct(I, X.log, [p] + ([q] if base else []))
        oblige("value of the logarithm", V(r).eq(fn_val("log", V(p), V(q))))
    Task("C06", "expr.log.__new__ (%s)" % ("any base" if base else "natural"), fn)


t_log(False)
t_log(True)


def t_sqrt(I):
    p = sym(None, "x")
    ENG.fact(ok(p))
    ENG.fact(P(0).lt(V(p)))
    ENG.fact(pp(p))
    r = W.to_se(I, call_real(I, X.sqrt, [p]))
    oblige("value of the root", V(r).eq(power(V(p), P(Fraction(1, 2)))))


Task("C06", "expr.sqrt", t_sqrt)


def t_strict(cname):
    def fn(I):
        p = sym(cname, "expr")
        ENG.fact(ok(p))
        if cname in ("Rat", "Float", "Pi", "E"):
            constant(p)
        r = call_real(I, X._is_strictly_positive, [p])
        oblige("not negative where it is reported positive", imp(I.form(r), P(0).le(V(p))))
    Task("C06", "expr._is_strictly_positive (%s)" % cname, fn)


for c in sorted(W.FINITE):
    t_strict(c)
tasks.DISCHARGES["expr._is_strictly_positive"] = ["expr._is_strictly_positive (%s)" % c for c in sorted(W.FINITE)]
for c in ["sin", "cos", "tan", "csc", "sec", "cot", "Abs"]:
    tasks.DISCHARGES[c] = ["expr.%s.__new__" % c]
for c in INVERSE:
    tasks.DISCHARGES[c] = ["expr.%s.__new__ (inner not %s)" % (c, "/".join(INVERSE[c])), "expr.%s.__new__ (inner %s, principal branch)" % (c, INVERSE[c][0])]
tasks.DISCHARGES["log"] = ["expr.log.__new__ (natural)", "expr.log.__new__ (any base)"]
