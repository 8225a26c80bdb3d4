"""Random expressions built only through the public interface of the real code, plus a printer that
writes an expression as Python text which rebuilds exactly the same structure."""
import random
from fractions import Fraction

import simpy.expr as E
import oracle as O


class Gen:
    def __init__(self, rng, names=("x", "y", "z"), floats=0.03, trig=0.35, weird=0.1):
        self.r, self.names, self.floats, self.trig, self.weird = rng, list(names), floats, trig, weird

    def rat(self):
        r = self.r
        k = r.random()
        if k < 0.55:
            return E.Rat(r.choice([-3, -2, -1, 1, 2, 3, 4, 5, 6, -4, 8, 9, 12]))
        if k < 0.6:
            return E.Rat(0)
        if k < 0.95:
            return E.Rat(Fraction(r.choice([-5, -3, -2, -1, 1, 2, 3, 4, 5, 7, 8, 9, 27]), r.choice([2, 3, 4, 5, 6, 8, 9, 16])))
        return E.Rat(r.randint(-10**6, 10**6)) if r.random() < .5 else E.Rat(Fraction(r.randint(-999, 999), r.randint(1, 999)))

    def small_exp(self):
        r = self.r
        return E.Rat(r.choice([2, 2, 2, 3, 4, -1, -1, -2, -3, 5, 6, Fraction(1, 2), Fraction(1, 2), Fraction(-1, 2),
                               Fraction(3, 2), Fraction(1, 3), Fraction(2, 3), Fraction(-3, 2), Fraction(1, 4), 0, 1]))

    def leaf(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return E.Symbol(r.choice(self.names))
        if k < 0.6 + self.floats:
            return E.Float(r.choice([0.5, 2.5, -1.5, 0.1, 3.25, 1.7]))
        if k < 0.72 and r.random() < self.weird + .2:
            return r.choice([E.pi, E.e])
        return self.rat()

    def func(self, a):
        r = self.r
        c = r.choice(["sin", "cos", "tan", "sec", "csc", "cot", "log", "log", "Abs", "sqrt", "sin", "cos", "asin", "acos", "atan", "logb"])
        if c == "logb":
            return E.log(a, r.choice([E.Rat(2), E.Rat(3), E.Rat(10), E.e]))
        return getattr(E, c)(a)

    def expr(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.leaf()
        k = r.random()
        if k < 0.27:
            return self.sum(d)
        if k < 0.54:
            return self.prod(d)
        if k < 0.78:
            return self.power(d)
        if r.random() < self.trig * 2:
            return self.func(self.expr(d - 1))
        return self.leaf()

    def sum(self, d):
        ts = [self.expr(d - 1) for _ in range(self.r.choice([2, 2, 3, 3, 4]))]
        if self.r.random() < .2:
            ts.append(self.r.choice(ts) * self.rat())
        return E.Sum(ts)

    def prod(self, d):
        ts = [self.expr(d - 1) for _ in range(self.r.choice([2, 2, 3, 3, 4]))]
        if self.r.random() < .3:
            ts.append(self.r.choice(ts) ** self.small_exp())
        return E.Prod(ts)

    def power(self, d):
        b = self.expr(d - 1)
        if self.r.random() < .75:
            return b ** self.small_exp()
        return b ** self.expr(d - 1)

    def poly(self, var, deg=3, zero=.2):
        r = self.r
        s = E.Rat(0)
        for i in range(r.randint(1, deg) + 1):
            if r.random() > zero:
                s = s + self.rat() * var ** i
        return s

    def try_expr(self, d, maxsize=60):
        for _ in range(50):
            try:
                e = self.expr(d)
            except (ZeroDivisionError, ValueError, OverflowError, AttributeError, NotImplementedError, TypeError, KeyError,
                    AssertionError):
                continue
            if O.size(e) <= maxsize and sane(e):
                return e
        return E.Symbol("x")


def sane(e):
    """no infinities and no huge constants anywhere"""
    if isinstance(e, (E.Infinity, E.NegInfinity, E.NaN)):
        return False
    if isinstance(e, E.Float) and (e.value != e.value or abs(e.value) > 1e6 or (e.value and abs(e.value) < 1e-4)):
        return False
    if isinstance(e, E.Rat) and (not isinstance(e.value, Fraction) or max(abs(e.value.numerator), e.value.denominator) > 10**9):
        return False
    return all(sane(c) for c in e.children())


def env(rng, names=("x", "y", "z"), mode=None):
    m = mode or rng.choice(["pos", "pos", "any", "any", "unit", "int"])
    out = {}
    for n in names:
        if m == "pos":
            v = Fraction(rng.randint(1, 40), rng.choice([3, 7, 10, 11]))
        elif m == "unit":
            v = Fraction(rng.randint(-99, 99), 101)
        elif m == "int":
            v = Fraction(rng.choice([-3, -2, -1, 0, 1, 2, 3, 4]))
        else:
            v = Fraction(rng.randint(-40, 40), rng.choice([3, 7, 10, 11]))
        out[n] = v
    return out


def srepr(e):
    """Python text rebuilding the object structure as it is"""
    n = type(e).__name__
    if e is None or isinstance(e, (bool, int, str, float)):
        return repr(e)
    if isinstance(e, Fraction):
        return "Fraction(%d,%d)" % (e.numerator, e.denominator)
    if isinstance(e, (list, tuple)):
        s = ", ".join(map(srepr, e))
        return "[%s]" % s if isinstance(e, list) else "(%s,)" % s
    if isinstance(e, dict):
        return "{%s}" % ", ".join("%r: %s" % (k, srepr(v)) for k, v in e.items())
    if isinstance(e, type):
        return e.__name__
    if isinstance(e, E.Rat):
        return "Rat(%d,%d)" % (e.value.numerator, e.value.denominator) if e.value.denominator != 1 else "Rat(%d)" % e.value.numerator
    if isinstance(e, E.Float):
        return "Float(%r)" % e.value
    if isinstance(e, E.Pi):
        return "pi"
    if isinstance(e, E.E):
        return "e"
    if isinstance(e, E.Symbol):
        return "Symbol(%r)" % e.name
    if isinstance(e, (E.Sum, E.Prod)):
        return "%s([%s], skip_checks=True)" % (n, ", ".join(map(srepr, e.terms)))
    if isinstance(e, E.Power):
        return "Power(%s, %s, skip_checks=True)" % (srepr(e.base), srepr(e.exponent))
    if isinstance(e, E.log):
        return "raw(log, inner=%s, base=%s)" % (srepr(e.inner), srepr(e.base))
    if isinstance(e, E.SingleFunc):
        return "raw(%s, inner=%s)" % (n, srepr(e.inner))
    if n == "Any_":
        return "Any_(%r)" % e.key
    return "<%s>" % n


def raw(cls, **kw):
    o = object.__new__(cls)
    for k, v in kw.items():
        setattr(o, k, v)
    E.Expr.__post_init__(o)
    return o


def rebuild(text):
    import simpy.regex as R
    ns = {k: getattr(E, k) for k in dir(E) if not k.startswith("__")}
    ns.update(Any_=R.Any_, raw=raw, Fraction=Fraction)
    return eval(text, ns)
