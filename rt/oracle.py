"""Independent denotational oracle for simpy expressions (never calls simpy's own evaluation).

ev(e, env) is the real value of e at the assignment env, or raises Undef when e is outside the
domain stated in properties.jsonl: real powers with the usual convention (a negative base only to
an integer power, 0 only to a positive power, 0**0 = 1), logs of positive numbers in a base that is
positive and not 1, inverse functions on their real domain, no infinities; a product raised to a
non-integer power must have no negative factor.  Rationals are kept exact as long as possible.
"""
import math
from fractions import Fraction


class Undef(Exception):
    pass


BIG = 1e60


class Num_:
    """arithmetic backend on floats + Fractions"""
    EPS = 1e-9

    def f(self, v):
        if isinstance(v, Fraction):
            try:
                return v.numerator / v.denominator
            except OverflowError:
                raise Undef("overflow")
        return v

    def flt(self, v):
        v = self.f(v)
        if v != v or abs(v) > BIG:
            raise Undef("overflow")
        return v

    pi = math.pi
    e = math.e
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    asin = staticmethod(math.asin)
    acos = staticmethod(math.acos)
    atan = staticmethod(math.atan)
    log = staticmethod(math.log)

    def powf(self, b, x):
        try:
            return math.pow(b, x)
        except (OverflowError, ValueError):
            raise Undef("pow overflow")


class MpNum(Num_):
    EPS = None

    def __init__(self, digits=40):
        import sys
        for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
            if p not in sys.path:
                sys.path.append(p)
        import mpmath
        self.mp = mpmath
        mpmath.mp.dps = digits
        self.EPS = mpmath.mpf(10) ** (-digits * 2 // 3)
        self.pi = +mpmath.pi
        self.e = +mpmath.e
        self.sin, self.cos, self.asin, self.acos = mpmath.sin, mpmath.cos, mpmath.asin, mpmath.acos
        self.atan, self.log = mpmath.atan, mpmath.log

    def f(self, v):
        if isinstance(v, Fraction):
            return self.mp.mpf(v.numerator) / v.denominator
        return self.mp.mpf(v)

    def powf(self, b, x):
        return self.mp.power(b, x)


FLOAT = Num_()


def is_exact(v):
    return isinstance(v, Fraction)


def add(N, a, b):
    if is_exact(a) and is_exact(b):
        return a + b
    return N.flt(N.f(a) + N.f(b))


def mul(N, a, b):
    if is_exact(a) and is_exact(b):
        return a * b
    return N.flt(N.f(a) * N.f(b))


def is_int(v):
    return is_exact(v) and v.denominator == 1


def near0(N, v):
    return v == 0 or (not is_exact(v) and abs(v) < N.EPS)


def pw(N, b, x):
    """domain-checked real power on values"""
    if not is_exact(x) and abs(x) < 1e6 and x == int(x):
        x = Fraction(int(x))
    if is_int(x):
        n = x.numerator
        if n == 0:
            return Fraction(1)
        if near0(N, b):
            if n > 0:
                return Fraction(0)
            raise Undef("0**neg")
        if is_exact(b):
            if abs(n) > 200 or (abs(n) * max(b.numerator.bit_length(), b.denominator.bit_length())) > 4000:
                raise Undef("huge")
            return b ** n
        r = N.powf(abs(b), N.f(x))
        return N.flt(-r if (b < 0 and n % 2) else r)
    if near0(N, b):
        if is_exact(b) and x > 0 and not near0(N, x):
            return Fraction(0)
        raise Undef("0**nonint")
    if b < 0:
        raise Undef("neg**nonint")
    if is_exact(b) and is_exact(x) and b > 0:
        # exact roots stay exact
        q = x.denominator
        if q <= 12 and abs(x.numerator) < 60:
            n, d = iroot(b.numerator, q), iroot(b.denominator, q)
            if n is not None and d is not None:
                return Fraction(n, d) ** x.numerator
    return N.flt(N.powf(N.f(b), N.f(x)))


def iroot(n, q):
    """exact integer q-th root of n >= 0 or None"""
    if n < 2:
        return n
    lo, hi = 1, 1 << (n.bit_length() // q + 1)
    while lo <= hi:
        m = (lo + hi) // 2
        p = m ** q
        if p == n:
            return m
        if p < n:
            lo = m + 1
        else:
            hi = m - 1
    return None


def recip(N, v):
    return pw(N, v, Fraction(-1))


def power_domain_ok(N, b_expr, env, x, x_expr=None):
    """side conditions of the stated domain for b ** x (see properties.jsonl): a (non-subtraction) product under a
    non-integer power has no negative factor, a power under a non-integer power has a positive base unless both
    exponents are explicit rationals"""
    E = _E()
    if is_int(x):
        return
    if isinstance(b_expr, E.Prod) and not issub_prod(b_expr):
        for t in b_expr.terms:
            v = ev(t, env, N)
            if v < 0 or near0(N, v):
                raise Undef("negative factor under a root")
            power_domain_ok(N, t, env, x, x_expr)
    if isinstance(b_expr, E.Power):
        v = ev(b_expr.base, env, N)
        if v < 0 or near0(N, v):
            if not (isinstance(b_expr.exponent, E.Rat) and isinstance(x_expr, E.Rat)):
                raise Undef("non-integer power of a power of a negative number, exponents not both explicit")
            if even_then_negative(b_expr.exponent, x_expr):
                raise Undef("known finding KF1: (b^even)^(negative fraction)")


def inverse_domain_ok(N, e, env):
    """an inverse function of a direct one is claimed on the principal branch; atan(cot) is known finding KF2"""
    E = _E()
    a = e.inner
    if e.is_inverse and isinstance(a, E.TrigFunction) and not a.is_inverse:
        if e.func == "tan" and a.func == "cot":
            raise Undef("known finding KF2: atan(cot(x))")
        w = N.f(ev(a.inner, env, N))
        lo, hi = (0, N.pi) if e.func == "cos" else (-N.pi / 2, N.pi / 2)
        if not lo < w < hi:
            raise Undef("not the principal branch")


def even_then_negative(x1, x2):
    """known finding KF1 (pinned by the existing tests): (b^n)^r = b^(n r) for even n and negative fractional r"""
    E = _E()
    return (isinstance(x1, E.Rat) and isinstance(x2, E.Rat) and x1.value % 2 == 0 and x2.value < 0
            and (x1.value * x2.value) % 2 != 0)


def issub_prod(p):
    E = _E()
    t = p.terms[0]
    return isinstance(t, E.Rat) and t.value < 0


_mod = None


def _E():
    global _mod
    if _mod is None:
        import simpy.expr as m
        _mod = m
    return _mod


def trig(N, name, v):
    if is_exact(v) and v == 0:
        if name in ("sin", "tan", "asin", "atan"):
            return Fraction(0)
        if name in ("cos", "sec"):
            return Fraction(1)
    w = N.f(v)
    if abs(w) > 1e7:
        raise Undef("trig argument too large")
    if name == "sin":
        r = N.sin(w)
    elif name == "cos":
        r = N.cos(w)
    elif name in ("tan", "sec"):
        c = N.cos(w)
        if abs(c) < 1e-7:
            raise Undef("pole")
        r = N.sin(w) / c if name == "tan" else 1 / c
    elif name in ("cot", "csc"):
        s = N.sin(w)
        if abs(s) < 1e-7:
            raise Undef("pole")
        r = N.cos(w) / s if name == "cot" else 1 / s
    elif name in ("asin", "acos"):
        if abs(w) > 1:
            raise Undef("arc domain")
        r = N.asin(w) if name == "asin" else N.acos(w)
    elif name == "atan":
        r = N.atan(w)
    else:
        raise Undef("unknown function " + name)
    return N.flt(r)


def logv(N, a, b):
    if near0(N, a) or a < 0 or near0(N, b) or b < 0 or b == 1:
        raise Undef("log domain")
    if is_exact(a) and a == 1:
        return Fraction(0)
    lb = N.log(N.f(b))
    if abs(lb) < 1e-9:
        raise Undef("log base 1")
    return N.flt(N.log(N.f(a)) / lb)


def ev(e, env, N=FLOAT):
    E = _E()
    if isinstance(e, E.Rat):
        return e.value if isinstance(e.value, Fraction) else Fraction(e.value)
    if isinstance(e, E.Symbol):
        v = env.get(e.name)
        if v is None:
            raise Undef("unassigned " + e.name)
        return v
    if isinstance(e, E.Sum):
        r = Fraction(0)
        for t in e.terms:
            r = add(N, r, ev(t, env, N))
        return r
    if isinstance(e, E.Prod):
        r = Fraction(1)
        for t in e.terms:
            r = mul(N, r, ev(t, env, N))
        return r
    if isinstance(e, E.Power):
        b, x = ev(e.base, env, N), ev(e.exponent, env, N)
        power_domain_ok(N, e.base, env, x, e.exponent)
        return pw(N, b, x)
    if isinstance(e, E.log):
        return logv(N, ev(e.inner, env, N), ev(e.base, env, N))
    if isinstance(e, E.Abs):
        return abs(ev(e.inner, env, N))
    if isinstance(e, E.TrigFunction):
        inverse_domain_ok(N, e, env)
        return trig(N, ("a" if e.is_inverse else "") + e.func, ev(e.inner, env, N))
    if isinstance(e, E.Float):
        if e.value != e.value or abs(e.value) == float("inf"):
            raise Undef("inf")
        return N.f(e.value) if N is not FLOAT else e.value
    if isinstance(e, E.Pi):
        return N.pi
    if isinstance(e, E.E):
        return N.e
    raise Undef("no value: " + type(e).__name__)


def val(e, env, N=FLOAT):
    """value or None"""
    try:
        return ev(e, env, N)
    except (Undef, OverflowError, ZeroDivisionError, ValueError):
        return None


def size(e):
    return 1 + sum(size(c) for c in e.children())


def has_float(e):
    E = _E()
    return isinstance(e, E.Float) or any(has_float(c) for c in e.children())


def close(a, b, scale=1.0, tol=1e-6):
    if is_exact(a) and is_exact(b):
        return a == b
    a, b = FLOAT.f(a) if is_exact(a) else a, FLOAT.f(b) if is_exact(b) else b
    return abs(a - b) <= tol * max(1e-3, abs(a), abs(b), scale)


def magnitude(e, env, N=FLOAT):
    """largest absolute value of a subterm (for error scaling)"""
    m = 0.0
    try:
        m = abs(float(N.f(ev(e, env, N))))
    except (Undef, OverflowError, ZeroDivisionError, ValueError):
        pass
    for c in e.children():
        m = max(m, magnitude(c, env, N))
    return m


_MP = None


def mp():
    global _MP
    if _MP is None:
        _MP = MpNum(60)
    return _MP


def free_names(e):
    E = _E()
    if isinstance(e, E.Symbol):
        return {e.name}
    s = set()
    for c in e.children():
        s |= free_names(c)
    return s
