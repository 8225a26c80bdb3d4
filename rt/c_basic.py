"""C01 C02 C03 C05 C06: construction, exact arithmetic, expansion, substitution, function constructors"""
from fractions import Fraction
from core import *


def gexpr(rng, d=None, **kw):
    g = G.Gen(rng, **kw)
    return g.try_expr(rng.choice([0, 1, 1, 2, 2, 3]) if d is None else d)


DOMAIN_ERR = (ZeroDivisionError, OverflowError)


def undefined_everywhere(spec, envs):
    for env in envs:
        try:
            sv(spec, env, O.FLOAT)
            return False
        except O.Undef:
            pass
    return True


def checked(what, fn, args, spec, rng, must_define=True, extra=0):
    envs = envs_for(rng, names_of(*args), 8 + extra)
    try:
        r = fn(*args)
    except Timeout:
        raise
    except Exception as ex:
        # an exception is only acceptable where the mathematical value does not exist
        if undefined_everywhere(spec, envs):
            raise Skip(repr(ex))
        raise Fail("%s: raised %s on %s" % (what, repr(ex)[:150], ", ".join(map(G.srepr, args))[:600]))
    same_value("%s(%s)" % (what, ", ".join(map(G.srepr, args))[:500]), spec, r, envs, must_define)
    return r


def pow_spec(b, x):
    def f(env, N):
        bv, xv = O.ev(b, env, N), O.ev(x, env, N)
        O.power_domain_ok(N, b, env, xv, x)
        if isinstance(x, E.Prod) or isinstance(x, E.log):
            # b ** (c * log_b(a)) is rewritten to a ** c: needs a real logarithm
            pass
        return O.pw(N, bv, xv)
    return f


def fold(op, xs, one):
    def f(env, N):
        r = Fraction(one)
        for t in xs:
            r = op(N, r, O.ev(t, env, N))
        return r
    return f


BIN = {
    "add": (lambda a, b: a + b, lambda a, b: fold(O.add, [a, b], 0)),
    "sub": (lambda a, b: a - b, lambda a, b: lambda env, N: O.add(N, O.ev(a, env, N), O.mul(N, Fraction(-1), O.ev(b, env, N)))),
    "mul": (lambda a, b: a * b, lambda a, b: fold(O.mul, [a, b], 1)),
    "div": (lambda a, b: a / b, lambda a, b: lambda env, N: O.mul(N, O.ev(a, env, N), O.recip(N, O.ev(b, env, N)))),
    "pow": (lambda a, b: a ** b, pow_spec),
}


@contract("C01", "binary-operators", ["Sum", "Prod", "Power"], 3)
class _:
    def gen(rng):
        op = rng.choice(list(BIN))
        a = gexpr(rng)
        k = rng.random()
        if op == "pow" and k < .7:
            b = G.Gen(rng).small_exp()
        elif k < .15:
            b = a
        else:
            b = gexpr(rng)
        return [op, a, b]

    def check(args, rng):
        op, a, b = args
        fn, spec = BIN[op]
        checked(op, fn, [a, b], spec(a, b), rng)


@contract("C01", "python-number-operands", ["Expr.__add__", "Expr.__rsub__", "Expr.__rtruediv__", "Expr.__rpow__"], 1)
class _:
    def gen(rng):
        op = rng.choice(list(BIN))
        n = rng.choice([-3, -2, -1, 1, 2, 3, 4, 0, Fraction(1, 2), Fraction(-2, 3), 5, 9])
        return [op, gexpr(rng, rng.choice([0, 1, 2])), n, rng.random() < .5]

    def check(args, rng):
        op, a, n, left = args
        fn, spec = BIN[op]
        ne = E.Rat(n)
        if left:
            checked(op + " (number on the left)", lambda q: fn(n, q), [a], spec(ne, a), rng)
        else:
            checked(op + " (number on the right)", lambda q: fn(q, n), [a], spec(a, ne), rng)


@contract("C01", "n-ary-sum-and-product", ["Sum", "Prod", "_combine_like_terms", "_combine_like_terms_sum"], 3)
class _:
    def gen(rng):
        g = G.Gen(rng)
        n = rng.choice([0, 1, 2, 3, 3, 4, 5, 6])
        pool = [g.try_expr(rng.choice([0, 0, 1, 2])) for _ in range(max(1, n // 2 + 1))]
        ts = []
        for _ in range(n):
            t = rng.choice(pool)
            k = rng.random()
            try:
                if k < .25:
                    t = t * g.rat()
                elif k < .5:
                    t = t ** g.small_exp()
            except Exception:
                pass
            if not G.sane(t):
                t = rng.choice(pool)
            ts.append(t)
        return [rng.choice(["Sum", "Prod"]), ts]

    def check(args, rng):
        k, ts = args
        if k == "Sum":
            checked("Sum", lambda l: E.Sum(list(l)), [ts], fold(O.add, ts, 0), rng)
        else:
            checked("Prod", lambda l: E.Prod(list(l)), [ts], fold(O.mul, ts, 1), rng)


@contract("C01", "unary-and-factor", ["Expr.__neg__", "Expr.__abs__", "Sum.factor", "numerator_denominator"], 2)
class _:
    def gen(rng):
        g = G.Gen(rng)
        k = rng.choice(["neg", "abs", "factor", "factor", "numden", "rmconst", "sqrt"])
        for _ in range(40):
            if k == "factor":
                c = g.try_expr(1)
                e = g.try_expr(2)
                try:
                    e = E.Sum([E.Prod([c, g.try_expr(1)]) for _ in range(rng.choice([2, 3]))])
                except Exception:
                    continue
                if isinstance(e, E.Sum) and G.sane(e):
                    return [k, e]
                continue
            e = g.try_expr(rng.choice([1, 2, 3]))
            if k == "numden" and not isinstance(e, E.Prod):
                continue
            return [k, e]
        return ["neg", g.try_expr(1)]

    def check(args, rng):
        k, e = args
        if k == "neg":
            checked("neg", lambda q: -q, [e], lambda env, N: O.mul(N, Fraction(-1), O.ev(e, env, N)), rng)
        elif k == "abs":
            checked("abs", abs, [e], lambda env, N: abs(O.ev(e, env, N)), rng)
        elif k == "sqrt":
            checked("sqrt", E.sqrt, [e], pow_spec(e, E.Rat(1, 2)), rng)
        elif k == "factor":
            checked("factor", lambda q: q.factor(), [e], V(e), rng, must_define=False)
        elif k == "rmconst":
            def f(q):
                a, b = E.remove_const_factor(q, include_factor=True)
                for nm in O.free_names(b):
                    raise Fail("constant factor %s of %s contains %s" % (b, q, nm))
                return E.Prod([a, b], skip_checks=True) if not (a == 1 or b == 1) else E.Prod([a, b])
            checked("split off constant factor", f, [e], V(e), rng)
        else:
            def f(q):
                n, d = q.numerator_denominator
                return E.Prod([n, E.Power(d, E.Rat(-1), skip_checks=True)], skip_checks=True)
            checked("numerator/denominator", f, [e], V(e), rng)


# ------------------------------------------------------------------ C02
def grat(rng, big=False):
    k = rng.random()
    if k < .25:
        return Fraction(rng.randint(-6, 6))
    if k < .65:
        return Fraction(rng.randint(-12, 12), rng.randint(1, 12))
    if k < .8:
        return Fraction(rng.randint(-10**4, 10**4), rng.randint(1, 10**4))
    if k < .9:
        return Fraction(rng.choice([2, 3, 5, 6, 10, 12]) ** rng.randint(1, 40), rng.choice([1, 1, 7, 9, 1024]))
    return Fraction(rng.randint(-10**30, 10**30), rng.choice([1, 1, 10**15 + 37, 3 ** 20]))


@contract("C02", "rational-arithmetic-exact", ["Rat.__add__", "Rat.__mul__", "Rat.__truediv__", "accumulate"], 3)
class _:
    def gen(rng):
        return [rng.choice(["+", "-", "*", "/", "%", "//", "neg", "abs", "cmp", "recip", "Sum", "Prod", "mix"]),
                grat(rng), grat(rng), grat(rng), rng.choice([0, 1, 2])]

    def check(args, rng):
        op, p, q, s, side = args
        a, b = E.Rat(p), E.Rat(q)
        l, r = (a, b) if side == 0 else (p, b) if side == 1 else (a, q)
        if side and isinstance(l, Fraction) and l.denominator == 1 and rng.random() < .7:
            l = int(l)
        if side and isinstance(r, Fraction) and r.denominator == 1 and rng.random() < .7:
            r = int(r)
        def exact(res, want, what):
            if not isinstance(res, E.Rat) or type(res.value) is not Fraction or res.value != want:
                raise Fail("%s: exact result should be %s but is %s" % (what, want, G.srepr(res)))
        what = "%s %s %s" % (G.srepr(l), op, G.srepr(r))
        if op == "+":
            exact(l + r, p + q, what)
        elif op == "-":
            exact(l - r, p - q, what)
        elif op == "*":
            exact(l * r, p * q, what)
        elif op == "/":
            if q != 0:
                exact(l / r, p / q, what)
        elif op == "%":
            if q != 0 and side != 1:
                exact(a % (b if side == 0 else r), p % q, what)
        elif op == "//":
            if q != 0 and side != 1:
                exact(a // (b if side == 0 else r), Fraction(p // q), what)
        elif op == "neg":
            exact(-a, -p, "neg " + G.srepr(a))
        elif op == "abs":
            exact(abs(a), abs(p), "abs " + G.srepr(a))
            exact(E.Abs(a), abs(p), "Abs " + G.srepr(a))
        elif op == "cmp":
            for nm, f in (("<", lambda u, v: u < v), ("<=", lambda u, v: u <= v), (">", lambda u, v: u > v),
                          (">=", lambda u, v: u >= v), ("==", lambda u, v: u == v)):
                if bool(f(a, b)) != f(p, q) or bool(f(a, r)) != f(p, q):
                    raise Fail("%s %s %s gives %s" % (a, nm, b, f(a, b)))
        elif op == "recip":
            if p != 0:
                exact(a.reciprocal(), 1 / p, "reciprocal " + G.srepr(a))
                exact(a.numerator, Fraction(p.numerator), "numerator")
                exact(a.denominator, Fraction(p.denominator), "denominator")
        elif op == "Sum":
            exact(E.Sum([a, b, E.Rat(s)]), p + q + s, "Sum of %s,%s,%s" % (p, q, s))
        elif op == "Prod":
            exact(E.Prod([a, b, E.Rat(s)]), p * q * s, "Prod of %s,%s,%s" % (p, q, s))
        else:
            x = E.Symbol("x")
            exact((a * x + b) - a * x, q, "(a*x+b)-a*x with %s,%s" % (p, q))
            t = a * x + E.Rat(s) * x
            want = p + s
            got = t / x
            exact(got, want, "(a*x+s*x)/x with %s,%s" % (p, s))


@contract("C02", "rational-order-exact", ["Num.__lt__", "Num.__le__", "Num.__gt__", "Num.__ge__", "Num.__eq__"], 1)
class _:
    def gen(rng):
        a = Fraction(rng.randint(-50, 50), rng.choice([1, 1, 2, 3, 7, 10]))
        if rng.random() < .4:
            a = Fraction(rng.randint(-10**30, 10**30), rng.choice([1, 3, 10**12]))
        b = a if rng.random() < .3 else a + Fraction(rng.choice([1, -1]), rng.choice([1, 10**6, 10**15, 10**17, 10**30]))
        return [E.Rat(a), E.Rat(b)]

    def check(args, rng):
        a, b = args
        p, q = a.value, b.value
        want = (p < q, p <= q, p > q, p >= q, p == q)
        for r in (b, q, int(q) if q.denominator == 1 else b):
            got = (a < r, a <= r, a > r, a >= r, a == r)
            if tuple(map(bool, got)) != want:
                raise Fail("%s against %s: <, <=, >, >=, == give %s" % (p, q, got))


@contract("C02", "rational-powers-exact", ["_accumulate_power", "Rat.__pow__", "Power"], 3)
class _:
    def gen(rng):
        k = rng.random()
        b = grat(rng)
        if k < .35:
            x = Fraction(rng.randint(-6, 6))
        elif k < .8:
            q = rng.choice([2, 2, 2, 3, 3, 4, 5, 6])
            x = Fraction(rng.randint(-7, 7), q)
            if rng.random() < .6:
                m = rng.choice([2, 3, 5, 7, 10, 12, 99, 10**8 + 7])
                n = rng.choice([1, 1, 2, 3, 7, 10**5 + 3])
                b = Fraction(m, n) ** q
                if rng.random() < .3:
                    b = b + rng.choice([1, -1])
        else:
            x = Fraction(rng.randint(-1000, 1000), rng.choice([3, 7, 2, 11]))
            b = Fraction(rng.choice([2, 3, 10, 4, 8]))
        return [b, x, rng.choice(["pow", "Power"])]

    def check(args, rng):
        b, x, how = args
        if b == 0 and x <= 0 or b < 0 and x.denominator != 1:
            raise Skip()
        A, X = E.Rat(b), E.Rat(x)
        if x.denominator == 1:
            if abs(x) * max(b.numerator.bit_length(), b.denominator.bit_length()) > 20000:
                raise Skip()
        res = call("power", (lambda u, v: u ** v) if how == "pow" else E.Power, A, X)
        if x.denominator == 1:
            want = b ** int(x)
            if not isinstance(res, E.Rat) or res.value != want or type(res.value) is not Fraction:
                raise Fail("%s ** %s should be exactly %s but is %s" % (b, x, want, G.srepr(res)))
            return
        # res ** q must equal b ** p exactly, where x = p/q; res is a product of rationals and rational powers
        if has(res, E.Float):
            raise Fail("%s ** %s is inexact: %s" % (b, x, G.srepr(res)))
        form = radical(res)
        q = x.denominator
        L = q
        for (_, ex) in form:
            L = L * ex.denominator // gcd(L, ex.denominator)
        if L * max(abs(x), 1) > 20000:
            raise Skip()
        lhs, rhs = {}, {}
        # compare exponents over a coprime base refinement instead of huge powers
        bases = [abs(z) for (z, _) in form] + [abs(b)]
        if any(z == 0 for z in bases) and b != 0:
            raise Fail("%s ** %s should not vanish but is %s" % (b, x, G.srepr(res)))
        if any(z < 0 for (z, _) in form):
            raise Fail("%s ** %s should be positive, is %s" % (b, x, G.srepr(res)))
        if not radical_equal(form, [(b, x)]):
            raise Fail("%s ** %s is %s, which is a different number" % (b, x, G.srepr(res)))


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def has(e, cls):
    return isinstance(e, cls) or any(has(c, cls) for c in e.children())


def radical(e):
    if isinstance(e, E.Rat):
        return [(e.value, Fraction(1))]
    if isinstance(e, E.Prod):
        return [p for t in e.terms for p in radical(t)]
    if isinstance(e, E.Power) and isinstance(e.exponent, E.Rat):
        return [(b, x * e.exponent.value) for b, x in radical(e.base)]
    raise Fail("not a radical form: " + G.srepr(e))


def radical_equal(f, g):
    """exact equality of products of rational powers of positive rationals, by coprime refinement"""
    pairs = [(b, x) for b, x in f] + [(b, -x) for b, x in g]
    ints = []
    for b, x in pairs:
        for n, s in ((b.numerator, 1), (b.denominator, -1)):
            if n > 1:
                ints.append((n, x * s))
    base = coprime_base([n for n, _ in ints])
    for p in base:
        tot = Fraction(0)
        for n, x in ints:
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            tot += k * x
        if tot != 0:
            return False
    return True


def coprime_base(ns):
    base = []
    for n in ns:
        work = [n]
        while work:
            m = work.pop()
            if m <= 1:
                continue
            for i, b in enumerate(base):
                g = gcd(m, b)
                if g > 1:
                    if g == b and m == b:
                        break
                    base.pop(i)
                    work += [g, m // g, b // g, ] if g != b else [g, m // g]
                    break
            else:
                base.append(m)
    return base


# ------------------------------------------------------------------ C03
def gexpandable(rng):
    g = G.Gen(rng, floats=0.01)
    for _ in range(60):
        k = rng.random()
        try:
            if k < .3:
                e = E.Sum([g.try_expr(rng.choice([0, 1])) for _ in range(rng.choice([2, 2, 3]))]) ** E.Rat(rng.choice([2, 2, 3, 4, -2, -3, 5]))
            elif k < .6:
                fs = [E.Sum([g.try_expr(rng.choice([0, 0, 1])) for _ in range(rng.choice([2, 3]))]) for _ in range(rng.choice([1, 2, 2, 3]))]
                fs += [g.try_expr(1) for _ in range(rng.choice([0, 1]))]
                e = E.Prod(fs)
                if rng.random() < .4:
                    e = e / E.Sum([g.leaf(), g.leaf(), g.leaf()])
            elif k < .75:
                # factors that are forms of one another
                p = E.Sum([g.try_expr(rng.choice([0, 0, 1])) for _ in range(rng.choice([2, 2, 3]))])
                t = g.try_expr(rng.choice([0, 0, 1]))
                q = E.Sum([t * u for u in p.terms]) if isinstance(p, E.Sum) else p
                c = rng.choice([E.Rat(0), E.Rat(1), g.leaf()])
                forms = [p, -p, q + c, t * p + c, q, p ** rng.choice([2, -1, -2]), 2 * p + c, p + c, (q + c) ** rng.choice([2, -1]), 1 / (t * p + c)]
                fs = [q + c, t * p + c] if rng.random() < .3 else [rng.choice(forms) for _ in range(rng.choice([2, 2, 3]))]
                fs += [g.leaf() for _ in range(rng.choice([0, 1]))]
                rng.shuffle(fs)
                e = E.Prod(fs)
            else:
                e = g.expr(3)
                if rng.random() < .3:
                    e = g.func(e)
            if O.size(e) <= 40 and G.sane(e) and e.expandable():
                return e
        except Exception:
            pass
    return (E.Symbol("x") + 1) ** 2


@contract("C03", "expand", ["Expr.expand", "Prod._expand", "Power._expand", "Sum._expand"], 1)
class _:
    def gen(rng):
        return [gexpandable(rng)]

    def check(args, rng):
        e, = args
        checked("expand", lambda q: q.expand(), [e], V(e), rng)


@contract("C03", "expand-polynomial-fully", ["Expr.expand", "Prod._expand", "Power._expand"], .5)
class _:
    def gen(rng):
        g = G.Gen(rng, floats=0)
        fs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            f = E.Rat(0)
            for _ in range(rng.choice([2, 2, 3])):
                f = f + g.rat() * E.Symbol(rng.choice("xyz")) ** rng.randint(0, 2)
            fs.append(f ** rng.choice([1, 1, 2, 3]))
        return [E.Prod(fs)]

    def check(args, rng):
        e, = args
        if not e.expandable():
            raise Skip()
        r = checked("expand", lambda q: q.expand(), [e], V(e), rng)
        for t in (r.terms if isinstance(r, E.Sum) else [r]):
            for f in (t.terms if isinstance(t, E.Prod) else [t]):
                if isinstance(f, E.Sum) or isinstance(f, E.Power) and isinstance(f.base, E.Sum):
                    raise Fail("expansion of %s left the factor %s" % (G.srepr(e), f))


# ------------------------------------------------------------------ C05
def raw_subs(e, s):
    """the tree with the substitution performed and nothing rewritten"""
    if isinstance(e, E.Symbol):
        return s.get(e.name, e)
    if isinstance(e, (E.Sum, E.Prod)):
        return G.raw(type(e), terms=[raw_subs(t, s) for t in e.terms])
    if isinstance(e, E.Power):
        return G.raw(E.Power, base=raw_subs(e.base, s), exponent=raw_subs(e.exponent, s))
    if isinstance(e, E.log):
        return G.raw(E.log, inner=raw_subs(e.inner, s), base=raw_subs(e.base, s))
    if isinstance(e, E.SingleFunc):
        return G.raw(type(e), inner=raw_subs(e.inner, s))
    return e


def subst_spec(e, s, rng=None):
    """value of e with the symbols in s bound to the values of the substituted expressions"""
    t = raw_subs(e, s)

    def f(env, N):
        env2 = dict(env)
        for k, v in s.items():
            env2[k] = O.ev(v, env, N)
        O.ev(t, env, N)      # the stated domain
        return O.ev(e, env2, N)
    return f


@contract("C05", "substitution", ["Expr.subs", "Symbol.subs", "Sum.subs", "Prod.subs", "Power.subs", "log.subs"], 2)
class _:
    def gen(rng):
        e = gexpr(rng, rng.choice([1, 2, 3]))
        g = G.Gen(rng, names=("x", "y", "z", "w"), floats=0)
        s = {}
        for n in rng.sample(["x", "y", "z", "q"], rng.choice([1, 1, 2, 3])):
            k = rng.random()
            s[n] = g.rat() if k < .5 else g.try_expr(rng.choice([0, 1, 2]))
        return [e, s]

    def check(args, rng):
        e, s = args
        names = names_of(e, list(s.values())) | set(s)
        spec = subst_spec(e, s)
        envs = envs_for(rng, names, 10)
        try:
            r = e.subs(dict(s))
        except Exception as ex:
            if undefined_everywhere(spec, envs):
                raise Skip()
            raise Fail("subs %s in %s raised %r" % (G.srepr(s), G.srepr(e), ex))
        numeric = all(isinstance(v, E.Rat) for v in s.values())
        same_value("subs %s in %s" % (G.srepr(s), G.srepr(e)), spec, r, envs, must_define=numeric)
        left = (O.free_names(e) - set(s))
        for v in s.values():
            left |= O.free_names(v)
        if not O.free_names(r) <= left:
            raise Fail("subs %s in %s left a substituted variable in %s" % (G.srepr(s), G.srepr(e), r))


@contract("C05", "numeric-evaluation", ["Expr.evalf", "_evalf"], 2)
class _:
    def gen(rng):
        e = gexpr(rng, rng.choice([0, 1, 2, 3]))
        s = {n: E.Rat(rng.choice([1, 2, 3, Fraction(1, 2), Fraction(3, 7), Fraction(-2, 3), -1, Fraction(5, 4), Fraction(22, 7)]))
             for n in O.free_names(e)}
        return [e, s]

    def check(args, rng):
        e, s = args
        env = {k: v.value for k, v in s.items()}
        try:
            want = O.ev(e, env)
        except (O.Undef, OverflowError, ZeroDivisionError):
            raise Skip()
        r = call("evalf", lambda a, b: a.evalf(dict(b)), e, s)
        try:
            got = O.ev(r, {})
        except O.Undef as u:
            M = O.mp()
            try:
                O.ev(e, env, M)
            except O.Undef:
                raise Skip()
            if boundary(e, env, M):
                raise Skip()
            if "unassigned" in str(u) or isinstance(r, E.Num):
                raise Fail("evalf of %s at %s gives %s" % (G.srepr(e), showenv(env), G.srepr(r)))
            raise Skip()
        m = O.magnitude(e, env)
        if not O.close(want, got, scale=m, tol=1e-6):
            M = O.mp()
            try:
                want2 = O.ev(e, env, M)
            except O.Undef:
                raise Skip()
            if boundary(e, env, M) or abs(M.f(want2) - M.f(want)) > 1e-6 * max(1, m):
                raise Skip()      # ill-conditioned in doubles
            raise Fail("evalf of %s at %s should be %s but is %s" % (G.srepr(e), showenv(env), show(want), G.srepr(r)))
        if not isinstance(r, E.Num):
            raise Fail("evalf of %s at %s is not a number: %s" % (G.srepr(e), showenv(env), G.srepr(r)))


# ------------------------------------------------------------------ C06
FUN = ["sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "Abs", "log2", "logb", "sqrt"]


def fun_spec(name, a, b=None):
    def f(env, N):
        v = O.ev(a, env, N)
        if name == "Abs":
            return abs(v)
        if name == "sqrt":
            O.power_domain_ok(N, a, env, Fraction(1, 2), E.Rat(1, 2))
            return O.pw(N, v, Fraction(1, 2))
        if name in ("log", "log2", "logb"):
            return O.logv(N, v, N.e if name == "log" else O.ev(b, env, N))
        return O.ev(G.raw(getattr(E, name), inner=a), env, N)
    return f


def garg(rng):
    g = G.Gen(rng)
    k = rng.random()
    if k < .25:
        c = E.Rat(Fraction(rng.randint(-30, 30), rng.choice([1, 2, 3, 4, 6, 5, 12])))
        a = c * E.pi
        if rng.random() < .45:
            a = a + g.try_expr(rng.choice([0, 1]))
            if rng.random() < .3:
                a = a + rng.choice([2, 4, -2, -6]) * E.pi * rng.choice([1, E.Symbol("x")])
        return a
    if k < .5:
        inner = g.try_expr(rng.choice([0, 0, 1]))
        f = rng.choice(["asin", "acos", "atan", "sin", "cos", "tan", "sec", "csc", "cot", "log", "Abs"])
        try:
            e = getattr(E, f)(inner)
            if rng.random() < .2:
                e = -e
            return e
        except Exception:
            return inner
    if k < .6:
        return rng.choice([E.Rat(0), E.Rat(1), E.Rat(-1), E.Rat(1, 2), E.e, E.pi, E.Float(0.5), E.Float(2.0), -E.Symbol("x")])
    if k < .7:
        return E.Power(rng.choice([E.e, E.Rat(2), E.Rat(3), E.Symbol("x"), E.Rat(10)]), g.try_expr(1))
    return g.try_expr(rng.choice([0, 1, 2]))


@contract("C06", "function-constructors", ["TrigFunction.__new__", "log.__new__", "Abs.__new__", "special_values"], 3)
class _:
    def gen(rng):
        f = rng.choice(FUN)
        a = garg(rng)
        b = rng.choice([E.Rat(2), E.Rat(3), E.Rat(10), E.e, E.Symbol("y"), E.Rat(1, 2), E.Float(2.5)]) if f == "logb" else E.Rat(2)
        if f in ("log2", "logb") and rng.random() < .3:
            a = E.Power(b, G.Gen(rng).try_expr(1))
        return [f, a, b]

    def check(args, rng):
        f, a, b = args
        if not G.sane(a):
            raise Skip()
        spec = fun_spec(f, a, b)
        if f in ("log2", "logb"):
            checked("log base", E.log, [a, b], spec, rng)
        else:
            checked(f, getattr(E, f), [a], spec, rng, extra=4)


@contract("C06", "function-of-constant-multiple-of-pi", ["TrigFunction.__new__", "special_values"], .7)
class _:
    def gen(rng):
        return [rng.choice(["sin", "cos", "tan", "sec", "csc", "cot"]), Fraction(rng.randint(-60, 60), rng.choice([1, 2, 3, 4, 6, 5, 7]))]

    def check(args, rng):
        f, c = args
        checked(f, lambda a: getattr(E, f)(a), [E.Rat(c) * E.pi], fun_spec(f, E.Rat(c) * E.pi), rng)
