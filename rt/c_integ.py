"""C08 antiderivatives, C09 definite integrals"""
from core import *
from c_basic import gexpr, envs_for
from c_calc import check_derivative, generic_envs, numdiff, walk
from c_simplify import gtrig
import math
import simpy.transforms as T
import simpy.integration as I
import simpy.integral_table as IT


X = E.Symbol("x")


def gintegrand(rng):
    g = G.Gen(rng, floats=0, names=("x",))
    x = X
    k = rng.random()
    c = lambda: E.Rat(rng.choice([1, 2, 3, -1, -2, 4, 5, Fraction(1, 2), Fraction(2, 3)]))
    lin = lambda: c() * x + rng.choice([0, c(), c()])
    try:
        if k < .12:
            return g.poly(x, 4)
        if k < .22:
            return g.poly(x, 3) / g.poly(x, 2)
        if k < .3:
            return c() / (lin() * lin())
        if k < .4:
            return E.Prod([getattr(E, rng.choice(["sin", "cos"]))(rng.choice([x, x, 2 * x, 3 * x])) ** rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([1, 2, 2]))])
        if k < .48:
            return getattr(E, rng.choice(["sin", "cos", "tan", "sec", "csc", "cot"]))(lin()) ** rng.choice([1, 1, 2, 2, 3])
        if k < .56:
            return x ** rng.choice([1, 2]) * rng.choice([E.sin(x), E.cos(2 * x), E.e ** x, E.e ** (-x), E.log(x), E.e ** (2 * x)])
        if k < .62:
            u = rng.choice([x ** 2 + 1, x ** 3, E.sin(x), E.cos(x), E.log(x), E.tan(x), E.e ** x, 2 * x + 3])
            f = rng.choice([lambda u: u ** 2, lambda u: E.e ** u, lambda u: 1 / u, E.sin, E.cos, E.sqrt, lambda u: u ** -2])
            return f(u) * u.diff(x)
        if k < .68:
            return 1 / rng.choice([x ** 2 + rng.choice([1, 4, 9, 2]), E.sqrt(rng.choice([1, 4, 9]) - x ** 2), x ** 2 + 2 * x + 5, x ** 2 - 4, E.sqrt(1 - 4 * x ** 2), x ** 2 + 6 * x + 10])
        if k < .74:
            return rng.choice([E.log(x), E.asin(x), E.atan(x), E.acos(x), E.log(2 * x), E.log(x) / x, E.asin(2 * x)]) * c()
        if k < .8:
            return E.Power(lin(), rng.choice([2, 3, -1, -2, Fraction(1, 2), Fraction(-1, 2), Fraction(3, 2)]))
        if k < .86:
            return rng.choice([E.e, E.Rat(2), E.Symbol("a")]) ** lin() * c()
        if k < .91:
            return E.Symbol("a") * rng.choice([x ** 2, E.sin(x), 1 / x, x, E.cos(E.Symbol("a") * x), x ** E.Symbol("n")])
        if k < .97:
            # products that need one or two integrations by parts
            at = lambda: rng.choice([lambda: E.e ** (c() * x), lambda: getattr(E, rng.choice(["sin", "cos", "tan", "sec"]))(c() * x), lambda: x ** rng.choice([1, 2, -1, -2]),
                                     lambda: E.log(x), lambda: E.atan(x), lambda: E.Rat(2) ** x])()
            return at() * at() * c()
        return E.Sum([gintegrand(rng), gintegrand(rng)])
    except Exception:
        return x ** 2


def gmixed(rng):
    """products of functions of parts that suggest the same, or nearly the same, new variable; parameters with unlucky names"""
    x = X
    k = rng.choice([2, 3, Fraction(1, 2)])
    n = rng.choice([2, 2, 3])
    fs = [E.sin, E.cos, E.tan, lambda u: E.e ** u, lambda u: E.log(u + 1), lambda u: 1 / (u + 1)]
    f = lambda: rng.choice(fs)
    par = E.Symbol(rng.choice(["u", "u_", "t", "u", "a"]))
    r = rng.random()
    try:
        if r < .25:
            return f()(k * x) * f()(rng.choice([k ** n, k, k + 1]) * x ** rng.choice([n, n, 1]))
        if r < .45:
            return x ** rng.choice([1, 1, n - 1]) * f()(x ** n) * f()(rng.choice([x ** n, x, 2 * x ** n]))
        if r < .55:
            return x * E.sin(x ** 2) * E.cos(x ** 2) * f()(rng.choice([x, x ** 2]))
        if r < .7:
            v = rng.choice([E.sin, E.cos, E.tan, E.log])(x)
            return f()(v) * v.diff(x) * rng.choice([E.Rat(1), v, x, f()(x)])
        if r < .9:
            return rng.choice([E.e ** (par * x), par * x * f()(x ** 2), f()(x * 2 + par), E.sqrt(par - x ** 2), E.sin(x) * E.cos(x) ** par, (par * x + 1) ** 3])
        return E.Sum([gmixed(rng), gintegrand(rng)])
    except Exception:
        return x * E.cos(x ** 2)


def principal(env, *es):
    """every angle of a trigonometric subterm lies in the first quadrant (known finding KF3: the u = sin x
    substitutions write cos x as sqrt(1 - sin^2 x), so nothing is claimed where that root has the other sign)"""
    for e in es:
        for t in walk(e):
            if isinstance(t, E.TrigFunction) and not t.is_inverse:
                try:
                    a = float(O.ev(t.inner, env))
                except Exception:
                    return False
                if math.sin(a) < 1e-9 or math.cos(a) < 1e-9:
                    return False
    return True


def deep_env(rng, names):
    out = []
    for i in range(48):
        e = {}
        for n in names:
            e[n] = Fraction(rng.randint(5, 290), 199) if i % 2 == 0 or n != "x" else Fraction(rng.randint(-399, 399), 199)
        out.append(e)
    return out


def check_anti(what, f, Fx, var, rng, envs=None):
    """F' = f wherever both are defined.  log(negative) is outside the domain, so such points say nothing."""
    if not isinstance(Fx, E.Expr):
        raise Fail("%s: not an expression %r" % (what, Fx))
    if any(isinstance(t, E.Num) and isinstance(t.value, float) and not math.isfinite(t.value) for t in walk(Fx)):
        raise Fail("%s: the answer %s contains a number that is not real" % (what, G.srepr(Fx)))
    extra = O.free_names(Fx) - O.free_names(f) - {var}
    if extra:
        raise Fail("%s: the answer %s mentions %s" % (what, Fx, sorted(extra)))
    M = O.mp()
    n = 0
    for env in envs or deep_env(rng, O.free_names(f) | {var}):
        if n >= 8:
            break
        if not principal(env, f, Fx):
            continue
        if O.val(f, env) is None or O.val(Fx, env) is None:
            continue
        try:
            d = numdiff(Fx, var, env)
            want = M.f(sv(V(f), {k: M.f(v) for k, v in env.items()}, M))
        except O.Undef:
            continue
        noise = O.magnitude(Fx, env) * 1e-25
        if abs(d - want) > 1e-8 * max(abs(d), abs(want), 1e-4, noise) * (100 if floaty(Fx) else 1):
            raise Fail("%s: the answer %s has derivative %s at %s, the integrand is %s" % (what, G.srepr(Fx), show(d), showenv(env), show(want)))
        n += 1
    return n


@contract("C08", "indefinite-integral", ["integrate", "Integration.integrate", "Transform.backward"], 2)
class _:
    def gen(rng):
        return [gmixed(rng) if rng.random() < .2 else gintegrand(rng), rng.random() < .8]

    def check(args, rng):
        f, final = args
        if not G.sane(f) or O.size(f) > 40:
            raise Skip()
        try:
            r = with_timeout(6, I.Integration().integrate, f, X, final)
        except Timeout:
            raise
        except Exception as ex:
            raise Skip()          # a crash of the search is not a wrong answer (C10 watches the search)
        if r is None:
            raise Skip()
        if not check_anti("integral of %s dx" % G.srepr(f), f, r, "x", rng):
            raise Skip()


@contract("C08", "integral-table", ["check_integral_table"], 2)
class _:
    def gen(rng):
        g = G.Gen(rng, floats=0, names=("x", "a"))
        k = rng.random()
        x = X
        a = E.Symbol("a")
        if k < .3:
            return [E.Power(x, rng.choice([g.small_exp(), a, a + 1, E.Rat(-1)])), "x"]
        if k < .5:
            return [E.Power(rng.choice([E.e, E.Rat(2), E.Rat(1, 2), a, E.pi, E.Float(2.5)]), x), "x"]
        if k < .8:
            v = rng.choice("xt")
            t = E.Symbol(v)
            return [rng.choice([E.sin(t), E.cos(t), E.sec(t) ** 2, E.sec(t), t, E.Rat(3), a, E.csc(t) ** 2, E.sin(a), E.tan(t), E.sin(t) ** 2, E.cos(2 * t)]), v]
        return [g.try_expr(1), "x"]

    def check(args, rng):
        f, v = args
        try:
            r = IT.check_integral_table(f, E.Symbol(v))
        except Exception as ex:
            if all(O.val(f, en) is None for en in deep_env(rng, O.free_names(f) | {v})):
                raise Skip()
            raise Fail("table lookup of %s raised %r" % (G.srepr(f), ex))
        if r is None:
            raise Skip()
        if E.Power(E.Symbol("a"), X) == f:
            pass
        if not check_anti("table integral of %s" % G.srepr(f), f, r, v, rng):
            raise Skip()


def subsolve(node, depth=0):
    """give every non-filler leaf of the subtree a solution by an independent run of the whole integrator"""
    for leaf in node.leaves:
        if leaf.type == "SOLUTION":
            continue
        r = with_timeout(4, I.Integration().integrate, leaf.expr, leaf.var, False)
        if r is None:
            raise Skip()
        leaf.type = "SOLUTION"
        leaf.solution = r


@contract("C08", "each-rule", ["PullConstant", "Additivity", "Expand", "PolynomialDivision", "PartialFractions", "LinearUSub", "PolynomialUSub", "TrigUSub2",
                               "RewriteTrig", "InverseTrigUSub", "ProductToSum", "ByParts", "GenericUSub", "CompleteTheSquare", "RewritePythagorean", "Simplify"], 4)
class _:
    def gen(rng):
        return [gmixed(rng) if rng.random() < .2 else gintegrand(rng), rng.choice(T.SAFE_TRANSFORMS + T.HEURISTICS + [T.Simplify]).__name__]

    def check(args, rng):
        f, name = args
        if not G.sane(f) or O.size(f) > 40:
            raise Skip()
        node = T.Node(f, X)
        tr = getattr(T, name)()
        try:
            if not tr.check(node):
                raise Skip()
            tr.forward(node)
        except (Skip, Timeout):
            raise
        except Exception as ex:
            raise Skip()
        if not node.children:
            raise Skip()
        # every alternative must be sound on its own
        kids = list(node.children)
        alts = [kids] if node.type == "AND" or len(kids) == 1 else [[k] for k in kids]
        hits = 0
        for alt in alts:
            node._children = alt
            node.solution = None
            try:
                for k in alt:
                    subsolve(k)
                I.Integration._go_backwards(node)
            except (Skip, Timeout):
                continue
            except Exception:
                continue
            if node.solution is None:
                continue
            hits += check_anti("rule %s on %s dx" % (name, G.srepr(f)), f, node.solution, "x", rng)
        if not hits:
            raise Skip()


@contract("C08", "rewriting-rules-keep-the-integrand", ["Expand", "PolynomialDivision", "PartialFractions", "RewriteTrig", "ProductToSum", "CompleteTheSquare", "RewritePythagorean", "Simplify", "Additivity", "PullConstant"], 2)
class _:
    def gen(rng):
        f = gintegrand(rng) if rng.random() < .6 else gtrig(rng)
        return [f, rng.choice(["Expand", "PolynomialDivision", "PartialFractions", "RewriteTrig", "ProductToSum", "CompleteTheSquare", "RewritePythagorean", "Simplify", "PullConstant", "Additivity"])]

    def check(args, rng):
        f, name = args
        if not G.sane(f) or O.size(f) > 45:
            raise Skip()
        node = T.Node(f, X)
        tr = getattr(T, name)()
        try:
            if not tr.check(node):
                raise Skip()
            tr.forward(node)
        except (Skip, Timeout):
            raise
        except Exception as ex:
            raise Skip()
        if not node.children:
            raise Skip()
        envs = deep_env(rng, O.free_names(f) | {"x"})[:8]
        if name == "PullConstant":
            same_value("PullConstant on %s" % G.srepr(f), V(f), G.raw(E.Prod, terms=[tr._constant, node.children[0].expr]), envs, must_define=False)
            if tr._constant.contains(X):
                raise Fail("PullConstant pulled %s out of %s" % (tr._constant, G.srepr(f)))
        elif name == "Additivity":
            same_value("Additivity on %s" % G.srepr(f), V(f), G.raw(E.Sum, terms=[c.expr for c in node.children] + [E.Rat(0)]), envs, must_define=False)
        else:
            for c in node.children:
                same_value("%s on %s" % (name, G.srepr(f)), V(f), c.expr, envs, must_define=False)
                if c.var != node.var:
                    raise Fail("%s changed the variable" % name)


@contract("C08", "substitution-rules", ["LinearUSub", "PolynomialUSub", "TrigUSub2", "InverseTrigUSub", "GenericUSub"], 2)
class _:
    def gen(rng):
        return [gmixed(rng) if rng.random() < .5 else gintegrand(rng), rng.choice(["LinearUSub", "PolynomialUSub", "TrigUSub2", "InverseTrigUSub", "GenericUSub"])]

    def check(args, rng):
        f, name = args
        if not G.sane(f) or O.size(f) > 40:
            raise Skip()
        node = T.Node(f, X)
        tr = getattr(T, name)()
        try:
            if not tr.check(node):
                raise Skip()
            tr.forward(node)
        except (Skip, Timeout):
            raise
        except Exception as ex:
            raise Skip()
        if not node.children:
            raise Skip()
        c = node.children[0]
        u = tr._u
        if c.var.name in O.free_names(f) | {"x"}:
            raise Fail("%s on %s: the new variable %s is already used" % (name, G.srepr(f), c.var))
        if X.name in O.free_names(c.expr):
            # solved as if x were a parameter: harmless only if the value does not depend on x
            for env in deep_env(rng, O.free_names(c.expr)):
                for g in ("3/7", "5/11", "1/13"):
                    a = O.val(c.expr, env)
                    b = O.val(c.expr, dict(env, x=Fraction(g)))
                    if a is not None and b is not None and abs(a - b) > 1e-9 * max(1, abs(a), abs(b)):
                        raise Fail("%s on %s with u = %s: the transformed integrand %s still depends on x" % (name, G.srepr(f), u, c.expr))
            raise Skip()
        # g(u(x)) * u'(x) = f(x)
        M = O.mp()
        hits = 0
        for env in deep_env(rng, O.free_names(f) | {"x"}):
            if hits >= 8:
                break
            if not principal(env, f):
                continue
            try:
                menv = {k: M.f(v) for k, v in env.items()}
                uv = sv(V(u), menv, M)
                du = numdiff(u, "x", env)
                e2 = dict(menv)
                e2[c.var.name] = uv
                got = M.f(sv(V(c.expr), e2, M)) * du
                want = M.f(sv(V(f), menv, M))
            except O.Undef:
                continue
            hits += 1
            if abs(got - want) > 1e-12 * max(abs(got), abs(want), 1e-6):
                raise Fail("%s on %s with u = %s: transformed integrand %s gives %s instead of %s at %s" % (
                    name, G.srepr(f), u, G.srepr(c.expr), show(got), show(want), showenv(env)))
        if not hits:
            raise Skip()


# ---------------------------------------------------------------- C09
def simpson(f, a, b, n=400):
    h = (b - a) / n
    s = 0.0
    for i in range(n + 1):
        v = O.FLOAT.f(sv(V(f), {"x": a + i * h}, O.FLOAT))
        s += v * (1 if i in (0, n) else 4 if i % 2 else 2)
    return s * h / 3


@contract("C09", "definite-integral", ["integrate", "Integration.integrate_bounds"], 1)
class _:
    def gen(rng):
        f = gintegrand(rng)
        a = Fraction(rng.randint(-8, 8), rng.choice([1, 1, 2, 3, 5]))
        b = a + Fraction(rng.randint(-12, 12), rng.choice([3, 5, 8, 1]))
        k = rng.choice(["xab", "ab"])
        if rng.random() < .5:
            a, b = abs(a) / 5 + Fraction(1, 7), abs(b) / 5 + Fraction(1, 7)
        return [f, a, b, k]

    def check(args, rng):
        f, a, b, k = args
        if O.free_names(f) != {"x"} or not G.sane(f) or O.size(f) > 40:
            raise Skip()
        lo, hi = float(min(a, b)), float(max(a, b))
        try:
            F0 = with_timeout(6, I.integrate, f, X)
            r = with_timeout(6, I.integrate, f, (X, E.Rat(a), E.Rat(b)) if k == "xab" else (E.Rat(a), E.Rat(b)))
        except Timeout:
            raise
        except Exception:
            raise Skip()
        if r is None or F0 is None:
            raise Skip()
        M = O.mp()
        try:
            Fa, Fb = M.f(O.ev(F0, {"x": a}, M)), M.f(O.ev(F0, {"x": b}, M))
            got = M.f(O.ev(r, {}, M))
        except O.Undef:
            raise Skip()
        if O.free_names(r):
            raise Fail("definite integral of %s from %s to %s still has a variable: %s" % (G.srepr(f), a, b, r))
        # continuous integrand and antiderivative on the whole interval?
        cont = True
        try:
            prev = None
            for i in range(401):
                xv = lo + (hi - lo) * i / 400
                v = O.FLOAT.f(O.ev(f, {"x": xv}))
                w = O.FLOAT.f(O.ev(F0, {"x": xv}))
                if abs(v) > 1e3 or prev is not None and (abs(v - prev[0]) > .5 * max(1, abs(v)) or abs(w - prev[1]) > .5 * max(1, abs(w))):
                    cont = False
                    break
                prev = (v, w)
                if not principal({"x": xv}, f, F0):
                    cont = False
                    break
        except (O.Undef, ZeroDivisionError, OverflowError, ValueError):
            cont = False
        if not all(principal({"x": xv}, f, F0) for xv in (a, b)):
            raise Skip()
        if abs(got - (Fb - Fa)) > 1e-9 * max(1, abs(Fa), abs(Fb)):
            raise Fail("definite integral of %s from %s to %s is %s = %s but the antiderivative %s gives %s" % (
                G.srepr(f), a, b, r, show(got), F0, show(Fb - Fa)))
        if not cont:
            return
        try:
            s = simpson(f, float(a), float(b)) if a != b else 0.0
        except (O.Undef, ZeroDivisionError, OverflowError, ValueError):
            return
        if abs(float(got) - s) > 1e-4 * max(1, abs(s)):
            raise Fail("definite integral of %s from %s to %s is %s = %s but the area is %s" % (G.srepr(f), a, b, r, show(got), s))

@contract("C09", "definite-integrals-one-after-the-other", ["integrate", "Integration.integrate_bounds"], .6)
class _:
    def gen(rng):
        parts = lambda t: rng.choice([t, t ** 2, t ** 3, E.sin(t), E.cos(t), E.e ** t, t + 1, E.cos(2 * t), 1 / (t + 2), E.Rat(1)])
        x, y = E.Symbol("x"), E.Symbol("y")
        calls = [(rng.choice("xy"), Fraction(rng.randint(0, 6), rng.choice([1, 2, 3])), Fraction(rng.randint(1, 9), rng.choice([2, 3, 7]))) for _ in range(3)]
        return [parts(x), parts(y), calls, rng.random() < .3]

    def check(args, rng):
        fx, fy, calls, reuse = args
        it = I.Integration()
        for n, (v, a, b) in enumerate(calls):
            f = fx * fy
            try:
                if reuse:
                    r = with_timeout(6, it.integrate_bounds, f, (E.Symbol(v), E.Rat(a), E.Rat(b)))
                else:
                    r = with_timeout(6, I.integrate, f, (E.Symbol(v), E.Rat(a), E.Rat(b)))
            except Timeout:
                raise
            except Exception:
                raise Skip()
            if r is None:
                raise Skip()
            on, other, o = (fx, fy, "y") if v == "x" else (fy, fx, "x")
            if v in O.free_names(r):
                raise Fail("integral number %d, of %s over %s from %s to %s, still has %s: %s" % (n + 1, f, v, a, b, v, r))
            at = Fraction(rng.randint(1, 9), 7)
            g = lambda t: O.FLOAT.f(sv(V(on), {v: t}, O.FLOAT))
            m, h = 200, (float(b) - float(a)) / 200
            area = sum((1 if k in (0, m) else 4 if k % 2 else 2) * g(float(a) + k * h) for k in range(m + 1)) * h / 3
            want = area * O.FLOAT.f(sv(V(other), {o: float(at)}, O.FLOAT))
            try:
                got = float(O.FLOAT.f(O.ev(r, {o: float(at)})))
            except O.Undef:
                raise Skip()
            if abs(got - want) > 1e-5 * max(1, abs(want)):
                raise Fail("integral number %d, of %s over %s from %s to %s, is %s, at %s = %s it should be %s" % (n + 1, f, v, a, b, r, o, at, want))


@contract("C09", "no-number-without-an-antiderivative", ["integrate", "Integration.integrate_bounds"], .4)
class _:
    def gen(rng):
        x, y = E.Symbol("x"), E.Symbol("y")
        f = rng.choice([abs(x), E.sin(x ** 2), E.log(E.sin(x)), 1 / E.log(x), x * E.tan(x), E.sqrt(1 + x ** 3), x / E.sin(x), E.tan(x ** 2), E.e ** (x ** 2),
                        E.e ** E.sin(x), E.log(1 + x) / x, E.asin(x) / x, 1 / E.sqrt(1 + x ** 4)])
        if rng.random() < .5:
            f = f * rng.choice([y, E.Rat(3), E.Rat(-1, 2)]) + rng.choice([x, y, E.Rat(1), x ** 2])
        a = Fraction(rng.randint(-4, 6), rng.choice([1, 2, 3]))
        b = rng.choice([a, -a, a + 1, Fraction(rng.randint(-4, 6), 2), a / 2])
        return [f, rng.choice([E.Rat(a), y]) if rng.random() < .3 else E.Rat(a), b]

    def check(args, rng):
        f, a, b = args
        b = a if rng.random() < .3 else E.Rat(b)
        try:
            if with_timeout(6, I.integrate, f, X) is not None:
                raise Skip()
            r = with_timeout(6, I.integrate, f, (X, a, b))
        except Timeout:
            raise
        except Skip:
            raise
        except Exception:
            raise Skip()
        if r is not None:
            raise Fail("no antiderivative of %s is found, but its integral from %s to %s is given as %s" % (G.srepr(f), a, b, r))
