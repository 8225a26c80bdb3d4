"""C04 differentiation, C07 simplification"""
from core import *
from c_basic import gexpr, checked, envs_for, FUN, fun_spec, garg


def mpv(N, v):
    return N.f(v)


def numdiff(e, var, env):
    """4-point central difference in 60-digit arithmetic, None where the function is not defined around the point"""
    M = O.mp()
    h = M.mp.mpf(10) ** -12
    vals = []
    x0 = M.f(env[var])
    env = {k: M.f(v) for k, v in env.items()}
    for k in (-2, -1, 1, 2):
        en = dict(env)
        en[var] = x0 + k * h
        vals.append(M.f(sv(V(e), en, M)))
    d1 = (vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * h)
    d2 = (vals[2] - vals[1]) / (2 * h)
    if abs(d1 - d2) > 1e-9 * max(1, abs(d1)):
        raise O.Undef("not smooth here")
    return d1


def smooth(e, var, env):
    if O.val(e, env) is None or zero_base(e, env):
        return False
    try:
        numdiff(e, var, env)
        return True
    except O.Undef:
        return False


def check_derivative(what, f, df, var, envs, need=0):
    """df is the derivative of f with respect to var at every sampled point where both are defined"""
    M = O.mp()
    hits = 0
    for env in envs:
        if O.val(f, env) is None or zero_base(f, env):
            continue
        try:
            d = numdiff(f, var, env)
        except O.Undef:
            continue
        menv = {k: M.f(v) for k, v in env.items()}
        try:
            got = M.f(sv(V(df), menv, M))
        except O.Undef as u:
            if "KF" in str(u) or "overflow" in str(u) or "huge" in str(u) or boundary(df, menv, M):
                continue
            if abs(d) > 1e25:
                continue
            raise Fail("%s: derivative should be %s at %s but %s is undefined (%s)" % (what, show(d), showenv(env), G.srepr(df), u))
        tol = 1e-6 if floaty(df) or floaty(f) else 1e-9
        noise = O.magnitude(f, menv, M) * 1e-25
        mag = O.magnitude(df, menv, M) if floaty(df) else 0
        if abs(d - got) > tol * max(abs(d), abs(got), 1e-6, mag, noise):
            raise Fail("%s: derivative should be %s at %s but %s has value %s" % (what, show(d), showenv(env), G.srepr(df), show(got)))
        hits += 1
    return hits


def zero_base(e, env):
    """0 ** g(x) is not claimed to be differentiable"""
    for t in walk(e):
        if isinstance(t, E.Power) and not isinstance(t.exponent, E.Num):
            v = O.val(t.base, env)
            if v is None or v == 0:
                return True
    return False


def generic_envs(rng, names, n=6):
    out = []
    for i in range(n):
        m = ["pos", "any", "unit", "pos", "any", "any"][i % 6]
        e = {}
        for k in names:
            if m == "pos":
                e[k] = Fraction(rng.randint(3, 300), 101)
            elif m == "unit":
                e[k] = Fraction(rng.randint(-97, 97), 103)
            else:
                e[k] = Fraction(rng.randint(-400, 400), 107)
        out.append(e)
    return out


@contract("C04", "derivative", ["Expr.diff", "diff", "Sum.diff", "Prod.diff", "Power.diff", "TrigFunction.diff", "log.diff", "Abs.diff"], 3)
class _:
    def gen(rng):
        e = gexpr(rng, rng.choice([0, 1, 1, 2, 2, 3]))
        return [e, rng.choice(["x", "x", "x", "y", "w"])]

    def check(args, rng):
        e, var = args
        v = E.Symbol(var)
        try:
            d = e.diff(v)
        except NotImplementedError:
            if any(power_both(t, v) for t in walk(e)):
                raise Skip()      # x**x: refused openly, and pinned by an expected-failure test
            raise
        except Timeout:
            raise
        except Exception as ex:
            if not any(smooth(e, var, en) for en in generic_envs(rng, names_of(e) | {var}, 12)):
                raise Skip()
            raise Fail("diff of %s raised %r" % (G.srepr(e), ex))
        if not O.free_names(d) <= O.free_names(e):
            raise Fail("derivative of %s mentions a new variable: %s" % (G.srepr(e), d))
        check_derivative("d/d%s of %s" % (var, G.srepr(e)[:600]), e, d, var, generic_envs(rng, names_of(e) | {var}))


def walk(e):
    yield e
    for c in e.children():
        yield from walk(c)


def power_both(t, v):
    return isinstance(t, E.Power) and t.base.contains(v) and t.exponent.contains(v)


@contract("C04", "derivative-rules", ["TrigFunction.diff", "Power.diff", "log.diff", "Prod.diff", "diff"], 1.5)
class _:
    def gen(rng):
        g = G.Gen(rng)
        k = rng.choice(["f", "f", "pow", "exp", "prod", "sum"])
        u = g.poly(E.Symbol("x")) if rng.random() < .6 else g.try_expr(1)
        if k == "f":
            f = rng.choice(["sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "Abs", "log3"])
            try:
                return [E.log(u, 3) if f == "log3" else getattr(E, f)(u)]
            except Exception:
                return [u]
        if k == "pow":
            return [E.Power(u, g.small_exp())] if not (u == 0) else [u]
        if k == "exp":
            return [E.Power(rng.choice([E.e, E.Rat(2), E.Symbol("y")]), u)]
        if k == "prod":
            return [E.Prod([E.Symbol("x"), u, g.try_expr(1)])]
        return [E.Sum([u, g.try_expr(1)])]

    def check(args, rng):
        e, = args
        x = E.Symbol("x")
        if any(power_both(t, x) for t in walk(e)) or not G.sane(e):
            raise Skip()
        if not any(smooth(e, "x", en) for en in generic_envs(rng, names_of(e) | {"x"}, 12)):
            raise Skip()
        d = call("diff", E.diff, e, x)
        check_derivative("d/dx of %s" % G.srepr(e)[:600], e, d, "x", generic_envs(rng, names_of(e) | {"x"}))
