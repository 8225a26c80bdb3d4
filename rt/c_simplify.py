"""C07 simplification keeps the value"""
from core import *
from c_basic import gexpr, checked, envs_for
import importlib
S = importlib.import_module("simpy.simplify.simplify")
P = importlib.import_module("simpy.simplify.product_to_sum")

TR = ["sin", "cos", "tan", "sec", "csc", "cot"]


def gtrig(rng):
    g = G.Gen(rng, floats=0.01)
    def inner():
        k = rng.random()
        x, y = E.Symbol("x"), E.Symbol("y")
        return rng.choice([x, x, x, 2 * x, y, x + y, 3 * x, x / 2, x ** 2]) if k < .9 else g.try_expr(1)
    base = [inner() for _ in range(rng.choice([1, 1, 1, 2]))]
    def fac():
        f = getattr(E, rng.choice(TR))(rng.choice(base))
        return f ** rng.choice([1, 1, 2, 2, 2, 3, 4, -1, -2]) if rng.random() < .8 else f
    def term():
        fs = [fac() for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        if rng.random() < .5:
            fs.append(g.rat())
        if rng.random() < .3:
            fs.append(E.Symbol(rng.choice("xyz")))
        return E.Prod(fs)
    return E.Sum([term() for _ in range(rng.choice([1, 2, 2, 3, 4]))])


def gpyth(rng):
    """shapes close to the pythagorean identities with shared factors"""
    g = G.Gen(rng, floats=0)
    x, y = E.Symbol("x"), E.Symbol("y")
    u, v = rng.choice([x, 2 * x, x + 1]), rng.choice([y, x, 3 * x])
    c = rng.choice([E.Rat(1), g.rat(), E.Symbol("z"), E.cos(v) ** 2, E.sin(v) ** 2, E.tan(v), E.sin(v) * E.Symbol("z")])
    c2 = c if rng.random() < .75 else rng.choice([-c, g.rat(), E.cos(u) ** 2])
    pairs = [(E.sin(u) ** 2, E.cos(u) ** 2), (E.Rat(1), E.tan(u) ** 2), (E.Rat(1), -E.sin(u) ** 2), (E.Rat(1), -E.cos(u) ** 2),
             (E.Rat(-1), E.sec(u) ** 2), (E.Rat(1), E.cot(u) ** 2), (E.Rat(-1), E.csc(u) ** 2), (E.sec(u) ** 2, -E.tan(u) ** 2),
             (E.sec(u) ** 4, E.tan(u) ** 2), (E.sin(u) * E.cos(v), E.cos(u) * E.sin(v)), (E.sin(u) ** 3, E.sin(u)), (E.Rat(1), E.sin(u) ** 2)]
    a, b = rng.choice(pairs)
    ts = [c * a, c2 * b]
    for _ in range(rng.choice([0, 0, 1, 2])):
        a, b = rng.choice(pairs)
        ts += [rng.choice([c, E.Rat(1)]) * a, b]
    s = E.Sum(ts)
    if rng.random() < .15:
        s = s ** 2
    if rng.random() < .15:
        s = s * g.leaf()
    return s


def glogs(rng):
    g = G.Gen(rng, floats=0)
    def arg():
        k = rng.random()
        if k < .3:
            return E.Prod([g.try_expr(1) for _ in range(2)])
        if k < .6:
            return E.Power(g.try_expr(1), g.small_exp())
        if k < .75:
            return E.Abs(E.Prod([g.try_expr(1), g.try_expr(1)]))
        if k < .85:
            x = E.Symbol("x")
            return getattr(E, rng.choice(TR))(x)
        return E.Symbol("x") * g.try_expr(1) + E.Symbol("x") * g.rat()
    for _ in range(40):
        try:
            l = E.log(arg()) if rng.random() < .6 else E.log(arg(), rng.choice([2, 3, 10, E.Symbol("y")]))
            e = rng.choice([l, l * g.rat(), l + g.try_expr(1), l ** 2])
            if G.sane(e) and O.size(e) < 50:
                return e
        except Exception:
            pass
    return E.log(E.Symbol("x") ** 2)


def grand(rng):
    k = rng.random()
    try:
        e = gtrig(rng) if k < .35 else gpyth(rng) if k < .65 else glogs(rng) if k < .8 else gexpr(rng, 3)
    except Exception:
        e = E.Symbol("x")
    return e if O.size(e) < 70 and G.sane(e) else E.Symbol("x")


def simp(what, fn, e, rng, none_ok=False):
    envs = envs_for(rng, names_of(e), 10)
    if all(O.val(e, en) is None for en in envs):
        raise Skip()
    try:
        r = fn(e)
    except Timeout:
        raise
    except Exception as ex:
        raise Fail("%s of %s raised %r" % (what, G.srepr(e), ex))
    if r is None and none_ok:
        raise Skip()
    same_value("%s(%s)" % (what, G.srepr(e)[:700]), V(e), r, envs, must_define=False)
    # the result must not be needlessly undefined: it is defined somewhere with all variables positive if e is
    pos = [G.env(rng, names_of(e), "pos") for _ in range(12)]
    d = [en for en in pos if O.val(e, en) is not None]
    if len(d) >= 6 and all(O.val(r, en) is None for en in d):
        M = O.mp()
        if all(O.val(r, en, M) is None and O.val(e, en, M) is not None and not boundary(r, en, M) for en in d[:3]) and not isinstance(r, E.Num):
            if not has_log(e) and not has_log(r):
                raise Fail("%s(%s) = %s is undefined wherever the input is defined" % (what, G.srepr(e), G.srepr(r)))
    return r


def has_log(e):
    return isinstance(e, E.log) or any(has_log(c) for c in e.children())


@contract("C07", "simplify", ["simplify", "trig_simplify", "expand_logs"], 3)
class _:
    def gen(rng):
        return [grand(rng)]

    def check(args, rng):
        simp("simplify", lambda q: q.simplify(), args[0], rng)


@contract("C07", "expand-logs", ["expand_logs", "_log_perform"], 1.5)
class _:
    def gen(rng):
        return [glogs(rng)]

    def check(args, rng):
        simp("expand_logs", S.expand_logs, args[0], rng)


@contract("C07", "pythagorean", ["_pythagorean_perform", "pythagorean_simplification"], 1.5)
class _:
    def gen(rng):
        return [gpyth(rng)]

    def check(args, rng):
        simp("pythagorean_simplification", S.pythagorean_simplification, args[0], rng)


@contract("C07", "trig-steps", ["_pythagorean_complex_perform", "rewrite_as_one_fraction", "_reciprocate_trigs", "_combine_trigs", "sectan", "product_to_sum"], 2)
class _:
    def gen(rng):
        return [rng.choice(["complex", "fraction", "recip", "combine", "sectan", "pts", "pts_unit"]), gtrig(rng) if rng.random() < .6 else gpyth(rng)]

    def check(args, rng):
        k, e = args
        if k in ("pts", "sectan", "complex") and not e.has(E.TrigFunctionNotInverse):
            raise Skip()
        if k == "sectan":
            e = e if isinstance(e, E.Sum) else e + E.tan(E.Symbol("x")) ** 2 - E.sec(E.Symbol("x")) ** 2
        fn = dict(complex=S._pythagorean_complex_perform, fraction=S.rewrite_as_one_fraction, recip=S.reciprocate_trigs,
                  combine=S._combine_trigs, sectan=S.sectan, pts=P.product_to_sum, pts_unit=P.product_to_sum_unit)[k]
        simp(k, fn, e, rng, none_ok=True)


@contract("C07", "product-to-sum-of-products", ["product_to_sum_unit", "_product_to_sum_unit", "_perform_on_terms"], 1)
class _:
    def gen(rng):
        x, y = E.Symbol("x"), E.Symbol("y")
        g = G.Gen(rng, floats=0)
        fs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            f = rng.choice([E.sin, E.cos])(rng.choice([x, 2 * x, 3 * x, y, x + y, x / 2, 5 * x + 1]))
            fs.append(f ** rng.choice([1, 1, 1, 2, 3, 4, 5]))
        if rng.random() < .4:
            fs.append(g.rat())
        return [E.Prod(fs)]

    def check(args, rng):
        simp("product_to_sum_unit", P.product_to_sum_unit, args[0], rng, none_ok=True)
