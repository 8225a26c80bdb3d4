"""C03: expansion keeps the value; C14: the enumeration behind it."""
import ast
import tasks
from tasks import *
import loops
from t_c01 import listval


def Task(*a, **k):
    k.setdefault("ghosts", ("v",))
    return tasks.Task(*a, **k)


# ------------------------------------------------------------------ numerator and denominator
def accum(I, qual, names, inv_, elemcl=None):
    """a loop that sorts the elements of a list into several lists: inv_(totals, product of the visited elements)"""
    def h(I, s, env):
        src = I.ev(s.iter, env)
        if not isinstance(src, LObj) or not isinstance(s.target, ast.Name) or s.orelse or len(ENG.levels) != 1:
            raise Unsupported("the loop has changed")
        for n in names:
            if not isinstance(env.vars.get(n), LObj) or W.resolve(env.vars[n].segs):
                raise Unsupported("no empty list " + n)
        all_ = loops.total("PROD", src)
        tot = lambda: [loops.total("PROD", env.vars[n]) for n in names]
        oblige("invariant on entry", inv_(tot(), ONE))
        i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        for n in names:
            env.vars[n].segs = loops.bag_of(n)
        loops.poison(env, s.body, set(names))
        if i == 1:
            ENG.fact(inv_(tot(), all_))
            return
        done = loops.real("done")
        ENG.fact(inv_(tot(), done))
        el = W.fresh("term")
        for f in ELEM_HINTS:
            f(el)
        env.vars[s.target.id] = el
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        oblige("invariant preserved", inv_(tot(), done * V(el)))
        raise PathEnd()
    I.loops[(qual, "for")] = h


ELEM_HINTS = [lambda el: ENG.fact(ok(el)), lambda el: W.restrict(el, W.FINITE - {"Prod"})]


def dp_contract(I):
    @fn_contract(I, X.deconstruct_power)
    def c(I, args, kw):
        se = args[0]
        b, x = W.fresh("base"), W.fresh("expo")
        loops.pair_facts(se, b, x)
        p, q = V(b), V(x)
        loops.law_same_base(p, q, -q)
        return (b, x)


def nd_setup(I):
    dp_contract(I)
    accum(I, "expr.Prod._numerator_denominator", ["numerator", "denominator"],
          lambda t, d: conj(t[0].eq(d * t[1]), neg(t[1].eq(0))))


def t_numden(I):
    e = sym("Prod")
    ENG.fact(ok(e))
    f = method("Prod", "_numerator_denominator")
    r = call_real(I, f.fget, [e])
    n, d = (W.to_se(I, x) for x in I.known_items(r))
    oblige("numerator = value * denominator", V(n).eq(V(e) * V(d)))
    oblige("the denominator is not zero", neg(V(d).eq(0)))


Task("C01", "expr.Prod._numerator_denominator", t_numden, setup=nd_setup)


def t_dp2(I):
    e = sym(None, "expr")
    ENG.fact(ok(e))
    b, x = I.known_items(call_real(I, X.deconstruct_power, [e]))
    oblige("the power is defined", okpow(b, x))


Task("C01", "expr.deconstruct_power (defined)", t_dp2)


# ------------------------------------------------------------------ expansion
def nd_contract(I):
    def f(I, se):
        n, d = W.fresh("num"), W.fresh("den")
        for x in (n, d):
            ENG.fact(ok(x))
        ENG.fact(V(n).eq(V(se) * V(d)))
        ENG.fact(neg(V(d).eq(0)))
        ENG.used.add("Prod.numerator_denominator")
        l = LObj([("v", n), ("v", d)], len(ENG.levels))
        l.own = (se.uid, "_numerator_denominator_cache")
        return l
    W.VIRTUAL["numerator_denominator"] = f


def distribute(I, qual):
    """the loop over itertools.product(*[s.terms for s in sums]): what is appended is (a fixed factor) * (product of the
    combination), so the total is that factor times the product of the sums (distributive law)"""
    def h(I, s, env):
        it = s.iter
        if not (isinstance(it, ast.Call) and len(it.args) == 1 and isinstance(it.args[0], ast.Starred) and isinstance(it.args[0].value, ast.ListComp)):
            return NotImplemented
        comp = it.args[0].value
        g = comp.generators
        import itertools
        if I.ev(it.func, env) is not itertools.product or len(g) != 1 or g[0].ifs or not isinstance(g[0].target, ast.Name) \
                or not (isinstance(comp.elt, ast.Attribute) and comp.elt.attr == "terms" and isinstance(comp.elt.value, ast.Name) and comp.elt.value.id == g[0].target.id) \
                or not isinstance(s.target, ast.Name):
            return NotImplemented
        sums = I.ev(g[0].iter, env)
        for k, x in W.resolve(sums.segs):
            if k == "v":
                if classes(x) != {"Sum"}:
                    raise Unsupported("terms of something that may not be a sum")
                continue
            for L in W.leaves(x.bag):
                for k2, y in W.emits_at(x, L):
                    if k2 != "v" or not isinstance(y, SE):
                        raise Unsupported("list of sums")
                    with_leaf(L, lambda: classes(y) == {"Sum"})
        one_appended(I, s, env, lambda K, c: K * loops.total("PROD", sums), loops.bag_of("combination"), "PROD")
    I.loops[(qual, "for")] = h


def with_leaf(L, f):
    """check something about the generic element of a leaf"""
    d = ENG.ctx.leafdelta.get(L)
    from engine import Ctx, Level
    ENG.levels.append(Level(Ctx(ENG.ctx), [], None))
    try:
        if d is not None:
            ENG.ctx.apply(d)
        r = f()
    finally:
        ENG.levels.pop()
    if not r:
        raise Unsupported("an element of the list is not known to be a sum")


def one_appended(I, s, env, final, combo, kind):
    """an arbitrary iteration appends exactly one expression, to one list that is empty before the loop; its value is a
    factor that does not depend on the combination times the product of the combination"""
    lists = {n: v for n, v in env.vars.items() if isinstance(v, LObj) and not W.resolve(v.segs)}
    used = {n.func.value.id for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append"
            and isinstance(n.func.value, ast.Name)}
    lists = {n: v for n, v in lists.items() if n in used}
    if len(lists) != 1:
        raise Unsupported("the loop has changed")
    (name, out), = lists.items()
    c = loops.total(kind, combo)
    state = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
    loops.poison(env, s.body, {name})
    n0 = len(ENG.ctx.facts)
    env.vars[s.target.id] = LObj(combo, len(ENG.levels), "tuple")
    lst = out
    try:
        I.block(s.body, env)
    except interp.Cont:
        pass
    if env.vars.get(name) is not lst or len(lst.segs) != 1 or lst.segs[0][0] != "v":
        raise Unsupported("not exactly one element is appended")
    import prove
    w = prove.Norm(ENG.ctx).poly(V(W.to_se(I, lst.segs[0][1])))
    cc = prove.Norm(ENG.ctx).poly(c)
    (mono, co), = cc.m.items()
    if len(mono) != 1 or co != 1:
        raise Unsupported("combination")
    a = mono[0][0]
    K = ZERO
    for m, q in w.m.items():
        e = dict(m)
        if e.get(a) != 1:
            oblige("each term holds the product of the combination once", FALSE)
            raise PathEnd()
        del e[a]
        K = K + Poly({tuple(sorted(e.items())): q})
    if a in W.patoms(K):
        raise Unsupported("the factor depends on the combination")
    if state == 0:
        oblige("each term holds the product of the combination once", TRUE)
        raise PathEnd()
    env.vars[s.target.id] = Poison("after the loop")
    loops.poison(env, s.body, {name})
    lst.segs = loops.bag_of("products")
    ENG.fact(loops.total("SUM", lst).eq(final(K, c)))


def t_expand(cname, setup=None):
    def fn(I):
        e = sym(cname)
        ENG.fact(ok(e))
        r = W.to_se(I, call_real(I, method(cname, "_expand"), [e]))
        oblige("same value", V(r).eq(V(e)))
    Task("C03", "expr.%s._expand" % cname, fn, allowed=(AssertionError, NotImplementedError), setup=setup, limit=250, weight=3)


def prod_setup(I):
    nd_contract(I)
    distribute(I, "expr.Prod._expand")


for c in ["Sum", "log"] + [f for f in FUNCS if f != "log"] + ["Symbol", "Rat"]:
    t_expand(c)
t_expand("Prod", prod_setup)


class Compositions(Virt):
    """all lists of `length` non-negative integers with the given total, each once (the contract of generate_permutations)"""
    def __init__(self, length, total):
        self.length = length
        self.total = total


def multinom(vec):
    return A("g", "multinom", vec.uid)


def power_setup(I):
    @fn_contract(I, X.generate_permutations)
    def gen(I, a, kw):
        i, n = (nv(x)[0] for x in (list(a) + list(kw.values())))
        oblige("generate_permutations: arguments", conj(isint(i), isint(n), P(0).le(i), P(0).le(n)))
        return Compositions(i, n)

    @fn_contract(I, X.multinomial_coefficient)
    def mult(I, a, kw):
        xs, n = list(a) + list(kw.values())
        if not isinstance(xs, W.Vec):
            raise Unsupported("multinomial coefficient of another list")
        oblige("multinomial_coefficient: the parts add up to n", nv(n)[0].eq(xs.total))
        p = multinom(xs)
        ENG.fact(isint(p))
        return NV(p, "int")

    def h(I, s, env):
        comps = I.ev(s.iter, env)
        if not isinstance(comps, Compositions):
            return NotImplemented
        if s.orelse or not isinstance(s.target, ast.Name) or len(ENG.levels) != 1:
            raise Unsupported("the loop has changed")
        cand = [v for v in env.vars.values() if isinstance(v, SE)]
        cand += [W.get_field(I, v, "base") for v in cand if classes(v) == {"Power"}]
        base = [l for l in (W.get_field(I, v, "terms") for v in cand if classes(v) == {"Sum"}) if W.length(l) == comps.length]
        base += [v for v in env.vars.values() if isinstance(v, LObj) and W.resolve(v.segs) and W.length(v) == comps.length]
        if not base:
            raise Unsupported("which list is expanded")
        terms = base[0]
        out = [(n, v) for n, v in env.vars.items() if isinstance(v, LObj) and not W.resolve(v.segs) and n in appended(s)]
        if len(out) != 1:
            raise Unsupported("the loop has changed")
        (name, lst), = out
        S = loops.total("SUM", terms)
        state = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        loops.poison(env, s.body, {name})
        if state == 0:
            vec = W.Vec(comps.length, comps.total)
            env.vars[s.target.id] = vec
            try:
                I.block(s.body, env)
            except interp.Cont:
                pass
            if env.vars.get(name) is not lst or len(lst.segs) != 1 or lst.segs[0][0] != "v":
                raise Unsupported("not exactly one element is appended")
            al = W.vec_align(vec, list(terms.segs))
            pr = ONE
            sg = W.resolve(list(terms.segs))
            for (k, x), (_, y) in zip(sg, al):
                if k == "v":
                    pr = pr * power(V(x), y.p)
                else:
                    for L in W.leaves(x.bag):
                        t = W.emits_at(x, L)[0][1]
                        pr = pr * W.segprod(L, W.ELEM(L), power(V(t), W.emits_at(y, L)[0][1].p))
            oblige("a term of the multinomial theorem", V(W.to_se(I, lst.segs[0][1])).eq(multinom(vec) * pr))
            raise PathEnd()
        env.vars[s.target.id] = Poison("after the loop")
        lst.segs = loops.bag_of("expanded")
        n = comps.total
        ENG.fact(loops.total("SUM", lst).eq(power(S, n)))     # the multinomial theorem
        for f in (-ONE, ONE):
            ENG.fact(imp(conj(isint(n), neg(S.eq(0))), power(power(S, n), f).eq(power(S, n * f))))
        return None
    I.loops[("expr.Power._expand", "for")] = h


def appended(s):
    return {n.func.value.id for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append"
            and isinstance(n.func.value, ast.Name)}


t_expand("Power", power_setup)
