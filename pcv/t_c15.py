"""C15: frame conditions.  Every function under contract is run once more; the obligation is that each write on the way goes
to an object the call itself created (fields of expressions, term lists, argument lists), caches excepted."""
import tasks
from tasks import *


def own_virtual(name, f):
    def setup(I):
        W.VIRTUAL[name] = lambda I, se: f(I, se)
    return setup


def call_virtual(name, *args):
    """run the implementation although the method has a contract"""
    def f(I, se):
        h = W.VIRTUAL.pop(name, None)
        try:
            m = getattr(X.Expr, name)
            return I.inline(m, [se] + list(args), {})
        finally:
            if h:
                W.VIRTUAL[name] = h
    return f


def same_se(a, b):
    return z3.BoolVal(isinstance(a, SE) and isinstance(b, SE) and a.uid == b.uid)


def t_cache(name, attr, run, fresh, valid, cname=None, setup=None):
    """whatever valid value (or none) the cache holds, the call returns a valid value and leaves a valid one in the cache"""
    def fn(I):
        se = sym(cname)
        ENG.fact(ok(se))
        i = ENG.choose([(("cache", "empty"), TRUE, None), (("cache", "filled"), TRUE, None)])
        if i == 1:
            ENG.ctx.attrs[(se.uid, attr)] = fresh(I, se)
        r = run(I, se)
        oblige("the result is right", valid(I, se, r))
        c = ENG.ctx.attrs.get((se.uid, attr))
        oblige("the cache is right", TRUE if c is None else valid(I, se, c))
    Task("C15", "cache: " + name, fn, setup=setup, ghosts=("v",), allowed=(AssertionError, NotImplementedError))


def exp_fresh(I, se):
    r = W.fresh("cached")
    ENG.fact(V(r).eq(V(se)))
    return r


def exp_setup(I):
    def v(I, se):
        return BoundM(interp.Meth(lambda I, se: exp_fresh(I, se), "_expand"), se)
    W.VIRTUAL["_expand"] = v
    W.VIRTUAL["_expandable"] = lambda I, se: BoundM(interp.Meth(lambda I, se: BV(pred("expandable", se.uid)), "_expandable"), se)
    W.VIRTUAL["_symbols"] = lambda I, se: BoundM(interp.Meth(lambda I, se: W.SymList(se, "symbols"), "_symbols"), se)
    W.VIRTUAL["_numerator_denominator"] = lambda I, se: nd_pair(I, se)


t_cache("expr.Expr.expand", "_expand_cache", call_virtual("expand"), exp_fresh, lambda I, se, r: V(W.to_se(I, r)).eq(V(se)), setup=exp_setup)
t_cache("expr.Expr.expandable", "_expandable_cache", call_virtual("expandable"), lambda I, se: BV(pred("expandable", se.uid)),
        lambda I, se, r: I.form(r) == pred("expandable", se.uid), setup=exp_setup)
t_cache("expr.Expr.symbols", "_symbols_cache", call_virtual("symbols"), lambda I, se: W.SymList(se, "symbols"),
        lambda I, se, r: z3.BoolVal(isinstance(r, W.SymList) and r.se.uid == se.uid and r.what == "symbols"), setup=exp_setup)


def nd_pair(I, se):
    n, d = W.fresh("num"), W.fresh("den")
    for x in (n, d):
        ENG.fact(ok(x))
    ENG.fact(V(n).eq(V(se) * V(d)))
    ENG.fact(neg(V(d).eq(0)))
    return LObj([("v", n), ("v", d)], len(ENG.levels))


def nd_valid(I, se, r):
    n, d = (W.to_se(I, x) for x in I.known_items(r))
    return conj(V(n).eq(V(se) * V(d)), neg(V(d).eq(0)))


t_cache("expr.Prod.numerator_denominator", "_numerator_denominator_cache",
        lambda I, se: I.inline(X.Prod.__dict__["numerator_denominator"].fget, [se], {}), nd_pair, nd_valid, cname="Prod", setup=exp_setup)


def dpo(I, se):
    b, x = W.fresh("base"), W.fresh("expo")
    import loops
    loops.pair_facts(se, b, x)
    return (b, x)


def dpo_valid(I, se, r):
    b, x = (W.to_se(I, y) for y in I.known_items(r))
    return conj(power(V(b), V(x)).eq(V(se)), okpow(b, x))


t_cache("expr.deconstruct_power", "_deconstruct_power_cache", lambda I, se: call_real(I, X.deconstruct_power, [se]), dpo, dpo_valid)


def dpr(I, se):
    import loops
    n = W.fresh("coeff", W.NUMV)
    ENG.fact(ok(n))
    f = LObj(loops.bag_of("factors"), len(ENG.levels))
    ENG.fact((V(n) * loops.total("PROD", f)).eq(V(se)))
    return (LObj([("v", n)], len(ENG.levels)), f)


def dpr_valid(I, se, r):
    import loops
    a, b = I.known_items(r)
    return (loops.total("PROD", a) * loops.total("PROD", b)).eq(V(se))


t_cache("expr._deconstruct_prod", "_deconstruct_prod_cache", lambda I, se: call_real(I, X._deconstruct_prod, [se]), dpr, dpr_valid)


def t_rcf(inc):
    def fn(I):
        se = sym(None)
        ENG.fact(ok(se))
        i = ENG.choose([(("cache", "empty"), TRUE, None), (("cache", "filled"), TRUE, None)])
        if i == 1:
            W.restrict(se, frozenset(["Prod"]))
            a, b = W.fresh("rest"), W.fresh("const")
            ENG.fact((V(a) * V(b)).eq(V(se)))
            ENG.ctx.attrs[(se.uid, "_sans_const_cache")] = a
            ENG.ctx.attrs[(se.uid, "_const_cache")] = b
        r = call_real(I, X.remove_const_factor, [se], {"include_factor": inc})
        if inc:
            a, b = (W.to_se(I, x) for x in I.known_items(r))
            oblige("factor times the rest", (V(a) * V(b)).eq(V(se)))
        c = [ENG.ctx.attrs.get((se.uid, n)) for n in ("_sans_const_cache", "_const_cache")]
        if any(x is not None for x in c):
            oblige("the caches are right", conj(*[(V(c[0]) * V(c[1])).eq(V(se))]) if all(isinstance(x, SE) for x in c) else FALSE)
    Task("C15", "cache: expr.remove_const_factor (include_factor=%s)" % inc, fn, ghosts=("v",))


t_rcf(True)
t_rcf(False)


def add():
    seen = set()
    for prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C16"):
        for t in list(TASKS.get(prop, [])):
            if t.name in seen or "(generated)" in t.name:
                continue
            seen.add(t.name)
            n = Task("C15", "frame: " + t.name, t.fn, allowed=t.allowed, used=t.used, limit=t.limit, setup=t.setup, paths=t.paths, weight=t.weight,
                     ghosts=t.ghosts, exact=False)
            n.frame = True


D = tasks.DISCHARGES
D["virtual expand"] = ["cache: expr.Expr.expand"] + ["expr.%s._expand" % c for c in ["Sum", "Prod", "Power", "Symbol", "Rat"] + FUNCS]
D["virtual _expand"] = D["virtual expand"]
D["virtual expandable"] = ["cache: expr.Expr.expandable"]
D["virtual _expandable"] = ["cache: expr.Expr.expandable"]
D["virtual symbols"] = ["cache: expr.Expr.symbols", "expr.Expr._symbols"]
D["virtual _symbols"] = ["cache: expr.Expr.symbols", "expr.Expr._symbols"]
D["Prod.numerator_denominator"] = ["expr.Prod._numerator_denominator", "cache: expr.Prod.numerator_denominator"]
D["expr.deconstruct_power"] = ["expr.deconstruct_power", "expr.deconstruct_power (defined)", "cache: expr.deconstruct_power"]
D["expr._deconstruct_prod"] = ["expr._deconstruct_prod", "cache: expr._deconstruct_prod"]
D["combinatorics.generate_permutations"] = ["combinatorics.generate_permutations", "combinatorics.generate_permutations.generate"]
D["combinatorics.multinomial_coefficient"] = ["combinatorics.multinomial_coefficient"]
D["virtual numerator_denominator"] = D["Prod.numerator_denominator"]
D["virtual _numerator_denominator"] = ["expr.Prod._numerator_denominator"]


def t_evalf(with_map):
    def fn(I):
        se = sym(None)
        ENG.fact(ok(se, "s" if with_map else "v"))
        args = [SubsMap()] if with_map else ([] if with_map is None else [DObj({}, 0)])
        r = W.to_se(I, call_virtual("evalf", *args)(I, se))
        oblige("the value", V(r).eq(ghost("s" if with_map else "v", se)))
    Task("C05", "expr.Expr.evalf (%s)" % ("with values" if with_map else "without values" if with_map is None else "no values"), fn)


for m_ in (True, None, False):
    t_evalf(m_)
D["virtual evalf"] = ["expr.Expr.evalf (%s)" % s for s in ("with values", "without values", "no values")]


add()
