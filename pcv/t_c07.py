"""C07 (and the logarithm part of C03): every simplification rule keeps the value."""
import ast
import sys
import tasks
from tasks import *
import load
from load import E as X
from t_struct import ALLC
from t_c12 import Fn
RX = load.simpy.regex
SM = sys.modules["simpy.simplify.simplify"]
PS = sys.modules["simpy.simplify.product_to_sum"]


def Task(*a, **k):
    k.setdefault("ghosts", ("v",))
    return tasks.Task(*a, **k)


def keep(e, name="the value stays", want=None):
    """the postcondition of a rule: nothing, False, or an expression of the same value"""
    def f(I, r):
        if r is None or r is False:
            return tasks.REC_PATH.append(("the rule does not apply", "proved", "", None))
        oblige(name, V(W.to_se(I, r)).eq(V(e) if want is None else want))
    return f


def kind(cname):
    se = sym(cname)
    ENG.fact(ok(se))
    return se


# ------------------------------------------------------------------ contracts used
def value_contract(I, fn, optional=False, verbose=False):
    """a function that returns an expression of the same value (or nothing)"""
    @fn_contract(I, fn)
    def c(I, args, kw):
        x = args[0]
        if optional and ENG.choose([(("none", load.qual(fn), x.uid), TRUE, None), (("hit", load.qual(fn), x.uid), TRUE, None)]) == 0:
            return None
        r = W.fresh("kept")
        W.setdef(r, "v", V(x))
        ENG.fact(ok(r))
        if verbose or I.truth(kw.get("verbose", False)):
            return (r, ENG.choose([(("hit", r.uid), TRUE, None), (("nohit", r.uid), TRUE, None)]) == 0)
        return r


def on_arbitrary(I, f, cond=None, name="the rule keeps the value"):
    """obligations on a rule handed to one of the replacement functions: it keeps the value of anything it is applied to
    (the contract of the replacement functions); a known rule has its own task"""
    if isinstance(f, type(on_arbitrary)) and f in I.contracts:
        return
    x = W.fresh("any")
    ENG.fact(ok(x))
    if cond is not None and not I.truth(I.call(cond, [x])):
        return
    r = I.call(f, [x])
    if r is None or r is False:
        return
    oblige(name, V(W.to_se(I, r)).eq(V(x)))


def replacers(I):
    def c(I, args, kw):
        x, ps = args[0], args[1]
        for p in (I.known_items(ps) if isinstance(ps, (LObj, tuple, list)) else [ps]):
            side(I, lambda p=p: on_arbitrary(I, p))
        r = W.fresh("kept")
        W.setdef(r, "v", V(x))
        ENG.fact(ok(r))
        if I.truth(kw.get("verbose", False)):
            return (r, ENG.choose([(("hit", r.uid), TRUE, None), (("nohit", r.uid), TRUE, None)]) == 0)
        return r
    fn_contract(I, RX.kinder_replace)(c)
    fn_contract(I, RX.kinder_replace_many)(c)


def side(I, f):
    """a part of the obligations that the path does not go on from: checked on a path of its own"""
    if ENG.choose([(("go on", ENG.uid("side")), TRUE, None), (("side condition", ENG.uid("side")), TRUE, None)]) == 1:
        f()
        if not tasks.REC_PATH:
            tasks.REC_PATH.append(("nothing to show", "proved", "", None))
        raise PathEnd()


def c_factor(I):
    def f(I, se):
        k = ("factored", se.uid)
        r = SE(k)
        if not ENG.ctx.notes.get(k):
            ENG.ctx.notes[k] = True
            W.setdef(r, "v", V(se))
            ENG.fact(ok(r))
        return r
    m = interp.Meth(f, "factor")
    VIRTUAL["factor"] = lambda I, se: BoundM(m, se)


def factored(i):
    f = SE(("factored", i.uid))
    return spec.valuation("v")(f, "Prod") if classes(f) == {"Prod"} else V(f)


def ln_laws(e, *more):
    """ln of the argument and of what equals it, or its reciprocal"""
    p = V(spec.fld(e, "inner"))
    for q in more:
        ENG.fact(imp(conj(p.eq(q), P(0).lt(p)), ln(p).eq(ln(q))))
        ENG.fact(imp(conj((p * q).eq(1), P(0).lt(p)), ln(p).eq(-ln(q))))


# ------------------------------------------------------------------ rules on one node
RECIP = {"sin": "csc", "csc": "sin", "cos": "sec", "sec": "cos", "tan": "cot", "cot": "tan"}


def t_reciprocate(cname):
    def fn(I):
        e = kind(cname)
        r = call_real(I, SM._reciprocate_trigs, [e])
        if cname == "Power" and isinstance(r, SE):
            # y = 1/q: y^(-x) = q^x for q > 0 or an integer x
            b = spec.fld(e, "base")
            (k,) = classes(b)
            q, x, y = V(b), V(spec.fld(e, "exponent")), fn_val(RECIP.get(k, k), V(spec.fld(b, "inner")))
            ENG.fact(imp(conj((q * y).eq(1), disj(P(0).lt(q), isint(x))), power(y, -x).eq(power(q, x))))
        keep(e)(I, r)
    Task("C07", "simplify._reciprocate_trigs (%s)" % cname, fn)


for c_ in ALLC:
    t_reciprocate(c_)


def t_log(cname):
    def fn(I):
        e = sym("log")
        W.restrict(spec.fld(e, "inner"), frozenset([cname]))
        ENG.fact(ok(e))
        c_factor(I)
        r = call_real(I, SM._log_perform, [e])
        i = spec.fld(e, "inner")
        if cname in RECIP:
            ln_laws(e, fn_val(RECIP[cname], V(spec.fld(i, "inner"))))
        if cname == "Sum":
            ln_laws(e, factored(i))
        keep(e)(I, r)
    Task("C03", "simplify._log_perform (of %s)" % (cname or "anything"), fn)


for c_ in ALLC:
    if c_ != "Abs":
        t_log(c_)


def t_log_abs(cname):
    def fn(I):
        e = sym("log")
        inner = spec.fld(e, "inner")
        W.restrict(inner, frozenset(["Abs"]))
        W.restrict(spec.fld(inner, "inner"), frozenset([cname]))
        ENG.fact(ok(e))
        c_factor(I)
        r = call_real(I, SM._log_perform, [e])
        i = spec.fld(inner, "inner")
        ln_laws(e, fabs(factored(i) if cname == "Sum" else V(i)))
        keep(e)(I, r)
    Task("C03", "simplify._log_perform (of |%s|)" % cname, fn)


for c_ in ALLC:
    t_log_abs(c_)


def t_log_other(I):
    e = sym(None)
    W.restrict(e, W.FINITE - {"log"})
    keep(e)(I, call_real(I, SM._log_perform, [e]))


Task("C03", "simplify._log_perform (not a logarithm)", t_log_other)


def t_expand_logs(I):
    e = sym(None)
    ENG.fact(ok(e))
    replacers(I)
    value_contract(I, SM._log_perform, optional=True)
    keep(e)(I, call_real(I, SM.expand_logs, [e]))


Task("C03", "simplify.expand_logs", t_expand_logs)


# ------------------------------------------------------------------ factoring a sum (C01)
def triple(tag):
    """a factor as Sum.factor writes it: [base, exponent without its sign, is the exponent positive]"""
    b, x = W.fresh(tag), W.fresh(tag)
    return b, x


def stores(stmts, name):
    """does the loop write to the variable or to an element of it?"""
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                return True
    return False


def havoc_factors(I):
    """the loops of Sum.factor that choose the common factor: whatever they choose, the rest has to be right"""
    def h(I, s, env):
        if stores(s.body, "new_terms"):
            return NotImplemented
        f, c = stores(s.body, "common_factors"), stores(s.body, "common_coeff")
        if not (f or c):
            return NotImplemented
        for n in interp.assigned_names([s]):
            if n not in ("common_factors", "common_coeff"):
                env.vars[n] = Poison("assigned in a loop")
        if f:
            b = ("common", ENG.uid("common"))
            el, ex = SE(("base", ELEM(b))), SE(("expo", ELEM(b)))
            d = Delta()
            for z in (el, ex):
                d.classes[z.uid] = W.FINITE
                d.facts.append(ok(z))
            d.classes[ex.uid] = frozenset(["Rat"])
            ENG.ctx.leafdelta[b] = d
            env.vars["common_factors"] = LObj([("p", Piece(b, {b: [("v", LObj([("v", el), ("v", ex), ("v", BV(pred("positive", ELEM(b))))], 0))]}))], len(ENG.levels))
        if c:
            i = ENG.choose([(("coefficient", "none"), TRUE, None), (("coefficient", "some"), TRUE, None)])
            if i == 0:
                env.vars["common_coeff"] = None
            else:
                k = W.fresh("coefficient", W.NUMV)
                ENG.fact(ok(k))
                env.vars["common_coeff"] = k
        ENG.assumed.add("Sum.factor: the loops that choose the common factor are over-approximated by an arbitrary choice (they end, and write only lists the function made)")
    I.loops[("expr.Sum.factor", "for")] = h

    def df(I, f, args, kw):
        """the numeric coefficient of a term and its factors: only used to choose the common factor"""
        t = args[0]
        k = SE(("coefficient", t.uid))
        W.restrict(k, W.NUMV)
        ENG.fact(ok(k))
        b = ("factors", t.uid)
        if b not in ENG.ctx.leafdelta:
            ENG.ctx.leafdelta[b] = Delta()
        el = SE(("base", ELEM(b)))
        return (k, LObj([("p", Piece(b, {b: [("v", LObj([("v", el), ("v", W.rat(1)), ("v", True)], 0))]}))], len(ENG.levels)))
    I.closures["expr.Sum.factor.<locals>._df"] = df


def t_factor(I):
    e = kind("Sum")
    havoc_factors(I)
    keep(e)(I, call_real(I, method("Sum", "factor"), [e]))


Task("C01", "expr.Sum.factor", t_factor)


# ------------------------------------------------------------------ patterns
def c_eq(I):
    """eq(expr, pattern): on success expr is factor * pattern[wildcard := match] + rest"""
    @fn_contract(I, RX.eq)
    def c(I, args, kw):
        e, q = args[0], args[1]
        if not isinstance(q, SE) or ("wildcard", RX.any_.key) not in ENG.ctx.classes:
            raise Unsupported("pattern")
        i = ENG.choose([(("no match", ENG.uid("eq")), TRUE, None), (("match", ENG.uid("eq")), TRUE, None)])
        if i == 0:
            return DObj({"success": False}, len(ENG.levels))
        m = W.fresh("match")
        ENG.fact(ok(m))
        w = SE(("wildcard", RX.any_.key))
        ENG.fact(ghost("s", w).eq(V(m)))
        want = ghost("s", q)
        d = {"success": True, "matches": m}
        for n in ("factor", "rest"):
            if I.truth(kw.get("up_to_factor" if n == "factor" else "up_to_sum", False)):
                d[n] = W.fresh(n)
                ENG.fact(ok(d[n]))
                want = want * V(d[n]) if n == "factor" else want + V(d[n])
        ENG.fact(V(e).eq(want))
        return DObj(d, len(ENG.levels))


def c_search(I):
    @fn_contract(I, RX.general_contains)
    def c(I, args, kw):
        return ENG.choose([(("contains", ENG.uid("gc")), TRUE, None), (("contains not", ENG.uid("gc")), TRUE, None)]) == 0

    @fn_contract(I, RX.general_count)
    def d(I, args, kw):
        p = A("g", "count", ENG.uid("gc"))
        ENG.fact(isint(p))
        ENG.fact(P(0).le(p))
        return NV(p, "int")


def pattern_task(name, f, cname, setup=None, **k):
    def fn(I):
        e = kind(cname)
        c_eq(I)
        c_search(I)
        c_factor(I)
        if setup:
            setup(I, e)
        keep(e)(I, call_real(I, f, [e]))
    Task(k.pop("prop", "C07"), name, fn, ghosts=("v", "s"), used=("v", "s"), **k)


for c_ in ALLC:
    pattern_task("simplify._combine_trigs (%s)" % c_, SM._combine_trigs, c_)


# ------------------------------------------------------------------ sin^2 + cos^2
PQ = "simplify.simplify._pythagorean_perform"


def in_helper(name, go):
    """runs go(I, the nested function) at the point where the function under verification calls its nested function"""
    def fn(I):
        def at(I, f, args, kw):
            go(I, f, args, kw)
            raise PathEnd()
        I.closures[PQ + ".<locals>.sin_cos_condition"] = at
        e = kind("Sum")
        c_eq(I)
        c_search(I)
        call_real(I, SM._pythagorean_perform, [e])
    Task("C07", name, fn)


def t_thing_squared(cls):
    """a term that holds the square of a function: its value is the square times the rest"""
    def go(I, f, args, kw):
        g = f.env.get("is_thing_squared")
        t = W.fresh("term")
        ENG.fact(ok(t))
        r = I.run_closure(g, [t, getattr(X, cls)], {})
        if r is None:
            return tasks.REC_PATH.append(("not a square", "proved", "", None))
        inner, factor = I.known_items(r)
        oblige("square times the rest", (fn_val(cls, V(W.to_se(I, inner))) ** 2 * V(W.to_se(I, factor))).eq(V(t)))
    in_helper("simplify._pythagorean_perform.is_thing_squared (%s)" % cls, go)


t_thing_squared("sin")
t_thing_squared("cos")


def arbitrary(I, lst, k):
    """k(an arbitrary element of the list)"""
    segs = W.resolve(list(terms_arg_any(lst)))
    opts, acts = [], []
    for pos, (kd, x) in enumerate(segs):
        if kd == "v":
            opts.append((("element", pos), TRUE, None))
            acts.append((None, x))
        else:
            for L in W.leaves(x.bag):
                for k2, y in W.emits_at(x, L):
                    if k2 != "v":
                        raise Unsupported("nested list")
                    opts.append((("element of", L), P(1).le(W.count(L)), None))
                    acts.append((L, y))
    if not opts:
        tasks.REC_PATH.append(("no element", "proved", "", None))
        return
    L, y = acts[ENG.choose(opts)]
    if L is not None:
        ENG.n += 1
        h = ("at", L, ENG.n)
        d = W.delta_of(L)
        for b in (("pre", L, h), ("post", L, h)):
            ENG.ctx.leafdelta[b] = d.renamed(ELEM(L), ELEM(b))
            ENG.fact(P(0).le(W.count(b)))
        ENG.ctx.parts[L] = ("split", (("b", ("pre", L, h)), ("e", h), ("b", ("post", L, h))))
        ENG.ctx.apply(d.renamed(ELEM(L), h))
        y = ren_value(y, ELEM(L), h)
    k(y)


def terms_arg_any(l):
    return [("v", x) for x in l] if isinstance(l, (tuple, list)) else l.segs


def go_pairs(I, f, args, kw):
    cls = {"sin": fsin, "cos": fcos}

    def squared(I, g, a, kw):
        """contract of is_thing_squared: nothing, or (inner, rest) with term = cls(inner)^2 * rest"""
        t, c = a
        n = getattr(c, "__name__", None)
        if n not in cls or not isinstance(t, SE):
            raise Unsupported("is_thing_squared")
        if ENG.choose([(("not squared", n, t.uid), TRUE, None), (("squared", n, t.uid), TRUE, None)]) == 0:
            return None
        i, r = SE(("sqinner", n, t.uid)), SE(("sqrest", n, t.uid))
        ENG.fact(ok(i))
        ENG.fact(ok(r))
        ENG.fact(V(t).eq(cls[n](V(i)) ** 2 * V(r)))
        return (i, r)
    I.closures[PQ + ".<locals>.is_thing_squared"] = squared
    r = I.run_closure(f, args, kw)

    def one(y):
        i, j, fac = I.known_items(y)
        for x in (i, j):
            if not isinstance(x, W.IdxV) or x.off != 0:
                raise Unsupported("positions")
        t1, t2 = SE(i.key), SE(j.key)
        ENG.fact(ok(t1))
        oblige("two different terms of the pair add up to the factor", disj(i.p.eq(j.p), V(W.to_se(I, fac)).eq(V(t1) + V(t2))))
    arbitrary(I, r, one)


in_helper("simplify._pythagorean_perform.sin_cos_condition", go_pairs)


class UsedSet(Virt):
    """the positions of the terms already used, through the total of those terms"""
    def __init__(self, bag):
        self.bag = bag
        self.id = ENG.uid("used")
        self.now = []

    def u(self, el):
        return A("g", "usedterm", (self.id, el))

    def total(self):
        return segsum(self.bag, ELEM(self.bag), self.u(ELEM(self.bag)))

    def contains(self, I, k):
        if isinstance(k, PosOf):
            i = ENG.choose([(("used", self.id, k.key), TRUE, None), (("unused", self.id, k.key), TRUE, None)])
            if i == 1:
                self.now.append(k)
            return i == 0
        if isinstance(k, W.IdxV) and k.off == 0:
            i = ENG.choose([(("used", self.id, k.key), TRUE, None), (("unused", self.id, k.key), TRUE, None)])
            ENG.fact(self.u(k.key).eq(A("g", "v", k.key) if i == 0 else 0))
            return i == 0
        raise Unsupported("membership among the used terms")


class PosOf(NV):
    """the position of some term"""
    __slots__ = ("key", "se")

    def __init__(self, key, se):
        NV.__init__(self, A("g", "pos", key), "int")
        self.key = key
        self.se = se

    def renamed(self, a, b):
        return PosOf(renkey(self.key, a, b), ren_value(self.se, a, b))


def pairs_contract(I, e):
    def sc(I, f, args, kw):
        if ENG.choose([(("pairs", "none"), TRUE, None), (("pairs", "some"), TRUE, None)]) == 0:
            return LObj([], len(ENG.levels))
        b = ("pairs", ENG.uid("pairs"))
        ENG.ctx.leafdelta[b] = Delta()
        ENG.fact(P(1).le(W.count(b)))
        return LObj([("p", Piece(b, {b: [("v", ("pair", SE(ELEM(b))))]}))], len(ENG.levels))
    I.closures[PQ + ".<locals>.sin_cos_condition"] = sc
    bag = W.terms_bag(e)

    def h(I, s, env):
        l = I.ev(s.iter, env)
        if not (isinstance(l, LObj) and len(l.segs) == 1 and l.segs[0][0] == "p" and list(l.segs[0][1].emits.values())[0][0][1][0] == "pair"):
            return NotImplemented
        used = [n for n, v in env.vars.items() if isinstance(v, W.SetOf)]
        lists = [n for n, v in env.vars.items() if isinstance(v, LObj) and not v.segs]
        if len(used) != 1 or len(lists) != 1:
            raise Unsupported("the loop over the pairs has changed")
        un, fn_ = used[0], lists[0]
        i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        U = UsedSet(bag)
        env.vars[un] = U
        import loops
        env.vars[fn_] = LObj(loops.bag_of("factors"), len(ENG.levels))
        total = lambda: loops.total("SUM", env.vars[fn_])
        ENG.fact(U.total().eq(total()))
        for n in interp.assigned_names([s]):
            env.vars[n] = Poison("assigned in a loop")
        if i == 1:
            return
        t1, t2, fac = W.fresh("term"), W.fresh("term"), W.fresh("factor")
        p, q = PosOf(("i", ENG.uid("pos")), t1), PosOf(("j", ENG.uid("pos")), t2)
        ENG.fact(ok(fac))
        ENG.fact(isint(p.p))
        ENG.fact(isint(q.p))
        ENG.fact(disj(p.p.eq(q.p), V(fac).eq(V(t1) + V(t2))))
        f0, grown = total(), [ZERO]

        def update(I, a, k=None):
            ks = I.known_items(a)
            if len(ks) != len(set(x.key for x in ks)):
                raise Unsupported("positions")
            for n, x in enumerate(ks):
                if not isinstance(x, PosOf) or not any(y.key == x.key for y in U.now):
                    oblige("only unused terms are used", FALSE)
                for y in ks[:n]:
                    oblige("two different terms", neg(x.p.eq(y.p)))
                grown[0] = grown[0] + V(x.se)
        U.methods = {"update": interp.Meth(lambda I, me, a: update(I, a)), "add": interp.Meth(lambda I, me, a: update(I, (a,)))}
        I.assign(s.target, (p, q, fac), env)
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        oblige("the factors replace the used terms", (total() - f0).eq(grown[0]))
        raise PathEnd()
    I.loops[(PQ, "for")] = h


pattern_task("simplify._pythagorean_perform (Sum)", SM._pythagorean_perform, "Sum", pairs_contract, limit=200)
for c_ in ALLC:
    if c_ != "Sum":
        pattern_task("simplify._pythagorean_perform (%s)" % c_, SM._pythagorean_perform, c_)


# ------------------------------------------------------------------ products to sums
def angle_sums(x, y):
    """the addition theorems for these two angles"""
    sx, cx, sy, cy = fsin(x), fcos(x), fsin(y), fcos(y)
    for s in (1, -1):
        ENG.fact(fsin(x + P(s) * y).eq(sx * cy + P(s) * (cx * sy)))
        ENG.fact(fcos(x + P(s) * y).eq(cx * cy - P(s) * (sx * sy)))


def total_of(I, r):
    import loops
    if isinstance(r, (list, tuple)):
        r = LObj([("v", x) for x in r], len(ENG.levels))
    return loops.total("SUM", r)


def adds_up(I, r, want, name="the terms add up to the product"):
    if r is None:
        return tasks.REC_PATH.append(("the rule does not apply", "proved", "", None))
    oblige(name, total_of(I, r).eq(want))


def t_perform(ca, cb, mult):
    def fn(I):
        a, b = [sym(c, n) if c in ("sin", "cos") else W.fresh(n, W.FINITE - {"sin", "cos"}) for n, c in (("first", ca), ("second", cb))]
        m = W.fresh("multiplier") if mult else None
        ENG.fact(ok(a))
        ENG.fact(ok(b))
        if mult:
            ENG.fact(ok(m))
        if ca in ("sin", "cos") and cb in ("sin", "cos"):
            angle_sums(V(spec.fld(a, "inner")), V(spec.fld(b, "inner")))
        r = call_real(I, PS._perform_on_terms, [a, b], {"multiplier": m})
        adds_up(I, r, V(a) * V(b) * (V(m) if mult else 1))
    Task("C07", "product_to_sum._perform_on_terms (%s, %s%s)" % (ca, cb, ", multiplier" if mult else ""), fn)


for ca_ in ("sin", "cos", "other"):
    for cb_ in ("sin", "cos", "other"):
        for m_ in (False, True):
            t_perform(ca_, cb_, m_)


def c_perform(I):
    @fn_contract(I, PS._perform_on_terms)
    def c(I, args, kw):
        a, b = args
        m = kw.get("multiplier")
        for x in (a, b):
            if not I.truth(W.isinstance_se(x, (X.sin, X.cos))):
                return None
        import loops
        l = LObj(loops.bag_of("sums"), len(ENG.levels))
        ENG.fact(loops.total("SUM", l).eq(V(a) * V(b) * (V(W.to_se(I, m)) if m is not None else 1)))
        return l


def c_rcf(I):
    @fn_contract(I, X.remove_const_factor)
    def c(I, args, kw):
        e = args[0]
        if not W.isinstance_se(e, (X.Prod,)):
            return (e, W.rat(1)) if I.truth(kw.get("include_factor", False)) else e
        a, b = W.fresh("without constants"), W.fresh("constants")
        ENG.fact(ok(a))
        ENG.fact(ok(b))
        ENG.fact((V(a) * V(b)).eq(V(e)))
        return (a, b) if I.truth(kw.get("include_factor", False)) else a


def usable(I, t):
    """a power of a sine or cosine that the rule is bound to apply to"""
    if not W.isinstance_se(t, (X.Power,)):
        return False
    b, x = spec.fld(t, "base"), spec.fld(t, "exponent")
    if not (classes(b) <= {"sin", "cos"} and classes(x) <= W.NUMV and ENG.entails(conj(isint(V(x)), P(1).lt(V(x))))):
        return False
    ENG.assumed.add("_product_to_sum_unit rewrites every whole power (from the second on) of a sine or cosine (it never returns None for one)")
    return True


def c_unit(I):
    import loops

    def some(I, t):
        return not usable(I, t) and ENG.choose([(("no product", t.uid), TRUE, None), (("a product", t.uid), TRUE, None)]) == 0

    @fn_contract(I, PS._product_to_sum_unit)
    def c(I, args, kw):
        t, m = args[0], kw.get("multiplier")
        if some(I, t):
            return None
        l = LObj(loops.bag_of("sums"), len(ENG.levels))
        ENG.fact(loops.total("SUM", l).eq(V(t) * (V(W.to_se(I, m)) if m is not None else 1)))
        return l

    @fn_contract(I, PS.product_to_sum_unit)
    def d(I, args, kw):
        t = args[0]
        if some(I, t):
            return None
        k = ("assum", t.uid)
        r = SE(k)
        if not ENG.ctx.notes.get(k):
            ENG.ctx.notes[k] = True
            W.setdef(r, "v", V(t))
            ENG.fact(ok(r))
        return r

    @fn_contract(I, PS._product_to_sum)
    def g(I, args, kw):
        m = kw.get("multiplier")
        l = args[0]
        if isinstance(l, SE):
            want = total_of(I, I.getattr(l, "terms"))
        else:
            want = total_of(I, l)
        if ENG.choose([(("nothing changes", ENG.uid("pts")), TRUE, None), (("changes", ENG.uid("pts")), TRUE, None)]) == 0:
            return None
        r = LObj(loops.bag_of("sums"), len(ENG.levels))
        ENG.fact(loops.total("SUM", r).eq(want * (V(W.to_se(I, m)) if m is not None else 1)))
        return r


def c_expand_sum(I):
    def f(I, se):
        k = ("exp", se.uid)
        r = SE(k)
        if not ENG.ctx.notes.get(k):
            ENG.ctx.notes[k] = True
            W.setdef(r, "v", V(se))
            ENG.fact(ok(r))
            ENG.assumed.add("_product_to_sum_unit: the expanded product of the rewritten powers is a Sum (a product of expressions of several terms never collapses to one term)")
            W.restrict(r, frozenset(["Sum"]))
        return r
    m = interp.Meth(f, "expand")
    VIRTUAL["expand"] = lambda I, se: BoundM(m, se)


def t_unit(cname, mult):
    def fn(I):
        e = kind(cname)
        m = W.fresh("multiplier") if mult else None
        if mult:
            ENG.fact(ok(m))
        c_perform(I)
        c_rcf(I)
        c_unit(I)
        c_expand_sum(I)
        r = call_real(I, PS._product_to_sum_unit, [e], {"multiplier": m})
        adds_up(I, r, V(e) * (V(m) if mult else 1))
    Task("C07", "product_to_sum._product_to_sum_unit (%s%s)" % (cname, ", multiplier" if mult else ""), fn)


for c_ in ALLC:
    for m_ in (False, True):
        t_unit(c_, m_)


def t_pts(mult, short):
    def fn(I):
        import t_c01
        l = t_c01.bagarg()
        m = W.fresh("multiplier") if mult else None
        if mult:
            ENG.fact(ok(m))
        c_unit(I)
        r = call_real(I, PS._product_to_sum, [l], {"multiplier": m})
        adds_up(I, r, total_of(I, l) * (V(m) if mult else 1))
    Task("C07", "product_to_sum._product_to_sum%s" % (" (multiplier)" if mult else ""), fn)


t_pts(False, False)
t_pts(True, False)


def t_pts_unit(I):
    e = sym(None)
    ENG.fact(ok(e))
    c_unit(I)
    keep(e)(I, call_real(I, PS.product_to_sum_unit, [e]))


Task("C07", "product_to_sum.product_to_sum_unit", t_pts_unit)


def t_pts_top(I):
    e = sym(None)
    ENG.fact(ok(e))
    c_unit(I)
    c_search(I)
    keep(e)(I, call_real(I, PS.product_to_sum, [e]))


Task("C07", "product_to_sum.product_to_sum", t_pts_top)


# ------------------------------------------------------------------ one fraction
def t_one_fraction(const):
    Q = "simplify.simplify.rewrite_as_one_fraction"

    def fn(I):
        import loops
        e = kind("Sum")
        import t_c03
        t_c03.nd_contract(I)

        def add(I, f, args, kw):
            def one(x):
                oblige("factors of a denominator are not zero", neg(V(W.to_se(I, x)).eq(0)))
            side(I, lambda: arbitrary(I, args[0], one))
            return None
        I.closures[Q + ".<locals>.add_common_den"] = add

        def h(I, s, env):
            l = I.ev(s.iter, env)
            if not (isinstance(l, LObj) and stores(s.body, "list_of_terms")):
                return NotImplemented
            i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
            for n in interp.assigned_names([s]):
                env.vars[n] = Poison("assigned in a loop")
            if i == 0:
                t = W.fresh("term")
                ENG.fact(ok(t))
                env.vars["list_of_terms"] = out = LObj([], len(ENG.levels))
                env.vars["has_den"] = I.fold(pred("has_den", ENG.uid("hd")))
                I.assign(s.target, t, env)
                try:
                    I.block(s.body, env)
                except interp.Cont:
                    pass
                c = out.concrete()
                if c is None or len(c) != 1:
                    raise Unsupported("the list of fractions")
                n, d = [V(W.to_se(I, x)) for x in I.known_items(c[0])]
                oblige("the denominator is not zero", neg(d.eq(0)))
                oblige("numerator over denominator", (n * inv(d)).eq(V(t)))
                raise PathEnd()
            b = ("fractions",)
            d = Delta()
            num, den = SE(("num", ELEM(b))), SE(("den", ELEM(b)))
            d.facts += [ok(num), ok(den), neg(V(den).eq(0))]
            ENG.ctx.leafdelta[b] = d
            env.vars["list_of_terms"] = LObj([("p", Piece(b, {b: [("v", (num, den))]}))], len(ENG.levels))
            ENG.fact(segsum(b, ELEM(b), V(num) * inv(V(den))).eq(V(e)))
            env.vars["common_den_terms"] = common = LObj(loops.bag_of("common"), len(ENG.levels))
            ENG.fact(neg(loops.total("PROD", common).eq(0)))
            env.vars["has_den"] = ENG.choose([(("has_den", "yes"), TRUE, None), (("has_den", "no"), TRUE, None)]) == 0
        I.loops[(Q, "for")] = h
        keep(e)(I, call_real(I, SM.rewrite_as_one_fraction, [e], {"include_const_denoms": const}))
    Task("C07", "simplify.rewrite_as_one_fraction (include_const_denoms=%s)" % const, fn)


t_one_fraction(True)
t_one_fraction(False)


def t_one_fraction_other(I):
    e = sym(None)
    W.restrict(e, W.FINITE - {"Sum"})
    ENG.fact(ok(e))
    keep(e)(I, call_real(I, SM.rewrite_as_one_fraction, [e]))


Task("C07", "simplify.rewrite_as_one_fraction (not a sum)", t_one_fraction_other)


# ------------------------------------------------------------------ the complex rule and the drivers
def c_replace_class(I):
    @fn_contract(I, RX.replace_class)
    def c(I, args, kw):
        e, cls, fs = args
        for k, f in zip(I.known_items(cls), I.known_items(fs)):
            def rule(k=k, f=f):
                x = W.fresh("angle")
                ENG.fact(ok(x))
                v = fn_val(k.__name__, V(x))
                ENG.fact(domain_of(k.__name__, x))
                oblige("the replacement of %s has its value" % k.__name__, V(W.to_se(I, I.call(f, [x]))).eq(v))
            side(I, rule)
        r = W.fresh("kept")
        W.setdef(r, "v", V(e))
        ENG.fact(ok(r))
        return r


def domain_of(name, x):
    s, c = fsin(V(x)), fcos(V(x))
    return {"tan": neg(c.eq(0)), "sec": neg(c.eq(0)), "cot": neg(s.eq(0)), "csc": neg(s.eq(0))}.get(name, TRUE)


def rules(I, *names):
    for n in names:
        value_contract(I, getattr(SM, n, None) or getattr(PS, n), optional=True)


def top(name, f, setup, cname=None, verbose=False):
    def fn(I):
        e = sym(cname) if cname else sym(None)
        ENG.fact(ok(e))
        replacers(I)
        setup(I)
        r = call_real(I, f, [e], {"verbose": True} if verbose else {})
        if isinstance(r, tuple):
            r = r[0]
        keep(e)(I, r)
    Task("C07", name, fn)


for c_ in ("Sum", None):
    top("simplify._pythagorean_complex_perform" + ("" if c_ else " (any)"), SM._pythagorean_complex_perform,
        lambda I: (c_replace_class(I), rules(I, "_pythagorean_perform", "rewrite_as_one_fraction"), value_contract(I, SM.reciprocate_trigs)), c_)
for v_ in (False, True):
    top("simplify.pythagorean_simplification" + (" (verbose)" if v_ else ""), SM.pythagorean_simplification, lambda I: rules(I, "_pythagorean_perform"), verbose=v_)
    top("simplify.reciprocate_trigs" + (" (verbose)" if v_ else ""), SM.reciprocate_trigs, lambda I: rules(I, "_reciprocate_trigs"), verbose=v_)
top("simplify.trig_simplify", SM.trig_simplify,
    lambda I: rules(I, "_pythagorean_perform", "_pythagorean_complex_perform", "_reciprocate_trigs", "_combine_trigs", "product_to_sum", "sectan"))
top("simplify.simplify", SM.simplify, lambda I: (value_contract(I, SM.trig_simplify, verbose=True), value_contract(I, SM.expand_logs), c_search(I)))


# ------------------------------------------------------------------ secants and tangents
def t_sectan(I):
    Q = "simplify.simplify.sectan"
    e = kind("Sum")
    c_expand_sum(I)

    @fn_contract(I, SM.is_class_squared)
    def sq(I, args, kw):
        t, k = args
        return ENG.choose([(("squared", k.__name__, t.uid), TRUE, None), (("not squared", k.__name__, t.uid), TRUE, None)]) == 0

    @fn_contract(I, RX.replace_factory)
    def rf(I, args, kw):
        cond, perf = args

        def rule():
            x = W.fresh("power")
            ENG.fact(ok(x))
            if not I.truth(I.call(cond, [x])):
                return
            b = spec.fld(x, "base")
            tn = fsin(V(spec.fld(b, "inner"))) * inv(fcos(V(spec.fld(b, "inner"))))
            n, sc = V(spec.fld(x, "exponent")), inv(fcos(V(spec.fld(b, "inner"))))
            # (s^2)^(n/2) = s^n for even n
            ENG.fact(imp(iseven(n), power(sc, n).eq(power(1 + tn * tn, n * Fraction(1, 2)))))
            oblige("the replacement of a power of a secant has its value", V(W.to_se(I, I.call(perf, [x]))).eq(V(x)))
        side(I, rule)

        def apply(I, x):
            r = W.fresh("kept")
            W.setdef(r, "v", V(x))
            ENG.fact(ok(r))
            return r
        return Fn(apply).make()

    def h(I, s, env):
        import loops
        l = I.ev(s.iter, env)
        if not (isinstance(l, LObj) and stores(s.body, "tans")) or stores(s.body, "secs"):
            return NotImplemented
        before = env.vars["tans"]
        i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        for n in interp.assigned_names([s]):
            env.vars[n] = Poison("assigned in a loop")
        if i == 0:
            def one(x):
                env.vars["tans"] = out = LObj([], len(ENG.levels))
                I.assign(s.target, x, env)
                try:
                    I.block(s.body, env)
                except interp.Cont:
                    pass
                oblige("the list grows by the term", total_of(I, out).eq(V(W.to_se(I, x))))
            arbitrary(I, l, one)
            raise PathEnd()
        env.vars["tans"] = after = LObj(loops.bag_of("tans"), len(ENG.levels))
        ENG.fact(total_of(I, after).eq(total_of(I, before) + total_of(I, l)))
    I.loops[(Q, "for")] = h
    keep(e)(I, call_real(I, SM.sectan, [e]))


Task("C07", "simplify.sectan", t_sectan, allowed=(AssertionError,))


D = tasks.DISCHARGES
D["expr.remove_const_factor"] = ["expr.remove_const_factor (with the factor)"]
D["virtual simplify"] = ["simplify.simplify"]
D["virtual factor"] = ["expr.Sum.factor"]
D["simplify.simplify._log_perform"] = ["simplify._log_perform (of %s)" % c for c in ALLC if c != "Abs"] + ["simplify._log_perform (of |%s|)" % c for c in ALLC] + ["simplify._log_perform (not a logarithm)"]
for n_ in ("_reciprocate_trigs", "_combine_trigs", "_pythagorean_perform"):
    D["simplify.simplify." + n_] = ["simplify.%s (%s)" % (n_, c) for c in ALLC]
D["simplify.simplify._pythagorean_perform"] += ["simplify._pythagorean_perform.is_thing_squared (sin)", "simplify._pythagorean_perform.is_thing_squared (cos)", "simplify._pythagorean_perform.sin_cos_condition"]
D["simplify.simplify._pythagorean_complex_perform"] = ["simplify._pythagorean_complex_perform", "simplify._pythagorean_complex_perform (any)"]
D["simplify.simplify.rewrite_as_one_fraction"] = ["simplify.rewrite_as_one_fraction (include_const_denoms=False)", "simplify.rewrite_as_one_fraction (include_const_denoms=True)", "simplify.rewrite_as_one_fraction (not a sum)"]
for n_ in ("sectan", "trig_simplify", "expand_logs", "simplify", "reciprocate_trigs", "pythagorean_simplification"):
    D["simplify.simplify." + n_] = ["simplify." + n_]
D["simplify.product_to_sum._perform_on_terms"] = ["product_to_sum._perform_on_terms (%s, %s%s)" % (a, b, m) for a in ("sin", "cos", "other") for b in ("sin", "cos", "other") for m in ("", ", multiplier")]
D["simplify.product_to_sum._product_to_sum_unit"] = ["product_to_sum._product_to_sum_unit (%s%s)" % (c, m) for c in ALLC for m in ("", ", multiplier")]
D["simplify.product_to_sum._product_to_sum"] = ["product_to_sum._product_to_sum", "product_to_sum._product_to_sum (multiplier)"]
D["simplify.product_to_sum.product_to_sum_unit"] = ["product_to_sum.product_to_sum_unit"]
D["simplify.product_to_sum.product_to_sum"] = ["product_to_sum.product_to_sum"]
