"""C14: the enumeration of compositions and the multinomial coefficients."""
import ast
import tasks
from tasks import *
import load
import loops
CB = load.simpy.combinatorics
Q = "combinatorics.generate_permutations.<locals>.generate"


def Task(*a, **k):
    k.setdefault("ghosts", ("v",))
    return tasks.Task(*a, **k)


def int_bag(tag):
    """a list of any number of non-negative integers"""
    b = (tag, ENG.uid(tag))
    p = A("g", tag, W.ELEM(b))
    d = Delta()
    d.facts += [isint(p), P(0).le(p)]
    ENG.ctx.leafdelta[b] = d
    l = LObj([("p", Piece(b, {b: [("v", NV(p, "int"))]}))], len(ENG.levels))
    ENG.fact(P(0).le(W.length(l)))
    ENG.fact(isint(W.length(l)))
    return l


def tot(kind, l):
    return W.seg_measure(kind, l.segs, lambda y: nv(y)[0])


# ------------------------------------------------------------------ the enumeration
class All:
    """prefix + t for every list t of r non-negative integers with total m, each once"""
    def __init__(self, prefix, m, r):
        self.prefix, self.m, self.r = prefix, m, r


def same_segs(a, b):
    """equality of two lists that share their unknown part, as a formula"""
    a, b = W.resolve(a), W.resolve(b)
    if len(a) != len(b):
        return FALSE
    out = []
    for (k, x), (k2, y) in zip(a, b):
        if k != k2:
            return FALSE
        if k == "p":
            if x.bag != y.bag or x.emits != y.emits:
                return FALSE
        else:
            out.append(nv(x)[0].eq(nv(y)[0]))
    return conj(*out)


def roles(f, args, kw):
    names = [x.arg for x in f.node.args.args]
    if names != ["current_permutation", "current_sum", "remaining_numbers"]:
        raise Unsupported("the nested function has other parameters")
    d = dict(zip(names, args))
    d.update(kw)
    return [d[n] for n in names]


def t_top(I):
    i, n = num("i", "int"), num("n", "int")
    for x in (i, n):
        ENG.fact(P(0).le(x.p))
    calls = []

    def inner(I, f, args, kw):
        cur, s, r = roles(f, args, kw)
        res = f.env.get("results")
        if not isinstance(res, LObj):
            raise Unsupported("results")
        oblige("nested call: the total of the prefix", nv(s)[0].eq(tot("SUM", cur)))
        oblige("nested call: the length of the prefix", (W.length(cur) + nv(r)[0]).eq(i.p))
        oblige("nested call: range", conj(nv(s)[0].le(n.p), P(0).le(nv(r)[0])))
        res.segs.append(("v", All(list(cur.segs), n.p - nv(s)[0], nv(r)[0])))
        calls.append(1)
    I.closures[Q] = inner
    r = call_real(I, CB.generate_permutations, [i, n])
    if not isinstance(r, LObj) or not calls:
        raise Unsupported("the enumeration has another form")
    ok_ = len(r.segs) == 1 and isinstance(r.segs[0][1], All) and not r.segs[0][1].prefix
    oblige("all lists, each once", conj(T_(ok_), r.segs[0][1].m.eq(n.p), r.segs[0][1].r.eq(i.p)) if ok_ else FALSE)


def T_(b):
    return TRUE if b else FALSE


def t_inner(I):
    i, n = num("i", "int"), num("n", "int")
    st = {}

    def inner(I, f, args, kw):
        if not st:
            return body(I, f)
        c2, s2, r2 = roles(f, args, kw)
        s2, r2 = nv(s2)[0], nv(r2)[0]
        if not isinstance(c2, LObj):
            raise Unsupported("prefix")
        oblige("recursive call: the total of the prefix", s2.eq(tot("SUM", c2)))
        oblige("recursive call: the length of the prefix", (W.length(c2) + r2).eq(i.p))
        oblige("recursive call: range", conj(s2.le(n.p), P(0).le(r2)))
        oblige("recursion ends", conj(r2.lt(st["r"].p), P(0).le(r2)))
        st["res"].segs.append(("v", All(list(c2.segs), n.p - s2, r2)))

    def body(I, f):
        """the nested function on an arbitrary prefix"""
        names = [x.arg for x in f.node.args.args]
        roles(f, [None] * len(names), {})
        cur = int_bag("prefix")
        s, r = num("s", "int"), num("r", "int")
        res = LObj([], len(ENG.levels))
        if not isinstance(f.env.get("results"), LObj):
            raise Unsupported("results")
        e = f.env
        while "results" not in e.vars:
            e = e.parent
        e.vars["results"] = res
        st.update(cur=cur, s=s, r=r, res=res)
        ENG.fact(tot("SUM", cur).eq(s.p))
        ENG.fact((W.length(cur) + r.p).eq(i.p))
        for x in (s.p, r.p, n.p - s.p):
            ENG.fact(P(0).le(x))
        start = list(cur.segs)
        I.run_closure(f, [cur, s, r], {})
        oblige("the prefix is as before", same_segs(cur.segs, start))
        ef = [x for _, x in res.segs]
        if st.get("loop"):
            if ef != [st["loop"]]:
                raise Unsupported("the enumeration has another form")
            oblige("the choices are all first entries", neg(r.p.eq(0)))
        else:
            judge("a full list", ef, start, n.p - s.p, r.p, cur)
        raise PathEnd()

    def judge(what, ef, prefix, m, r, cur):
        """the effects are those of All(prefix, m, r)"""
        if not ef:
            oblige(what + ": nothing is missing", conj(r.eq(0), neg(m.eq(0))))
        elif len(ef) == 1 and isinstance(ef[0], All):
            oblige(what + ": the right lists", conj(same_segs(ef[0].prefix, prefix), ef[0].m.eq(m), ef[0].r.eq(r)))
        elif len(ef) == 1 and isinstance(ef[0], LObj):
            oblige(what + ": the right list", conj(same_segs(ef[0].segs, prefix), r.eq(0), m.eq(0)))
            if ef[0] is cur:
                oblige(what + ": a copy is kept", FALSE)
        else:
            oblige(what + ": each list once", FALSE)

    def loop(I, s, env):
        rng = I.ev(s.iter, env)
        if not isinstance(rng, W.Bounded) or not isinstance(s.target, ast.Name) or s.orelse or not st or len(ENG.levels) != 1 or st["res"].segs or st.get("loop"):
            raise Unsupported("the loop has changed")
        lo, hi = nv(rng.lo)[0], nv(rng.hi)[0]
        oblige("first entries start at 0", lo.eq(0))
        oblige("first entries end at what is left", hi.eq(n.p - st["s"].p + 1))
        k = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        cur, res = st["cur"], st["res"]
        loops.poison(env, s.body, set())
        if k == 1:
            env.vars[s.target.id] = Poison("after the loop")
            st["loop"] = All(None, None, None)
            res.segs = [("v", st["loop"])]
            return
        v = num("value", "int")
        ENG.fact(conj(lo.le(v.p), v.p.lt(hi)))
        ENG.fact(isint(v.p + 1 - hi))
        ENG.fact(v.p.le(hi - 1))
        env.vars[s.target.id] = v
        start = list(cur.segs)
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        oblige("the prefix is as before", same_segs(cur.segs, start))
        judge("first entry", [x for _, x in res.segs], start + [("v", v)], n.p - st["s"].p - v.p, st["r"].p - 1, cur)
        raise PathEnd()

    I.closures[Q] = inner
    I.loops[(Q, "for")] = loop
    call_real(I, CB.generate_permutations, [i, n])
    raise Unsupported("the nested function is not called")


Task("C14", "combinatorics.generate_permutations", t_top)
Task("C14", "combinatorics.generate_permutations.generate", t_inner)


# ------------------------------------------------------------------ multinomial coefficients
def t_multi(I):
    xs, n = int_bag("xs"), num("n", "int")
    S = tot("SUM", xs)
    ENG.fact(P(1).le(W.length(xs)))
    ENG.fact(isint(S))
    ENG.fact(P(0).le(S))
    ENG.fact(S.le(n.p))
    fa = lambda p: A("fact", p)
    den = fa(n.p - S) * W.seg_measure("PROD", xs.segs, lambda y: fa(nv(y)[0]))
    ENG.fact(P(1).le(den))
    want = fa(n.p) * inv(den)
    ENG.fact(isint(want))
    r = call_real(I, CB.multinomial_coefficient, [xs, n])
    if not is_num(r):
        oblige("a number is returned", FALSE)
        return
    oblige("the coefficient", nv(r)[0].eq(want))
    oblige("computed with integers only", T_(nv(r)[1] == "int"))


Task("C14", "combinatorics.multinomial_coefficient", t_multi)
