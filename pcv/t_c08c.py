"""C08: after a substitution, the new integrand does not depend on the old variable.

Ghost s: the value at an assignment where the old variable has another value and everything else, the new variable
included, keeps its value.  A new integrand with s = v does not depend on the old variable; one that does would be
integrated as if it were a constant."""
import tasks
import terms
from tasks import *
from tasks import oblige
import t_c08 as C
from t_c08 import TM, RX, Fn, same, method_of, mknode, Tree, c_nodes, SymbolsOf
from t_struct import ALLC
ASSUME_KEEP = "C08: the product of some of the factors of a simplified product keeps these factors as they are"
ASSUME_INSIDE = "C08: if an expression has as many occurrences of x as of u, and u has one, then every x is inside a u (sum over the structure; count: C12)"


def S(e):
    return ghost("s", e)


def indep(e):
    return S(e).eq(V(e))


def exponent(e):
    """n if e was built as x^n"""
    b, n = ENG.ctx.notes.get(("power", e.uid)) or (e, None)
    if n is not None and same(b, VAR):
        ENG.fact(imp(V(n).eq(1), V(e).eq(V(VAR))))
        return n


def key(e):
    """what the expression is, for the few forms that are counted or replaced"""
    if same(e, VAR):
        return "x"
    n = exponent(e)
    if n is not None:
        return "x^" + repr(V(n))
    k = ENG.ctx.notes.get(("form", e.uid))
    return k if k else "%s" % (e.uid,)


def occ(y, q):
    """how often q occurs in y"""
    p = A("g", "occ " + key(q), y.uid)
    ENG.fact(isint(p))
    ENG.fact(P(0).le(p))
    return p


def rep(y, q, g):
    """the value (g = v, s) of y with every q replaced"""
    return A("g", "rep%s %s" % (g, key(q)), y.uid)


def once(q):
    """how often the old variable occurs in q, for the forms known"""
    return ONE if same(q, VAR) or exponent(q) is not None or ENG.ctx.notes.get(("form", q.uid)) else None


def noform(y, q):
    """q does not occur in y = x or x^m when it is another power of x"""
    ex = exponent(q)
    if ex is None:
        return
    cl = W.classes(y)
    p = occ(y, q)
    if cl == {"Symbol"}:
        ENG.fact(imp(neg(V(ex).eq(1)), p.eq(0)))
    if cl == {"Power"}:
        b, m = fld(y, "base"), fld(y, "exponent")
        ENG.fact(imp(conj(V(b).eq(V(VAR)), S(b).eq(S(VAR)), fixed(m), neg(V(m).eq(V(ex)))), p.eq(0)))


def split(I, e):
    """e as a factor times the product of the others, for the products the rule has made of the others"""
    if W.classes(e) != {"Prod"}:
        return []
    out = []
    mine = W.resolve(spec.segs(e, "Prod"))
    for r, segs in made():
        segs = W.resolve(segs)
        n = len(segs)
        if len(mine) != n + 1:
            continue
        for i, (k, t) in enumerate(mine):
            if k == "v" and all(same_seg(a, b) for a, b in zip(mine[:i] + mine[i + 1:], segs)):
                out.append((t, r))
    return out


def made():
    """the products made, also under the names their elements have got since"""
    for r, segs in ENG.ctx.notes.get("products", ()):
        yield r, segs
        for bag, p in list(ENG.ctx.parts.items()):
            if p[0] != "split":
                continue
            for kind, x in p[1]:
                if kind == "e":
                    yield W.ren_value(r, ELEM(bag), x), [(k, W.ren_value(t, ELEM(bag), x)) for k, t in segs]


def same_seg(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "v":
        return same(a[1], b[1])
    return a[1].bag == b[1].bag and all(len(e) == 1 and e[0][0] == "v" and same(e[0][1], SE(ELEM(L))) for p in (a[1], b[1]) for L, e in p.emits.items())


def replaced(I, e, old):
    """facts about the value of e with every `old` replaced"""
    v, s = rep(e, old, "v"), rep(e, old, "s")
    ENG.fact(imp(occ(e, old).eq(0), conj(v.eq(V(e)), s.eq(S(e)))))
    if same(old, VAR):
        ENG.fact(v.eq(s))
    elif once(old) is not None:
        ENG.assumed.add(ASSUME_INSIDE)
        ENG.fact(imp(occ(e, old).eq(occ(e, VAR)), v.eq(s)))
    ENG.fact(imp(inside(e, old), v.eq(s)))


def inside(e, u):
    """every x in e is inside a u"""
    return pred("inside " + key(u), e.uid)


def fixed(x):
    """the value of x does not depend on the old variable: it is made of values of expressions without it"""
    g = TRUE
    for a in V(x).atoms():
        k = terms.ATOMS[a]
        if k[:2] != ("g", "v"):
            return neg(dep(x))
        g = conj(g, neg(dep(SE(k[2]))))
    return g


def setup(I, cname):
    e = sym(cname, "integrand")
    for g in ("v", "s"):
        ENG.fact(ok(e, g))
    ENG.fact(dok(e))
    for g in ("v", "s"):
        ENG.fact(neg(ghost(g, e).eq(0)))
        ENG.fact(neg(ghost(g, VAR).eq(0)))
    tree = Tree()
    c_nodes(I, tree)
    W.VIRTUAL["symbols"] = lambda I, se: BoundM(interp.Meth(lambda I, me: SymbolsOf(me, "symbols"), "symbols"), se)

    def contains(I, se, var):
        if not same(var, VAR):
            raise Unsupported("contains another variable")
        f = dep(se)
        ENG.fact(imp(neg(f), conj(ghost("d", se).eq(0), indep(se))))
        return I.fold(f)
    W.VIRTUAL["contains"] = lambda I, se, m=interp.Meth(contains, "contains"): BoundM(m, se)

    def diff(I, se, var=None):
        if not same(var, VAR):
            raise Unsupported("derivative by another variable")
        r = W.fresh("diff")
        W.setdef(r, "v", ghost("d", se))
        n = exponent(se)      # d(x^n) = n x^(n-1), here and at the other x
        if n is not None:
            ENG.fact(imp(fixed(n), ghost("d", se).eq(V(n) * power(V(VAR), V(n) - 1))))
            ENG.fact(imp(fixed(n), S(r).eq(V(n) * power(S(VAR), V(n) - 1))))
        if ENG.ctx.notes.get(("linear", se.uid)):
            ENG.fact(indep(r))
        ENG.fact(ok(r))
        ENG.fact(ok(r, "s"))
        return r
    W.VIRTUAL["diff"] = lambda I, se, m=interp.Meth(diff, "diff"): BoundM(m, se)

    # what is built of the old variable is recognised
    def note(cls, form):
        c = I.contracts[cls]

        def made(I, args, kw):
            r = c.apply(I, args, kw)
            if isinstance(r, SE):
                form(I, r, args, kw)
            return r
        cls_contract(I, cls)(made)
    for n in ("sin", "cos", "tan"):
        def fn(I, r, args, kw, n=n):
            if args and same(args[0], VAR):
                ENG.ctx.notes[("form", r.uid)] = n + " x"
        note(getattr(X, n), fn)

    def pr(I, r, args, kw):
        l = args[0]
        if isinstance(l, LObj):
            ENG.ctx.notes["products"] = tuple(ENG.ctx.notes.get("products", ())) + ((r, tuple(l.segs)),)
            ENG.assumed.add(ASSUME_KEEP)
    note(X.Prod, pr)

    @fn_contract(I, TM._get_last_heuristic_transform)
    def last(I, args, kw):
        return None

    @fn_contract(I, RX.count)
    def count(I, args, kw):
        y, q = (W.to_se(I, a) for a in args)
        p = occ(y, q)
        if same(q, VAR):
            ENG.fact(imp(p.eq(0), conj(neg(dep(y)), ghost("d", y).eq(0), indep(y))))
        for t, r in split(I, y):
            noform(t, q)
            ENG.fact(p.eq(occ(t, q) + occ(r, q)))
        return NV(p, "int")

    @fn_contract(I, RX.replace)
    def replace(I, args, kw):
        y, old, new = (W.to_se(I, a) for a in args)
        oblige("what is put in does not depend on the old variable", indep(new))
        replaced(I, y, old)
        for t, r in split(I, y):
            noform(t, old)
            replaced(I, t, old)
            replaced(I, r, old)
            for g in ("v", "s"):
                ENG.fact(rep(y, old, g).eq(rep(t, old, g) * rep(r, old, g)))
        z = W.fresh("replaced")
        W.setdef(z, "v", rep(y, old, "v"))
        W.setdef(z, "s", rep(y, old, "s"))
        for g in ("v", "s"):
            ENG.fact(ok(z, g))
        return z

    @fn_contract(I, TM.generate_intermediate_var)
    def var(I, args, kw):
        u = SE(("newvar", ENG.uid("u")))
        ENG.ctx.classes[u.uid] = frozenset(["Symbol"])
        for g in ("v", "s"):
            ENG.fact(ok(u, g))
        ENG.fact(neg(dep(u)))
        ENG.fact(indep(u))
        return u
    n = mknode(e, VAR)
    n.attrs["parent"] = None
    return e, n


def t_indep(cls, cname=None, name="", init=None):
    def fn(I):
        e, n = setup(I, cname)
        tr = I.call(cls, [])
        if init:
            init(I, e, n, tr)
        C.same_value(I, TM.pythagorean_simplification, verbose=True)
        if not I.truth(I.call(method_of(cls, "check"), [tr, n])):
            tasks.REC_PATH.append(("the rule does not apply", "proved", "", None))
            return
        I.call(method_of(cls, "forward"), [tr, n])
        kids = n.attrs["_children"].concrete()
        if kids is None:
            raise Unsupported("sub-problems of unknown number")
        for c in kids:
            if same(c.attrs["var"], VAR):
                continue
            x = W.to_se(I, c.attrs["expr"])
            ENG.fact(ok(x, "s"))
            oblige("the new integrand does not depend on the old variable", indep(x))
        if not tasks.REC_PATH:
            tasks.REC_PATH.append(("no new variable", "proved", "", None))
    tasks.Task("C08", "transforms.%s: the old variable is gone%s" % (cls.__name__, name), fn, allowed=(ValueError, AttributeError), used=("v", "s"), ghosts=("v", "s", "d"))


t_indep(TM.TrigUSub2)
t_indep(TM.InverseTrigUSub)
t_indep(TM.PolynomialUSub, "Prod")
