"""C08: each integration rule is sound on its own, and so is the table.

The rule is run on a node with an arbitrary integrand e of the variable x: check, then forward.  Each sub-problem it creates
is then given an arbitrary solution S with the property wanted of it (d S = its integrand, per its own variable), the rule
goes backward, and the solution of the node must have d = e.  A new variable u stands for the expression recorded in _u:
it has its value, and its derivative along x is that of _u; a solution of the sub-problem in u has d = integrand * du/dx
(chain rule)."""
import sys
from fractions import Fraction
import tasks
from tasks import *
import load
from vals import Obj
from t_c12 import Fn
from t_struct import ALLC
from t_c07 import side
TM = load.simpy.transforms
IM = sys.modules["simpy.integration"]
IT = load.simpy.integral_table
RX = load.simpy.regex


def Task(*a, **k):
    k.setdefault("ghosts", ("v", "d"))
    return tasks.Task(*a, **k)


class Tree:
    """what happened to the node"""
    def __init__(self):
        self.added = []


def mknode(e, var, transform=None, parent=None, type_="UNSET", solution=None, filler=False):
    n = Obj(TM.Node, len(ENG.levels))
    n.attrs.update(expr=e, var=var, transform=transform, parent=parent, type=type_, solution=solution, is_filler=filler)
    n.attrs["_children"] = LObj([], len(ENG.levels))
    return n


def c_nodes(I, tree):
    """the constructor of a node, and adding a child to it (C10)"""
    names = ["expr", "var", "transform", "parent", "type", "solution", "is_filler"]

    @cls_contract(I, TM.Node)
    def new(I, args, kw):
        d = dict(zip(names, args), **kw)
        e = d["expr"]
        return mknode(W.to_se(I, e) if is_num(e) else e, d["var"], d.get("transform"), d.get("parent"), d.get("type", "UNSET"), d.get("solution"), d.get("is_filler", False))

    def add(I, args, kw):
        me, c = args
        # a sub-problem that repeats an ancestor is not explored; a filler always is added
        if not c.attrs["is_filler"] and ENG.choose([(("added", ENG.uid("c")), TRUE, None), (("a repeated problem", ENG.uid("c")), TRUE, None)]) == 1:
            return None
        me.attrs["_children"] = LObj(list(me.attrs["_children"].segs) + [("v", c)], len(ENG.levels))
        return None
    fn_contract(I, TM.Node.__dict__["add_child"])(add)

    def add_all(I, args, kw):
        me, l = args
        c = l.concrete()
        if me.attrs["type"] == "AND" and ENG.choose([(("added", ENG.uid("c")), TRUE, None), (("a repeated problem", ENG.uid("c")), TRUE, None)]) == 1:
            me.attrs["type"] = "FAILURE"
            return None
        if me.attrs["_children"].segs:
            raise Unsupported("children added twice")
        me.attrs["_children"] = LObj(list(l.segs), len(ENG.levels))
        return None
    fn_contract(I, TM.Node.__dict__["add_children"])(add_all)


def same(a, b):
    return a is b or isinstance(a, SE) and isinstance(b, SE) and a.uid == b.uid


def c_replace(I, sub=None):
    """replacing an expression by one of the same value (on an open set: of the same derivative too)"""
    @fn_contract(I, RX.replace)
    def c(I, args, kw):
        e, old, new = (W.to_se(I, x) for x in args)
        r = W.fresh("replaced")
        hyp = V(old).eq(V(new))
        ENG.fact(imp(hyp, V(r).eq(V(e))))
        ENG.fact(imp(conj(hyp, ghost("d", old).eq(ghost("d", new))), ghost("d", r).eq(ghost("d", e))))
        ENG.fact(ok(r))
        ENG.ctx.notes[("replaced", r.uid)] = (e.uid, old.uid)
        return r


class SymbolsOf(W.SymList):
    """the variables of an expression"""
    def contains(self, I, v):
        if not isinstance(v, SE) or v.uid != VAR.uid:
            raise Unsupported("another variable")
        f = dep(self.se)
        ENG.fact(imp(neg(f), ghost("d", self.se).eq(0)))
        return I.fold(f)

    def equals(self, I, o):
        return TRUE if ENG.choose([(("these variables", self.se.uid), TRUE, None), (("other variables", self.se.uid), TRUE, None)]) == 0 else FALSE


def start(I, cname=None):
    e = sym(cname, "integrand")
    ENG.fact(ok(e))
    ENG.fact(dok(e))
    ENG.fact(neg(V(e).eq(0)))
    tree = Tree()
    c_nodes(I, tree)
    c_replace(I)
    W.VIRTUAL["symbols"] = lambda I, se: BoundM(interp.Meth(lambda I, me: SymbolsOf(me, "symbols"), "symbols"), se)

    @fn_contract(I, TM._get_last_heuristic_transform)
    def last(I, args, kw):
        ks = [None, TM.CompleteTheSquare, TM.InverseTrigUSub, TM.TrigUSub2, TM.RewriteTrig, TM.ByParts]
        k = ks[ENG.choose([(("last transform", str(k)), TRUE, None) for k in ks])]
        return None if k is None else Obj(k, len(ENG.levels))

    @fn_contract(I, RX.count)
    def count(I, args, kw):
        p = A("g", "occurrences", ENG.uid("n"))
        ENG.fact(isint(p))
        ENG.fact(P(0).le(p))
        if same(args[1], VAR):
            # no occurrence: it does not depend on the variable (C12)
            x = W.to_se(I, args[0])
            ENG.fact(imp(p.eq(0), conj(neg(dep(x)), ghost("d", x).eq(0))))
        return NV(p, "int")

    @fn_contract(I, TM.generate_intermediate_var)
    def var(I, args, kw):
        u = SE(("newvar", ENG.uid("u")))
        ENG.ctx.classes[u.uid] = frozenset(["Symbol"])
        ENG.fact(ok(u))
        ENG.fact(dok(u))
        return u
    n = mknode(e, VAR)
    n.attrs["parent"] = None
    return e, n


def solve_child(I, c, tr):
    """an arbitrary solution of the sub-problem"""
    S = sym(None, "solution%d" % ENG.uid("s") if isinstance(ENG.uid("s"), int) else "solution")
    x = c.attrs["var"]
    ENG.fact(ok(S))
    ENG.fact(dok(S))
    if same(x, VAR):
        ENG.fact(ghost("d", S).eq(V(c.attrs["expr"])))
    else:
        ENG.fact(ghost("d", S).eq(V(c.attrs["expr"]) * ghost("d", x)))
    c.attrs["solution"] = S
    return S


def the_u(I, tr, c):
    """the new variable stands for what is recorded in _u"""
    u = c.attrs["var"]
    if same(u, VAR):
        return
    t = tr.attrs.get("_u")
    if t is None:
        raise Unsupported("a new variable without a recorded expression")
    t = W.to_se(I, t)
    ENG.fact(V(u).eq(V(t)))
    ENG.fact(ghost("d", u).eq(ghost("d", t)))
    ENG.fact(ok(t))


def rule(cls, cname=None, init=None, pre=None, name="", allowed=(), check=True, prop="C08", post=None, **kw):
    def fn(I):
        e, n = start(I, cname)
        tr = I.call(cls, [])
        if init:
            init(I, e, n, tr)
        if check and not I.truth(I.call(method_of(cls, "check"), [tr, n])):
            tasks.REC_PATH.append(("the rule does not apply", "proved", "", None))
            return
        I.call(method_of(cls, "forward"), [tr, n])
        kids = n.attrs["_children"].concrete()
        if kids is None:
            raise Unsupported("sub-problems of unknown number")
        oblige("the problem itself stays", T_(n.attrs["expr"] is e and n.attrs["var"] is VAR))
        if n.attrs["type"] == "AND":
            raise Unsupported("a joint problem")
        for c in kids:
            if c.attrs["parent"] is not n:
                oblige("the sub-problem is below the problem", FALSE)
            the_u(I, tr, c)
        if pre:
            pre(I, e, n, tr)
        if post:
            post(I, e, n, tr, kids)
        if not kids:
            tasks.REC_PATH.append(("no sub-problem", "proved", "", None))
            return
        i = ENG.choose([(("alternative", j), TRUE, None) for j in range(len(kids))])
        c = kids[i]
        solve_child(I, c, tr)
        t = c.attrs["transform"]
        oblige("the sub-problem goes back through the rule that made it", TRUE if t is tr else FALSE)
        n.attrs["solution"] = None
        I.call(method_of(t.cls, "backward"), [t, c])
        r = n.attrs["solution"]
        if r is None:
            oblige("the problem gets a solution", FALSE)
        else:
            u = c.attrs["var"]
            r = W.to_se(I, r)
            if not same(u, VAR):
                # every use of the new variable is replaced
                k = ENG.ctx.notes.get(("replaced", r.uid))
                if same(r, c.attrs["solution"]) or k == (c.attrs["solution"].uid, VAR.uid):
                    oblige("the answer does not mention the new variable", FALSE)
                elif k != (c.attrs["solution"].uid, u.uid):
                    raise Unsupported("the new variable is not eliminated by a replacement")
                else:
                    oblige("the answer does not mention the new variable", TRUE)
            oblige("the derivative of the solution is the integrand", ghost("d", r).eq(V(e)))
    Task(prop, "transforms.%s%s" % (cls.__name__, name), fn, allowed=(ValueError,) + tuple(allowed), **kw)


def method_of(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]


def same_value(I, fn, args_n=1, verbose=False, opt=False):
    @fn_contract(I, fn)
    def c(I, args, kw):
        x = W.to_se(I, args[0])
        if opt and ENG.choose([(("none", load.qual(fn), x.uid), TRUE, None), (("hit", load.qual(fn), x.uid), TRUE, None)]) == 0:
            return None
        r = W.fresh("kept")
        W.setdef(r, "v", V(x))
        ENG.fact(ok(r))
        if verbose and I.truth(kw.get("verbose", False)):
            return (r, ENG.choose([(("success", r.uid), TRUE, None), (("no success", r.uid), TRUE, None)]) == 0)
        return r


# ------------------------------------------------------------------ the table
def renamed_value(o, name, p):
    """the value of a constant of the table with its variable standing for p"""
    n = type(o).__name__
    if isinstance(o, X.Symbol) and o.name == name:
        return p
    if isinstance(o, X.Rat):
        return P(o.value)
    if isinstance(o, X.Power):
        return power(renamed_value(o.base, name, p), renamed_value(o.exponent, name, p))
    if isinstance(o, X.SingleFunc) and not isinstance(o, X.log):
        return fn_val(n, renamed_value(o.inner, name, p))
    raise Unsupported("an entry of the integral table of an unknown form")


def c_eq_with_var(I):
    """equal up to the name of the variable: renaming the one makes them equal, so they have the same value (C16)"""
    @fn_contract(I, load.simpy.utils.eq_with_var)
    def c(I, args, kw):
        (e, v), (o, w) = (I.known_items(a) for a in args)
        if ENG.choose([(("matches", e.uid, o.uid), TRUE, None), (("does not match", e.uid, o.uid), TRUE, None)]) == 1:
            return False
        for entry, _ in IT.STANDARD_TRIG_INTEGRALS:
            if W.to_se(I, I.lift(entry)).uid == o.uid:
                if W.to_se(I, I.lift(IT.x)).uid != w.uid:
                    raise Unsupported("the variable of the table")
                ENG.fact(V(e).eq(renamed_value(entry, IT.x.name, V(v))))
                return True
        raise Unsupported("an entry of the integral table")


def c_table(I):
    @fn_contract(I, IT.check_integral_table)
    def c(I, args, kw):
        x = W.to_se(I, args[0])
        if ENG.choose([(("not in the table", x.uid), TRUE, None), (("in the table", x.uid), TRUE, None)]) == 0:
            return None
        r = W.fresh("entry")
        ENG.fact(ok(r))
        ENG.fact(dok(r))
        ENG.fact(ghost("d", r).eq(V(x)))
        return r


def table(cname):
    def fn(I):
        e = sym(cname, "integrand")
        ENG.fact(ok(e))
        ENG.fact(dok(e))
        c_eq_with_var(I)
        r = I.call(IT.check_integral_table, [e, VAR])
        if r is None:
            tasks.REC_PATH.append(("not in the table", "proved", "", None))
            return
        oblige("the derivative of the entry is the integrand", ghost("d", W.to_se(I, r)).eq(V(e)))
    Task("C08", "integral_table.check_integral_table (%s)" % cname, fn)


for c_ in ALLC:
    table(c_)
tasks.DISCHARGES["integral_table.check_integral_table"] = ["integral_table.check_integral_table (%s)" % c for c in ALLC]


# ------------------------------------------------------------------ rules that rewrite the integrand
rule(TM.Simplify, init=lambda I, e, n, tr: same_value(I, TM.pythagorean_simplification, verbose=True))
rule(TM.ProductToSum, init=lambda I, e, n, tr: same_value(I, TM.product_to_sum_unit, opt=True))
rule(TM.Expand)


def c_replace_class(I, *_):
    """every use of the functions is replaced by an equal expression (C12); the replacements are equal where all is defined"""
    @fn_contract(I, RX.replace_class)
    def c(I, args, kw):
        e, cls, fs = args
        for k, f in zip(I.known_items(cls), I.known_items(fs)):
            def go(k=k, f=f):
                x = W.fresh("angle")
                ENG.fact(ok(x))
                for w in (fsin(V(x)), fcos(V(x))):
                    ENG.fact(neg(w.eq(0)))
                oblige("the replacement of %s has its value" % k.__name__, V(W.to_se(I, I.call(f, [x]))).eq(fn_val(k.__name__, V(x))))
            side(I, go)
        r = W.fresh("kept")
        W.setdef(r, "v", V(e))
        ENG.fact(ok(r))
        return r


rule(TM.RewriteTrig, init=c_replace_class)


RP = TM.RewritePythagorean


def odd_power(I):
    """sin(a)^(2n+1) = sin(a) (1 - cos(a)^2)^n"""
    e = sym("Power", "e")
    ENG.fact(ok(e))
    if not I.truth(I.call(RP.__dict__["condition"].__func__, [e])):
        tasks.REC_PATH.append(("not an odd power", "proved", "", None))
        return
    b, x = fld(e, "base"), V(fld(e, "exponent"))
    a = V(fld(b, "inner"))
    n = (x - 1) * Fraction(1, 2)
    oblige("whole", isint(n))
    ENG.fact(isint(n))
    for c, o in ((fsin(a), fcos(a)), (fcos(a), fsin(a))):
        ENG.fact((c * c + o * o).eq(1))
        ENG.fact((1 - o * o).eq(c * c))
        tasks.law_cong(1 - o * o, n, c * c, n)
        tasks.law_pow_pow(c, P(2), n)
        # c^(x-1) c = c^x for whole x > 1 (0 included)
        ENG.fact(imp(conj(isint(x), P(1).lt(x)), (power(c, x - 1) * c).eq(power(c, x))))
    r = W.to_se(I, I.call(RP.__dict__["perform"].__func__, [e]))
    oblige("the value stays", V(r).eq(V(e)))
    oblige("defined", ok(r))


Task("C08", "transforms.RewritePythagorean.perform", odd_power)


def c_odd_power(I, *_):
    @fn_contract(I, RP.__dict__["perform"].__func__)
    def c(I, args, kw):
        e = args[0]
        b, x = fld(e, "base"), V(fld(e, "exponent"))
        if W.classes(e) != {"Power"} or not W.classes(b) <= {"sin", "cos"}:
            raise Unsupported("the power is not known to be one of sin or cos")
        oblige("an odd power above one", conj(isint(x), isint((x - 1) * Fraction(1, 2)), P(1).lt(x)))
        r = W.fresh("rewritten")
        W.setdef(r, "v", V(e))
        ENG.fact(ok(r))
        return r


for c_ in ("Prod", "Power", "Sum", "sin"):
    rule(RP, cname=c_, init=c_odd_power, name=" (%s)" % c_)


# ------------------------------------------------------------------ linearity
rule(TM.PullConstant, cname="Prod", name=" (Prod)")


def additivity(I):
    """the parts are the terms; with an antiderivative of every part, the whole gets one"""
    e, n = start(I, "Sum")
    tr = I.call(TM.Additivity, [])
    if not I.truth(I.call(method_of(TM.Additivity, "check"), [tr, n])):
        oblige("a sum is split", FALSE)
        return
    I.call(method_of(TM.Additivity, "forward"), [tr, n])
    oblige("all parts are needed", T_(n.attrs["type"] in ("AND", "FAILURE")))
    kids = n.attrs["_children"]
    if n.attrs["type"] == "FAILURE":
        oblige("no part is left", T_(kids.segs == []))
        return

    def solved(c):
        if c.attrs["parent"] is not n or c.attrs["transform"] is not tr or not same(c.attrs["var"], VAR) or c.attrs["solution"] is not None:
            oblige("the parts are below the problem", FALSE)
        x = c.attrs["expr"]
        S = SE(("solved", x.uid))
        ENG.ctx.classes[S.uid] = W.FINITE
        ENG.fact(ok(S))
        ENG.fact(dok(S))
        ENG.fact(ghost("d", S).eq(V(x)))
        r = Obj(c.cls, len(ENG.levels))
        r.attrs = dict(c.attrs, solution=S)
        return r
    segs = []
    for k, c in kids.segs:
        segs.append((k, solved(c)) if k == "v" else (k, W.map_piece(I, c, lambda el: [(kk, solved(y)) for kk, y in el])))
    n.attrs["_children"] = LObj(segs, len(ENG.levels))
    # backward is called for the part that was finished last
    last = mknode(e, VAR, tr, n)
    last.attrs["solution"] = sym(None, "last solution")
    I.call(method_of(TM.Additivity, "backward"), [tr, last])
    r = n.attrs["solution"]
    if r is None:
        oblige("the problem gets a solution", FALSE)
    else:
        oblige("the derivative of the solution is the integrand", ghost("d", W.to_se(I, r)).eq(V(e)))


Task("C08", "transforms.Additivity", additivity, allowed=(ValueError,))


# ------------------------------------------------------------------ substitutions
def first_quadrant(I, e, n, tr):
    for w in (fsin(V(VAR)), fcos(V(VAR))):
        ENG.fact(P(0).lt(w))


for k_ in ("sin", "cos", "tan"):
    def init_(I, e, n, tr, k=k_):
        tr.attrs["_key"] = k
        first_quadrant(I, e, n, tr)
    rule(TM.TrigUSub2, init=init_, name=" (u = %s x)" % k_, check=False)

rule(TM.TrigUSub2, init=first_quadrant)


def inside(I, e, n, tr):
    same_value(I, TM.pythagorean_simplification, verbose=True)
    ENG.fact(P(-1).lt(V(VAR)))
    ENG.fact(V(VAR).lt(1))


rule(TM.InverseTrigUSub, init=inside)
rule(TM.PolynomialUSub, cname="Prod")


# ------------------------------------------------------------------ u = a x + b
LQ = "transforms.LinearUSub.check.<locals>."
HAVOC = Poison("written by the nested search")


def inverse_fn(u, e):
    """a function that recovers the variable from the value of u"""
    def f(I, w):
        w = W.to_se(I, w)
        r = W.fresh("recovered")
        ENG.fact(imp(V(w).eq(V(u)), V(r).eq(V(VAR))))
        ENG.fact(ok(r))
        return r
    return Fn(f).make()


def lin_result(I, e):
    u = W.fresh("linear")
    ENG.fact(ok(u))
    ENG.fact(dok(u))
    i = ENG.choose([(("inverse", u.uid, k), TRUE, None) for k in range(2)])
    return (u, inverse_fn(u, e) if i else None)


def recovers(I, u, inv_, name="the inverse recovers the variable"):
    """V(w) = V(u) implies V(inv(w)) = V(x)"""
    w = W.fresh("w")
    ENG.fact(ok(w))
    ENG.fact(V(w).eq(V(u)))
    r = I.call(inv_, [w])
    oblige(name, V(W.to_se(I, r)).eq(V(VAR)))


def at_nested(I, qual, go):
    """runs go at the first call of the nested function; what it gives is not used"""
    def at(I, f, args, kw):
        go(I, f, args, kw)
        if not tasks.REC_PATH:
            tasks.REC_PATH.append(("nothing to show", "proved", "", None))
        raise PathEnd()
    I.closures[qual] = at


def keep_rcf(I):
    """without its constant factor: times a constant it is what it was"""
    @fn_contract(I, X.remove_const_factor)
    def c(I, args, kw):
        e = args[0]
        if not W.isinstance_se(e, (X.Prod,)):
            return (e, W.rat(1)) if I.truth(kw.get("include_factor", False)) else e
        a, b = W.fresh("without constants"), W.fresh("constants")
        for y in (a, b):
            ENG.fact(ok(y))
            ENG.fact(dok(y))
        ENG.fact(neg(dep(b)))
        ENG.fact((V(a) * V(b)).eq(V(e)))
        ENG.fact(ghost("d", e).eq(ghost("d", a) * V(b)))
        return (a, b) if I.truth(kw.get("include_factor", False)) else a


def linear(cname):
    def fn(I):
        e, n = start(I, cname)
        keep_rcf(I)
        tr = I.call(TM.LinearUSub, [])
        ENG.fact(neg(V(VAR).eq(0)))

        def go(I, f, args, kw):
            # the search calls the nested test first
            x = sym(cname, "part")
            ENG.fact(ok(x))
            ENG.fact(dok(x))
            r = I.run_closure(f, [x], {})
            if r is None:
                tasks.REC_PATH.append(("not linear", "proved", "", None))
                return
            u, inv_ = I.known_items(r)
            oblige("u is defined", ok(W.to_se(I, u)))
            if inv_ is not None:
                recovers(I, u, inv_)
        at_nested(I, LQ + "_is_a_linear_sum_or_prod", go)
        I.call(method_of(TM.LinearUSub, "check"), [tr, n])
        tasks.REC_PATH.append(("nothing to show", "proved", "", None))
    Task("C08", "transforms.LinearUSub: linear part (%s)" % cname, fn)


for c_ in ("Prod", "Sum", "Power", "sin"):
    linear(c_)


def any_state(I, tr, e, known=False):
    """nothing chosen yet, or some u, with or without its inverse"""
    i = ENG.choose([(("state", k, ENG.uid("st")), TRUE, None) for k in range(2 if not known else 1)])
    if i == 1 or known:
        u, v = lin_result(I, e)
        tr.attrs["_u"], tr.attrs["_inverse_var_change"] = u, v


def c_linear(I):
    def lin(I, f, args, kw):
        x = args[0]
        if ENG.choose([(("linear", x.uid), TRUE, None), (("not linear", x.uid), TRUE, None)]) == 1:
            return None
        return lin_result(I, x)
    I.closures[LQ + "_is_a_linear_sum_or_prod"] = lin


def linear_check(cname):
    def fn(I):
        e, n = start(I, cname)
        c_linear(I)
        tr = I.call(TM.LinearUSub, [])
        seen = []

        def rec(I, f, args, kw):
            if not seen:
                seen.append(1)
                x = sym(cname, "part")
                ENG.fact(ok(x))
                ENG.fact(dok(x))
                any_state(I, tr, x)
                I.run_closure(f, [x], {})
                u, v = tr.attrs.get("_u"), tr.attrs.get("_inverse_var_change")
                if u is HAVOC or u is None:
                    tasks.REC_PATH.append(("as the nested search leaves it", "proved", "", None))
                elif v is not None:
                    recovers(I, u, v)
                else:
                    oblige("u is defined", ok(W.to_se(I, u)))
                raise PathEnd()
            W.write(tr, "_u", HAVOC)
            W.write(tr, "_inverse_var_change", HAVOC)
            x = args[0]
            return ENG.choose([(("found", x.uid), TRUE, None), (("not found", x.uid), TRUE, None)]) == 0
        I.closures[LQ + "_check"] = rec
        I.call(method_of(TM.LinearUSub, "check"), [tr, n])
        tasks.REC_PATH.append(("nothing to show", "proved", "", None))
    Task("C08", "transforms.LinearUSub: search (%s)" % cname, fn)


for c_ in ("Prod", "Sum", "Power", "sin", "log", "Symbol"):
    linear_check(c_)


def c_search_linear(I, e, n, tr):
    def rec(I, f, args, kw):
        if args[0] is not e:
            raise Unsupported("the search starts elsewhere")
        any_state(I, tr, e)
        return ENG.choose([(("found", e.uid), TRUE, None), (("not found", e.uid), TRUE, None)]) == 0
    I.closures[LQ + "_check"] = rec


rule(TM.LinearUSub, init=c_search_linear, allowed=(AttributeError,))
rule(TM.GenericUSub, cname="Prod", init=lambda I, e, n, tr: (keep_rcf(I), c_table(I)), name=" (Prod)")


# the rules for products leave the rest alone (or are sound on it)
REST = tuple(c for c in ALLC if c != "Prod")
for k_ in (TM.GenericUSub, TM.PolynomialUSub, TM.PullConstant):
    rule(k_, cname=REST, name=" (not a product)", init=(lambda I, e, n, tr: (keep_rcf(I), c_table(I))) if k_ is TM.GenericUSub else None)
rule(RP, cname=tuple(c for c in ALLC if c not in ("Prod", "Power", "Sum", "sin")), init=c_odd_power, name=" (other)")
