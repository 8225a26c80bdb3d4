"""Specifications: the real-valued meaning of every node type (ghost functions v, s, d), where it is defined (ok), and the
contracts of the library's functions in these terms.

v(e)  value of e at an arbitrary assignment        s(e)  value at the assignment an arbitrary substitution induces
d(e)  partial derivative of e by an arbitrary variable at that assignment
ok(e) e is defined there (real-valued, domain as stated in DESIGN.md); oks(e) same for s; dok(e) differentiable there
"""
import math
from fractions import Fraction
import z3
import load
from load import E as X
from engine import *
from engine import ENG
from terms import *
from vals import *
import world as W
from world import V, GHOSTS, PREDS, ELEMFACTS, VIRTUAL, ONREFINE, OPS, LIT, LEAFCLS, ghost, classes, TRIG
import interp
from interp import Interp, is_num, nv, mknum, Star

VAR = SE(("var",))
VALS = ["v", "s"]          # the valuations the task looks at


def ok(se, val="v"):
    return TRUE if se.uid in LIT else pred("ok" if val == "v" else "oks", se.uid)


def dok(se):
    return TRUE if se.uid in LIT else pred("dok", se.uid)


def pp(se, val="v"):
    """positive, and so is every factor (base) of it"""
    if se.uid in LIT:
        return P(0).lt(ghost(val, se))
    return pred("pp" if val == "v" else "pps", se.uid)


def rint(se):
    """an explicit integer constant"""
    if se.uid in LIT:
        c, f = LIT[se.uid]
        return z3.BoolVal(c == "Rat" and Fraction(f["value"]).denominator == 1)
    cl = classes(se)
    if cl == {"Rat"}:
        return isint(V(se))
    if "Rat" not in cl:
        return FALSE
    return pred("rint", se.uid)


def sub_(se):
    if se.uid in LIT:
        c, f = LIT[se.uid]
        if c in ("Rat", "Float"):
            return z3.BoolVal(f["value"] < 0)
        if c == "Prod":
            t = f["terms"][0]
            return z3.BoolVal(t.uid in LIT and LIT[t.uid][0] == "Rat" and LIT[t.uid][1]["value"] < 0)
        if c == "Sum":
            return conj(*[sub_(t) for t in f["terms"]])
        return FALSE
    return pred("sub", se.uid)


def dep(se):
    if se.uid in LIT:
        return FALSE
    if se.uid == VAR.uid:
        return TRUE
    return pred("dep", se.uid)


def oneq(a, b):
    for val in VALS:
        ENG.fact(ok(a, val) == ok(b, val))
        ENG.fact(pp(a, val) == pp(b, val))
    ENG.fact(dok(a) == dok(b))
    ENG.fact(dep(a) == dep(b))
    ENG.fact(sub_(a) == sub_(b))


def onne(a, b):
    for x, y in ((a, b), (b, a)):
        if x.uid == VAR.uid and classes(y) == {"Symbol"}:
            ENG.fact(neg(dep(y)))
            ENG.fact(ghost("d", y).eq(0))


W.ONEQ.append(oneq)
W.ONNE.append(onne)


# ------------------------------------------------------------------ meaning of the node types
def fld(se, name):
    l = LIT.get(se.uid)
    if l:
        return l[1][name]
    v = ENG.ctx.attrs.get((se.uid, name))
    return v if v is not None else SE((name, se.uid))


def segs(se, c):
    l = LIT.get(se.uid)
    if l:
        return [("v", t) for t in l[1]["terms"]]
    v = ENG.ctx.attrs.get((se.uid, "terms"))
    if v is not None:
        return [("v", t) for t in v] if isinstance(v, tuple) else list(v.segs)
    return list(W.terms_of(se, c).segs)


def fn_val(c, p, q=None):
    """value of the function node c at p (log: base q)"""
    if c == "log":
        return ln(p) * inv(ln(q))
    if c == "sin":
        return fsin(p)
    if c == "cos":
        return fcos(p)
    if c == "tan":
        return fsin(p) * inv(fcos(p))
    if c == "csc":
        return inv(fsin(p))
    if c == "sec":
        return inv(fcos(p))
    if c == "cot":
        return fcos(p) * inv(fsin(p))
    if c in ("asin", "acos", "atan"):
        if not p.m:
            return PI * Fraction(1, 2) if c == "acos" else ZERO
        return A(c, p)
    if c == "Abs":
        return fabs(p)
    raise KeyError(c)


def fn_der(c, p):
    """derivative of the function c at p"""
    one = P(1)
    if c == "sin":
        return fcos(p)
    if c == "cos":
        return -fsin(p)
    if c == "tan":
        return inv(fcos(p)) ** 2
    if c == "csc":
        return -fcos(p) * inv(fsin(p)) ** 2
    if c == "sec":
        return fsin(p) * inv(fcos(p)) ** 2
    if c == "cot":
        return -inv(fsin(p)) ** 2
    if c == "asin":
        return power(one - p * p, P(Fraction(-1, 2)))
    if c == "acos":
        return -power(one - p * p, P(Fraction(-1, 2)))
    if c == "atan":
        return inv(one + p * p)
    if c == "Abs":
        return fabs(p) * inv(p)
    raise KeyError(c)


def fn_dom(c, p, q=None):
    if c == "log":
        return conj(P(0).lt(p), P(0).lt(q), neg(q.eq(1)))
    if c in ("tan", "sec"):
        return neg(fcos(p).eq(0))
    if c in ("csc", "cot"):
        return neg(fsin(p).eq(0))
    if c in ("asin", "acos"):
        return conj(P(-1).le(p), p.le(1))
    return TRUE


def fn_ddom(c, p):
    if c in ("asin", "acos"):
        return conj(P(-1).lt(p), p.lt(1))
    if c == "Abs":
        return neg(p.eq(0))
    return TRUE


def d_pow(b, x, db, dx):
    r = x * power(b, x - 1) * db
    if dx.m:
        r = r + power(b, x) * ln(b) * dx
    return r


def d_log(p, q, dp, dq):
    # (ln p / ln q)'
    r = dp * inv(p) * inv(ln(q))
    if dq.m:
        r = r - ln(p) * dq * inv(q) * inv(ln(q)) ** 2
    return r


def d_prod(sg):
    """derivative of the product of the elements of the segments"""
    total = ZERO
    for i, (k, x) in enumerate(sg):
        rest = W.seg_measure("PROD", sg[:i] + sg[i + 1:], lambda y: ghost("v", W.need_se(y)))
        if k == "v":
            total = total + ghost("d", x) * rest
        else:
            bag = x.bag
            if bag in ENG.ctx.parts or set(x.emits) != {bag} or len(x.emits[bag]) != 1 or x.emits[bag][0][0] != "v":
                return None
            y = x.emits[bag][0][1]
            el = ELEM(bag)
            pre, post = W.sides(bag, el)
            r = lambda b: segprod(b, ELEM(b), ghost_nodef("v", ren_value(y, el, ELEM(b))))
            total = total + segsum(bag, el, ghost_nodef("d", y) * r(pre) * r(post)) * rest
    return total


def ghost_nodef(g, se):
    """the ghost as an atom: its definition for the elements of a bag is looked up when the bag is normalised"""
    if se.uid in LIT:
        return ghost(g, se)
    return A("g", g, se.uid)


def valuation(g):
    def f(se, c):
        if c in ("Rat", "Float"):
            if se.uid in LIT:
                x = LIT[se.uid][1]["value"]
                return P(x) if not isinstance(x, float) else P(Fraction(x))
            v = ENG.ctx.attrs.get((se.uid, "value"))
            if v is not None:
                return nv(v)[0]
            return None if g == "v" else V(se)
        if c == "Pi":
            return PI
        if c == "E":
            return EU
        if c == "Sum":
            return W.seg_measure("SUM", segs(se, c), lambda y: ghost_nodef(g, W.need_se(y)))
        if c == "Prod":
            return W.seg_measure("PROD", segs(se, c), lambda y: ghost_nodef(g, W.need_se(y)))
        if c == "Power":
            return power(ghost(g, fld(se, "base")), ghost(g, fld(se, "exponent")))
        if c == "log":
            return fn_val("log", ghost(g, fld(se, "inner")), ghost(g, fld(se, "base")))
        if c in TRIG or c == "Abs":
            return fn_val(c, ghost(g, fld(se, "inner")))
        return None
    return f


def derivative(se, c):
    if c in ("Rat", "Float", "Pi", "E"):
        return ZERO
    if c == "Symbol":
        return ONE if se.uid == VAR.uid else None
    if c == "Sum":
        return W.seg_measure("SUM", segs(se, c), lambda y: ghost_nodef("d", W.need_se(y)))
    if c == "Prod":
        return d_prod(segs(se, c))
    if c == "Power":
        b, x = fld(se, "base"), fld(se, "exponent")
        dx = ZERO if z3.is_true(rint(x)) or classes(x) <= {"Rat", "Float", "Pi", "E"} else ghost("d", x)
        return d_pow(V(b), V(x), ghost("d", b), dx)
    if c == "log":
        p, q = fld(se, "inner"), fld(se, "base")
        return d_log(V(p), V(q), ghost("d", p), ghost("d", q))
    if c in TRIG or c == "Abs":
        p = fld(se, "inner")
        return fn_der(c, V(p)) * ghost("d", p)
    return None


GHOSTS["v"] = valuation("v")
GHOSTS["s"] = valuation("s")
GHOSTS["d"] = derivative


def okpow(b, x, val="v"):
    vb, vx = ghost(val, b), ghost(val, x)
    return conj(ok(b, val), ok(x, val), disj(pp(b, val), conj(rint(x), disj(neg(vb.eq(0)), P(0).le(vx))), conj(vb.eq(0), P(0).lt(vx))))


def ok_unfold(val):
    def f(se, c):
        o = lambda n: ok(fld(se, n), val)
        g = lambda n: ghost(val, fld(se, n))
        if c == "Power":
            b, x = fld(se, "base"), fld(se, "exponent")
            return [okpow(b, x, val)]
        if c == "log":
            return [o("inner"), o("base"), fn_dom("log", g("inner"), g("base"))]
        if c in TRIG or c == "Abs":
            return [o("inner"), fn_dom(c, g("inner"))]
        return []
    return f


PREDS["ok"] = ok_unfold("v")
PREDS["oks"] = ok_unfold("s")


def dok_unfold(se, c):
    if c == "Power":
        b, x = fld(se, "base"), fld(se, "exponent")
        vb, vx = V(b), V(x)
        return [dok(b), dok(x), disj(P(0).lt(vb), conj(rint(x), disj(neg(vb.eq(0)), P(1).le(vx)))), imp(dep(x), P(0).lt(vb))]
    if c == "log":
        return [dok(fld(se, "inner")), dok(fld(se, "base"))]
    if c in TRIG or c == "Abs":
        p = fld(se, "inner")
        return [dok(p), fn_ddom(c, V(p))]
    return []


PREDS["dok"] = dok_unfold


def pp_unfold(val):
    def f(se, c):
        out = [P(0).lt(ghost(val, se))]
        if c == "Power":
            b, x = fld(se, "base"), fld(se, "exponent")
            if classes(x) != {"Rat"}:
                out.append(disj(pp(b, val), conj(z3.BoolVal("Rat" in classes(x)), pred("rat", x.uid))))
        return out
    return f


PREDS["pp"] = pp_unfold("v")
PREDS["pps"] = pp_unfold("s")


def elemfacts(c, parent, el):
    return [f for f in elemfacts_(c, parent, el) if not (ENG.inactive and ENG.off(f))]


def elemfacts_(c, parent, el):
    out = []
    for val in VALS:
        out.append(imp(ok(parent, val), ok(el, val)))
        out.append(imp(pp(el, val), P(0).lt(ghost(val, el))))
        if c == "Prod":
            out.append(imp(conj(pp(parent, val), neg(sub_(parent))), pp(el, val)))
    out.append(imp(dok(parent), dok(el)))
    out.append(imp(neg(dep(parent)), neg(dep(el))))
    out.append(imp(neg(dep(el)), ghost("d", el).eq(0)))
    return out


ELEMFACTS.append(elemfacts)


def refine(se, c):
    if c in ("Rat", "Float", "Pi", "E"):
        ENG.fact(sub_(se) == V(se).lt(0))
        ENG.fact(neg(dep(se)))
        ENG.fact(ok(se))
        ENG.fact(ok(se, "s"))
        ENG.fact(dok(se))
        if c == "Rat" and se.uid not in LIT:
            ENG.fact(pred("rat", se.uid))
    elif c not in ("Sum", "Prod"):
        ENG.fact(neg(sub_(se)))
    if c == "Symbol":
        ENG.fact(imp(neg(dep(se)), ghost("d", se).eq(0)))
    for g in FIELD_FACTS:
        for n in W.FIELDSOF.get(c, []):
            if n in ("base", "exponent", "inner"):
                f = fld(se, n)
                if isinstance(f, SE) and f.uid not in LIT:
                    for x in g(se, f):
                        ENG.fact(x)


FIELD_FACTS = []
FIELD_FACTS.append(lambda p, f: [imp(neg(dep(p)), neg(dep(f))), imp(neg(dep(f)), ghost("d", f).eq(0)), imp(dep(f), dep(p)),
                                 imp(pp(f), P(0).lt(V(f))), imp(pp(f, "s"), P(0).lt(ghost("s", f)))])
ONREFINE.append(refine)


# ------------------------------------------------------------------ results
class Undef(Unsupported):
    """the computation builds something that is certainly undefined"""


def closure(f):
    """domain closure: what the computation builds is defined at the point (assumed; never when it cannot be)"""
    if z3.is_true(f):
        return
    if z3.is_false(f) or not ENG.feasible(f):
        import prove
        if not prove.consistent(ENG, ENG.ctx):
            raise Infeasible()
        raise Undef("the computation builds an expression that is undefined at a point where the result should exist")
    ENG.assumed.add("domain closure: an intermediate power, quotient or function the code builds is defined at the point considered")
    ENG.fact(f)


def only(*ghosts):
    """look at these ghosts only"""
    VALS[:] = [g for g in ("v", "s") if g in ghosts]
    off = {g for g in ("v", "s", "d") if g not in ghosts}
    if "s" in off:
        off |= {"oks", "pps"}
    if "d" in off:
        off |= {"dok"}
    ENG.inactive = frozenset(off)


def result(vals, cl=None, tag="r", okf=TRUE):
    """a new expression with the given ghosts {ghost: Poly}"""
    p = vals.get("v")
    if p is not None and cl == frozenset(["Rat"]):
        se = W.mkrat(p)
        return se
    se = W.fresh(tag, cl if cl is not None else W.FINITE)
    for g, q in vals.items():
        if q is not None:
            W.setdef(se, g, q)
    for val in VALS:
        ENG.fact(ok(se, val))
        ENG.fact(imp(pp(se, val), P(0).lt(ghost(val, se))))
    ENG.fact(imp(neg(dep(se)), ghost("d", se).eq(0)))
    if cl is not None and len(cl) == 1:
        W.unfold(se)
    return se


def all_rat(*ses):
    return all(classes(s) == {"Rat"} for s in ses)


def add_(ses):
    return {g: sum((ghost(g, x) for x in ses), ZERO) for g in GHOSTS}


def mul_(ses):
    r = {}
    for g in VALS:
        t = ONE
        for x in ses:
            t = t * ghost(g, x)
        r[g] = t
    r["d"] = d_prod([("v", x) for x in ses])
    return r


def constlike(se):
    return se.uid in LIT or classes(se) <= {"Rat", "Float", "Pi", "E"}


def pow_(b, x):
    r = {g: power(ghost(g, b), ghost(g, x)) for g in VALS}
    r["d"] = d_pow(V(b), V(x), ghost("d", b), ZERO if constlike(x) else ghost("d", x))
    return r


def rints(r, *ses):
    """sums, differences and products of explicit integers are explicit integers"""
    rats(r, *ses)
    fs = [rint(x) for x in ses]
    if not any(z3.is_false(f) for f in fs):
        ENG.fact(imp(conj(*fs), rint(r)))
        for x in ses + (r,):
            if not z3.is_true(rint(x)):
                ENG.fact(imp(rint(x), isint(V(x))))
    return r


def rats(r, *ses):
    """so are those of explicit rationals, also when that is found out only later"""
    if len(classes(r)) > 1 and all("Rat" in classes(x) for x in ses):
        ENG.ctx.notes[("closed", r.uid) + tuple(x.uid for x in ses)] = True
    return r


def op_add(I, a, b):
    return rints(result(add_([a, b]), frozenset(["Rat"]) if all_rat(a, b) else None), a, b)


def op_mul(I, a, b):
    return rints(result(mul_([a, b]), frozenset(["Rat"]) if all_rat(a, b) else None), a, b)


def neg_se(a):
    if a.uid in LIT and LIT[a.uid][0] in ("Infinity", "NegInfinity"):
        return W.lit("NegInfinity" if LIT[a.uid][0] == "Infinity" else "Infinity")
    return rints(result({g: -ghost(g, a) for g in GHOSTS}, frozenset(["Rat"]) if all_rat(a) else None), a)


def op_sub(I, a, b):
    return rints(result({g: ghost(g, a) - ghost(g, b) for g in GHOSTS}, frozenset(["Rat"]) if all_rat(a, b) else None), a, b)


def op_pow(I, a, b):
    return power_contract(I, a, b)


def power_contract(I, b, x):
    for val in VALS:
        ENG.fact(imp(pp(b, val), P(0).lt(ghost(val, b))))
    if val_used("v"):
        closure(okpow(b, x))
    if val_used("s"):
        closure(okpow(b, x, "s"))
    vb, vx = V(b), V(x)
    cl = None
    if all_rat(b, x) and z3.is_true(z3.simplify(isint(vx))):
        cl = frozenset(["Rat"])
    r = result(pow_(b, x), cl)
    ENG.ctx.notes[("power", r.uid)] = (b, x)
    return r


USED = {"v"}


def val_used(v):
    return v in USED


def op_div(I, a, b):
    closure(neg(V(b).eq(0)))
    if val_used("s"):
        closure(neg(ghost("s", b).eq(0)))
    r = {g: ghost(g, a) * inv(ghost(g, b)) for g in VALS}
    r["d"] = (ghost("d", a) * V(b) - V(a) * ghost("d", b)) * inv(V(b)) ** 2
    return rats(result(r, frozenset(["Rat"]) if all_rat(a, b) else None), a, b)


OPS.update({"__add__": op_add, "__sub__": op_sub, "__mul__": op_mul, "__truediv__": op_div, "__pow__": op_pow,
            "__neg__": lambda I, a: neg_se(a)})


# ------------------------------------------------------------------ contracts
class Contract:
    def __init__(self, name, f):
        self.name = name
        self.apply = f


def cls_contract(I, cls, name=None):
    def d(f):
        c = Contract(name or cls.__name__, f)
        I.contracts[cls] = c
        return f
    return d


def fn_contract(I, fn, name=None):
    def d(f):
        c = Contract(name or load.qual(fn), f)
        I.contracts[fn] = c
        return f
    return d


def unwrap(fn):
    """the function under @cast"""
    while fn.__closure__ and fn.__code__.co_name == "wrapper":
        cells = dict(zip(fn.__code__.co_freevars, fn.__closure__))
        if "func" not in cells:
            break
        fn = cells["func"].cell_contents
    return fn


def terms_arg(I, a):
    """the segments of a list argument, numbers cast to expressions"""
    if isinstance(a, tuple):
        a = LObj([("v", x) for x in a], len(ENG.levels))
    if not isinstance(a, LObj):
        raise Unsupported("list of terms expected")
    sg = W.resolve(list(a.segs))
    if any(k == "v" for k, _ in sg):
        sg = [(k, W.to_se(I, x) if k == "v" else x) for k, x in sg]
    return sg


def as_se(y):
    if isinstance(y, SE):
        return y
    return None


def gval(I, g):
    def f(y):
        if isinstance(y, SE):
            return ghost(g, y)
        p, k = nv(y)
        return p if g in VALS else ZERO
    return f


def install(I):
    def assoc(cls, kind):
        @cls_contract(I, cls)
        def apply(I, args, kw):
            skip = args[1] if len(args) > 1 else kw.get("skip_checks", False)
            lst = args[0] if args else kw["terms"]
            if isinstance(lst, LObj):
                W.touch(lst)
            sg = terms_arg(I, lst)
            if len(sg) == 1 and sg[0][0] == "v":
                return sg[0][1]
            if not sg:
                return W.rat(0 if kind == "SUM" else 1)
            if skip is not False:
                return NotImplemented if False else skipped(cls, kind, lst, sg)
            vals = {g: W.seg_measure(kind, sg, gval(I, g)) for g in VALS}
            if kind == "SUM":
                vals["d"] = W.seg_measure(kind, sg, gval(I, "d"))
            else:
                vals["d"] = d_prod(sg)
            cl = None
            return result(vals, cl)

        def skipped(cls, kind, lst, sg):
            """skip_checks: the object itself holds the list"""
            l = lst if isinstance(lst, LObj) else LObj(sg, len(ENG.levels))
            n = W.length(LObj(sg, len(ENG.levels)))
            if any(k == "p" for k, _ in sg):
                i = ENG.choose([(("len2", tuple(W.segid(s) for s in sg)), P(2).le(n), None), (("len1", tuple(W.segid(s) for s in sg)), n.eq(1), None),
                                (("len0", tuple(W.segid(s) for s in sg)), n.eq(0), None)])
                if i == 2:
                    return W.rat(0 if kind == "SUM" else 1)
                if i == 1:
                    vals = {g: W.seg_measure(kind, sg, gval(I, g)) for g in GHOSTS if g != "d" or kind == "SUM"}
                    return result(vals)
            se = W.alloc(cls)
            ENG.ctx.attrs[(se.uid, "terms")] = l
            W.complete(se)
            for val in VALS:
                ENG.fact(ok(se, val))
            return se
    assoc(X.Sum, "SUM")
    assoc(X.Prod, "PROD")

    @cls_contract(I, X.Power)
    def power_c(I, args, kw):
        skip = args[2] if len(args) > 2 else kw.get("skip_checks", False)
        a = list(args) + [None, None]
        b = W.to_se(I, a[0] if args else kw["base"])
        x = W.to_se(I, a[1] if len(args) > 1 else kw["exponent"])
        if skip is not False:
            se = W.alloc(X.Power)
            ENG.ctx.attrs[(se.uid, "base")] = b
            ENG.ctx.attrs[(se.uid, "exponent")] = x
            for val in USED:
                closure(okpow(b, x, val))
            W.complete(se)
            ENG.fact(ok(se))
            return se
        return power_contract(I, b, x)

    @cls_contract(I, X.log)
    def log_c(I, args, kw):
        p = W.to_se(I, args[0] if args else kw["inner"])
        q = W.to_se(I, args[1]) if len(args) > 1 else W.to_se(I, kw["base"]) if "base" in kw else W.lit("E")
        for val in USED:
            closure(fn_dom("log", ghost(val, p), ghost(val, q)))
        r = {g: fn_val("log", ghost(g, p), ghost(g, q)) for g in VALS}
        r["d"] = d_log(V(p), V(q), ghost("d", p), ghost("d", q))
        return result(r)

    for cn in sorted(TRIG | {"Abs"}):
        def one(cn=cn):
            @cls_contract(I, LEAFCLS[cn])
            def trig_c(I, args, kw):
                p = W.to_se(I, args[0] if args else kw["inner"])
                for val in USED:
                    closure(fn_dom(cn, ghost(val, p)))
                r = {g: fn_val(cn, ghost(g, p)) for g in VALS}
                r["d"] = fn_der(cn, V(p)) * ghost("d", p)
                return result(r)
        one()

    @cls_contract(I, X.Rat)
    def rat_c(I, args, kw):
        v = args[0] if args else kw["value"]
        den = args[1] if len(args) > 1 else kw.get("denom", 1)
        if not isinstance(v, (NV, int, Fraction, float)) or isinstance(v, bool):
            return NotImplemented
        if isinstance(v, Fraction) or isinstance(v, NV) and nv(v)[1] == "frac":
            return W.mkrat(nv(v)[0])
        n, dd = I.call(int, [v]), I.call(int, [den])
        q = I.call(Fraction, [n, dd])
        return W.mkrat(nv(q)[0])

    @cls_contract(I, X.Float)
    def float_c(I, args, kw):
        v = args[0] if args else kw["value"]
        if isinstance(v, NV):
            if nv(v)[1] != "float":
                return NotImplemented
            return W.to_se(I, v)
        if isinstance(v, float):
            return W.to_se(I, v)
        raise Raised(AssertionError())

    @fn_contract(I, X._cast)
    def cast_c(I, args, kw):
        v = args[0]
        if isinstance(v, (SE, SubsMap)) or v is None or isinstance(v, (bool, BV)) or isinstance(v, type):
            return v
        if is_num(v):
            return W.to_se(I, v)
        return NotImplemented

    @fn_contract(I, X._is_strictly_positive)
    def strict_c(I, args, kw):
        se = args[0]
        f = pred("strict", se.uid)
        for val in VALS:
            ENG.fact(imp(conj(f, ok(se, val)), P(0).le(ghost(val, se))))
        return I.fold(f)

    # equality methods called directly
    # methods found through the object
    def virtual(name, f):
        m = interp.Meth(f, name)
        VIRTUAL[name] = lambda I, se: BoundM(m, se)

    def v_diff(I, se, var=None):
        if not isinstance(var, SE) or var.uid != VAR.uid:
            raise Unsupported("derivative by another variable")
        r = W.fresh("diff")
        W.setdef(r, "v", ghost("d", se))
        ENG.fact(ok(r))
        ENG.fact(imp(neg(dep(se)), ghost("d", r).eq(0)))
        return r
    virtual("diff", v_diff)

    def v_contains(I, se, var):
        if not isinstance(var, SE) or var.uid != VAR.uid:
            raise Unsupported("contains another variable")
        f = dep(se)
        ENG.fact(imp(neg(f), ghost("d", se).eq(0)))
        return I.fold(f)
    virtual("contains", v_contains)

    def v_has(I, se, cls):
        if se.uid in LIT:
            return lit_has(se, cls)
        cl = classes(se)
        if all(issubclass(LEAFCLS[c], cls) for c in cl):
            return True
        f = pred("has", cls.__name__, se.uid)
        return I.fold(f)
    virtual("has", v_has)

    def v_subs(I, se, m=None, **kw):
        m = m if m is not None else kw.get("subs")
        if not isinstance(m, SubsMap):
            raise Unsupported("substitution with another mapping")
        if constlike(se):
            return se
        r = W.fresh("subs")
        W.setdef(r, "v", ghost("s", se))
        ENG.fact(imp(ok(se, "s"), ok(r)))
        ENG.fact(imp(pp(se, "s"), pp(r)))
        ENG.fact(imp(rint(se), rint(r)))
        return r
    virtual("subs", v_subs)

    def v_evalf(I, se, m=None):
        r = W.fresh("evalf")
        if isinstance(m, SubsMap):
            val = "s"
        elif isinstance(m, DObj) and not m.d:
            val = "v"
        else:
            raise Unsupported("evaluation with another mapping")
        W.setdef(r, "v", ghost(val, se))
        ENG.fact(imp(ok(se, val), ok(r)))
        ENG.fact(imp(pp(se, val), P(0).lt(V(r))))
        return r
    virtual("_evalf", v_evalf)
    virtual("evalf", v_evalf)

    def map_get(I, m, k, default=None):
        se = k.key[1] if isinstance(k, SymStr) and isinstance(k.key, tuple) and k.key[0] == "name" else None
        if se is None:
            raise Unsupported("lookup in the substitution")
        se = SE(se)
        i = ENG.choose([(("mapped", se.uid), TRUE, None), (("unmapped", se.uid), TRUE, None)])
        if i == 1:
            ENG.fact(ghost("s", se).eq(V(se)))
            ENG.fact(ok(se))
            return default
        r = W.fresh("mapped")
        W.setdef(r, "v", ghost("s", se))
        ENG.fact(imp(ok(se, "s"), ok(r)))
        return r
    SubsMap.methods = {"get": interp.Meth(map_get)}

    def v_expand(I, se):
        r = W.fresh("exp")
        for g in GHOSTS:
            W.setdef(r, g, ghost(g, se))
        ENG.fact(ok(r))
        ENG.fact(imp(pp(se), P(0).lt(V(r))))
        ENG.fact(rint(r) == rint(se)) if False else None
        return r
    virtual("expand", v_expand)
    virtual("simplify", v_expand)

    virtual("symbols", lambda I, se: W.SymList(se, "symbols"))

    @fn_contract(I, load.simpy.regex.get_anys)
    def anys_c(I, args, kw):
        return W.SymList(args[0], "wildcards")

    def v_expandable(I, se):
        if se.uid in LIT:
            return False
        return I.fold(pred("expandable", se.uid))
    virtual("expandable", v_expandable)

    def vp(name, f):
        VIRTUAL[name] = f
    vp("is_subtraction", lambda I, se: I.fold(sub_(se)) if classes(se) - {"Infinity", "NegInfinity", "NaN"} else NotImplemented)

    def v_isint(I, se):
        cl = classes(se)
        if not cl & {"Rat", "Float"}:
            return False
        if cl <= {"Rat", "Float"}:
            return I.fold(isint(V(se)))
        if W.isinstance_se(se, (X.Rat, X.Float)):
            return v_isint(I, se)
        return False
    vp("is_int", v_isint)
    virtual("__repr__", lambda I, se: SymStr(("repr", se.uid)))
    virtual("latex", lambda I, se: SymStr(("latex", se.uid)))
    return I


DECLARED = []


class SubsMap:
    """an arbitrary mapping from variable names to expressions"""
    methods = {}


def lit_has(se, cls):
    c, f = LIT[se.uid]
    if issubclass(LEAFCLS[c], cls):
        return True
    for v in f.values():
        for x in (v if isinstance(v, tuple) else (v,)):
            if isinstance(x, SE) and lit_has(x, cls):
                return True
    return False
