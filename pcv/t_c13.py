"""C13: coefficient lists, polynomial division, partial fractions, the inverse of a 2x2 matrix.

A coefficient list is known through its length n, its value at the point (the sum of a_i x^i) and the elements that are
looked at.  head(k) is the value of its first k coefficients: head(0) = 0, head(k+1) = head(k) + a_k x^k, head(n) = value."""
import ast
import sys
import tasks
from tasks import *
import load
import loops
from t_struct import ALLC
from t_c03 import nd_contract
import t_c08
from t_c08 import TM, RX, Fn, side, mknode, rule
PO = load.simpy.polynomial
LA = load.simpy.linalg
np = PO.np
RATS = frozenset(["Rat"])


def Task(*a, **k):
    k.setdefault("ghosts", ("v", "d"))
    return tasks.Task(*a, **k)


def x_():
    return V(VAR)


def mono(i):
    """x^i for a whole i >= 0 (0^0 = 1)"""
    return power(x_(), i)


def law_mono(i, j):
    ENG.fact(imp(conj(isint(i), isint(j), P(0).le(i), P(0).le(j)), (mono(i) * mono(j)).eq(mono(i + j))))


def need(name, f):
    """the shape the loop contract is written for: another shape is undecided, not wrong"""
    if not ENG.entails(f, timeout=3000):
        raise Unsupported("the loop has changed: " + name)


def pos(k):
    if not is_num(k):
        raise Unsupported("index")
    return nv(k)[0]


class Coeffs(Virt):
    """a list or an array of constants read as a polynomial"""
    def __init__(self, n, val, kind="array", elem=None, rats=False):
        self.uid = ENG.uid("poly")
        self.n = n
        self.val = val
        self.kind = kind
        self.make = elem            # index -> element, if the elements are computed
        self.rats = rats            # are all known to be rational?
        self.els = []               # [(index, element)]
        self.zeros = None           # the elements up to this index have the value 0
        self.unfolded = False

    def copy(self, kind="array"):
        r = Coeffs(self.n, self.val, kind, self.make, self.rats)
        r.uid, r.els, r.zeros = self.uid, list(self.els), self.zeros
        return r

    def head(self, k):
        if k == ZERO:
            return ZERO
        if k == self.n:
            return self.val
        return A("g", "head", (self.uid, k))

    def step(self, i):
        """head(i+1) = head(i) + a_i x^i"""
        e = self.elem(None, i)
        ENG.fact(self.head(i + 1).eq(self.head(i) + V(e) * mono(i)))
        return e

    def elem(self, I, i):
        for j, e in self.els:
            if j == i or ENG.entails(conj(P(0).le(i), i.eq(j))):
                return e
        for j, e in self.els:
            if ENG.decide(i.eq(j)):
                return e
        if self.make is not None:
            e = self.make(i)
        else:
            e = W.fresh("coeff")
            constant(e)
            if self.rats:
                W.restrict(e, RATS)
        if self.zeros is not None:
            ENG.fact(imp(i.le(self.zeros), V(e).eq(0)))
        self.els.append((i, e))
        return e

    def few(self, m):
        """the value by the elements of a list of m coefficients"""
        oblige("the number of coefficients", self.n.eq(m))
        t = ZERO
        for i in range(m):
            t = t + V(self.elem(None, P(i))) * (ONE if i == 0 else x_() if i == 1 else mono(P(i)))
        ENG.fact(self.val.eq(t))

    # ------------------------------------------------------- what the code does with it
    def size(self, I):
        ENG.fact(isint(self.n))
        ENG.fact(P(0).le(self.n))
        return interp.mknum(self.n, "int")

    def attr(self, I, name):
        if name == "size" and self.kind == "array":
            return self.size(I)
        if name == "append" and self.kind == "list":
            return BoundM(interp.Meth(lambda I, me, v: me.append(I, v)), self)

    def items(self, I, n):
        if n is None:
            c = self.n.const()
            if c is None:
                raise Unsupported("unpacking a list of unknown length")
            n = int(c)
        elif not ENG.decide(self.n.eq(n)):
            raise Raised(ValueError("unpack"))
        return [self.elem(I, P(i)) for i in range(n)]

    def index(self, I, k, write=False):
        i = pos(k)
        c = i.const()
        if c is not None and c < 0:
            i = self.n + i
        ENG.fact(imp(conj(isint(i), isint(self.n), i.lt(self.n)), i.le(self.n - 1)))
        if not ENG.decide(conj(P(0).le(i), i.le(self.n - 1))):
            raise Raised(IndexError())
        return i

    def subscript(self, I, k):
        i = self.index(I, k)
        c = i.const()
        for m in (1, 2, 3):
            if self.make is None and (c is None or c < m) and not self.unfolded and ENG.entails(self.n.eq(m)):
                self.unfolded = True
                self.few(m)
        return self.elem(I, i)

    def setitem(self, I, k, v):
        i = self.index(I, k)
        old = self.elem(I, i)
        new = W.to_se(I, v)
        is_constant(new)
        keep = [(j, e) for j, e in self.els if ENG.entails(disj(j.lt(i), i.lt(j)))]
        if self.make is not None or self.kind == "array" and getattr(self, "shared", False):
            raise Unsupported("an element of a computed list is replaced")
        z = self.zeros
        self.zeros = i - 1 if z is not None and ENG.entails(i.le(z)) else None
        self.uid = ENG.uid("poly")
        self.val = self.val + (V(new) - V(old)) * mono(i)
        self.rats = self.rats and W.classes(new) <= RATS
        self.els = keep + [(i, new)]

    def append(self, I, v):
        new = W.to_se(I, v)
        is_constant(new)
        if self.make is not None:
            raise Unsupported("a computed list grows")
        self.val = self.val + V(new) * mono(self.n)
        self.els = self.els + [(self.n, new)]
        self.uid = ENG.uid("poly")
        self.rats = self.rats and W.classes(new) <= RATS
        self.n = self.n + 1

    def inplace(self, I, op, o):
        if isinstance(o, LObj) and o.concrete() is not None and all(isinstance(y, SE) and ENG.entails(V(y).eq(0)) for y in o.concrete()):
            o = Zeros(P(len(o.concrete())))
        if self.kind == "list" and op == "__add__" and isinstance(o, Zeros):
            ENG.fact(imp(isint(o.n), isint(self.n + o.n)))
            ENG.fact(imp(neg(P(0).le(o.n)), o.m.eq(0)))
            ENG.fact(imp(P(0).le(o.n), o.m.eq(o.n)))
            self.uid = ENG.uid("poly")
            self.n = self.n + o.m
            return self
        if self.kind == "array":
            r = self.binop(I, op, o, False)
            self.__dict__.update(r.copy().__dict__)
            return self
        raise Unsupported("operator under a loop contract")

    def binop(self, I, op, o, swapped):
        if self.kind != "array":
            raise Unsupported("operator on a coefficient list")
        me = self.copy()
        if isinstance(o, Coeffs) and o.kind == "array" and op in ("__add__", "__sub__"):
            a, b = (o.copy(), me) if swapped else (me, o.copy())
            if not ENG.entails(a.n.eq(b.n)):
                raise Unsupported("arrays of another length")
            return Coeffs(a.n, a.val + b.val if op == "__add__" else a.val - b.val, "array", lambda i: W.to_se(I, I.binop(op, a.elem(I, i), b.elem(I, i))), a.rats and b.rats)
        if (isinstance(o, SE) or is_num(o)) and (op == "__mul__" or op == "__truediv__" and not swapped):
            o = W.to_se(I, o)
            k = V(o) if op == "__mul__" else inv(V(o))
            return Coeffs(self.n, self.val * k, "array", lambda i: W.to_se(I, I.binop(op, o, me.elem(I, i)) if swapped else I.binop(op, me.elem(I, i), o)), self.rats and W.classes(o) <= RATS)
        raise Unsupported("operator on an array")

    def slice(self, I, lo, hi):
        if lo is not None or hi is None:
            raise Unsupported("slice")
        h = pos(hi)
        if not ENG.entails(conj(P(0).le(h), h.le(self.n))):
            raise Unsupported("slice bound")
        me = self.copy()
        r = Coeffs(h, self.head(h), self.kind, lambda i: me.elem(I, i), self.rats)
        return r


class Zeros(Virt):
    """[0] * n"""
    def __init__(self, n):
        self.n = n
        self.m = A("g", "len", ENG.uid("zeros"))
        ENG.fact(isint(self.m))
        ENG.fact(P(0).le(self.m))
        ENG.fact(imp(P(0).le(n), self.m.eq(n)))
        ENG.fact(imp(n.le(0), self.m.eq(0)))

    def size(self, I):
        return interp.mknum(self.m, "int")


def repeat(I, v, n):
    if not isinstance(v, SE) or not ENG.entails(V(v).eq(0)):
        raise Unsupported("a list of unknown length")
    return Zeros(nv(n)[0])


W.REPEAT.append(repeat)


def constant(e):
    ENG.fact(ok(e))
    ENG.fact(dok(e))
    ENG.fact(neg(dep(e)))
    ENG.fact(ghost("d", e).eq(0))


def is_constant(e):
    """the coefficients do not depend on the variable"""
    oblige("a coefficient is constant", ghost("d", e).eq(0))


def zeros_array(z, elem_=None):
    r = Coeffs(z.m, ZERO, "array", None, True)
    r.zeros = z.m
    r.zero_elem = True
    return r


def c_numpy(I):
    @fn_contract(I, np.array)
    def array(I, args, kw):
        v = args[0]
        if isinstance(v, Coeffs):
            return v.copy()
        if isinstance(v, Zeros):
            return zeros_array(v)
        if isinstance(v, LObj) and v.concrete() is not None:
            vs = v.concrete()
            if all(isinstance(y, Coeffs) for y in vs):
                m = len(vs)
                rows = []
                for y in vs:
                    y.few(m)
                    rows.append([y.elem(I, P(i)) for i in range(m)])
                return Matrix(rows)
            if vs and all(isinstance(y, LObj) for y in vs):
                return Matrix([[W.to_se(I, z) for z in I.known_items(y)] for y in vs])
            els = [W.to_se(I, y) for y in vs]
            return of_elements(els)
        raise Unsupported("np.array")

    @fn_contract(I, np.concatenate)
    def concat(I, args, kw):
        z, a = I.known_items(args[0])
        if isinstance(z, LObj) and z.concrete() is not None and all(isinstance(y, SE) and ENG.entails(V(y).eq(0)) for y in z.concrete()):
            z = Zeros(P(len(z.concrete())))
        if not isinstance(z, Zeros) or not isinstance(a, Coeffs):
            raise Unsupported("np.concatenate")
        a = a.copy()
        k = z.m
        ENG.fact(imp(isint(a.n), isint(k + a.n)))

        def el(i):
            if ENG.decide(k.le(i)):
                return a.elem(I, i - k)
            return W.rat(0)
        return Coeffs(k + a.n, mono(k) * a.val, "array", el, a.rats)


def of_elements(els):
    t = ZERO
    for i, e in enumerate(els):
        t = t + V(e) * (ONE if i == 0 else mono(P(i)))
    r = Coeffs(P(len(els)), t, "array", None, all(W.classes(e) <= RATS for e in els))
    r.els = [(P(i), e) for i, e in enumerate(els)]
    return r


def arbitrary(rats=False, kind="array"):
    n = A("g", "n", ENG.uid("n"))
    ENG.fact(isint(n))
    ENG.fact(P(0).le(n))
    return Coeffs(n, A("g", "poly", ENG.uid("p")), kind, None, rats)


# ------------------------------------------------------------------ contracts at calls
def c_to_poly(I, rats=False):
    """the coefficients of an expression, or a refusal"""
    memo = {}

    @fn_contract(I, PO.to_const_polynomial)
    def c(I, args, kw):
        e, v = W.to_se(I, args[0]), args[1]
        if not t_c08.same(v, VAR):
            raise Unsupported("a polynomial in another variable")
        k = ("polynomial", e.uid)
        if ENG.ctx.notes.get(k) is None:
            ENG.ctx.notes[k] = ENG.choose([(k, TRUE, None), (("no polynomial", e.uid), TRUE, None)]) == 0
        if not ENG.ctx.notes[k]:
            raise Raised(AssertionError())
        r = Coeffs(A("g", "n", e.uid), V(e), "array", None, rats)
        r.uid = ("of", e.uid)
        I.read = getattr(I, "read", []) + [e]
        # reading the same expression again gives the same coefficients
        r.els = memo.setdefault(e.uid, r.els)
        ENG.fact(isint(r.n))
        ENG.fact(P(1).le(r.n))
        return r


def c_to_expr(I):
    @fn_contract(I, PO.polynomial_to_expr)
    def c(I, args, kw):
        p, v = args
        if not isinstance(p, Coeffs) or not t_c08.same(v, VAR):
            raise Unsupported("polynomial")
        r = W.fresh("poly")
        W.setdef(r, "v", p.val)
        ENG.fact(ok(r))
        I.last_poly = getattr(I, "last_poly", []) + [(p.copy(), r)]
        return r


def c_short(I):
    """without the zeros at the end: the same value, and shorter if the last one is (recognised as) zero"""
    @fn_contract(I, PO.rid_ending_zeros)
    def c(I, args, kw):
        p = args[0]
        if not isinstance(p, Coeffs):
            raise Unsupported("polynomial")
        if ENG.decide(p.n.eq(0)):
            return p.copy()
        last = p.elem(I, p.n - 1)
        if I.truth(I.compare("__eq__", last, 0)):
            n = A("g", "n", ENG.uid("n"))
            ENG.fact(isint(n))
            ENG.fact(P(0).le(n))
            ENG.fact(n.le(p.n - 1))
            me = p.copy()
            return Coeffs(n, p.val, "array", (lambda i: me.elem(I, i)) if False else None, p.rats)
        return p.copy()


# ------------------------------------------------------------------ conversion
def t_to_expr(I):
    p = arbitrary()

    def loop(I, s, env):
        src = I.ev(s.iter, env)
        if not (isinstance(src, W.EnumOf) and src.of is p or isinstance(src, W.Bounded) and nv(src.lo)[0] == ZERO and nv(src.hi)[0] == p.n) or s.orelse or len(ENG.levels) != 1:
            raise Unsupported("the loop has changed")
        targets = {t.id for t in ast.walk(s.target) if isinstance(t, ast.Name)}
        accs = [n for n in interp.assigned_names(s.body) if n not in targets and n in env.vars and isinstance(env.vars[n], SE)]
        if len(accs) != 1:
            raise Unsupported("the loop has changed")
        acc, = accs
        k = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        need("the sum of no coefficients", V(env.vars[acc]).eq(0))
        loops.poison(env, s.body, {acc})
        r = W.fresh("partial")
        ENG.fact(ok(r))
        env.vars[acc] = r
        if k == 1:
            ENG.fact(V(r).eq(p.val))
            for t in targets:
                env.vars[t] = Poison("after the loop")
            return
        i = num("i", "int").p
        ENG.fact(conj(P(0).le(i), i.le(p.n - 1)))
        ENG.fact(V(r).eq(p.head(i)))
        e = p.step(i)
        I.assign(s.target, (NV(i, "int"), e) if isinstance(src, W.EnumOf) else NV(i, "int"), env)
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        oblige("one more coefficient", V(W.to_se(I, env.vars[acc])).eq(p.head(i + 1)))
        raise PathEnd()
    I.loops[("polynomial.polynomial_to_expr", "for")] = loop
    r = W.to_se(I, I.call(PO.polynomial_to_expr, [p, VAR]))
    oblige("the value of the expression", V(r).eq(p.val))


Task("C13", "polynomial.polynomial_to_expr", t_to_expr)


def t_short(I):
    p = arbitrary()
    c_numpy(I)

    def loop(I, s, env):
        src = I.ev(s.iter, env)
        if not isinstance(src, W.Backwards) or nv(src.rng.lo)[0] != ZERO or nv(src.rng.hi)[0] != p.n or s.orelse or not isinstance(s.target, ast.Name) or len(ENG.levels) != 1:
            raise Unsupported("the loop has changed")
        accs = [n for n in interp.assigned_names(s.body) if n != s.target.id and n in env.vars and is_num(env.vars[n])]
        if len(accs) != 1:
            raise Unsupported("the loop has changed")
        acc, = accs
        need("no zero seen yet", nv(env.vars[acc])[0].eq(0))
        k = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        loops.poison(env, s.body, {acc})
        if k == 1:
            # all are zero
            ENG.fact(p.val.eq(0))
            env.vars[acc] = interp.mknum(p.n, "int")
            env.vars[s.target.id] = Poison("after the loop")
            return
        i = num("i", "int").p
        ENG.fact(conj(P(0).le(i), i.le(p.n - 1)))
        ENG.fact(isint(p.n - 1 - i))
        ENG.fact(p.head(i + 1).eq(p.val))
        p.step(i)
        env.vars[s.target.id] = NV(i, "int")
        env.vars[acc] = interp.mknum(p.n - 1 - i, "int")
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        except interp.Brk:
            return
        oblige("one more zero", nv(env.vars[acc])[0].eq(p.n - i))
        oblige("what is left has the value", p.head(i).eq(p.val))
        raise PathEnd()
    I.loops[("polynomial.rid_ending_zeros", "for")] = loop
    r = I.call(PO.rid_ending_zeros, [p])
    if not isinstance(r, Coeffs):
        raise Unsupported("the result")
    oblige("the value stays", r.val.eq(p.val))
    oblige("not longer", r.n.le(p.n))
    if not ENG.decide(r.n.eq(0)):
        last = r.elem(I, r.n - 1)
        oblige("the last coefficient is not zero", FALSE if I.truth(I.compare("__eq__", last, 0)) else TRUE)


Task("C13", "polynomial.rid_ending_zeros", t_short)

CQ = "polynomial._to_const_polynomial"


def t_conv(cname, fresh_):
    def fn(I):
        e = sym(cname)
        ENG.fact(ok(e))
        ENG.fact(dok(e))
        c_numpy(I)
        ans = None if fresh_ else arbitrary(kind="list")
        v0 = ZERO if fresh_ else ans.val
        m = W.fresh("multiplier")
        ENG.fact(ok(m))
        W.restrict(m, RATS)
        I.literals[CQ] = lambda I: Coeffs(ZERO, ZERO, "list", None, True)
        one = ENG.choose([(("multiplier", "given"), TRUE, None), (("multiplier", "left out"), TRUE, None)]) if fresh_ else 0
        k_ = ONE if one else V(m)
        first = []

        def rec(I, args, kw):
            if not first:
                first.append(1)
                return NotImplemented
            d = dict(zip(("expr", "var", "answer", "multiplier"), args), **kw)
            a, k = d.get("answer"), d.get("multiplier")
            k = V(W.to_se(I, k)) if k is not None else ONE
            if not t_c08.same(d["var"], VAR):
                raise Unsupported("another variable")
            if ENG.choose([(("polynomial", d["expr"].uid), TRUE, None), (("no polynomial", d["expr"].uid), TRUE, None)]) == 1:
                raise Raised(AssertionError())
            if a is None:
                a = Coeffs(ZERO, ZERO, "list", None, True)
            if not isinstance(a, Coeffs):
                raise Unsupported("answer")
            grow(a, V(d["expr"]) * k)
            return a
        fn_contract(I, PO._to_const_polynomial)(rec)

        def grow(a, by):
            a.uid = ENG.uid("poly")
            a.val = a.val + by
            n = A("g", "n", ENG.uid("n"))
            ENG.fact(isint(n))
            ENG.fact(a.n.le(n))
            a.n = n
            a.els, a.rats, a.zeros = [], False, None

        def loop(I, s, env):
            src = I.ev(s.iter, env)
            a = env.vars.get("answer")
            if not isinstance(src, LObj) or not isinstance(s.target, ast.Name) or s.orelse or not isinstance(a, Coeffs) or len(ENG.levels) != 1:
                raise Unsupported("the loop has changed")
            k = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
            loops.poison(env, s.body, set())
            w0 = a.val
            if k == 1:
                grow(a, k_ * loops.total("SUM", src))
                env.vars[s.target.id] = Poison("after the loop")
                return
            done = loops.real("done")
            grow(a, k_ * done)
            el = W.fresh("term")
            ENG.fact(ok(el))
            ENG.fact(dok(el))
            env.vars[s.target.id] = el
            try:
                I.block(s.body, env)
            except interp.Cont:
                pass
            oblige("one more term", a.val.eq(w0 + k_ * (done + V(el))))
            raise PathEnd()
        I.loops[(CQ, "for")] = loop
        r = I.call(PO._to_const_polynomial, [e, VAR] if one else [e, VAR, ans, m])
        if not isinstance(r, Coeffs):
            raise Unsupported("the result")
        if ans is not None:
            oblige("the list is extended in place", TRUE if r is ans else FALSE)
        for i in (r.n,):
            ENG.fact(P(0).le(i))
        oblige("the value", r.val.eq(v0 + V(e) * k_))
    Task("C13", "polynomial._to_const_polynomial (%s%s)" % (cname, "" if fresh_ else ", continued"), fn, allowed=(AssertionError,))


for c_ in ALLC:
    t_conv(c_, True)
    t_conv(c_, False)


def c_conv(I):
    @fn_contract(I, PO._to_const_polynomial)
    def c(I, args, kw):
        if len(args) != 2 or kw:
            raise Unsupported("_to_const_polynomial")
        e = W.to_se(I, args[0])
        k = ("polynomial", e.uid)
        if ENG.ctx.notes.get(k) is None:
            ENG.ctx.notes[k] = ENG.choose([(k, TRUE, None), (("no polynomial", e.uid), TRUE, None)]) == 0
        if not ENG.ctx.notes[k]:
            raise Raised(AssertionError())
        r = arbitrary(kind="list")
        r.val = V(e)
        return r


def t_to_poly(I):
    e = sym(None, "e")
    ENG.fact(ok(e))
    c_conv(I)
    c_numpy(I)
    r = I.call(PO.to_const_polynomial, [e, VAR])
    if not isinstance(r, Coeffs):
        raise Unsupported("the result")
    oblige("the value", r.val.eq(V(e)))


Task("C13", "polynomial.to_const_polynomial", t_to_poly, allowed=(AssertionError,))
tasks.DISCHARGES["polynomial._to_const_polynomial"] = ["polynomial._to_const_polynomial (%s%s)" % (c, d) for c in ALLC for d in ("", ", continued")]


# ------------------------------------------------------------------ 2x2 matrices
class Matrix(Virt):
    def __init__(self, rows):
        self.rows = rows

    def attr(self, I, name):
        if name == "shape":
            return (len(self.rows), len(self.rows[0]))
        if name == "T":
            return Matrix([list(r) for r in zip(*self.rows)])

    def size(self, I):
        return len(self.rows)

    def items(self, I, n):
        return [self.subscript(I, i) for i in range(len(self.rows))]

    def subscript(self, I, k):
        if isinstance(k, int):
            return of_elements(list(self.rows[k]))
        i, j = I.known_items(k)
        if not isinstance(i, int) or not isinstance(j, int):
            raise Unsupported("entry of a matrix")
        try:
            return self.rows[i][j]
        except IndexError as ex:
            raise Raised(ex)

    def binop(self, I, op, o, swapped):
        if op == "__matmul__" and not swapped and isinstance(o, Coeffs) and len(self.rows) == 2:
            if o.n.const() is None:
                ENG.assumed.add("the numerator has no more coefficients than there are linear factors")
                ENG.fact(o.n.eq(2))
                o.few(2)
            elif o.n != P(2):
                raise Raised(ValueError("matmul"))
            b = [o.elem(I, P(0)), o.elem(I, P(1))]
            if isinstance(self, Inverse):
                # m (m^-1 b) = b
                r = [W.fresh("entry") for _ in b]
                for y in r:
                    constant(y)
                for q, c, k in zip(self.of.rows, b, (ONE, x_())):
                    ENG.fact((V(q[0]) * V(r[0]) * k + V(q[1]) * V(r[1]) * k).eq(V(c) * k))
                I.entries = r
                return of_elements(r)
            r = [W.to_se(I, I.binop("__add__", I.binop("__mul__", r[0], b[0]), I.binop("__mul__", r[1], b[1]))) for r in self.rows]
            return of_elements(r)
        raise Unsupported("operator on a matrix")


class Inverse(Matrix):
    def __init__(self, of):
        self.of = of
        self.rows = [[None, None], [None, None]]

    def attr(self, I, name):
        if name == "shape":
            return (2, 2)

    def subscript(self, I, k):
        raise Unsupported("entry of the inverse")


def t_invert(I):
    c_numpy(I)
    m = [[sym(None, "m%d%d" % (i, j)) for j in range(2)] for i in range(2)]
    for r in m:
        for e in r:
            constant(e)
    r = I.call(LA.invert, [Matrix(m)])
    a, b, c, d = (V(e) for row in m for e in row)
    if r is None:
        oblige("only a singular matrix has no inverse", (a * d - b * c).eq(0))
        return
    if not isinstance(r, Matrix):
        raise Unsupported("the result")
    oblige("two rows of two", TRUE if [len(q) for q in r.rows] == [2, 2] else FALSE)
    w = [[V(e) for e in q] for q in r.rows]
    ENG.fact(imp(neg((a * d - b * c).eq(0)), (inv(a * d - b * c) * (a * d - b * c)).eq(1)))
    for i in range(2):
        for j in range(2):
            t = V(m[i][0]) * w[0][j] + V(m[i][1]) * w[1][j]
            oblige("matrix * inverse (%d,%d)" % (i, j), t.eq(1 if i == j else 0))
            t = w[i][0] * V(m[0][j]) + w[i][1] * V(m[1][j])
            oblige("inverse * matrix (%d,%d)" % (i, j), t.eq(1 if i == j else 0))


Task("C13", "linalg.invert", t_invert)


def c_invert(I):
    @fn_contract(I, LA.invert)
    def c(I, args, kw):
        m = args[0]
        if not isinstance(m, Matrix) or [len(q) for q in m.rows] != [2, 2]:
            raise Unsupported("matrix")
        if ENG.choose([(("invertible", ENG.uid("m")), TRUE, None), (("singular", ENG.uid("m")), TRUE, None)]) == 1:
            return None
        return Inverse(m)


# ------------------------------------------------------------------ division with remainder
DQ = "transforms.PolynomialDivision.forward"


def division_loop(I, tr, rats):
    def loop(I, s, env):
        names = interp.assigned_names(s.body)
        num, den = tr.attrs.get("_numerator"), tr.attrs.get("_denominator")
        quots = [n for n, v in env.vars.items() if isinstance(v, Coeffs) and v is not num and v is not den]
        if not isinstance(num, Coeffs) or not isinstance(den, Coeffs) or len(quots) != 1 or s.orelse:
            raise Unsupported("the loop has changed")
        qn, = quots
        quot = env.vars[qn]
        total = num.val
        need("the quotient starts at 0", quot.val.eq(0))
        room = num.n - den.n
        need("room for the quotient", quot.n.eq(room + 1))
        need("all places of the quotient are empty", room.le(quot.zeros) if quot.zeros is not None else FALSE)
        k = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        n = A("g", "n", ENG.uid("n"))
        ENG.fact(isint(n))
        ENG.fact(P(0).le(n))
        ENG.fact(n.le(num.n))
        now = Coeffs(n, A("g", "poly", ENG.uid("num")), "array", None, rats)
        q = Coeffs(quot.n, A("g", "poly", ENG.uid("quot")), "array", None, rats)
        q.zeros = n - den.n
        loops.poison(env, s.body, set())
        tr.attrs["_numerator"] = now
        env.vars[qn] = q
        ENG.fact((now.val + den.val * q.val).eq(total))
        for a, b in ((n, den.n), (quot.n, n), (quot.n, den.n), (num.n, den.n)):
            ENG.fact(isint(a - b))
        if I.truth(I.ev(s.test, env)) != (k == 0):
            raise Infeasible()
        if k == 1:
            return
        ENG.fact(P(1).le(den.n))
        deg = n - den.n
        law_mono(deg, den.n)
        ENG.assumed.add("the last coefficient read off an expression is not zero")
        lead = den.elem(I, den.n - 1)
        ENG.fact(neg(V(lead).eq(0)))
        if not rats:
            ENG.assumed.add("c - (c/d)*d is recognised as zero for constants c, d")
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        new, q2, d2 = tr.attrs["_numerator"], env.vars[qn], tr.attrs["_denominator"]
        if not isinstance(new, Coeffs) or not isinstance(q2, Coeffs) or d2 is not den:
            raise Unsupported("the loop has changed")
        oblige("remainder + divisor * quotient", (new.val + den.val * q2.val).eq(total))
        oblige("the quotient keeps its length", q2.n.eq(quot.n))
        oblige("the remainder gets shorter", new.n.le(n - 1))
        oblige("the next places of the quotient are empty", TRUE if q2.zeros is not None and ENG.entails((new.n - den.n).le(q2.zeros)) else FALSE)
        raise PathEnd()
    I.loops[(DQ, "while", 0)] = loop


def division_setup(rats, rest=None):
    def init(I, e, n, tr):
        nd_contract(I)
        c_numpy(I)
        c_to_poly(I, rats)
        c_to_expr(I)
        c_short(I)
        division_loop(I, tr, rats)
        if not rats:
            recognised(I)
    return init


def recognised(I):
    """an expression of value 0 is equal to 0 (assumed for what is left of the leading coefficient)"""
    @fn_contract(I, PO.rid_ending_zeros)
    def c(I, args, kw):
        p = args[0]
        if not isinstance(p, Coeffs):
            raise Unsupported("polynomial")
        last = p.elem(I, p.n - 1)
        oblige("the leading coefficient is removed", V(last).eq(0))
        n = A("g", "n", ENG.uid("n"))
        ENG.fact(isint(n))
        ENG.fact(P(0).le(n))
        ENG.fact(n.le(p.n - 1))
        return Coeffs(n, p.val, "array", None, False)


def smaller(I, e, n, tr, kids):
    a, b = tr.attrs.get("_numerator"), tr.attrs.get("_denominator")
    oblige("the remainder has a smaller degree", a.n.lt(b.n))
    for c in kids:
        oblige("dividend = divisor * quotient + remainder", V(c.attrs["expr"]).eq(V(e)))


for prop_ in ("C13", "C08"):
    rule(TM.PolynomialDivision, "Prod", prop=prop_, init=division_setup(True), post=smaller, name=" (rational coefficients)")
    rule(TM.PolynomialDivision, "Prod", prop=prop_, init=division_setup(False), post=smaller, name=" (any constants)")


# ------------------------------------------------------------------ partial fractions
def fractions_setup(I, e, n, tr):
    I.read, I.entries = [], None
    nd_contract(I)
    c_numpy(I)
    c_to_poly(I)
    c_to_expr(I)
    c_invert(I)
    x = V(e)

    def factor(I, se):
        if W.classes(se) <= {"Sum"}:
            r = W.fresh("factored")
            W.setdef(r, "v", V(se))
            ENG.fact(ok(r))
            return r
        return NotImplemented
    m = interp.Meth(factor, "factor")
    W.VIRTUAL["factor"] = lambda I, se: BoundM(m, se)


def same_fraction(I, e, n, tr, kids):
    if kids:
        num_, d1, d2 = V(I.read[0]), V(I.read[-2]), V(I.read[-1])
        D = d1 * d2
        a, b = (V(y) for y in I.entries)
        oblige("the numerators of the parts", num_.eq(a * d2 + b * d1))
        # p/d d = p
        for p, d, o in ((a, d1, d2), (b, d2, d1)):
            ENG.fact(imp(neg(d.eq(0)), (p * inv(d) * d * o).eq(p * o)))
        for c in kids:
            r = V(c.attrs["expr"])
            ENG.fact(imp(conj(neg(d1.eq(0)), neg(d2.eq(0)), (r * D).eq(V(e) * D)), r.eq(V(e))))
    for c in kids:
        oblige("the parts add up to the fraction", V(c.attrs["expr"]).eq(V(e)))


for prop_ in ("C13", "C08"):
    rule(TM.PartialFractions, "Prod", prop=prop_, init=fractions_setup, post=same_fraction)


# ------------------------------------------------------------------ completing the square
def square_setup(I, e, n, tr):
    c_numpy(I)
    c_to_poly(I)
    I.read, I.entries = [], None

    @fn_contract(I, RX.general_contains)
    def gc(I, args, kw):
        return ENG.choose([(("contains", ENG.uid("c")), TRUE, None), (("does not contain", ENG.uid("c")), TRUE, None)]) == 0

    @fn_contract(I, RX.replace_factory)
    def rf(I, args, kw):
        cond, perf = args

        def one():
            x = W.fresh("part")
            ENG.fact(ok(x))
            if not I.truth(I.call(cond, [x])):
                return
            oblige("the completed square has the value of the polynomial", V(W.to_se(I, I.call(perf, [x]))).eq(V(x)))
        side(I, one)

        def apply(I, x):
            r = W.fresh("kept")
            W.setdef(r, "v", V(x))
            ENG.fact(ok(r))
            return r
        return Fn(apply).make()


for prop_ in ("C13", "C08"):
    rule(TM.CompleteTheSquare, prop=prop_, init=square_setup)


for prop_ in ("C13", "C08"):
    rule(TM.PartialFractions, t_c08.REST, prop=prop_, init=fractions_setup, post=same_fraction, name=" (not a product)")
