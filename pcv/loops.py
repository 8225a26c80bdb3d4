"""Loop contracts for the two passes that combine like terms: an invariant over the lists being built and the part of the
input that has not been visited yet, for lists of any length."""
import ast
from engine import *
from engine import ENG
from terms import *
from vals import *
import world as W
from world import V
import spec
from spec import ok, okpow
import interp
from interp import nv, is_num


def oblige(name, f):
    import tasks
    return tasks.oblige(name, f)


def bag_of(tag, cl=None, facts=()):
    """a list of unknown length of unknown (defined) expressions"""
    b = (tag, ENG.uid(tag))
    el = SE(ELEM(b))
    d = Delta()
    d.classes[el.uid] = cl or W.FINITE
    d.facts.append(ok(el))
    for f in facts:
        d.facts.append(f(el))
    ENG.ctx.leafdelta[b] = d
    return [("p", Piece(b, {b: [("v", el)]}))]


def total(kind, l):
    segs = l.segs if isinstance(l, LObj) else l
    return W.seg_measure(kind, segs, lambda y: V(y) if isinstance(y, SE) else nv(y)[0])


def real(tag):
    return A("g", tag, ENG.uid(tag))


class Arr(Virt):
    """the list being scanned: the element at the current position, the one an inner loop looks at, and the total of
    those (not yet removed) behind the current one, which is `rest` (outside the inner loop)"""

    def __init__(self, kind, own):
        self.kind = kind
        self.own = own          # class that does not occur among the elements (None: any)
        self.cur = None
        self.i = None
        self.j = None
        self.later = None
        self.rest = None
        self.length = A("g", "len", ENG.uid("len"))

    def op(self, p, q):
        return p + q if self.kind == "SUM" else p * q

    def unit(self):
        return ZERO if self.kind == "SUM" else ONE

    def elem(self, tag):
        """an element: None (removed) or an expression"""
        i = ENG.choose([((tag, "there"), TRUE, None), ((tag, "removed"), TRUE, None)])
        if i == 1:
            return None
        se = W.fresh(tag)
        ENG.fact(ok(se))
        return se

    def subscript(self, I, k):
        p = nv(k)[0] if is_num(k) else None
        if p is not None and self.i is not None and p == self.i:
            return self.cur
        if p is not None and self.j is not None and p == self.j:
            return self.later
        raise Unsupported("another element of the scanned list")

    def setitem(self, I, k, v):
        p = nv(k)[0] if is_num(k) else None
        if v is not None:
            raise Unsupported("an element of the scanned list is replaced")
        if p is not None and self.i is not None and p == self.i:
            self.cur = None
        elif p is not None and self.j is not None and p == self.j:
            self.later = None
        else:
            raise Unsupported("another element of the scanned list is removed")


class Memo(Virt):
    """a table from positions to (base, exponent) of the element that was there: either not filled yet or right"""

    def __init__(self, arr):
        self.arr = arr
        self.known = {}
        self.orig = {}

    def key(self, k):
        p = nv(k)[0] if is_num(k) else None
        for n, q in (("i", self.arr.i), ("j", self.arr.j)):
            if p is not None and q is not None and p == q:
                return p, (self.arr.cur if n == "i" else self.arr.later)
        raise Unsupported("table under a loop contract")

    def contains(self, I, k):
        p, se = self.key(k)
        if p in self.known:
            return self.known[p] is not None
        self.orig[p] = se
        i = ENG.choose([(("memo", repr(p), "in"), TRUE, None), (("memo", repr(p), "new"), TRUE, None)])
        if i == 1:
            self.known[p] = None
            return False
        if se is None:
            raise Unsupported("table entry of a removed element")
        b, x = W.fresh("base"), W.fresh("expo")
        pair_facts(se, b, x)
        self.known[p] = (b, x)
        return True

    def subscript(self, I, k):
        p, se = self.key(k)
        v = self.known.get(p)
        if v is None:
            raise Unsupported("table read before it is filled")
        return v

    def setitem(self, I, k, v):
        p, se = self.key(k)
        items = I.known_items(v)
        if len(items) != 2 or se is None:
            raise Unsupported("table entry")
        b, x = W.to_se(I, items[0]), W.to_se(I, items[1])
        oblige("table entry", conj(power(V(b), V(x)).eq(V(se)), okpow(b, x)))
        self.known[p] = (b, x)


def pair_facts(se, b, x):
    ENG.fact(power(V(b), V(x)).eq(V(se)))
    ENG.fact(okpow(b, x))
    ENG.fact(ok(b))
    ENG.fact(ok(x))
    basics(b, x)


def basics(b, x):
    ENG.fact(imp(spec.pp(b), P(0).lt(V(b))))
    ENG.fact(imp(spec.rint(x), isint(V(x))))


def law_same_base(b, x, y):
    """b^x b^y = b^(x+y): positive b, or integer exponents of b != 0, or b = 0 and exponents >= 0"""
    cond = disj(P(0).lt(b), conj(isint(x), isint(y), neg(b.eq(0))), conj(b.eq(0), P(0).le(x), P(0).le(y)))
    ENG.fact(imp(cond, (power(b, x) * power(b, y)).eq(power(b, x + y))))
    ENG.fact(imp(conj(isint(x), isint(y)), isint(x + y)))


def laws_about(b, y):
    """equal bases have equal powers; zero and one as exponent"""
    seen = set()
    for f in ENG.ctx.facts:
        for n in zconsts(f):
            if n[0] == "a":
                seen.add(int(n[1:]))
    for p in list(ENG.ctx.defs.values()):
        seen |= p.atoms()
    for a in sorted(seen):
        k = ATOMS[a]
        if k[0] == "pow" and k[2] == y and k[1] != b:
            ENG.fact(imp(k[1].eq(b), power(k[1], y).eq(power(b, y))))


def poison(env, body, keep):
    for n in interp.assigned_names(body):
        if n not in keep:
            env.vars[n] = Poison("assigned in a loop")


def positions(I, s, env):
    """(list, name of the position variable or None, name of the element variable or None, lower bound or None)"""
    it = s.iter
    call = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else None
    if call == "enumerate" and len(it.args) == 1 and not it.keywords and isinstance(s.target, ast.Tuple):
        src = I.ev(it.args[0], env)
        a, b = s.target.elts
        if isinstance(a, ast.Name) and isinstance(b, ast.Name):
            return src, a.id, b.id, None
    if call == "range" and len(it.args) <= 2 and isinstance(s.target, ast.Name):
        hi = it.args[-1]
        if isinstance(hi, ast.Call) and isinstance(hi.func, ast.Name) and hi.func.id == "len":
            src = I.ev(hi.args[0], env)
            lo = nv(I.ev(it.args[0], env))[0] if len(it.args) == 2 else None
            return src, s.target.id, None, lo
    if isinstance(it, ast.Name) and isinstance(s.target, ast.Name):
        return I.ev(it, env), None, s.target.id, None
    return None, None, None, None


def scan(I, qual, kind, lists, inner, own=None):
    """lists: {name: possible classes of the elements} of the lists the outer loop fills; inner: the contract of the
    nested loop (I, s, env, arr, body) """
    def h(I, s, env):
        src, iname, tname, lo = positions(I, s, env)
        if isinstance(src, Arr):
            if src.i is None or lo is None or iname is None or s.orelse:
                raise Unsupported("loop over the scanned list")
            if not (lo - src.i == ONE):
                raise Unsupported("the inner loop starts somewhere else")
            return inner(I, s, env, src, iname)
        if not isinstance(src, LObj) or lo is not None and lo != ZERO or s.orelse or len(ENG.levels) != 1:
            return NotImplemented
        for n in lists:
            if not isinstance(env.vars.get(n), LObj):
                raise Unsupported("no list " + n)
        arr = Arr(kind, own)
        op = arr.op
        start = arr.unit()
        for n in lists:
            start = op(start, total(kind, env.vars[n]))
        start = op(start, total(kind, src))
        i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        for n, v in list(env.vars.items()):
            if v is src:
                env.vars[n] = arr
            elif isinstance(v, DObj) and not v.d:
                env.vars[n] = Memo(arr)
        acc = arr.unit()
        for n, cl in lists.items():
            l = env.vars[n]
            l.segs = bag_of(n, cl)
            acc = op(acc, total(kind, l))
        names = set(lists)
        if i == 1:
            poison(env, s.body, names)
            for n, v in list(env.vars.items()):
                if isinstance(v, Arr):
                    env.vars[n] = Poison("the scanned list after the loop")
            ENG.fact(acc.eq(start))
            return
        arr.i = real("i")
        ENG.fact(isint(arr.i))
        arr.rest = real("rest")
        arr.cur = arr.elem("term")
        now = op(acc, arr.rest)
        if arr.cur is not None:
            now = op(now, V(arr.cur))
        ENG.fact(now.eq(start))
        poison(env, s.body, names)
        if iname:
            env.vars[iname] = NV(arr.i, "int")
        if tname:
            env.vars[tname] = arr.cur
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        except interp.Brk:
            raise Unsupported("break in a scan")
        end = arr.rest
        for n, cl in lists.items():
            end = op(end, total(kind, env.vars[n]))
            for k, x in W.resolve(env.vars[n].segs):
                if k == "v" and not (isinstance(x, SE) and W.classes(x) <= cl):
                    oblige("kind of the elements of " + n, FALSE)
        oblige("invariant of the scan", end.eq(start))
        raise PathEnd()
    I.loops[(qual, "for")] = h


def nested(num):
    """the inner loop: num(I, env) -> object with current() the total taken so far, havoc() a state after some hits"""
    def inner(I, s, env, arr, jname):
        st = num(I, env, arr)
        c0, r0 = st.current(), arr.rest
        inv0 = arr.op(c0, r0)
        i = ENG.choose([(("inner", "iterate"), TRUE, None), (("inner", "exit"), TRUE, None)])
        hit = ENG.choose([(("inner", "no hit yet"), TRUE, None), (("inner", "hit"), TRUE, None)])
        if hit:
            st.havoc()
            arr.rest = real("rest")
            st.facts(arr.op(st.current(), arr.rest), inv0)
        flag = st.flag
        poison(env, s.body, set(st.names) | {flag})
        env.vars[flag] = bool(hit)
        if hit and st.removes:
            arr.cur = None
        if i == 1:
            return
        j = real("j")
        ENG.fact(isint(j))
        ENG.fact(arr.i.lt(j))
        rest = real("rest")
        se = arr.elem("other")
        ENG.fact(arr.rest.eq(arr.op(V(se), rest) if se is not None else rest))
        before = st.current()
        rest0 = arr.rest
        arr.j, arr.later = j, se
        env.vars[jname] = NV(j, "int")
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        except interp.Brk:
            if not env.vars.get(flag) in (True, False):
                raise Unsupported("flag")
            # leaving early: the rest has not been visited
            arr.rest = arr.op(V(arr.later), rest) if arr.later is not None else rest
            raise Unsupported("break in the inner loop")
        now = env.vars.get(flag)
        if not isinstance(now, bool):
            raise Unsupported("flag")
        left = arr.op(V(arr.later), rest) if arr.later is not None else rest
        if not now:
            oblige("no hit: nothing has changed", T_(not hit and st.same() and arr.later is se))
        else:
            st.oblige(arr.op(st.current(), left), inv0)
            if st.removes and arr.cur is not None:
                oblige("the element is taken out", FALSE)
        raise PathEnd()
    return inner


class Coeffs:
    """like terms of a sum: coefficients of the common factors"""
    flag = "is_hit"
    names = ("coeffs",)
    removes = False

    def __init__(self, I, env, arr):
        self.env = env
        self.arr = arr
        self.c0 = env.get("coeffs")
        self.f = total("PROD", env.get("non_const_factors1"))
        if not isinstance(self.c0, LObj):
            raise Unsupported("coeffs")

    def current(self):
        return total("SUM", self.env.get("coeffs")) * self.f

    def same(self):
        return self.env.get("coeffs") is self.c0

    def havoc(self):
        self.env.vars["coeffs"] = LObj(bag_of("coeffs", W.NUMV), len(ENG.levels))
        ENG.fact(P(2).le(W.length(self.env.vars["coeffs"])))

    def facts(self, now, inv0):
        ENG.fact(now.eq(inv0))

    def oblige(self, now, inv0):
        l = self.env.get("coeffs")
        for k, x in W.resolve(l.segs):
            if k == "v" and not (isinstance(x, SE) and W.classes(x) <= W.NUMV):
                oblige("coefficients are numbers", FALSE)
        oblige("like terms: the sum stays", now.eq(inv0))
        oblige("at least two coefficients", P(2).le(W.length(l)))


class Expo:
    """powers of the same base in a product"""
    flag = "is_hit"
    names = ("expo",)
    removes = True

    def __init__(self, I, env, arr):
        self.env = env
        self.I = I
        self.base = env.get("base")
        self.e0 = W.to_se(I, env.get("expo"))

        self.prev = V(self.e0)

    def expo(self):
        return W.to_se(self.I, self.env.get("expo"))

    def current(self):
        return power(V(self.base), V(self.expo()))

    def same(self):
        return self.expo() is self.e0 or self.expo().uid == self.e0.uid

    def havoc(self):
        x = W.fresh("expo")
        self.env.vars["expo"] = x
        self.prev = V(x)

    def facts(self, now, inv0):
        ENG.fact(now.eq(inv0))
        ENG.fact(okpow(self.base, self.expo()))
        ENG.fact(ok(self.expo()))
        basics(self.base, self.expo())

    def oblige(self, now, inv0):
        b, y = V(self.base), V(self.expo()) - self.prev
        law_same_base(b, self.prev, y)
        laws_about(b, y)
        oblige("powers of one base: the product stays", now.eq(inv0))
        basics(self.base, self.expo())
        oblige("the merged power is defined", okpow(self.base, self.expo()))


def install(I):
    scan(I, "expr._combine_like_terms_sum", "SUM", {"consts": W.NUMV, "non_constant_terms": W.FINITE}, nested(Coeffs))
    scan(I, "expr._combine_like_terms", "PROD", {"consts": W.NUMV, "non_constant_terms": W.FINITE - W.NUMV}, nested(Expo))
