"""Discharging obligations: normalisation by the definitions of the path, instances of the laws of real functions, z3."""
import time
from fractions import Fraction
import z3
from engine import *
from engine import ENG, PKEYS, PIDS, pred
from terms import *
from vals import Unsupported


class Norm:
    def __init__(self, ctx, depth=0):
        self.ctx = ctx
        self.memo = {}
        self.busy = set()
        self.depth = depth

    def poly(self, p):
        r = ZERO
        changed = False
        for mono, c in p.m.items():
            t = P(c)
            for a, n in mono:
                q = self.atom(a)
                t = t * q ** n
            r = r + t
        return r

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            if a in self.busy:
                return Poly({((a, 1),): Fraction(1)})
            self.busy.add(a)
            r = self._atom(a)
            self.busy.discard(a)
            self.memo[a] = r
        return r

    def _atom(self, a):
        d = self.ctx.defs.get(a)
        if d is not None:
            return self.poly(d)
        key = ATOMS[a]
        h = key[0]
        if h in ("g", "c"):
            return Poly({((a, 1),): Fraction(1)})
        if h in ("SUM", "PROD"):
            return self.measure(h, key[1], key[2])
        return rebuild(self.key(key))

    def key(self, key):
        if isinstance(key, Poly):
            return self.poly(key)
        if isinstance(key, tuple):
            return tuple(self.key(k) for k in key)
        return key

    def measure(self, kind, bag, body):
        unit = ZERO if kind == "SUM" else ONE
        p = self.ctx.parts.get(bag)
        if p is None:
            if self.depth > 4:
                return A(kind, bag, body, STAR(bag))
            sub = self.ctx
            d = self.ctx.leafdelta.get(bag)
            if d is not None:
                sub = Ctx(self.ctx)
                try:
                    sub.apply(d)
                except Infeasible:
                    return unit
            n = Norm(sub, self.depth + 1)
            b = n.poly(rename(body, STAR(bag), ELEM(bag)))
            return segsum(bag, ELEM(bag), b) if kind == "SUM" else self.prod(bag, b, sub)
        r = unit
        if p[0] == "cases":
            for s in p[1]:
                q = self.measure(kind, s, body)
                r = r + q if kind == "SUM" else r * q
            return r
        for k, x in p[1]:
            if k == "e":
                q = self.poly(rename(body, STAR(bag), x))
            else:
                q = self.measure(kind, x, rename(body, STAR(bag), STAR(x)))
            r = r + q if kind == "SUM" else r * q
        return r

    def prod(self, bag, b, sub):
        c = b.const()
        if c == 1:
            return ONE
        if c is not None:
            return power(P(c), count_(bag)) if c != 0 else A("PROD", bag, ZERO, STAR(bag))
        r = segprod(bag, ELEM(bag), b)
        return r

    def form(self, f):
        sub = []
        for n in zconsts(f):
            if n[0] == "a":
                i = int(n[1:])
                q = self.atom(i)
                if q != Poly({((i, 1),): Fraction(1)}):
                    sub.append((z3.Real(n), q.z()))
            elif n[0] == "p":
                k = PKEYS[int(n[1:])]
                k2 = self.key(k)
                if k2 != k:
                    sub.append((z3.Bool(n), mkpred(k2)))
        return z3.substitute(f, *sub) if sub else f


def mkpred(k):
    if k[0] == "isint":
        return isint(k[1])
    if k[0] == "even":
        return iseven(k[1])
    return pred(*k)


def count_(bag):
    return segsum(bag, ELEM(bag), ONE)


# ------------------------------------------------------------------ laws
H = P(Fraction(1, 2))


def one_atom(a):
    return Poly({((a, 1),): Fraction(1)})


def pow_laws(b, x):
    w = power(b, x)
    c = x.const()
    out = []
    bc = b.const()
    if c is None or c.denominator != 1:
        out += [imp(P(0).lt(b), P(0).lt(w))]
        out += [imp(x.eq(0), w.eq(1)), imp(x.eq(1), w.eq(b)), imp(b.eq(1), w.eq(1)), imp(conj(b.eq(0), P(0).lt(x)), w.eq(0))]
        out += [imp(x.eq(-1), w.eq(inv(b)))]
        if c is None:
            out += [imp(x.eq(2), w.eq(b * b)), imp(x.eq(3), w.eq(b * b * b)), imp(conj(isint(x), neg(b.eq(0))), neg(w.eq(0))), imp(conj(iseven(x), neg(b.eq(0))), P(0).lt(w))]
            out += [imp(iseven(x), isint(x))]
            out += [imp(conj(P(0).lt(x), P(0).le(b)), P(0).le(w))]
        else:
            if c > 0:
                out += [imp(P(0).le(b), P(0).le(w))]
            if c.denominator == 2 and c > 0:
                # a square root
                out += [imp(P(0).le(b), power(w, P(2)).eq(power(b, P(c * 2))))]
            elif c.denominator == 2:
                out += [imp(P(0).lt(b), (power(w, P(2)) * power(b, P(-c * 2))).eq(1))]
            elif c.denominator <= 6:
                k = c.denominator
                out += [imp(P(0).lt(b), (w ** k).eq(power(b, P(c * k))))]
    else:
        out += [imp(P(0).lt(b), P(0).lt(w)), imp(neg(b.eq(0)), neg(w.eq(0))), imp(b.eq(1), w.eq(1))]
        if c % 2 == 0:
            out += [imp(neg(b.eq(0)), P(0).lt(w))]
        if c > 0:
            out += [imp(b.eq(0), w.eq(0))]
    return out


def distribute(b, x):
    """pow(b, x) for a monomial b as a product of powers (value, condition)"""
    mo = b.mono()
    if not mo:
        return None
    c, m = mo
    if len(m) + (c != 1) < 2 and not (len(m) == 1 and (m[0][1] > 1 or ATOMS[m[0][0]][0] in ("PROD", "inv", "pow", "abs"))):
        return None
    r = ONE
    pos = []
    nz = []
    if c != 1:
        if c < 0:
            return None
        r = r * power(P(c), x)
    for a, n in m:
        key = ATOMS[a]
        one = one_atom(a)
        if key[0] == "PROD":
            el = ELEM(key[1])
            bd = rename(key[2], key[3], el)
            w = segprod_atom(key[1], el, power(bd, x))
            r = r * w ** n if n <= 8 else None
            pos.append(A("allpos", one).eq(1))
            continue
        if n > 1:
            r = r * power(one, x * n)
        elif key[0] == "inv":
            r = r * inv(power(key[1], x))
            one = key[1]
        elif key[0] == "pow":
            r = r * power(key[1], key[2] * x)
            pos.append(P(0).lt(key[1]))
            continue
        else:
            r = r * power(one, x)
        pos.append(P(0).lt(one))
        nz.append(neg(one.eq(0)))
    return r, conj(*pos), conj(*nz)


def absdist(p):
    """the absolute value of a monomial as a product (value, condition)"""
    mo = p.mono()
    if not mo or not mo[1] or not (len(mo[1]) > 1 or mo[0] != 1 or mo[1][0][1] > 1 or ATOMS[mo[1][0][0]][0] in ("PROD", "inv", "pow")):
        return None
    r, cond = P(abs(mo[0])), []
    for b, n in mo[1]:
        kb = ATOMS[b]
        if kb[0] == "PROD":
            el = ELEM(kb[1])
            t = segprod(kb[1], el, fabs(rename(kb[2], kb[3], el)))
        elif kb[0] == "inv":
            t = inv(fabs(kb[1]))
        elif kb[0] == "pow":
            t = power(fabs(kb[1]), kb[2])
            cond.append(disj(P(0).lt(kb[1]), isint(kb[2])))
        else:
            t = fabs(one_atom(b))
        r = r * t ** n
    return r, conj(*cond)


class Query:
    def __init__(self, eng, ctx, depth=0, deep=True):
        self.eng = eng
        self.ctx = ctx
        self.norm = Norm(ctx)
        self.depth = depth
        self.deep = deep
        self.atoms = []
        self.seen = set()
        self.preds = []
        self.pseen = set()
        self.ax = []
        self.forms = []
        self.pending = []

    def addp(self, p):
        for a in p.atoms():
            self.adda(a)

    def adda(self, a):
        if a in self.seen:
            return
        self.seen.add(a)
        self.atoms.append(a)
        self.pending.append(a)
        self.argatoms(ATOMS[a])

    def argatoms(self, key):
        if key[0] in ("SUM", "PROD", "g", "c"):
            return
        for k in key[1:]:
            if isinstance(k, Poly):
                self.addp(k)

    def addf(self, f, out=None):
        """register the atoms of a formula"""
        for n in zconsts(f):
            if n[0] == "a":
                self.adda(int(n[1:]))
            elif n[0] == "p":
                i = int(n[1:])
                if i not in self.pseen:
                    self.pseen.add(i)
                    self.preds.append(i)
                    for k in PKEYS[i][1:]:
                        if isinstance(k, Poly):
                            self.addp(k)

    def add(self, f):
        f = self.norm.form(f)
        if z3.is_true(f):
            return
        self.forms.append(f)
        self.addf(f)

    def axiom(self, f):
        if z3.is_true(f):
            return
        self.ax.append(f)
        self.addf(f)

    def log_exponent(self, me, b, x):
        """b^(y ln(p)/ln(q)) = p^y for b = q, and e^(y ln(p)) = p^y"""
        mo = x.mono()
        if not mo:
            return
        c, m = mo
        for a, n in m:
            if n != 1 or ATOMS[a][0] != "ln":
                continue
            p = ATOMS[a][1]
            others = [(z, k) for z, k in m if z != a]
            if b == EU:
                self.axiom(imp(P(0).lt(p), me.eq(power(p, Poly({tuple(others): c})))))
            for z, k in others:
                kz = ATOMS[z]
                if kz[0] == "inv" and k == 1:
                    q = kz[1].mono()
                    if q and q[0] == 1 and len(q[1]) == 1 and q[1][0][1] == 1 and ATOMS[q[1][0][0]][0] == "ln":
                        base = ATOMS[q[1][0][0]][1]
                        y = Poly({tuple(o for o in others if o[0] != z): c})
                        self.axiom(imp(conj(P(0).lt(p), P(0).lt(b), neg(b.eq(1)), b.eq(base)), me.eq(power(p, y))))

    # ---- one round of law instances
    def round(self, k):
        todo, self.pending = self.pending, []
        for a in todo:
            key = ATOMS[a]
            me = one_atom(a)
            h = key[0]
            if h == "inv":
                self.axiom(disj(key[1].eq(0), (key[1] * me).eq(1)))
            elif h == "pow":
                for f in pow_laws(key[1], key[2]):
                    self.axiom(f)
                if k < 3:
                    d = distribute(key[1], key[2])
                    if d is not None and d[0] != me:
                        r, pos, nz = d
                        self.axiom(imp(pos, me.eq(r)))
                        if not any(ATOMS[x][0] == "PROD" for x in key[1].atoms()):
                            self.axiom(imp(conj(isint(key[2]), nz), me.eq(self.dist_int(key[1], key[2]))))
                        else:
                            self.axiom(imp(isint(key[2]), me.eq(r)))
                    mo = key[1].mono()
                    if mo and mo[0] < 0:
                        pb = power(-key[1], key[2])
                        self.axiom(imp(iseven(key[2]), me.eq(pb)))
                        self.axiom(imp(conj(isint(key[2]), neg(iseven(key[2]))), me.eq(-pb)))
                if k < 3:
                    self.log_exponent(me, key[1], key[2])
            elif h == "abs":
                self.axiom(imp(P(0).le(key[1]), me.eq(key[1])))
                self.axiom(imp(key[1].lt(0), me.eq(-key[1])))
                d = absdist(key[1]) if k < 2 else None
                if d:
                    self.axiom(imp(d[1], me.eq(d[0])))
            elif h == "ln":
                p = key[1]
                self.axiom(imp(P(1).lt(p), P(0).lt(me)))
                self.axiom(imp(conj(P(0).lt(p), p.lt(1)), me.lt(0)))
                self.axiom(imp(p.eq(1), me.eq(0)))
                mo = p.mono()
                if mo and k < 3:
                    c, m = mo
                    if c > 0 and (len(m) > 1 or c != 1 or m and (m[0][1] > 1 or ATOMS[m[0][0]][0] in ("inv", "pow", "PROD"))):
                        r = ln(P(c)) if c != 1 else ZERO
                        cond = []
                        for b, n in m:
                            kb = ATOMS[b]
                            if kb[0] == "inv":
                                r = r - ln(kb[1]) * n
                                cond.append(P(0).lt(kb[1]))
                            elif kb[0] == "pow":
                                r = r + kb[2] * ln(kb[1]) * n
                                cond.append(P(0).lt(kb[1]))
                            elif kb[0] == "PROD":
                                el = ELEM(kb[1])
                                r = r + segsum(kb[1], el, ln(rename(kb[2], kb[3], el))) * n
                                cond.append(A("allpos", one_atom(b)).eq(1))
                            else:
                                r = r + ln(one_atom(b)) * n
                                cond.append(P(0).lt(one_atom(b)))
                        self.axiom(imp(conj(*cond), me.eq(r)))
                    elif m and len(m) == 1 and c == 1 and ATOMS[m[0][0]][0] == "abs":
                        d = absdist(ATOMS[m[0][0]][1])
                        if d:
                            self.axiom(imp(d[1], me.eq(ln(d[0]))))
            elif h in ("sin", "cos"):
                s, c = A("sin", key[1]), A("cos", key[1])
                self.axiom((s * s + c * c).eq(1))
                p = key[1]
                self.trig_arg(h, me, p)
            elif h == "asin":
                p = key[1]
                dom = conj(P(-1).le(p), p.le(1))
                self.axiom(imp(dom, conj(fsin(me).eq(p), P(0).le(fcos(me)), (fcos(me) * fcos(me)).eq(1 - p * p))))
                self.axiom(imp(p.eq(0), me.eq(0)))
            elif h == "acos":
                p = key[1]
                dom = conj(P(-1).le(p), p.le(1))
                self.axiom(imp(dom, conj(fcos(me).eq(p), P(0).le(fsin(me)), (fsin(me) * fsin(me)).eq(1 - p * p))))
                self.axiom(imp(p.eq(0), me.eq(PI * Fraction(1, 2))))
            elif h == "atan":
                p = key[1]
                self.axiom(conj(P(0).lt(fcos(me)), fsin(me).eq(p * fcos(me)), (fcos(me) * fcos(me) * (1 + p * p)).eq(1)))
                self.axiom(imp(p.eq(0), me.eq(0)))
            elif h == "c":
                if key[1] == "pi":
                    self.axiom(conj(P(3).lt(me), me.lt(P(Fraction(22, 7)))))
                elif key[1] == "e":
                    self.axiom(conj(P(Fraction(27, 10)).lt(me), me.lt(P(Fraction(28, 10)))))
            elif h in ("SUM", "PROD"):
                self.measure_facts(a, key)
            elif h == "allpos":
                self.allpos(me, key)
        if k < 2:
            self.pairs()
        self.predlaws()

    def dist_int(self, b, x):
        c, m = b.mono()
        r = power(P(c), x) if c != 1 else ONE
        for a, n in m:
            key = ATOMS[a]
            if key[0] == "inv":
                r = r * inv(power(key[1], x * n))
            elif key[0] == "pow":
                r = r * A("pow", one_atom(a), x * n) if (x * n).const() is None else r * power(one_atom(a), x * n)
            else:
                r = r * power(one_atom(a), x * n)
        return r

    def trig_arg(self, h, me, p):
        # argument = q*pi + rest
        f = fsin if h == "sin" else fcos
        pim = [(mono, c) for mono, c in p.m.items() if mono == next(iter(PI.m))]
        mo = p.mono()
        if pim:
            c = pim[0][1]
            rest = p - PI * P(c)
            k = c % 2
            if not rest.m:
                t = special(h, k)
                if t is not None:
                    self.axiom(me.eq(t))
                    return
            if rest.m and c != 0:
                if k == 0:
                    self.axiom(me.eq(f(rest)))
                elif k == 1:
                    self.axiom(me.eq(-f(rest)))
                elif k == Fraction(1, 2):
                    self.axiom(me.eq(fcos(rest) if h == "sin" else -fsin(rest)))
                elif k == Fraction(3, 2):
                    self.axiom(me.eq(-fcos(rest) if h == "sin" else fsin(rest)))
        # k*pi for a symbolic k: periodicity
        pa = next(iter(PI.m))[0][0]
        for mono, c in p.m.items():
            d = dict(mono)
            if d.get(pa) == 1 and len(d) > 1:
                q = Poly({tuple((a, n) for a, n in mono if a != pa): c})
                rest = p - q * PI
                half = q * Fraction(1, 2)
                self.axiom(imp(isint(half), me.eq(f(rest))))
                self.axiom(imp(conj(isint(q), neg(isint(half))), me.eq(-f(rest))))
                # position in the period
                break

    def pairs(self):
        pows = {}
        for a in list(self.atoms):
            key = ATOMS[a]
            if key[0] == "pow":
                pows.setdefault(key[1], set()).add(key[2])
        for b, xs in pows.items():
            xl = list(xs)
            if len(xl) > 6:
                xl = xl[:6]
            for i, x in enumerate(xl):
                for y in xl[:i]:
                    s, d = x + y, x - y
                    cond = lambda *q: disj(P(0).lt(b), conj(neg(b.eq(0)), *[isint(t) for t in q]))
                    if s.const() is not None or s in xs:
                        self.axiom(imp(cond(x, y), (power(b, x) * power(b, y)).eq(power(b, s))))
                    if d.const() is not None:
                        self.axiom(imp(cond(x, y), power(b, x).eq(power(b, y) * power(b, d))))
                    self.axiom(imp(x.eq(y), power(b, x).eq(power(b, y))))
                    if y == x * -1:
                        pass
                    for z in xl:
                        if z not in (x, y) and z == s and s.const() is None:
                            self.axiom(imp(cond(x, y), (power(b, x) * power(b, y)).eq(power(b, z))))
        # powers of powers
        for b in list(pows):
            for x in list(pows[b]):
                mo = b.mono()
                if mo and mo[0] == 1 and len(mo[1]) == 1 and mo[1][0][1] == 1:
                    key = ATOMS[mo[1][0][0]]
                    if key[0] == "pow":
                        y = key[2]
                        self.axiom(imp(P(0).lt(key[1]), power(b, x).eq(power(key[1], x * y))))
                        self.axiom(imp(conj(isint(x), isint(y), neg(key[1].eq(0))), power(b, x).eq(power(key[1], x * y))))
                        self.axiom(imp(conj(iseven(y), neg(key[1].eq(0))), power(b, x).eq(power(fabs(key[1]), x * y))))
                    elif key[0] == "abs":
                        self.axiom(imp(iseven(x), power(b, x).eq(power(key[1], x))))
                elif mo and mo[0] == 1 and len(mo[1]) == 1 and mo[1][0][1] % 2 == 0:
                    base = one_atom(mo[1][0][0])
                    self.axiom(imp(neg(base.eq(0)), power(b, x).eq(power(fabs(base), x * mo[1][0][1]))))
        # congruence
        fns = {}
        for a in list(self.atoms):
            key = ATOMS[a]
            if key[0] in ("pow", "ln", "sin", "cos", "abs", "asin", "acos", "atan", "floor", "inv", "num", "den", "fact"):
                fns.setdefault(key[0], []).append(a)
        for h, l in fns.items():
            if len(l) > 10:
                l = l[:10]
            for i, a in enumerate(l):
                for b in l[:i]:
                    ka, kb = ATOMS[a], ATOMS[b]
                    if h == "pow" and ka[1] == kb[1]:
                        continue
                    es = []
                    for u, v in zip(ka[1:], kb[1:]):
                        es.append(u.eq(v))
                    c = conj(*es)
                    if not z3.is_false(c):
                        self.axiom(imp(c, one_atom(a).eq(one_atom(b))))
                    if h in ("sin", "cos", "inv", "abs") and not z3.is_false(ka[1].eq(-kb[1])):
                        self.axiom(imp(ka[1].eq(-kb[1]), one_atom(a).eq(one_atom(b) * (-1 if h in ("sin", "inv") else 1))))
        self.measure_pairs()

    def predlaws(self):
        pr = [(i, PKEYS[i]) for i in list(self.preds)]
        ints = [(i, k[1]) for i, k in pr if k[0] == "isint"]
        evens = [(i, k[1]) for i, k in pr if k[0] == "even"]
        done = self.__dict__.setdefault("pdone", set())
        for i, p in evens:
            if i not in done:
                done.add(i)
                self.axiom(imp(z3.Bool("p%d" % i), isint(p)))
                self.axiom(z3.Bool("p%d" % i) == isint(p * Fraction(1, 2)))
        for i, p in ints:
            if i in done:
                continue
            done.add(i)
            me = z3.Bool("p%d" % i)
            # closure under sums and products
            if len(p.m) > 1 or (p.mono() and (len(p.mono()[1]) > 1 or p.mono()[0] != 1 or p.mono()[1][0][1] > 1)):
                if all(c.denominator == 1 for c in p.m.values()):
                    self.axiom(imp(conj(*[isint(one_atom(a)) for a in p.atoms()]), me))
            c = p.m.get((), None)
            if c is not None and c.denominator == 1 and len(p.m) > 1:
                self.axiom(me == isint(p - P(c)))
            for a in p.atoms():
                k = ATOMS[a]
                if k[0] == "pow" and p == one_atom(a):
                    self.axiom(imp(conj(isint(k[1]), isint(k[2]), P(0).le(k[2])), me))
            self.axiom(imp(me, disj(p.le(-1), p.eq(0), P(1).le(p))))
        if len(ints) <= 12:
            for x, (i, p) in enumerate(ints):
                for j, q in ints[:x]:
                    if (i, j) in done:
                        continue
                    done.add((i, j))
                    e = p.eq(q)
                    if not z3.is_false(e):
                        self.axiom(imp(e, z3.Bool("p%d" % i) == z3.Bool("p%d" % j)))
                    c = (p - q).const()
                    if c is not None and c.denominator == 1:
                        self.axiom(z3.Bool("p%d" % i) == z3.Bool("p%d" % j))
        for i, p in ints + evens:
            if (i, "c") not in done:
                done.add((i, "c"))
                b = z3.Bool("p%d" % i)
                for v in (0, 1, 2, -1, -2) if PKEYS[i][0] == "even" else ():
                    self.axiom(imp(p.eq(v), b if v % 2 == 0 else neg(b)))
                if PKEYS[i][0] == "isint":
                    for v in (0, 1, 2, -1, -2):
                        self.axiom(imp(p.eq(v), b))
                    for v in (Fraction(1, 2), Fraction(-1, 2)):
                        self.axiom(imp(p.eq(v), neg(b)))

    # ---- lists
    def leafquery(self, L):
        c = Ctx(self.ctx)
        d = c.leafdelta.get(L)
        if d is not None:
            try:
                c.apply(d)
            except Infeasible:
                return None
        return c

    def pointwise(self, L, f, timeout=300, quick=False):
        """does f hold for every element of leaf L?"""
        if self.depth >= 1 or not self.deep:
            return False
        c = self.leafquery(L)
        if c is None:
            return True
        return prove(self.eng, c, f, timeout=timeout, depth=self.depth + 1, quick=quick)[0] == "proved"

    def measure_facts(self, a, key):
        kind, L, body, star = key
        me = one_atom(a)
        el = ELEM(L)
        b = rename(body, star, el)
        n = count_(L)
        if kind == "SUM":
            if body == ONE:
                self.axiom(P(0).le(me))
                self.axiom(isint(me))
                self.axiom(disj(me.eq(0), me.eq(1), P(2).le(me)))
                return
            self.axiom(imp(n.eq(0), me.eq(0)))
            if self.pointwise(L, b.eq(0), quick=True):
                self.axiom(me.eq(0))
            elif self.pointwise(L, P(0).le(b)):
                self.axiom(P(0).le(me))
                if self.pointwise(L, P(0).lt(b)):
                    self.axiom(imp(P(0).lt(n), P(0).lt(me)))
            elif self.pointwise(L, b.lt(0)):
                self.axiom(imp(P(0).lt(n), me.lt(0)))
            if self.pointwise(L, isint(b), quick=True):
                self.axiom(isint(me))
        else:
            self.axiom(imp(n.eq(0), me.eq(1)))
            mo = b.mono()
            if mo and mo[0] == 1 and len(mo[1]) == 1 and mo[1][0][1] == 1 and ATOMS[mo[1][0][0]][0] == "inv":
                # the product of the reciprocals: no factor of a product that is not zero is zero
                w = segprod(L, el, ATOMS[mo[1][0][0]][1])
                self.axiom(imp(neg(w.eq(0)), (w * me).eq(1)))
            if body == ZERO:
                self.axiom(imp(P(1).le(n), me.eq(0)))
                return
            if self.pointwise(L, b.eq(1), quick=True):
                self.axiom(me.eq(1))
            elif self.pointwise(L, b.eq(0), quick=True):
                self.axiom(imp(P(1).le(n), me.eq(0)))
            elif self.pointwise(L, P(0).le(b)):
                self.axiom(P(0).le(me))
                if self.pointwise(L, P(0).lt(b)):
                    self.axiom(P(0).lt(me))
            elif self.pointwise(L, neg(b.eq(0))):
                self.axiom(neg(me.eq(0)))
            if self.pointwise(L, isint(b), quick=True):
                self.axiom(isint(me))

    def allpos(self, me, key):
        (x,) = key[1].mono()[1]
        k = ATOMS[x[0]]
        el = ELEM(k[1])
        if self.pointwise(k[1], P(0).lt(rename(k[2], k[3], el))):
            self.axiom(me.eq(1))
            self.axiom(P(0).lt(one_atom(x[0])))

    def measure_pairs(self):
        by = {}
        for a in self.atoms:
            key = ATOMS[a]
            if key[0] in ("SUM", "PROD") and key[2] != ONE:
                by.setdefault((key[0], key[1]), []).append(a)
        done = self.__dict__.setdefault("mdone", set())
        for (kind, L), l in by.items():
            el = ELEM(L)
            for i, a in enumerate(l[:8]):
                for b in l[:i]:
                    if (a, b) in done:
                        continue
                    done.add((a, b))
                    p = rename(ATOMS[a][2], ATOMS[a][3], el)
                    q = rename(ATOMS[b][2], ATOMS[b][3], el)
                    if self.pointwise(L, p.eq(q)):
                        self.axiom(one_atom(a).eq(one_atom(b)))
                    elif kind == "SUM" and self.pointwise(L, p.eq(-q)):
                        self.axiom(one_atom(a).eq(-one_atom(b)))
                    elif kind == "PROD" and self.pointwise(L, (p * q).eq(1)):
                        self.axiom((one_atom(a) * one_atom(b)).eq(1))

    def combos(self, goal):
        """SUM terms over one leaf with the same cofactor: is the combined body zero everywhere?"""
        p = eq_poly(goal)
        if p is None:
            return
        groups = {}
        for mono, c in p.m.items():
            for a, n in mono:
                key = ATOMS[a]
                if key[0] == "SUM" and n == 1:
                    outer = tuple((x, m) for x, m in mono if x != a)
                    groups.setdefault(key[1], []).append((outer, c, a, rename(key[2], key[3], ELEM(key[1])) if key[2] != ONE else ONE))
        for L, l in groups.items():
            if len(l) < 2:
                continue
            tot = ZERO
            lin = ZERO
            for outer, c, a, b in l:
                tot = tot + Poly({outer: c}) * b
                lin = lin + Poly({outer: c}) * one_atom(a)
            if self.pointwise(L, tot.eq(0), timeout=1500):
                self.axiom(lin.eq(0))


POLYEQ = {}


def eq_poly(f):
    """for a formula s == t made of polynomials: the polynomial s - t"""
    if z3.is_eq(f) and z3.is_arith(f.arg(0)):
        try:
            return zpoly(f.arg(0)) - zpoly(f.arg(1))
        except ValueError:
            return None
    return None


def zpoly(t):
    if z3.is_rational_value(t):
        return P(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return one_atom(int(t.decl().name()[1:]))
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = ZERO
        for c in t.children():
            r = r + zpoly(c)
        return r
    if k == z3.Z3_OP_MUL:
        r = ONE
        for c in t.children():
            r = r * zpoly(c)
        return r
    if k == z3.Z3_OP_SUB:
        cs = t.children()
        r = zpoly(cs[0])
        for c in cs[1:]:
            r = r - zpoly(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -zpoly(t.arg(0))
    if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
        return zpoly(t.arg(0)) ** t.arg(1).numerator_as_long()
    raise ValueError


SQ = {2: None, 3: None}


def special(h, k):
    """sin or cos of k*pi"""
    k = Fraction(k) % 2
    if h == "cos":
        k = (k + Fraction(1, 2)) % 2
    # now sin(k*pi)
    sgn = 1
    if k >= 1:
        k, sgn = k - 1, -1
    if k > Fraction(1, 2):
        k = 1 - k
    v = {Fraction(0): ZERO, Fraction(1, 6): P(Fraction(1, 2)), Fraction(1, 4): power(P(2), H) * Fraction(1, 2),
         Fraction(1, 3): power(P(3), H) * Fraction(1, 2), Fraction(1, 2): ONE}.get(k)
    return None if v is None else v * sgn


# ------------------------------------------------------------------ deciding
CACHE = {}
LOG = []


_args = {}


def argnames(n):
    """the atoms an atom is built of"""
    r = _args.get(n)
    if r is None:
        key = ATOMS[int(n[1:])] if n[0] == "a" else PKEYS[int(n[1:])]
        r = {n}
        if key[0] not in ("SUM", "PROD", "g", "c"):
            for k in key[1:]:
                if isinstance(k, Poly):
                    for a in k.atoms():
                        r |= argnames("a%d" % a)
        _args[n] = r
    return r


def names(f):
    r = set()
    for n in zconsts(f):
        r |= argnames(n)
    return r


def relevant(forms, start):
    """formulas connected with the starting ones through shared constants"""
    cons = [names(f) for f in forms]
    cur = set()
    for f in start:
        cur |= names(f)
    used = [False] * len(forms)
    while True:
        hit = False
        for i, c in enumerate(cons):
            if not used[i] and (c & cur or not c):
                used[i] = True
                if not c <= cur:
                    cur |= c
                hit = True
        if not hit:
            return [f for f, u in zip(forms, used) if u]


def solve(eng, forms, timeout, tactic=None):
    t = time.time()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", timeout)
    s.add(*forms)
    r = s.check()
    eng.stats["queries"] += 1
    eng.stats["solver_s"] += time.time() - t
    return r, s


def conjuncts(f):
    if z3.is_and(f):
        return [y for x in f.children() for y in conjuncts(x)]
    return [f]


def prove(eng, ctx, goal, timeout=3000, depth=0, want_model=False, quick=False):
    """('proved'|'refuted'|'unknown', detail)"""
    gs = conjuncts(goal)
    if len(gs) > 1:
        worst = ("proved", None)
        for g in gs:
            r = prove(eng, ctx, g, timeout, depth, want_model, quick)
            if r[0] != "proved":
                return r
        return worst
    n = Norm(ctx)
    g = n.form(goal)
    p = eq_poly(g)
    if z3.is_true(z3.simplify(g)):
        return "proved", "normal form"
    if p is not None and not p.m:
        return "proved", "normal form"
    key = None
    if depth:
        key = (g.get_id(), tuple(sorted(f.get_id() for f in ctx.facts)), signature(ctx), quick)
        if key in CACHE:
            return CACHE[key][0]
    q = Query(eng, ctx, depth)
    q.norm = n
    for f in ctx.facts:
        q.add(f)
    fs = list(q.forms)
    rel = relevant(fs, [g]) if True else fs
    rkey = None
    if depth:
        rkey = ("rel", g.get_id(), tuple(sorted(f.get_id() for f in rel)), depth, quick, signature(ctx) if any_measure(rel + [g]) else ())
        if rkey in CACHE:
            return CACHE[rkey][0]
    res = None
    if quick:
        q1 = Query(eng, ctx, depth, deep=False)
        q1.norm = n
        q1.addf(g)
        for f in rel:
            q1.addf(f)
        q1.round(0)
        r, s = solve(eng, rel + q1.ax + [neg(g)], 500)
        res = ("proved", "z3") if r == z3.unsat else ("unknown", "quick")
    elif any_measure(rel + [g]):
        # first without looking into the lists
        q1 = Query(eng, ctx, depth, deep=False)
        q1.norm = n
        q1.addf(g)
        for f in rel:
            q1.addf(f)
        for k in range(3 if depth == 0 else 2):
            q1.round(k)
            if k:
                r, s = solve(eng, rel + q1.ax + [neg(g)], min(timeout, 1000))
                if r == z3.unsat:
                    res = ("proved", "z3")
                    break
    q2 = Query(eng, ctx, depth)
    q2.norm = n
    if res is None:
        q2.addf(g)
        for f in rel:
            q2.addf(f)
        q2.combos(g)
    for k in range(3) if res is None else ():
        q2.round(k)
        r, s = solve(eng, rel + q2.ax + [neg(g)], timeout if k else min(timeout, 1000))
        if r == z3.unsat:
            res = ("proved", "z3")
            break
        if not q2.pending:
            break
    if res is None:
        # facts that only become connected through the laws
        if len(rel) < len(fs):
            for f in fs:
                q2.addf(f)
            q2.round(3)
            r, s = solve(eng, fs + q2.ax + [neg(g)], timeout)
            if r == z3.unsat:
                res = ("proved", "z3")
        elif r == z3.unknown:
            r2, s2 = solve(eng, rel + q2.ax + [neg(g)], timeout, "qfnra-nlsat")
            if r2 == z3.unsat:
                res = ("proved", "z3 nlsat")
            elif r2 == z3.sat:
                r, s = r2, s2
        if res is None:
            res = ("refuted", s.model()) if r == z3.sat else ("unknown", s.reason_unknown() if r == z3.unknown else "")
    if key is not None:
        CACHE[key] = (res, g, list(ctx.facts), Ctx(ctx))     # what the key names by its id is kept alive
    if rkey is not None:
        CACHE[rkey] = (res, g, rel, Ctx(ctx))
    if res[0] == "proved":
        eng.stats["proved"] += 1
    return res


def signature(ctx):
    """identifies everything but the facts that a query depends on"""
    return (frozenset((k, id(v)) for k, v in ctx.defs.items()), frozenset((k, id(v)) for k, v in ctx.parts.items()),
            frozenset((k, id(v)) for k, v in ctx.leafdelta.items()))


def any_measure(forms):
    return any(n[0] == "a" and ATOMS[int(n[1:])][0] in ("SUM", "PROD") for f in forms for n in zconsts(f))


ICACHE = {}


def infeasible(eng, ctx, f, timeout=150):
    n = Norm(ctx)
    q = Query(eng, ctx, depth=1, deep=False)
    q.norm = n
    g = n.form(f)
    if z3.is_false(z3.simplify(g)):
        return True
    for x in ctx.facts:
        q.add(x)
    fs = relevant(q.forms, [g])
    q2 = Query(eng, ctx, depth=1, deep=False)
    q2.norm = n
    q2.addf(g)
    for x in fs:
        q2.addf(x)
    q2.round(1)
    forms = fs + q2.ax + [g]
    key = tuple(sorted(x.get_id() for x in forms))
    r = ICACHE.get(key)
    if r is None:
        res, s = solve(eng, forms, timeout)
        r = ICACHE[key] = (res == z3.unsat, forms)
    return r[0]


def consistent(eng, ctx, timeout=1000):
    """can the facts of the path hold together?  (guard against vacuous proofs)"""
    n = Norm(ctx)
    q = Query(eng, ctx, deep=False)
    q.norm = n
    for x in ctx.facts:
        q.add(x)
    q.round(0)
    q.round(1)
    r, s = solve(eng, q.forms + q.ax, timeout)
    return r != z3.unsat
