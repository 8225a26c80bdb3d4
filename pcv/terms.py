"""Terms of the specification logic: polynomials over atoms, with exact rational coefficients.

An atom is a constant (a ghost of an object: its value, its derivative, ...), the application of a mathematical
function (pow, ln, sin, ...) to polynomials, or a measure of a list of unknown length: the sum, respectively the
product, over all its elements of a monomial in the ghosts of the generic element.
Atoms are interned by structure, so arguments that are equal as polynomials give the same atom.
"""
from fractions import Fraction
import z3

ATOMS = []          # id -> key
IDS = {}            # key -> id
BINDERS = {}        # atom id -> frozenset of generic elements it depends on
Z = {}              # atom id -> z3 Real


def scan(key, acc):
    if isinstance(key, tuple):
        if len(key) == 3 and key[0] == "elem":
            acc.add(key)
            scan(key[1], acc)
            return
        for k in key:
            scan(k, acc)
    elif isinstance(key, Poly):
        acc |= key.binders()


class Poly:
    __slots__ = ("m", "_h", "_b")

    def __init__(self, m):
        self.m = m
        self._h = None
        self._b = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def binders(self):
        if self._b is None:
            s = set()
            for mono in self.m:
                for a, _ in mono:
                    s |= BINDERS[a]
            self._b = frozenset(s)
        return self._b

    def __add__(self, o):
        o = P(o)
        r = dict(self.m)
        for k, c in o.m.items():
            c2 = r.get(k, 0) + c
            if c2:
                r[k] = c2
            else:
                r.pop(k, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = mulmono(k1, k2)
                c = r.get(k, 0) + c1 * c2
                if c:
                    r[k] = c
                else:
                    r.pop(k, None)
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def const(self):
        """Fraction if constant else None"""
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def mono(self):
        """(coeff, mono) if a single monomial else None"""
        if len(self.m) == 1:
            (k, c), = self.m.items()
            return c, k
        return None

    def atoms(self, acc=None):
        acc = set() if acc is None else acc
        for mono in self.m:
            for a, _ in mono:
                acc.add(a)
        return acc

    def lead(self):
        return self.m[min(self.m)] if self.m else Fraction(0)

    def z(self):
        ts = []
        for mono, c in self.m.items():
            fs = []
            for a, n in mono:
                fs += [zatom(a)] * n
            t = z3.RealVal(c) if (c != 1 or not fs) else None
            for f in fs:
                t = f if t is None else t * f
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        r = ts[0]
        for t in ts[1:]:
            r = r + t
        return r

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for mono, c in sorted(self.m.items()):
            s = "*".join(show(a) + ("^%d" % n if n > 1 else "") for a, n in mono)
            out.append((("%s*" % c if c != 1 else "") + s) if s else str(c))
        return " + ".join(out)

    # comparisons are z3 formulas
    def eq(self, o):
        o = P(o)
        if self == o:
            return z3.BoolVal(True)
        c = (self - o).const()
        if c is not None:
            return z3.BoolVal(c == 0)
        return self.z() == o.z()

    def lt(self, o):
        c = (self - P(o)).const()
        if c is not None:
            return z3.BoolVal(c < 0)
        return self.z() < P(o).z()

    def le(self, o):
        c = (self - P(o)).const()
        if c is not None:
            return z3.BoolVal(c <= 0)
        return self.z() <= P(o).z()


def mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, n in b:
        d[k] = d.get(k, 0) + n
    return tuple(sorted(d.items()))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        x = Fraction(x)
        return Poly({(): x}) if x else ZERO
    raise TypeError(x)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def atom(key):
    i = IDS.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        IDS[key] = i
        s = set()
        if key[0] in ("SUM", "PROD"):
            # key = (kind, bag, body, elem): the bound element is not free
            scan(key[2], s)
            s.discard(key[3])
            scan(key[1], s)
        else:
            scan(key, s)
        BINDERS[i] = frozenset(s)
    return i


def A(*key):
    return Poly({((atom(key), 1),): Fraction(1)})


def zatom(i):
    z = Z.get(i)
    if z is None:
        z = Z[i] = z3.Real("a%d" % i)
    return z


def unz(name):
    return int(name[1:])


def show(i):
    k = ATOMS[i]
    if k[0] == "g":
        return "%s(%s)" % (k[1], showuid(k[2])) if len(k) == 3 else "%s(%s,%s)" % (k[1], showuid(k[2]), ",".join(map(str, k[3:])))
    if k[0] in ("SUM", "PROD"):
        return "%s[%s](%r)" % ({"SUM": "Σ", "PROD": "Π"}[k[0]], showuid(k[1]), k[2])
    if k[0] == "c":
        return str(k[1])
    return "%s(%s)" % (k[0], ", ".join(map(repr, k[1:])))


def showuid(u):
    if isinstance(u, tuple):
        if len(u) == 3 and u[0] == "elem":
            return "t∈%s" % showuid(u[1])
        return ".".join(showuid(x) for x in u)
    return str(u)


# ------------------------------------------------------------------ functions
def inv(p):
    c = p.const()
    if c is not None:
        return P(1 / c) if c else ZERO
    mo = p.mono()
    if mo:
        c, k = mo
        r = P(1 / c)
        for a, n in k:
            key = ATOMS[a]
            if key[0] == "inv":
                r = r * key[1] ** n
            elif key[0] == "PROD":
                r = r * segprod_atom(key[1], key[3], inv(key[2])) ** n
            else:
                r = r * A("inv", Poly({((a, 1),): Fraction(1)})) ** n
        return r
    l = p.lead()
    return A("inv", p * P(1 / l)) * P(1 / l)


def power(b, x):
    c = x.const()
    if c is not None:
        if c.denominator == 1:
            n = c.numerator
            if n == 0:
                return ONE
            if 0 < n <= 6 and len(b.m) <= 4:
                return b ** n
            if -6 <= n < 0:
                return inv(b) ** (-n)
        bc = b.const()
        if bc == 1:
            return ONE
        if bc is not None and bc > 0 and c.denominator == 2:
            r = isqrt(bc)
            if r is not None:
                return power(P(r), P(c * 2))
    if b.const() == 1:
        return ONE
    return A("pow", b, x)


def isqrt(q):
    import math
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fraction(a, b)
    return None


PI = A("c", "pi")
EU = A("c", "e")


def ln(p):
    if p.const() == 1:
        return ZERO
    if p == EU:
        return ONE
    return A("ln", p)


def fsin(p):
    if not p.m:
        return ZERO
    if p.lead() < 0:
        return -fsin(-p)
    return A("sin", p)


def fcos(p):
    if not p.m:
        return ONE
    if p.lead() < 0:
        p = -p
    return A("cos", p)


def fabs(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    if p.lead() < 0:
        p = -p
    return A("abs", p)


# ------------------------------------------------------------------ measures over lists
def segsum(bag, elem, body):
    r = ZERO
    for mono, c in body.m.items():
        inner, outer = split(mono, elem)
        if not inner:
            r = r + Poly({outer: c}) * A("SUM", bag, ONE, STAR(bag))
        else:
            b = Poly({inner: Fraction(1)})
            r = r + Poly({outer: c}) * A("SUM", bag, rename(b, elem, STAR(bag)), STAR(bag))
    return r


def segprod(bag, elem, body):
    """product over the elements; a body that is not a monomial stays one atom"""
    mo = body.mono()
    if not body.m:
        return A("PROD", bag, ZERO, STAR(bag))
    if not mo:
        return segprod_atom(bag, elem, body)
    c, mono = mo
    inner, outer = split(mono, elem)
    r = ONE
    for a, n in inner:
        r = r * segprod_atom(bag, elem, Poly({((a, 1),): Fraction(1)})) ** n
    rest = Poly({outer: c})
    if rest != ONE:
        r = r * A("PROD", bag, rest, STAR(bag))
    return r


def segprod_atom(bag, elem, body):
    mo = body.mono()
    if mo and (mo[0] != 1 or len(mo[1]) != 1 or mo[1][0][1] != 1):
        return segprod(bag, elem, body)
    return A("PROD", bag, rename(body, elem, STAR(bag)), STAR(bag))


def STAR(bag):
    return ("elem", root(bag), "*")


def root(bag):
    while isinstance(bag, tuple) and bag[0] == "sub":
        bag = bag[1]
    return bag


def split(mono, elem):
    inner = tuple((a, n) for a, n in mono if elem in BINDERS[a])
    outer = tuple((a, n) for a, n in mono if elem not in BINDERS[a])
    return inner, outer


_ren = {}


def rename(p, a, b):
    """replace the generic element a by b"""
    if a == b or a not in p.binders():
        return p
    k = (p, a, b)
    r = _ren.get(k)
    if r is None:
        r = _ren[k] = subst_atoms(p, lambda key: renkey(key, a, b))
    return r


def renkey(key, a, b):
    if key == a:
        return b
    if isinstance(key, tuple):
        return tuple(renkey(k, a, b) for k in key)
    if isinstance(key, Poly):
        return rename(key, a, b)
    return key


def subst_atoms(p, f):
    """rebuild p with every atom key mapped through f (which returns the new key)"""
    r = ZERO
    for mono, c in p.m.items():
        t = P(c)
        for a, n in mono:
            key = ATOMS[a]
            t = t * rebuild(f(key)) ** n
        r = r + t
    return r


def rebuild(key):
    h = key[0]
    if h == "inv":
        return inv(key[1])
    if h == "pow":
        return power(key[1], key[2])
    if h == "ln":
        return ln(key[1])
    if h == "sin":
        return fsin(key[1])
    if h == "cos":
        return fcos(key[1])
    if h == "abs":
        return fabs(key[1])
    return A(*key)
