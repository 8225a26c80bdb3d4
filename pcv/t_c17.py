"""C17: the printed text, read with the usual precedence of + - * / ^ and function application, has the value of the expression.

A text is a sequence of literal characters and of the printed forms of sub-expressions whose text is not known.  What the
text of a sub-expression may be read as depends on its class (LEVEL below): that is the postcondition each printing method is
checked against, and what its callers may assume.  The reader is a recursive-descent parser over such a sequence."""
import ast
import re
import z3
import tasks
import interp
import load
import loops
import world as W
import spec
from tasks import *
from tasks import oblige, sym, num
from spec import fn_contract, ok
from vals import *
from interp import *
from engine import *
from engine import ENG
from terms import *
from world import V

X = load.E
L = load.simpy.latex
# how tightly the text holds together: a + b < a*b/c < -a < a^b < atom
SUM, CHAIN, UNARY, POW, ATOM = range(5)
LEVEL = ["a sum", "a product or quotient", "a negative", "a power", "closed"]
RATS = frozenset(["Rat"])
FIXED = {"Sum": SUM, "Prod": CHAIN}


class Hole:
    """the text of an expression (or of a number)"""
    def __init__(self, se=None, level=None, value=None, key=None):
        self.se, self._level, self.value, self.key = se, level, value if se is None else V(se), key or (se.uid if se is not None else ENG.uid("text"))

    def level(self, tex):
        if self._level is None:
            self._level = level_of(self.se, tex)
        return self._level

    def __repr__(self):
        return "<%s>" % (self.key,)



def level_of(se, tex=False):
    """the postcondition of the printing methods"""
    cl = W.classes(se)
    groups = [frozenset(["Sum"]), frozenset(["Prod"]), frozenset(["Power"]), frozenset(["Rat"]), frozenset(["Float"]),
              cl - {"Sum", "Prod", "Power", "Rat", "Float"}]
    groups = [g & cl for g in groups if g & cl]
    if len(groups) > 1:
        k = ENG.choose([(("class", se.uid, i), TRUE, (lambda g=g: W.restrict(se, g))) for i, g in enumerate(groups)])
        cl = groups[k]
    c = next(iter(cl))
    if c in FIXED:
        return FIXED[c]
    if c == "Rat":
        if se.uid in PLAIN:
            ENG.fact(isint(V(se)))
        return rat_level(V(se), tex)
    if c == "Float":
        return ATOM if ENG.decide(P(0).le(V(se)), ("not negative", se.uid)) else UNARY
    if c == "Power":
        if tex:
            return POW
        x = interp_get(se, "exponent")
        if W.classes(x) & {"Rat", "Float"}:
            a, b = W.classes(x) & {"Rat", "Float"}, W.classes(x) - {"Rat", "Float"}
            k = 0 if not b else ENG.choose([(("exponent", se.uid, i), TRUE, (lambda g=g: W.restrict(x, g))) for i, g in enumerate((a, b))])
            if k == 0:
                if se.uid in PLAIN:
                    ENG.fact(P(0).le(V(x)))
                if ENG.decide(V(x).lt(P(0)), ("negative exponent", se.uid)):
                    return CHAIN
                if W.classes(x) == {"Rat"} and ENG.decide(V(x).eq(P(Fraction(1, 2))), ("square root", se.uid)):
                    return ATOM
        return POW
    return ATOM


class Level:
    """the level of a text, decided only as far as it matters"""
    def __init__(self, hole, tex, top=ATOM):
        self.hole, self.tex, self.top = hole, tex, top

    def full(self):
        se = self.hole.se
        if self.hole._level is None and se is not None and se.uid in PLAIN and not W.classes(se) & {"Sum", "Prod", "Rat"}:
            return min(UNARY, self.top)
        return min(self.hole.level(self.tex), self.top)


def is_sum(l):
    if not isinstance(l, Level):
        return l == SUM
    h = l.hole
    if h._level is not None:
        return h._level == SUM
    cl = W.classes(h.se)
    if "Sum" in cl and len(cl) > 1:
        ENG.choose([(("sum", h.se.uid), TRUE, lambda: W.restrict(h.se, frozenset(["Sum"]))), (("no sum", h.se.uid), TRUE, lambda: W.restrict(h.se, cl - {"Sum"}))])
    return W.classes(h.se) == {"Sum"}


def full(l):
    return l.full() if isinstance(l, Level) else l


def rat_level(p, tex=False):
    if ENG.decide(isint(p), ("integer", repr(p))):
        return ATOM if ENG.decide(P(0).le(p), ("not negative", repr(p))) else UNARY
    return CHAIN


def interp_get(se, name):
    return W.to_se(CUR[0], W.get_field(CUR[0], se, name))


CUR = [None]


class Text(Virt):
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif p != "":
                self.parts.append(p)

    def binop(self, I, op, o, swapped):
        if op != "__add__":
            raise Unsupported("operator on a text")
        o = as_text(I, o)
        return Text(o.parts + self.parts) if swapped else Text(self.parts + o.parts)

    def size(self, I):
        n = P(sum(len(p) for p in self.parts if isinstance(p, str)))
        for p in self.parts:
            if not isinstance(p, str):
                a = A("g", "len", p.key)
                ENG.fact(isint(a))
                ENG.fact(P(1).le(a))
                n = n + a
        return interp.mknum(n, "int")

    def equals(self, I, o):
        raise Unsupported("comparison of texts")

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)


def as_text(I, v):
    if isinstance(v, Text):
        return v
    if isinstance(v, str):
        return Text([v])
    if isinstance(v, SE):
        return Text([printed(v, False)])
    if isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Fraction):
        return Text([str(v)])
    if isinstance(v, NV) and v.kind in ("int", "frac"):
        ENG.assumed.add("str() of an integer or a fraction is n or n/d in decimal digits (standard library)")
        return Text([Hole(level=rat_level(v.p), value=v.p, key=("number", repr(v.p)))])
    if isinstance(v, SymStr) and isinstance(v.key, tuple) and v.key[0] == "name":
        ENG.assumed.add("the name of a variable reads as that variable")
        return Text([Hole(level=ATOM, value=V(SE(v.key[1])), key=("name", v.key[1]))])
    raise Unsupported("the text of %r" % (v,))


def printed(se, tex):
    if se.uid in W.LIT and W.LIT[se.uid][0] in ("Rat", "Pi", "E"):
        c = W.LIT[se.uid][0]
        if c == "Rat" and V(se).const() is not None:
            q = V(se).const()
            if not tex or q.denominator == 1:
                return str(q)
    return Hole(se)


class Texts:
    """how the interpreter treats texts in these tasks"""
    def joined(self, I, n, env):
        out = Text([])
        for x in n.values:
            if isinstance(x, ast.Constant):
                out = Text(out.parts + [x.value])
            else:
                if x.format_spec is not None or x.conversion not in (-1, 114):
                    raise Unsupported("format")
                v = I.ev(x.value, env)
                out = Text(out.parts + as_text(I, v).parts)
        return out if any(not isinstance(p, str) for p in out.parts) else "".join(out.parts)

    def call(self, I, f, args, kw):
        if f is repr or f is str:
            if len(args) == 1 and not kw:
                v = args[0]
                if f is repr and isinstance(v, NV) and v.kind in ("float", "num"):
                    ENG.assumed.add("repr() of a float reads as that float, with a minus sign only if it is below 0 (standard library; not -0.0)")
                    return Text([Hole(level=ATOM if ENG.decide(P(0).le(v.p), ("not negative", repr(v.p))) else UNARY, value=v.p)])
                if not isinstance(v, str):
                    return as_text(I, v)
            return NotImplemented
        if f is map and len(args) == 2 and isinstance(args[1], (LObj, Seq)):
            return Mapped(lambda v: I.call(args[0], [v]), args[1])
        s = getattr(f, "__self__", None)
        if isinstance(s, str) and getattr(f, "__name__", "") == "join" and len(args) == 1:
            return join(I, s, args[0])
        return NotImplemented

    def comprehension(self, I, gens, env, elt):
        if len(gens) != 1 or gens[0].ifs:
            return NotImplemented
        src = I.ev(gens[0].iter, env)
        if not isinstance(src, (LObj, Seq)) or isinstance(src, LObj) and src.concrete() is not None:
            return NotImplemented

        def f(v):
            e = env.child()
            I.assign(gens[0].target, v, e)
            return I.ev(elt, e)
        return Mapped(f, src)


    def class_of(self, se):
        return ClassOf(se)


class ClassOf(Virt):
    """the class of an expression, or its name"""
    def __init__(self, se, name=False):
        self.se, self.name = se, name

    def attr(self, I, name):
        if name == "__name__":
            return ClassOf(self.se, True)

    def equals(self, I, o):
        cl = W.classes(self.se)
        if isinstance(o, ClassOf):
            raise Unsupported("comparison of classes")
        n = o if self.name else getattr(o, "__name__", None)
        if not isinstance(n, str):
            raise Unsupported("comparison of classes")
        if n not in cl:
            return FALSE
        if len(cl) == 1:
            return TRUE
        k = ENG.choose([(("is", self.se.uid, n), TRUE, lambda: W.restrict(self.se, frozenset([n]))), (("is not", self.se.uid, n), TRUE, lambda: W.restrict(self.se, cl - {n}))])
        return TRUE if k == 0 else FALSE


class Mapped(Virt):
    def __init__(self, f, src):
        self.f, self.src = f, src


class Seq(Virt):
    """the terms of a sum, in order, n >= 2 of them"""
    def __init__(self, se):
        self.se = se
        self.first = None

    def subscript(self, I, k):
        if k == 0:
            if self.first is None:
                self.first = term("first")
            return self.first
        raise Unsupported("index")


def term(tag):
    e = W.fresh(tag)
    ENG.fact(ok(e))
    return e


def join(I, sep, m):
    """the texts of the elements, joined: every element has to be readable between two separators"""
    if not isinstance(m, Mapped):
        raise Unsupported("join")
    op = {"*": "*", "\\cdot": "*", "+": "+"}.get(sep.strip())
    if op is None:
        raise Unsupported("separator")
    if ENG.choose([(("join", "an element"), TRUE, None), (("join", "all"), TRUE, None)]) == 0:
        e = term("term")
        t = as_text(I, m.f(e))
        p, l = read(t, I.tex)
        if op == "*":
            oblige("the text of a factor is not a sum", FALSE if is_sum(l) else TRUE)
        oblige("the value of the text of a term", p.eq(V(e)))
        raise PathEnd()
    if isinstance(m.src, Seq):
        if op != "+":
            raise Unsupported("product of the terms of a sum")
        return Text([Hole(level=SUM, value=V(m.src.se))])
    v = W.seg_measure("PROD" if op == "*" else "SUM", m.src.segs, lambda y: V(W.need_se(y)))
    return Text([Hole(level=CHAIN if op == "*" else SUM, value=v)])


# ------------------------------------------------------------------ the reader
class Unreadable(Exception):
    pass


FUNCS = {"arcsin": "asin", "arccos": "acos", "arctan": "atan", "sin": "sin", "cos": "cos", "tan": "tan", "sec": "sec", "csc": "csc", "cot": "cot", "asin": "asin", "acos": "acos", "atan": "atan",
         "abs": "Abs", "ln": "log"}


def valued(p):
    r = W.fresh("read")
    W.setdef(r, "v", p)
    return r


class Reader:
    def __init__(self, text, tex):
        self.t, self.tex = [], tex
        for p in text.parts:
            self.t += list(p) if isinstance(p, str) else [p]
        self.i = 0

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] == " ":
            self.i += 1

    def rest(self, n):
        r = self.t[self.i:self.i + n]
        return "".join(r) if all(isinstance(c, str) for c in r) else None

    def at(self, s):
        self.ws()
        return self.rest(len(s)) == s

    def eat(self, s):
        if self.at(s):
            self.i += len(s)
            return True
        return False

    def want(self, s):
        if not self.eat(s):
            raise Unreadable("%s expected" % s)

    def hole(self):
        self.ws()
        return self.i < len(self.t) and isinstance(self.t[self.i], Hole)

    def match(self, rx):
        self.ws()
        j = self.i
        while j < len(self.t) and isinstance(self.t[j], str):
            j += 1
        m = re.compile(rx).match("".join(self.t[self.i:j]))
        if m:
            self.i += m.end()
        return m

    def whole(self):
        r = self.sum()
        self.ws()
        if self.i != len(self.t):
            raise Unreadable("unexpected text")
        return r

    def sum(self):
        p, l = self.chain(True)
        while True:
            if self.eat("+"):
                q, _ = self.chain(True)
                p, l = p + q, SUM
            elif self.eat("-"):
                q, k = self.chain(True)
                if is_sum(k):
                    raise Unreadable("a sum is subtracted without brackets")
                p, l = p - q, SUM
            else:
                return p, l

    def times(self):
        return self.tex and self.eat("\\cdot") or not self.tex and self.eat("*")

    def chain(self, sums=False):
        p, l = self.unary()
        while True:
            if self.times():
                q, k = self.unary()
                if is_sum(l) or is_sum(k):
                    raise Unreadable("a sum is multiplied without brackets")
                p, l = p * q, CHAIN
            elif not self.tex and self.eat("/"):
                q, k = self.unary()
                if is_sum(l):
                    raise Unreadable("a sum is divided without brackets")
                if full(k) <= CHAIN:
                    raise Unreadable("%s is a divisor without brackets" % LEVEL[full(k)])
                p, l = p * inv(q), CHAIN
            else:
                return p, l

    def unary(self):
        if self.eat("-"):
            p, l = self.unary()
            if is_sum(l):
                raise Unreadable("a sum is negated without brackets")
            return -p, Level(l.hole, l.tex, min(l.top, UNARY)) if isinstance(l, Level) else min(l, UNARY)
        return self.pow()

    def pow(self):
        p, l, se = self.atom()
        if self.eat("^"):
            if full(l) <= POW:
                raise Unreadable("%s is raised to a power without brackets" % LEVEL[full(l)])
            if self.tex:
                x = self.arg()
            else:
                x, k = self.unary()
                if full(k) < UNARY:
                    raise Unreadable("%s is an exponent without brackets" % LEVEL[full(k)])
            return power(p, x), POW
        return p, l

    def arg(self):
        self.ws()
        if self.eat("{"):
            p, _ = self.sum()
            self.want("}")
            return p
        if self.hole():
            h = self.t[self.i]
            if not ENG.entails(A("g", "len", h.key).eq(1), timeout=2000):
                raise Unreadable("an argument of several characters needs braces")
            self.i += 1
            return h.value
        m = self.match(r"[0-9]")
        if m:
            return P(int(m.group()))
        raise Unreadable("an argument is missing")

    def inside(self, a, b):
        if self.eat(a):
            r, _ = self.sum()
            self.want(b)
            return r

    def bracketed(self):
        for a, b in (("\\left(", "\\right)"), ("(", ")")):
            r = self.inside(a, b)
            if r is not None:
                return r
        raise Unreadable("( expected")

    def func(self, n, base=None):
        r = valued(self.bracketed())
        c = FUNCS.get(n)
        if c is None:
            raise Unsupported("function " + n)
        if c == "log":
            return V(W.lit("log", inner=r, base=W.lit("E") if base is None else base)), ATOM, None
        return V(W.lit(c, inner=r)), ATOM, None

    def atom(self):
        if self.hole():
            h = self.t[self.i]
            self.i += 1
            return h.value, Level(h, self.tex), h.se
        m = self.match(r"\d+")
        if m:
            return P(int(m.group())), ATOM, None
        if self.at("(") or self.at("\\left("):
            return self.bracketed(), ATOM, None
        for a, b in (("\\left|", "\\right|"), ("|", "|")):
            r = self.inside(a, b)
            if r is not None:
                return V(W.lit("Abs", inner=valued(r))), ATOM, None
        if self.tex:
            r = self.inside("{", "}")
            if r is not None:
                return r, ATOM, None
            if self.eat("\\frac"):
                a = self.arg()
                return a * inv(self.arg()), ATOM, None
            if self.eat("\\sqrt"):
                return power(self.arg(), P(Fraction(1, 2))), ATOM, None
            if self.eat("\\pi"):
                return V(W.lit("Pi")), ATOM, None
            if self.eat("\\log_"):
                return self.func("ln", valued(self.arg()))
            if self.eat("\\text{"):
                m = self.match(r"[a-z]+")
                self.want("}")
                return self.func(m.group() if m else "")
            m = self.match(r"\\([a-z]+)")
            if m:
                return self.func(("a" if self.eat("^{-1}") else "") + m.group(1))
        if self.eat("log[base="):
            b, _ = self.sum()
            self.want("]")
            return self.func("ln", valued(b))
        m = self.match(r"[A-Za-z]+")
        if m:
            n = m.group()
            if n == "log" and self.hole():
                h = self.t[self.i]
                self.i += 1
                if h.level(self.tex) not in (ATOM, UNARY):
                    raise Unreadable("base of a logarithm")
                return self.func("ln", valued(h.value))
            if n == "sqrt":
                return power(self.bracketed(), P(Fraction(1, 2))), ATOM, None
            if n in ("pi", "e"):
                return V(W.lit("Pi" if n == "pi" else "E")), ATOM, None
            return self.func(n)
        raise Unreadable("an operand is missing")


def read(t, tex):
    r = Reader(t, tex)
    try:
        return r.whole()
    except Unreadable as ex:
        oblige("brackets: %s" % ex, FALSE)
        raise PathEnd()


# ------------------------------------------------------------------ tasks
def texts(I, tex):
    CUR[0] = I
    I.texts, I.tex = Texts(), tex

    def f(tex):
        m = interp.Meth(lambda I, se: Text([printed(se, tex)]), "latex" if tex else "__repr__")
        return lambda I, se: BoundM(m, se)
    W.VIRTUAL["__repr__"] = f(False)
    W.VIRTUAL["latex"] = f(True)
    W.VIRTUAL["has"] = lambda I, se: BoundM(interp.Meth(lambda I, se, *a: ENG.choose([(("has", se.uid), TRUE, None), (("has not", se.uid), TRUE, None)]) == 0, "has"), se)


def nd(I):
    def f(I, se):
        n, d = W.fresh("num"), W.fresh("den")
        for x in (n, d):
            ENG.fact(ok(x))
        ENG.fact(V(n).eq(V(se) * V(d)))
        ENG.fact(neg(V(d).eq(0)))
        ENG.used.add("Prod.numerator_denominator")
        ENG.assumed.add("a denominator is neither a fraction nor a power with a negative exponent (canonical form)")
        PLAIN.add(d.uid)
        ENG.fact((V(n) * inv(V(d))).eq(V(se)))
        return LObj([("v", n), ("v", d)], len(ENG.levels))
    W.VIRTUAL["numerator_denominator"] = f


PLAIN = set()       # expressions assumed not to be printed as a quotient


def fold(I, se):
    """ongoing text over the terms: read back as the sum of the terms so far"""
    def loop(I, s, env):
        src = I.ev(s.iter, env)
        enum = isinstance(src, W.EnumOf) and isinstance(src.of, Seq)
        if not (enum or isinstance(src, Seq)) or s.orelse or len(ENG.levels) != 1:
            raise Unsupported("the loop has changed")
        targets = {t.id for t in ast.walk(s.target) if isinstance(t, ast.Name)}
        accs = [n for n in interp.assigned_names(s.body) if n not in targets and n in env.vars and isinstance(env.vars[n], (str, Text))]
        if len(accs) != 1 or env.vars[accs[0]] != "":
            raise Unsupported("the loop has changed")
        acc, = accs
        k = ENG.choose([(("loop", "first"), TRUE, None), (("loop", "later"), TRUE, None), (("loop", "exit"), TRUE, None)])
        loops.poison(env, s.body, {acc})
        if k == 2:
            env.vars[acc] = Text([Hole(level=SUM, value=V(se))])
            for t in targets:
                env.vars[t] = Poison("after the loop")
            return
        before = P(0)
        e = (src.of if enum else src).subscript(I, 0) if k == 0 else term("term")
        i = num("i", "int").p
        if k == 0:
            i = P(0)
        else:
            before = A("g", "v", ENG.uid("before"))
            env.vars[acc] = Text([Hole(level=SUM, value=before)])
            ENG.fact(P(1).le(i))
        I.assign(s.target, (interp.mknum(i, "int"), e) if enum else e, env)
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        p, l = read(as_text(I, env.vars[acc]), I.tex)
        oblige("one more term", p.eq(before + V(e)))
        raise PathEnd()
    return loop


def minus(I, a):
    """- of a term that is printed with a minus sign"""
    r = W.fresh("minus")
    W.setdef(r, "v", -V(a))
    ENG.fact(ok(r))
    if W.classes(a) == {"Rat"}:
        W.restrict(r, RATS)
    elif ENG.entails(spec.sub_(a), timeout=3000):
        ENG.assumed.add("the opposite of a product that starts with a negative number is not a sum (canonical form)")
        W.restrict(r, W.classes(r) - {"Sum"})
    return r


def opposite_power(I, se):
    """Power(base, -exponent) of a power that stays one"""
    b, x = (W.to_se(I, W.get_field(I, se, n)) for n in ("base", "exponent"))

    @spec.cls_contract(I, X.Power)
    def power_c(I, args, kw):
        if len(args) != 2 or kw:
            raise Unsupported("power")
        p, q = W.to_se(I, args[0]), W.to_se(I, args[1])
        r = W.fresh("power")
        W.setdef(r, "v", power(V(p), V(q)))
        law_cong(V(p), V(q), V(b), -V(x))
        ENG.fact(ok(r))
        if p.uid == b.uid:
            ENG.assumed.add("b^n is neither a sum, a product, a quotient nor a fraction when b^-n is kept as a power (canonical form)")
            W.restrict(r, W.classes(r) - {"Sum", "Prod", "Rat"})
            PLAIN.add(r.uid)
        return r
    law_neg_exp(V(b), V(x))
    for h in (Fraction(1, 2), 1):
        law_cong(V(b), -V(x), V(b), P(h))
        law_cong(V(b), V(x), V(b), P(h))
        law_cong(V(b), V(x), V(b), P(-h))
    # 1/p p = 1
    for p in (power(V(b), -V(x)), power(V(b), P(Fraction(1, 2))), V(b)):
        ENG.fact(imp(neg(p.eq(0)), (p * inv(p)).eq(1)))


def finish(I, se, t, tex):
    p, l = read(as_text(I, t), tex)
    oblige("the text has the value of the expression", p.eq(V(se)))
    want = level_of(se, tex)
    if want == SUM:
        return
    l = full(l)
    oblige("the text is %s where callers rely on %s" % (LEVEL[l], LEVEL[want]), TRUE if l >= want else FALSE)


def t_print(cname, tex):
    meth = "latex" if tex else "__repr__"

    def fn(I):
        texts(I, tex)
        se = sym(cname)
        ENG.fact(ok(se))
        if cname == "Sum":
            ENG.ctx.attrs[(se.uid, "terms")] = Seq(se)
            I.loops[("expr.Sum." + meth, "for")] = fold(I, se)
            I.opposite = minus
        if cname == "Prod":
            nd(I)
        if cname == "Power":
            opposite_power(I, se)
            if tex:
                b = W.to_se(I, W.get_field(I, se, "base"))
                ENG.assumed.add("the base of a power is not a power (canonical form)")
                W.restrict(b, W.classes(b) - {"Power"})
        f = method(cname, meth)
        finish(I, se, call_real(I, f, [se]), tex)
    return fn


def law_neg_exp(b, x):
    """b^-x b^x = 1 where b^x is defined and b is not 0"""
    ENG.fact(imp(neg(b.eq(0)), (power(b, -x) * power(b, x)).eq(1)))


CLASSES = ["Sum", "Prod", "Power", "log", "Abs", "Rat", "Float", "Pi", "E", "Symbol"] + sorted(W.TRIG)
for m_ in ("__repr__", "latex"):
    tasks.DISCHARGES["virtual " + m_] = ["expr.%s.%s" % (c_, m_) for c_ in CLASSES]
for tex_ in (False, True):
    for c_ in CLASSES:
        Task("C17", "expr.%s.%s" % (c_, "latex" if tex_ else "__repr__"), t_print(c_, tex_), limit=120, paths=1500, ghosts=("v",))
