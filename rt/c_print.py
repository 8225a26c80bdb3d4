"""C17 printing: the printed text (plain and LaTeX) is read back with the usual precedence and evaluated"""
import re
from fractions import Fraction
from core import *
from c_basic import gexpr, envs_for

NUM = re.compile(r"\d+(\.\d+)?(e[+-]?\d+)?")
NAME = re.compile(r"[A-Za-z_]\w*")
FUNCS = ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "sqrt", "ln", "abs", "arcsin", "arccos", "arctan")


class Reader:
    """sum := chain (('+'|'-') chain)* ;  chain := unary (('*'|'/') unary)* ;  unary := '-' unary | pow ;
    pow := atom ['^' unary]   (so ^ groups to the right and binds tighter than the minus sign on its left)"""

    def __init__(self, text, names, tex):
        self.t, self.i, self.names, self.tex = text, 0, names, tex

    def bad(self, why):
        raise Fail("the printed text %r is not readable: %s at position %d" % (self.t, why, self.i))

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] == " ":
            self.i += 1

    def at(self, s):
        self.ws()
        return self.t.startswith(s, self.i)

    def eat(self, s):
        if self.at(s):
            self.i += len(s)
            return True
        return False

    def want(self, s):
        if not self.eat(s):
            self.bad("expected %r" % s)

    def whole(self):
        r = self.sum()
        self.ws()
        if self.i != len(self.t):
            self.bad("unexpected text")
        return r

    def sum(self):
        r = self.chain()
        while True:
            if self.eat("+"):
                r = ("+", r, self.chain())
            elif self.eat("-"):
                r = ("-", r, self.chain())
            else:
                return r

    def chain(self):
        r = self.unary()
        while True:
            if self.tex and self.eat("\\cdot"):
                r = ("*", r, self.unary())
            elif not self.tex and self.eat("*"):
                r = ("*", r, self.unary())
            elif not self.tex and self.eat("/"):
                r = ("/", r, self.unary())
            else:
                return r

    def unary(self):
        if self.eat("-"):
            return ("neg", self.unary())
        return self.pow()

    def pow(self):
        b = self.atom()
        if self.eat("^"):
            return ("^", b, self.arg() if self.tex else self.unary())
        return b

    def arg(self):
        """a TeX argument: a group or one token"""
        self.ws()
        if self.eat("{"):
            r = self.sum()
            self.want("}")
            return r
        c = self.t[self.i:self.i + 1]
        if c.isdigit():
            self.i += 1
            return ("num", Fraction(int(c)))
        if c.isalpha():
            self.i += 1
            return self.name(c)
        self.bad("TeX argument")

    def bracketed(self):
        if self.eat("\\left("):
            r = self.sum()
            self.want("\\right)")
        else:
            self.want("(")
            r = self.sum()
            self.want(")")
        return r

    def name(self, n):
        if n in self.names:
            return ("sym", n)
        if n == "pi" or n == "e":
            return ("const", n)
        self.bad("unknown name %r" % n)

    def atom(self):
        self.ws()
        m = NUM.match(self.t, self.i)
        if m:
            self.i = m.end()
            s = m.group()
            return ("num", Fraction(int(s)) if s.isdigit() else float(s))
        if self.at("(") or self.tex and self.at("\\left("):
            return self.bracketed()
        for a, b in (("\\left|", "\\right|"), ("|", "|")):
            if self.eat(a):
                r = self.sum()
                self.want(b)
                return ("f", "abs", r)
        if self.tex:
            return self.texatom()
        if self.eat("log[base="):
            b = self.sum()
            self.want("]")
            return ("log", self.bracketed(), b)
        m = NAME.match(self.t, self.i)
        if not m:
            self.bad("operand expected")
        n = m.group()
        self.i = m.end()
        if n not in self.names:
            if re.fullmatch(r"log\d*", n):
                b = n[3:]
                if not b:
                    b = "-" if self.eat("-") else ""
                    m = NUM.match(self.t, self.i)
                    if not m:
                        self.bad("base of a logarithm")
                    self.i = m.end()
                    b += m.group()
                return ("log", self.bracketed(), ("num", Fraction(int(b))))
            if n in FUNCS:
                return ("f", n, self.bracketed())
        return self.name(n)

    def texatom(self):
        if self.eat("{"):
            r = self.sum()
            self.want("}")
            return r
        if self.eat("\\frac"):
            a = self.arg()
            return ("/", a, self.arg())
        if self.eat("\\sqrt"):
            return ("f", "sqrt", self.arg())
        if self.eat("\\pi"):
            return ("const", "pi")
        if self.eat("\\ln"):
            return ("f", "ln", self.bracketed())
        if self.eat("\\log_"):
            b = self.arg()
            return ("log", self.bracketed(), b)
        if self.eat("\\text{"):
            j = self.t.index("}", self.i)
            n = self.t[self.i:j]
            self.i = j + 1
            return ("f", n, self.bracketed())
        m = re.compile(r"\\([a-z]+)").match(self.t, self.i)
        if m and m.group(1) in FUNCS:
            self.i = m.end()
            inv = "a" if self.eat("^{-1}") else ""
            return ("f", inv + m.group(1), self.bracketed())
        m = NAME.match(self.t, self.i)
        if not m:
            self.bad("operand expected")
        self.i = m.end()
        return self.name(m.group())


def value(t, env, N):
    k = t[0]
    if k == "num":
        return t[1]
    if k == "sym":
        v = env.get(t[1])
        if v is None:
            raise O.Undef("unassigned")
        return v
    if k == "const":
        return N.pi if t[1] == "pi" else N.e
    a = value(t[1] if k != "f" else t[2], env, N)
    if k == "neg":
        return -a
    if k == "f":
        if t[1] == "abs":
            return abs(a)
        if t[1] == "sqrt":
            return O.pw(N, a, Fraction(1, 2))
        if t[1] == "ln":
            return O.logv(N, a, N.e)
        return O.trig(N, t[1].replace("arc", "a"), a)
    b = value(t[2], env, N)
    if k == "log":
        return O.logv(N, a, b)
    if k == "+":
        return O.add(N, a, b)
    if k == "-":
        return O.add(N, a, -b)
    if k == "*":
        return O.mul(N, a, b)
    if k == "/":
        return O.mul(N, a, O.recip(N, b))
    return O.pw(N, a, b)


def finite(e):
    """no infinity, and no integer that Python refuses to write (over 4300 digits)"""
    if isinstance(e, E.Float) and e.value == 0 and str(e.value)[0] == "-":
        return False            # minus zero
    if isinstance(e, E.Rat) and max(abs(e.value.numerator), e.value.denominator).bit_length() > 10000:
        return False
    if isinstance(e, (E.Infinity, E.NegInfinity, E.NaN)) or isinstance(e, E.Float) and (e.value != e.value or abs(e.value) == float("inf")):
        return False
    return all(finite(c) for c in e.children())


def gprint(rng):
    """expressions whose bracketing is delicate"""
    g = G.Gen(rng)
    x, y = E.Symbol("x"), E.Symbol("y")
    a = [g.try_expr(1) for _ in range(4)]
    neg = lambda v: -v
    for _ in range(20):
        try:
            k = rng.randrange(11)
            if k == 0:
                e = getattr(E, rng.choice(["sin", "log", "Abs", "sqrt", "tan"]))((a[0] + x) * (a[1] + y))
            elif k == 1:
                e = E.Power(a[0], E.Power(a[1], rng.choice([E.Rat(-1), E.Rat(-2), E.Rat(Fraction(-1, 2)), E.Rat(2), E.Rat(Fraction(1, 2))])))
            elif k == 2:
                e = E.Power(rng.choice([E.Float(-2.5), E.Float(2.5), E.Rat(-3), E.Rat(Fraction(2, 3)), E.Rat(Fraction(-2, 3)), E.pi, E.e]), a[0])
            elif k == 3:
                e = a[0] - (a[1] + a[2]) * rng.choice([a[3], E.Rat(2), E.Rat(-1)])
            elif k == 4:
                e = (a[0] + a[1]) / (a[2] * a[3])
            elif k == 5:
                e = E.log(a[0] * a[1], rng.choice([E.Rat(2), E.Rat(10), a[2], E.e, E.Rat(Fraction(1, 2))]))
            elif k == 6:
                e = E.Power(a[0] / a[1], a[2])
            elif k == 7:
                e = E.Abs(a[0]) * E.Abs(a[1] + E.Abs(a[2]))
            elif k == 8:
                e = a[0] * E.Float(rng.choice([-1.5, 2.5, -1e-7, 1e20])) / (a[1] + a[2])
            elif k == 9:
                e = E.Power(a[0] * a[1], rng.choice([E.Rat(-1), E.Rat(Fraction(-1, 2)), E.Float(-1.5), E.Rat(Fraction(3, 2)), -a[2]]))
            else:
                v = E.Symbol(rng.choice(["alpha", "u_1", "x1"]))
                e = (v * a[0] + a[1]) ** rng.choice([v, E.Rat(2), -v])
            if O.size(e) <= 60 and finite(e):
                return e
        except (ZeroDivisionError, ValueError, OverflowError, AttributeError, NotImplementedError, TypeError, KeyError, AssertionError):
            continue
    return g.try_expr(2)


def names_in(e):
    return {e.name} if isinstance(e, E.Symbol) else {n for c in e.children() for n in names_in(c)}


def check_text(e, tex, rng):
    try:
        text = e.latex() if tex else repr(e)
    except RecursionError:
        raise Fail("printing does not end")
    names = names_in(e)
    t = Reader(text, names, tex).whole()
    hits = 0
    envs = envs_for(rng, names)
    for env in envs:
        try:
            want = O.ev(e, env)
            got = value(t, env, O.FLOAT)
        except (O.Undef, OverflowError, ZeroDivisionError, ValueError):
            continue
        hits += 1
        mag = O.magnitude(e, env)
        if not O.close(want, got, scale=mag, tol=1e-6):
            try:
                mp = O.mp()
                want, got = O.ev(e, env, mp), value(t, env, mp)
                if abs(mp.f(want) - mp.f(got)) <= 1e-9 * max(1e-3, abs(mp.f(want)), abs(mp.f(got))):
                    continue
            except (O.Undef, OverflowError, ZeroDivisionError, ValueError):
                continue
            raise Fail("%s prints as %s, which reads as %s, not %s, at %s" % (G.srepr(e), text, show(got), show(want), showenv(env)))
    return hits


@contract("C17", "plain-text", ["Sum.__repr__", "Prod.__repr__", "Power.__repr__", "SingleFunc.__repr__", "log.__repr__", "Abs.__repr__", "Rat.__repr__", "_repr"], 3)
class _:
    def gen(rng):
        return [gprint(rng) if rng.random() < .5 else gexpr(rng)]

    def check(args, rng):
        if not finite(args[0]):
            raise Skip()
        return check_text(args[0], False, rng)


@contract("C17", "latex", ["Sum.latex", "Prod.latex", "Power.latex", "SingleFunc.latex", "log.latex", "Abs.latex", "Rat.latex", "latex.bracketfy", "latex.group"], 2)
class _:
    def gen(rng):
        return [gprint(rng) if rng.random() < .5 else gexpr(rng)]

    def check(args, rng):
        e, = args
        if not finite(e) or any(len(n) > 1 for n in names_in(e)) or "e-" in repr(e) or "e+" in repr(e):
            raise Skip()
        return check_text(e, True, rng)
