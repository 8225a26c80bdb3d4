"""Names drawn at random (C08: the new variable of a substitution; C11: the keys of wildcards).

What is proved: the name holds enough characters drawn independently from a large enough pool on every call.
What stays assumed: such a draw does not repeat a name already in use."""
import math
import random
import sys
import tasks
from tasks import *
from tasks import oblige
import load
from t_c17 import Texts, Text, Hole, ATOM
TM = load.simpy.transforms
UT = load.simpy.utils
BITS = 40       # a repeat among a million names has a chance below 1 in 2 (2^40 names); ten characters of 62 have 59 bits


class Draws(Virt):
    """k independent draws from a pool of characters"""
    def __init__(self, pool, k):
        self.pool, self.k = pool, k


class Drawn(Hole):
    """the text of these draws"""
    def __init__(self, d):
        Hole.__init__(self, level=ATOM)
        self.draws = d


class Name(Text):
    methods = {}

    def attr(self, I, name):
        if name == "split":
            return BoundM(interp.Meth(split), self)
        raise Unsupported("str.%s" % name)


def split(I, t, sep=None):
    if any(" " in p if isinstance(p, str) else " " in p.draws.pool for p in t.parts) or sep not in (None, " "):
        oblige("the name is one word", FALSE)
    return I.lift([t])


def pool_of(v):
    if isinstance(v, LObj):
        v = v.concrete()
    if isinstance(v, (str, list, tuple)) and all(isinstance(c, str) for c in v):
        return list(v)
    raise Unsupported("a pool of characters")


class Names(Texts):
    def joined(self, I, n, env):
        r = Texts.joined(self, I, n, env)
        return Name(r.parts) if isinstance(r, Text) else r

    def call(self, I, f, args, kw):
        s, n = getattr(f, "__self__", None), getattr(f, "__name__", "")
        if isinstance(s, random.Random) or f is random.SystemRandom or getattr(f, "__module__", "") == "secrets":
            if n == "choices" and len(args) == 1 and set(kw) <= {"k"}:
                return Draws(pool_of(args[0]), kw.get("k", 1))
            if n == "choice" and len(args) == 1:
                return Name([Drawn(Draws(pool_of(args[0]), 1))])
            raise Unsupported("random.%s" % n)
        if s == "" and n == "join" and len(args) == 1:
            v = args[0]
            if isinstance(v, Draws):
                return Name([Drawn(v)])
            if isinstance(v, LObj) and v.concrete() is not None:
                parts = []
                for x in v.concrete():
                    if not isinstance(x, (str, Text)):
                        raise Unsupported("join")
                    parts += [x] if isinstance(x, str) else x.parts
                return Name(parts)
            raise Unsupported("join")
        return NotImplemented


def bits(parts):
    """the draws of a name, in bits, and whether it says anything else that is not fixed"""
    b = 0
    for p in parts:
        if isinstance(p, str):
            continue
        if not isinstance(p, Drawn):
            raise Unsupported("a name of another form")
        k = p.draws.k
        if not isinstance(k, int):
            raise Unsupported("a symbolic number of draws")
        b += k * math.log2(max(1, len(set(p.draws.pool))))
    return b


def t_id(I):
    I.texts = Names()
    n = num("n", "int")
    ENG.fact(P(1).le(n.p))
    r = call_real(I, UT.random_id, [n])
    if not isinstance(r, Text):
        oblige("the name is drawn at random", FALSE)
        return
    ps = [p for p in r.parts if not isinstance(p, str)]
    total = P(0)
    small = 62
    for p in ps:
        if not isinstance(p, Drawn):
            raise Unsupported("a name of another form")
        total = total + interp.nv(p.draws.k)[0]
        small = min(small, len(set(p.draws.pool)))
    oblige("as many characters as asked for, each drawn at random", n.p.le(total))
    oblige("drawn from all letters and digits", TRUE if small >= 62 else FALSE)


ENG_ASSUME = "a name with at least %d random bits is not in use already" % BITS


def t_var(I):
    I.texts = Names()
    made = []

    def sym_(I, args, kw):
        made.append(kw.get("name", args[0] if args else None))
        return W.fresh("made", frozenset(["Symbol"]))
    cls_contract(I, X.Symbol)(sym_)
    call_real(I, TM.generate_intermediate_var, [])
    if len(made) != 1:
        raise Unsupported("not one symbol")
    if isinstance(made[0], str):
        oblige("the name is drawn at random", FALSE)
        return
    if not isinstance(made[0], Text):
        raise Unsupported("a name of another form")
    ENG.assumed.add("C08: " + ENG_ASSUME)
    oblige("the name has at least %d random bits" % BITS, TRUE if bits(made[0].parts) >= BITS else FALSE)


tasks.Task("C08", "utils.random_id", t_id)
tasks.Task("C11", "utils.random_id (keys of wildcards)", t_id)
tasks.Task("C08", "transforms.generate_intermediate_var", t_var)
D = tasks.DISCHARGES
D["transforms.generate_intermediate_var"] = ["transforms.generate_intermediate_var"]
D["utils.random_id"] = ["utils.random_id", "utils.random_id (keys of wildcards)"]
