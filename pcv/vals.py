"""Values of the symbolic interpreter."""
from fractions import Fraction
import z3
from terms import *


class SE:
    """an expression of the library (an object known only through the facts about it)"""
    __slots__ = ("uid",)

    def __init__(self, uid):
        self.uid = uid

    def __repr__(self):
        return "<%s>" % showuid(self.uid)

    def __bool__(self):
        raise Unsupported("truth of a symbolic expression inside the engine")

    def __eq__(self, o):
        return isinstance(o, SE) and o.uid == self.uid

    def __hash__(self):
        return hash(self.uid)


class NV:
    """a Python number; kind: int, frac, float, num (exact or float)"""
    __slots__ = ("p", "kind", "tag")

    def __init__(self, p, kind, tag=None):
        self.p = p
        self.kind = kind
        self.tag = tag

    def __repr__(self):
        return "%s:%r" % (self.kind, self.p)

    def __bool__(self):
        raise Unsupported("truth of a symbolic number inside the engine")


class BV:
    """a Python bool given by a formula"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        raise Unsupported("truth of a symbolic bool inside the engine")


class SymStr:
    """a string; key identifies it (None: nothing known)"""
    __slots__ = ("key",)

    def __init__(self, key=None):
        self.key = key

    def __bool__(self):
        raise Unsupported("truth of a symbolic string")


class Piece:
    """the elements of a bag, in order; for the generic element of leaf L the values emits[L] (a list)"""
    __slots__ = ("bag", "emits")

    def __init__(self, bag, emits):
        self.bag = bag
        self.emits = emits


class LObj:
    """a Python list (kind list / tuple): segments ('v', value) and ('p', Piece)"""
    __slots__ = ("segs", "level", "kind", "own")

    def __init__(self, segs, level=0, kind="list"):
        self.segs = segs
        self.level = level
        self.kind = kind
        self.own = None

    def concrete(self):
        if any(k == "p" for k, _ in self.segs):
            return None
        return [v for _, v in self.segs]


class DObj:
    """a Python dict with concrete keys"""
    def __init__(self, d, level=0):
        self._d = d
        self.level = level

    @property
    def d(self):
        from engine import ENG
        k = ("dict", id(self))
        for lv in ENG.levels[self.level:]:
            if k in lv.effects:
                raise Unsupported("a dictionary is read inside the loop that changes it")
            lv.touched.add(k)
        return self._d


class Obj:
    """an instance of a repository class that is not an expression"""
    def __init__(self, cls, level=0):
        self.cls = cls
        self.attrs = {}
        self.level = level


class BoundM:
    __slots__ = ("f", "self")

    def __init__(self, f, self_):
        self.f = f
        self.self = self_


class Closure:
    def __init__(self, node, env, interp, qual):
        self.node = node
        self.env = env
        self.qual = qual
        self.interp = interp
        self.defaults = []
        self.kwdefaults = {}


class SuperP:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Raised(Exception):
    def __init__(self, exc):
        self.exc = exc


class Virt:
    """a value of a loop contract: a list or dict known through the contract's invariant"""
    level = 0

    def subscript(self, I, k):
        raise Unsupported("subscript under a loop contract")

    def setitem(self, I, k, v):
        raise Unsupported("item assignment under a loop contract")

    def contains(self, I, v):
        raise Unsupported("membership under a loop contract")

    def attr(self, I, name):
        if name in getattr(self, "methods", {}):
            return BoundM(self.methods[name], self)

    def equals(self, I, o):
        raise Unsupported("comparison under a loop contract")

    def size(self, I):
        raise Unsupported("length under a loop contract")

    def binop(self, I, op, o, swapped):
        raise Unsupported("operator under a loop contract")

    def inplace(self, I, op, o):
        return self.binop(I, op, o, False)

    def items(self, I, n):
        """the elements, for unpacking into n names"""
        raise Unsupported("unpacking under a loop contract")

    def slice(self, I, lo, hi):
        raise Unsupported("slice under a loop contract")

    def delitem(self, I, k):
        raise Unsupported("deletion under a loop contract")

    def comp(self, I, n, env):
        raise Unsupported("comprehension under a loop contract")

    def quantified(self, I, what):
        raise Unsupported(what + "() under a loop contract")

    def aslist(self, I):
        raise Unsupported("list() under a loop contract")

    def ordered(self, I):
        raise Unsupported("sorted() under a loop contract")


class SymDict(Virt):
    """a dict of one entry under a key that is not known"""
    def __init__(self, key, value):
        self.key, self.value = key, value


class PathEnd(Exception):
    """the path ends here: an arbitrary iteration of a loop has re-established the invariant"""


class Unsupported(Exception):
    """the function leaves the fragment the engine understands: undecided, never counted as proved"""


class Poison:
    def __init__(self, why):
        self.why = why


def ren_value(v, a, b):
    if isinstance(v, SE):
        u = renkey(v.uid, a, b)
        return v if u == v.uid else SE(u)
    if hasattr(v, "renamed"):
        return v.renamed(a, b)
    if isinstance(v, NV):
        return NV(rename(v.p, a, b), v.kind, v.tag)
    if isinstance(v, BV):
        from engine import renz
        return BV(renz(v.f, a, b))
    if isinstance(v, SymStr):
        return SymStr(renkey(v.key, a, b) if v.key is not None else None)
    if isinstance(v, tuple):
        return tuple(ren_value(x, a, b) for x in v)
    if isinstance(v, LObj):
        r = LObj([(k, ren_value(x, a, b)) for k, x in v.segs], v.level, v.kind)
        r.own = v.own
        return r
    if isinstance(v, Piece):
        return Piece(renkey(v.bag, a, b), {renkey(l, a, b): [(k, ren_value(x, a, b)) for k, x in e] for l, e in v.emits.items()})
    if isinstance(v, DObj):
        return DObj({k: ren_value(x, a, b) for k, x in v._d.items()}, v.level)
    if isinstance(v, Obj):
        # an object made for the generic element
        at = {}
        changed = False
        for k, x in v.attrs.items():
            if isinstance(x, Obj) and not x.level > v.level - 1 or isinstance(x, LObj) and not x.segs:
                at[k] = x
                continue
            at[k] = ren_value(x, a, b)
            changed = changed or at[k] is not x
        if not changed:
            return v
        r = Obj(v.cls, v.level)
        r.attrs = at
        return r
    if isinstance(v, BoundM):
        return BoundM(v.f, ren_value(v.self, a, b))
    if isinstance(v, Obj):
        o = Obj(v.cls, v.level)
        o.attrs = {k: ren_value(x, a, b) for k, x in v.attrs.items()}
        return o
    if isinstance(v, Closure):
        c = Closure(v.node, {k: (ren_value(x, a, b) if not isinstance(x, (Closure,)) else x) for k, x in v.env.items()} if isinstance(v.env, dict) else v.env, v.interp, v.qual)
        c.defaults = v.defaults
        return c
    return v
