"""Python built-ins and standard library functions on symbolic values."""
import functools
import inspect
import itertools
import math
import operator
import types
import typing
import warnings
from fractions import Fraction
import z3
from load import E as X
from engine import *
from engine import ENG
from terms import *
from vals import *
import world as W
import interp
from interp import BUILTINS, STARCALLS, LISTM, DICTM, MISSING, is_num, nv, mknum, Star, Meth


def reg(*fs):
    def d(g):
        h = g
        if inspect.getsource(g).count("kw") == 1:
            # the model takes no keywords
            def h(I, a, kw):
                one(kw)
                return g(I, a, kw)
        for f in fs:
            BUILTINS[f] = h
        return g
    return d


def one(kw, *ok):
    for k in kw:
        if k not in ok:
            raise Unsupported("keyword " + k)


def mk(segs, kind="list"):
    return LObj(segs, len(ENG.levels), kind)


def conc(I, v):
    return I.known_items(v)


PYT = {"int": int, "frac": Fraction, "float": float}


def flat_types(I, t):
    if isinstance(t, tuple):
        return [y for x in t for y in flat_types(I, x)]
    if typing.get_origin(t) is typing.Union:
        return list(typing.get_args(t))
    if isinstance(t, type):
        return [t]
    o = typing.get_origin(t)
    if o is not None:
        return [o]
    raise Unsupported("isinstance with %r" % (t,))


@reg(isinstance)
def b_isinstance(I, a, kw):
    o, t = a
    ts = flat_types(I, t)
    if object in ts:
        return True
    if isinstance(o, SE):
        return W.isinstance_se(o, ts)
    if isinstance(o, NV):
        if o.kind == "num":
            if {Fraction, float} <= set(ts):
                return True
            if not any(x in ts for x in (int, Fraction, float)):
                return False
            k = ENG.ctx.notes.get(("numkind", o.p))
            if k is None:
                k = ["frac", "float"][ENG.choose([(("exact", o.p), TRUE, None), (("float", o.p), TRUE, None)])]
                ENG.ctx.notes[("numkind", o.p)] = k
            return issubclass(PYT[k], tuple(ts))
        return issubclass(PYT[o.kind], tuple(ts))
    if isinstance(o, BV):
        return issubclass(bool, tuple(ts))
    if isinstance(o, SymStr):
        return str in ts
    if isinstance(o, LObj):
        return (list if o.kind == "list" else tuple) in ts
    if isinstance(o, DObj):
        return dict in ts
    if isinstance(o, Obj):
        return issubclass(o.cls, tuple(ts))
    if isinstance(o, (Closure, BoundM)):
        return types.FunctionType in ts
    if isinstance(o, Poison):
        raise Unsupported("read of a loop variable")
    return isinstance(o, tuple(ts))


@reg(issubclass)
def b_issubclass(I, a, kw):
    return issubclass(a[0], tuple(flat_types(I, a[1])))


@reg(inspect.isclass)
def b_isclass(I, a, kw):
    return isinstance(a[0], type)


@reg(callable)
def b_callable(I, a, kw):
    return isinstance(a[0], (Closure, BoundM)) or (not isinstance(a[0], (SE, NV, BV, SymStr, LObj, DObj, Obj)) and callable(a[0]))


@reg(len)
def b_len(I, a, kw):
    v = a[0]
    if isinstance(v, W.Vec):
        return NV(v.length, "int")
    if isinstance(v, Virt) and not isinstance(v, W.SymList):
        return v.size(I)
    if isinstance(v, W.SymList):
        return NV(v.count(), "int")
    if isinstance(v, LObj):
        c = v.concrete()
        if c is not None:
            return len(c)
        W.touch(v)
        return mknum(W.length(v), "int")
    if isinstance(v, W.SetOf):
        return set_len(I, v)
    if isinstance(v, SE):
        return b_len(I, [I.getattr(v, "terms")], {})
    if isinstance(v, DObj):
        return len(v.d)
    if isinstance(v, SymStr):
        n = A("strlen", v.key if v.key is not None else ENG.uid("s"))
        ENG.fact(P(0).le(n))
        ENG.fact(isint(n))
        return NV(n, "int")
    if isinstance(v, Obj):
        return I.call(I.getattr(v, "__len__"), [])
    return len(v)


def set_len(I, v):
    raise Unsupported("size of a set")


def fold_sum(I, v, start=0):
    t = start
    for k, x in I.iterate(v):
        if k == "v":
            t = I.binop("__add__", t, x)
        else:
            # all numbers, or expressions
            kind = ["int"]
            se = [None]

            def f(y):
                if isinstance(y, SE):
                    se[0] = True
                    return W.V(y)
                if not is_num(y):
                    if isinstance(y, (BV, bool)):
                        raise Unsupported("sum of bools")
                    raise Unsupported("sum of something else than numbers")
                p, kd = nv(y)
                order = ["int", "frac", "num", "float"]
                kind[0] = max(kind[0], kd, key=order.index)
                return p
            p = W.piece_measure("SUM", x, f)
            if se[0]:
                raise Unsupported("sum() of expressions of unknown number")
            t = I.binop("__add__", t, NV(p, kind[0])) if not isinstance(mknum(p, kind[0]), NV) else I.binop("__add__", t, mknum(p, kind[0]))
    return t


@reg(sum)
def b_sum(I, a, kw):
    if isinstance(a[0], W.Vec):
        return NV(a[0].total, "int")
    return fold_sum(I, a[0], a[1] if len(a) > 1 else kw.get("start", 0))


@reg(any)
def b_any(I, a, kw):
    v = a[0]
    if isinstance(v, Virt):
        return v.quantified(I, "any")
    if isinstance(v, (tuple, list)):
        return any([I.truth(x) for x in v])
    return W.search(I, I.iterate(v), I.truth)


@reg(all)
def b_all(I, a, kw):
    if isinstance(a[0], Virt):
        return a[0].quantified(I, "all")
    return not W.search(I, I.iterate(a[0]), lambda x: not I.truth(x))


@reg(map)
def b_map(I, a, kw):
    if len(a) == 2:
        return map1(I, a[0], a[1])
    items = [conc(I, x) for x in a[1:]]
    return mk([("v", I.call(a[0], list(t))) for t in zip(*items)])


def map1(I, f, v):
    segs = []
    for k, x in I.iterate(v):
        if k == "v":
            segs.append(("v", I.call(f, [x])))
        else:
            segs.append(("p", W.map_piece(I, x, lambda el: mapel(I, f, el))))
    return mk(segs)


def mapel(I, f, el):
    out = []
    for k, y in el:
        if k == "v":
            out.append(("v", I.call(f, [y])))
        else:
            out += map1(I, f, mk([(k, y)])).segs
    return out


@reg(filter)
def b_filter(I, a, kw):
    f, v = a
    segs = []

    def keep(x):
        return I.truth(x if f is None else I.call(f, [x]))

    def go(el):
        out = []
        for k, y in el:
            if k == "v":
                if keep(y):
                    out.append((k, y))
            else:
                out.append(("p", W.map_piece(I, y, go)))
        return out
    for k, x in I.iterate(v):
        if k == "v":
            if keep(x):
                segs.append((k, x))
        else:
            segs.append(("p", W.map_piece(I, x, go)))
    return mk(segs)


def zip_apart(x, y):
    """two unrelated lists of expressions of the same (unknown) length: the element of the second one at the place of an
    element of the first one; sums and products over the second list are the sums and products over these"""
    for q in (x, y):
        if q.bag in ENG.ctx.parts or set(q.emits) != {q.bag} or len(q.emits[q.bag]) != 1 or not isinstance(q.emits[q.bag][0][1], SE) or q.emits[q.bag][0][1].uid != W.ELEM(q.bag):
            raise Unsupported("zip of unrelated lists")
    if not ENG.entails(W.count(x.bag).eq(W.count(y.bag))):
        raise Unsupported("zip of lists of different lengths")
    z = SE(("zip", y.bag, W.ELEM(x.bag)))
    if not ENG.ctx.notes.get(("zipped", x.bag, y.bag)):
        ENG.ctx.notes[("zipped", x.bag, y.bag)] = True
        ENG.ctx.leafdelta[x.bag] = W.delta_of(x.bag).plus(W.delta_of(y.bag).renamed(W.ELEM(y.bag), z.uid))
        for g in ("v", "s"):
            if g in ENG.inactive:
                continue
            for m in (segsum, segprod):
                ENG.fact(m(y.bag, W.ELEM(y.bag), A("g", g, W.ELEM(y.bag))).eq(m(x.bag, W.ELEM(x.bag), A("g", g, z.uid))))
        ENG.assumed.add("zip pairs the elements of two lists of the same length one to one")
    return Piece(x.bag, {x.bag: [("v", (x.emits[x.bag][0][1], z))]})


@reg(zip)
def b_zip(I, a, kw):
    if any(isinstance(x, W.Vec) for x in a):
        other = [x for x in a if isinstance(x, LObj)]
        if not other:
            raise Unsupported("zip of a vector of unknown length")
        W.touch(other[0])
        shape = W.open_split(I, list(other[0].segs))
        ls = [W.vec_align(x, shape) if isinstance(x, W.Vec) else list(I.iterate(x)) for x in a]
    else:
        ls = [list(I.iterate(x)) for x in a]
    if all(k == "v" for l in ls for k, _ in l):
        return mk([("v", tuple(x for _, x in t)) for t in zip(*ls)])
    # lists built over the same elements
    if len(set(map(len, ls))) != 1:
        raise Unsupported("zip of lists of unknown length")
    segs = []
    for t in zip(*ls):
        if all(k == "v" for k, _ in t):
            segs.append(("v", tuple(x for _, x in t)))
            continue
        if len(ls) == 2 and len(ls[0]) == 1 and all(k == "p" for k, _ in t) and t[0][1].bag != t[1][1].bag:
            return mk([("p", zip_apart(t[0][1], t[1][1]))])
        if not all(k == "p" for k, _ in t) or len({x.bag for _, x in t}) != 1:
            raise Unsupported("zip of unrelated lists of unknown length")
        bag = t[0][1].bag
        em = {}
        for L in W.leaves(bag):
            es = [W.emits_at(x, L) for _, x in t]
            if any(len(e) != 1 or e[0][0] != "v" for e in es):
                raise Unsupported("zip of filtered lists")
            em[L] = [("v", tuple(e[0][1] for e in es))]
        segs.append(("p", Piece(bag, em)))
    return mk(segs)


@reg(enumerate)
def b_enumerate(I, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    v = a[0]
    if isinstance(v, Virt) and not start:
        return W.EnumOf(v)
    if isinstance(v, SE):
        v = I.getattr(v, "terms")
    segs = list(I.iterate(v))
    if all(k == "v" for k, _ in segs):
        return mk([("v", (i + start, x)) for i, (_, x) in enumerate(segs)])
    if start:
        raise Unsupported("enumerate with a start")
    out = []
    for pos, (k, x) in enumerate(segs):
        if k == "v":
            out.append(("v", (pos if all(s[0] == "v" for s in segs[:pos]) else W.IdxV(segs, pos, None), x)))
            continue
        em = {}
        for L in W.leaves(x.bag):
            e = W.emits_at(x, L)
            if len(e) != 1 or e[0][0] != "v":
                raise Unsupported("enumerate of a filtered list")
            em[L] = [("v", (IdxOf(segs, pos, ELEM(L)), e[0][1]))]
        out.append(("p", Piece(x.bag, em)))
    return mk(out)


def IdxOf(segs, pos, key):
    return W.IdxV(segs, pos, key)


@reg(range)
def b_range(I, a, kw):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return W.Bounded(0, a[0])
    return W.Bounded(a[0], a[1])


@reg(list)
def b_list(I, a, kw):
    if not a:
        return mk([])
    v = a[0]
    if isinstance(v, W.SetOf):
        return W.SetOf(v.lst)
    if isinstance(v, Virt):
        return v.aslist(I)
    return mk(list(I.iterate(v)))


@reg(tuple)
def b_tuple(I, a, kw):
    if not a:
        return ()
    v = a[0]
    segs = list(I.iterate(v))
    if all(k == "v" for k, _ in segs):
        return tuple(x for _, x in segs)
    return mk(segs, "tuple")


@reg(set, frozenset)
def b_set(I, a, kw):
    if not a:
        return W.SetOf(mk([]))
    return W.SetOf(mk(list(I.iterate(a[0]))))


@reg(dict)
def b_dict(I, a, kw):
    d = {}
    if a:
        if isinstance(a[0], DObj):
            d.update(a[0].d)
        else:
            for p in conc(I, a[0]):
                k, v = conc(I, p)
                if isinstance(k, (SE, NV, SymStr)):
                    raise Unsupported("symbolic dictionary key")
                d[k] = v
    d.update(kw)
    return DObj(d, len(ENG.levels))


@reg(reversed)
def b_reversed(I, a, kw):
    v = a[0]
    if isinstance(v, W.Bounded):
        return W.Backwards(v)
    segs = list(I.iterate(v))
    out = []
    for k, x in reversed(segs):
        # the order inside an unknown part is not tracked: only measures of it matter
        out.append((k, x))
    if isinstance(v, W.Perm) or any(k == "p" for k, _ in out):
        return W.permuted(mk(out))
    return mk(out)


@reg(sorted)
def b_sorted(I, a, kw):
    """sorted() permutes its input: the elements are those of the list; the order is not modelled for symbolic elements"""
    v = a[0]
    if isinstance(v, Virt):
        return v.ordered(I)
    segs = list(I.iterate(v))
    if all(k == "v" and not isinstance(x, (SE, NV, SymStr, BV, LObj, Obj)) for k, x in segs) and not kw:
        return I.lift(sorted(x for _, x in segs))
    ENG.assumed.add("sorted() returns a permutation of its argument (standard library)")
    return W.permuted(mk(segs))


@reg(min)
def b_min(I, a, kw):
    return extreme(I, a, kw, "__lt__")


@reg(max)
def b_max(I, a, kw):
    return extreme(I, a, kw, "__gt__")


def extreme(I, a, kw, op):
    key = kw.get("key")
    if len(a) == 1:
        v = a[0]
        segs = list(I.iterate(v))
        if any(k == "p" for k, _ in segs):
            return extreme_bag(I, segs, kw, op)
        xs = [x for _, x in segs]
    else:
        xs = list(a)
    if not xs:
        if "default" in kw:
            return kw["default"]
        raise Raised(ValueError("empty"))
    best = xs[0]
    kb = I.call(key, [best]) if key else best
    for x in xs[1:]:
        kx = I.call(key, [x]) if key else x
        if I.truth(I.compare(op, kx, kb)):
            best, kb = x, kx
    return best


def extreme_bag(I, segs, kw, op):
    raise Unsupported("max/min over a list of unknown length")


@reg(abs)
def b_abs(I, a, kw):
    v = a[0]
    if isinstance(v, SE):
        f = W.group_attr(I, v, "__abs__")
        return I.call(f, [v])
    if isinstance(v, NV):
        if ENG.decide(P(0).le(v.p)):
            return mknum(v.p, v.kind)
        return mknum(-v.p, v.kind)
    return abs(v)


def rounded(v):
    """a machine float becomes an exact number: the rounding stays"""
    if isinstance(v, NV) and v.kind not in ("int", "frac"):
        ENG.ctx.notes["rounded"] = True


@reg(int)
def b_int(I, a, kw):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, NV):
        if v.kind == "int":
            return v
        rounded(v)
        if ENG.decide(isint(v.p)):
            return mknum(v.p, "int")
        if ENG.decide(P(0).le(v.p)):
            return mknum(W.floor(v.p), "int")
        return mknum(-W.floor(-v.p), "int")
    if isinstance(v, SE):
        raise Raised(TypeError("int of an expression"))
    return I.native(int, a, kw)


@reg(float)
def b_float(I, a, kw):
    v = a[0] if a else 0.0
    if isinstance(v, NV):
        ENG.assumed.add("floating-point numbers are treated as real numbers")
        return NV(v.p, "float", v.tag if v.kind == "float" else "rounded")
    if isinstance(v, SE):
        raise Raised(TypeError("float of an expression"))
    return I.native(float, a, kw)


@reg(Fraction)
def b_fraction(I, a, kw):
    a = list(a)
    if kw:
        raise Unsupported("Fraction keywords")
    for x in a:
        rounded(x)
    if len(a) == 2:
        if not isinstance(a[0], NV) and not isinstance(a[1], NV):
            return I.native(Fraction, a, kw)
        p, k1 = nv(a[0])
        q, k2 = nv(a[1])
        if "float" in (k1, k2):
            raise Raised(TypeError("float"))
        if ENG.decide(q.eq(0)):
            raise Raised(ZeroDivisionError())
        return mknum(p * inv(q), "frac")
    if isinstance(a[0], NV):
        return mknum(a[0].p, "frac")
    return I.native(Fraction, a, kw)


@reg(bool)
def b_bool(I, a, kw):
    return I.truth(a[0]) if a else False


@reg(str)
def b_str(I, a, kw):
    v = a[0] if a else ""
    if isinstance(v, NV):
        return SymStr(("str", v.p)) if v.kind in ("int", "frac") else SymStr(None)
    if isinstance(v, (int, Fraction, str, float)):
        return str(v)
    if isinstance(v, SymStr):
        return v
    if isinstance(v, SE):
        return SymStr(("repr", v.uid))
    return SymStr(None)


@reg(repr)
def b_repr(I, a, kw):
    v = a[0]
    if isinstance(v, SE):
        return SymStr(("repr", v.uid))
    if isinstance(v, (NV, LObj, Obj, BV, SymStr)):
        return SymStr(None)
    return I.native(repr, a, kw)


@reg(type)
def b_type(I, a, kw):
    return I.type_of(a[0])


@reg(hash)
def b_hash(I, a, kw):
    raise Unsupported("hash")


@reg(id)
def b_id(I, a, kw):
    raise Unsupported("id")


@reg(hasattr)
def b_hasattr(I, a, kw):
    if isinstance(a[0], NV):
        raise Unsupported("attributes of a number")
    return I.getattr(a[0], a[1], NOATTR) is not NOATTR


NOATTR = object()


@reg(getattr)
def b_getattr(I, a, kw):
    if len(a) == 3:
        return I.getattr(a[0], a[1], a[2])
    return I.getattr(a[0], a[1])


@reg(setattr)
def b_setattr(I, a, kw):
    I.setattr(a[0], a[1], a[2])


@reg(iter)
def b_iter(I, a, kw):
    return mk(list(I.iterate(a[0])))


@reg(next)
def b_next(I, a, kw):
    v = a[0]
    if isinstance(v, LObj):
        # only used on a generator that was made for this call
        if v.segs and v.segs[0][0] == "v":
            return v.segs[0][1]
        if not v.segs:
            if len(a) > 1:
                return a[1]
            raise Raised(StopIteration())
        hit = []
        for k, x in I.iterate(v):
            r = W.search(I, [(k, x)], lambda y: (hit.append(y), True)[1])
            if r:
                return W.last_found(hit[-1])
        if len(a) > 1:
            return a[1]
        raise Raised(StopIteration())
    raise Unsupported("next")


@reg(functools.reduce)
def b_reduce(I, a, kw):
    f, v = a[0], a[1]
    segs = list(I.iterate(v))
    if all(k == "v" for k, _ in segs):
        xs = [x for _, x in segs]
        if len(a) > 2:
            t = a[2]
        else:
            if not xs:
                raise Raised(TypeError("reduce"))
            t, xs = xs[0], xs[1:]
        for x in xs:
            t = I.call(f, [t, x])
        return t
    # a product of numbers: check that f multiplies (or adds) on unknown numbers
    n1, n2 = NV(A("g", "arg", ("red", 1)), "num"), NV(A("g", "arg", ("red", 2)), "num")
    r = I.call(f, [n1, n2])
    if not isinstance(r, NV):
        raise Unsupported("reduce")
    if r.p == n1.p * n2.p:
        kind, t = "PROD", ONE
    elif r.p == n1.p + n2.p:
        kind, t = "SUM", ZERO
    else:
        raise Unsupported("reduce")
    if len(a) > 2:
        p0, k0 = nv(a[2])
    else:
        if not I.truth_len(v) if isinstance(v, LObj) else False:
            raise Raised(TypeError("reduce"))
        p0, k0 = t, "int"
    kinds = [k0]

    def g(y):
        q, kd = nv(y)
        kinds.append(kd)
        return q
    m = W.seg_measure(kind, segs, g)
    order = ["int", "frac", "num", "float"]
    return mknum(p0 * m if kind == "PROD" else p0 + m, max(kinds, key=order.index))


@reg(functools.cmp_to_key)
def b_cmp(I, a, kw):
    return a[0]


@reg(itertools.product)
def b_iproduct(I, a, kw):
    one(kw, "repeat")
    ls = [conc(I, x) for x in a]
    return mk([("v", t) for t in itertools.product(*ls, **kw)])


@reg(itertools.combinations)
def b_comb(I, a, kw):
    return mk([("v", t) for t in itertools.combinations(conc(I, a[0]), a[1])])


@reg(itertools.permutations)
def b_perm(I, a, kw):
    return mk([("v", t) for t in itertools.permutations(conc(I, a[0]), *a[1:])])


@reg(itertools.chain)
def b_chain(I, a, kw):
    return mk([s for x in a for s in I.iterate(x)])


@reg(math.gcd)
def b_gcd(I, a, kw):
    if any(isinstance(x, NV) for x in a):
        raise Unsupported("gcd")
    return I.native(math.gcd, a, kw)


def mathfn(f, g, dom=None):
    @reg(f)
    def h(I, a, kw):
        v = a[0]
        if not isinstance(v, NV):
            if isinstance(v, (int, Fraction, float)):
                if len(a) == 1:
                    p, _ = nv(v)
                    return NV(g(p), "float") if g(p).const() is None else float(g(p).const())
            return I.native(f, a, kw)
        if len(a) > 1:
            raise Unsupported("math function with two arguments")
        if dom is not None and not ENG.decide(dom(v.p)):
            raise Raised(ValueError("math domain error"))
        ENG.assumed.add("math.%s computes the real function (floating-point rounding ignored)" % f.__name__)
        return mknum(g(v.p), "float")
    return h


mathfn(math.sin, fsin)
mathfn(math.cos, fcos)
def tan_domain(p):
    # no float is an odd multiple of pi/2
    f = neg(fcos(p).eq(0))
    if ENG.feasible(f):
        ENG.assumed.add("math.tan is not called at an exact odd multiple of pi/2 (no float is one)")
        ENG.fact(f)
    return TRUE


mathfn(math.tan, lambda p: fsin(p) * inv(fcos(p)), tan_domain)
mathfn(math.asin, lambda p: A("asin", p), lambda p: conj(P(-1).le(p), p.le(1)))
mathfn(math.acos, lambda p: A("acos", p), lambda p: conj(P(-1).le(p), p.le(1)))
mathfn(math.atan, lambda p: A("atan", p))
mathfn(math.exp, lambda p: power(EU, p))
mathfn(math.log, ln, lambda p: P(0).lt(p))
mathfn(math.sqrt, lambda p: power(p, P(Fraction(1, 2))), lambda p: P(0).le(p))


@reg(math.floor)
def b_floor(I, a, kw):
    if isinstance(a[0], NV):
        rounded(a[0])
        return mknum(W.floor(a[0].p), "int")
    return I.native(math.floor, a, kw)


@reg(math.factorial)
def b_fact(I, a, kw):
    v = a[0]
    if not isinstance(v, NV):
        return I.native(math.factorial, a, kw)
    if not ENG.decide(P(0).le(v.p)):
        raise Raised(ValueError())
    r = A("fact", v.p)
    ENG.fact(isint(r))
    ENG.fact(P(1).le(r))
    return NV(r, "int")


@reg(math.isinf, math.isnan)
def b_isinf(I, a, kw):
    return False if isinstance(a[0], NV) else I.native(math.isinf, a, kw)


@reg(warnings.warn, print)
def b_warn(I, a, kw):
    return None


@reg(typing.cast)
def b_cast(I, a, kw):
    return a[1]


@reg(object.__new__)
def b_objnew(I, a, kw):
    return I.alloc(a[0])


@reg(object.__init__)
def b_objinit(I, a, kw):
    return None


@reg(object.__getattribute__)
def b_ga(I, a, kw):
    return I.getattr(a[0], a[1])


import dataclasses  # noqa: E402


@reg(dataclasses.fields)
def b_fields(I, a, kw):
    c = I.type_of(a[0]) if not isinstance(a[0], type) else a[0]
    return tuple(dataclasses.fields(c))


# ------------------------------------------------------------------ list and dict methods
def lm(name):
    def d(f):
        LISTM[name] = Meth(f)
        return f
    return d


@lm("append")
def l_append(I, l, v):
    W.raw_append(l, ("v", v))


@lm("extend")
def l_extend(I, l, v):
    W.list_extend(I, l, v)


@lm("copy")
def l_copy(I, l):
    W.touch(l)
    return mk(list(l.segs), l.kind)


@lm("index")
def l_index(I, l, v):
    if isinstance(l, W.LObj) and l.concrete() is None:
        return W.list_index(I, l, v)
    segs = list(I.iterate(l))
    if any(k == "p" for k, _ in segs):
        return W.list_index(I, l, v)
    for i, (_, x) in enumerate(segs):
        if I.truth(I.fold(I.eq_values(x, v))):
            return i
    raise Raised(ValueError())


@lm("count")
def l_count(I, l, v):
    n = 0
    for k, x in I.iterate(l):
        if k == "p":
            raise Unsupported("count in a list of unknown length")
        n += bool(I.truth(I.fold(I.eq_values(x, v))))
    return n


def own_check(l):
    if l.own is not None:
        raise W.FrameViolation("the term list of an existing expression is changed")
    if l.level < len(ENG.levels):
        raise Unsupported("outer list changed in a loop")


@lm("pop")
def l_pop(I, l, i=-1):
    own_check(l)
    v = W.list_get(I, l, i)
    del l.segs[i]
    return v


@lm("insert")
def l_insert(I, l, i, v):
    own_check(l)
    if not isinstance(i, int) or i < 0 or any(k == "p" for k, _ in l.segs[:i]):
        raise Unsupported("insert")
    l.segs.insert(i, ("v", v))


@lm("remove")
def l_remove(I, l, v):
    own_check(l)
    i = l_index(I, l, v)
    del l.segs[i]


@lm("sort")
def l_sort(I, l, key=None, reverse=False):
    own_check(l)
    ENG.assumed.add("sorted() returns a permutation of its argument (standard library)")
    l.segs = W.permuted(l).segs


@lm("reverse")
def l_rev(I, l):
    own_check(l)
    l.segs = list(reversed(l.segs))


@lm("clear")
def l_clear(I, l):
    own_check(l)
    l.segs = []


def dm(name):
    def d(f):
        DICTM[name] = Meth(f)
        return f
    return d


@dm("get")
def d_get(I, d, k, default=None):
    r = W.dict_key(I, d, k)
    return default if r is MISSING else r


@dm("items")
def d_items(I, d):
    return mk([("v", (k, v)) for k, v in d.d.items()])


@dm("keys")
def d_keys(I, d):
    return mk([("v", k) for k in d.d])


@dm("values")
def d_values(I, d):
    return mk([("v", v) for v in d.d.values()])


@dm("copy")
def d_copy(I, d):
    return DObj(dict(d.d), len(ENG.levels))


@dm("update")
def d_update(I, d, o=None, **kw):
    if d.level < len(ENG.levels):
        raise Unsupported("dictionary written in a loop")
    if o is not None:
        d.d.update(o.d)
    d.d.update(kw)


@dm("pop")
def d_pop(I, d, k, *default):
    if d.level < len(ENG.levels) or isinstance(k, (SE, NV, SymStr)):
        raise Unsupported("dictionary written in a loop")
    if k in d.d:
        return d.d.pop(k)
    if default:
        return default[0]
    raise Raised(KeyError(k))


@dm("setdefault")
def d_setdefault(I, d, k, v=None):
    if d.level < len(ENG.levels) or isinstance(k, (SE, NV, SymStr)):
        raise Unsupported("dictionary written in a loop")
    return d.d.setdefault(k, v)
