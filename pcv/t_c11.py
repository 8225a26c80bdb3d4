"""C11: matching an expression against a pattern with wildcards.

Every wildcard of key k stands for a fixed arbitrary real: the value of the node Any_(k).  A set of matches M has the hypothesis
H(M): each expression recorded for k has that value.  What the functions promise: success with matches M implies, under H(M),
that expression and pattern have the same value (times the factor, plus the rest).  Because the reals are arbitrary, this is the
statement that the pattern with the reported expressions put in has the value of the expression."""
import ast
from collections import defaultdict
import tasks
from tasks import *
from t_c07 import side
from t_c12 import Fn
from t_struct import ALLC
import loops
from loops import real
RX = load.simpy.regex
EQ = RX.Eq


def Task(*a, **k):
    k.setdefault("ghosts", ("v",))
    setup = k.pop("setup", None)

    def both(I):
        patterns(I)
        if setup:
            setup(I)
    return tasks.Task(*a, setup=both, **k)


def H(o):
    """the hypothesis of a set of matches"""
    return pred("matched", o.id)


def name_of(k):
    if isinstance(k, SymStr) and isinstance(k.key, tuple) and k.key[0] == "anykey":
        return SE(k.key[1])
    raise Unsupported("the key of a wildcard")


def text_of(k):
    if isinstance(k, SymStr) and isinstance(k.key, tuple) and k.key[0] == "repr":
        return SE(k.key[1])
    raise Unsupported("the text of a term")


LEAF = frozenset(["Rat", "Float", "Pi", "E", "Infinity", "NegInfinity", "NaN", "Symbol"])


class Opaque(Virt):
    """what a quantifier over elements known only by a loop contract yields: one answer or the other"""
    def __init__(self, on=None):
        self.on = on

    def quantified(self, I, what):
        r = ENG.choose([((what, ENG.uid("q")), TRUE, None), (("not " + what, ENG.uid("q")), TRUE, None)]) == 0
        if r and what == "all" and self.on:
            self.on()
        return r


class Gen(Virt):
    """elements given by an arbitrary one; then: what follows when all() of a property of the arbitrary one holds;
    entries: the dictionary made of an arbitrary (key, value)"""
    def __init__(self, generic, then=None, entries=None, rows=None):
        self.make, self.then, self.entries, self.rows = generic, then, entries, rows

    def comp(self, I, n, env):
        g = n.generators[0]

        def one():
            e = env.child()
            v = self.make()
            I.assign(g.target, v, e)
            return e, v, all(I.truth(I.ev(c, e)) for c in g.ifs)
        if type(n).__name__ == "DictComp":
            if g.ifs or self.entries is None:
                raise Unsupported("dictionary over the matches")
            e, v, _ = one()
            return self.entries(I, v, I.ev(n.key, e), I.ev(n.value, e))
        if self.then and not g.ifs:
            e, v, _ = one()
            f = I.form(I.ev(n.elt, e))
            return Opaque(lambda: self.then(v, f))

        def run():
            e, v, keep = one()
            if keep:
                I.ev(n.elt, e)
        side(I, run)
        return Opaque()

    def ordered(self, I):
        return self


class Bucket(Virt):
    """the list of what is recorded for one wildcard"""
    def __init__(self, own, k):
        self.own, self.k = own, k

    def attr(self, I, name):
        if name == "append":
            return BoundM(interp.Meth(lambda I, me, x: me.own.record(I, me.k, W.to_se(I, x))), self)
        if name == "extend":
            return BoundM(interp.Meth(lambda I, me, o: me.own.take(I, me.k, o)), self)

    def size(self, I):
        p = A("g", "len", ("recorded", self.own.id, self.k.uid))
        ENG.fact(isint(p))
        ENG.fact(P(0).le(p))
        return NV(p, "int")

    def binop(self, I, op, o, swapped):
        if op != "__add__" or not isinstance(o, (Bucket, Both)):
            raise Unsupported("operator on a list of matches")
        parts = o.parts if isinstance(o, Both) else [o]
        return Both(parts + [self] if swapped else [self] + parts)

    def head(self):
        return SE(("head", self.own.id, self.k.uid))

    def any_one(self):
        return SE(("recorded", self.own.id, self.k.uid))

    def subscript(self, I, k):
        if k == 0:
            return self.head()
        raise Unsupported("another recorded expression")


class Both(Virt):
    """lists of matches, one after the other"""
    def __init__(self, parts):
        self.parts = parts

    def binop(self, I, op, o, swapped):
        if op != "__add__" or not isinstance(o, (Bucket, Both)):
            raise Unsupported("operator on a list of matches")
        parts = o.parts if isinstance(o, Both) else [o]
        return Both(parts + self.parts if swapped else self.parts + parts)


class Records(Virt):
    """matches in progress: nothing recorded is ever taken back, so what is recorded is a hypothesis from then on"""
    def __init__(self, tag="records"):
        self.id = ENG.uid(tag)
        self.last = []      # what has been recorded, in order
        self.known = {}     # wildcards known to have (not to have) a list
        self.stored = None  # while the lists are replaced by their only element: what was stored for which wildcard

    def subscript(self, I, k):
        self.known[name_of(k).uid] = True
        return Bucket(self, name_of(k))

    def contains(self, I, k):
        u = name_of(k).uid
        if u not in self.known:
            self.known[u] = ENG.choose([(("recorded", u, ENG.uid("in")), TRUE, None), (("not recorded", u, ENG.uid("in")), TRUE, None)]) == 0
        return self.known[u]

    def setitem(self, I, k, v):
        k = name_of(k)
        if self.stored is not None:
            self.stored.append((k, W.need_se(v)))
            return
        if isinstance(v, Both):
            mine = [b for b in v.parts if b.own is self and b.k.uid == k.uid]
            if mine:
                for b in v.parts:
                    if b not in mine:
                        self.take(I, k, b)
                return
        if not isinstance(v, Bucket):
            raise Unsupported("what is recorded is replaced")
        if v.own is self and v.k.uid == k.uid:
            return
        if self.known.get(k.uid) is not False:
            oblige("what is recorded stays", FALSE)
        self.known[k.uid] = True
        self.take(I, k, v)

    def record(self, I, k, x):
        ENG.fact(V(k).eq(V(x)))
        self.last.append((k, x))

    def take(self, I, k, o):
        if not isinstance(o, Bucket):
            raise Unsupported("list of matches")
        self.last.append((k, o))

    def join(self, I, m):
        if not isinstance(m, (Matches, Records)):
            raise Unsupported("matches")
        ENG.fact(H(m))
        self.last.append(m)

    def entry(self):
        w = wildcard("key", self)
        return (SymStr(("anykey", w.uid)), Bucket(self, w))

    def close(self, I, v, k, x):
        """one recorded expression for each wildcard: the others are hypotheses all the same"""
        if name_of(k).uid != v[1].k.uid:
            oblige("the matches of a wildcard are reported under its own name", FALSE)
        x = W.need_se(x)
        m = Matches()
        m.closes = self
        m.goal = V(v[1].any_one()).eq(V(x))
        return m

    def attr(self, I, name):
        def same(v, f):
            ENG.fact(f)
        if name == "items":
            return BoundM(interp.Meth(lambda I, me: Gen(me.entry, None, me.close)), self)
        if name == "values":
            return BoundM(interp.Meth(lambda I, me: Gen(lambda: Bucket(me, wildcard("key", me)), same)), self)
        if name == "keys":
            return BoundM(interp.Meth(lambda I, me: Keys(me)), self)


def wildcard(tag, own=None):
    """an arbitrary wildcard (for the entries of one table always the same one)"""
    w = SE((tag, own.id)) if own is not None else SE(ENG.uid(tag))
    ENG.ctx.classes[w.uid] = frozenset(["Any_"])
    return w


class Keys(Virt):
    def __init__(self, of):
        self.of = of


class Matches(Virt):
    """reported matches: one expression for each wildcard"""
    closes = goal = None

    def closed(self):
        if self.goal is not None:
            oblige("everything recorded for a wildcard has the value reported", self.goal)

    def __init__(self, tag="matches"):
        self.id = ENG.uid(tag)
        self.gone = []

    def value(self, k):
        return SE(("reported", self.id, k.uid))

    def subscript(self, I, k):
        k = name_of(k)
        if any(g.uid == k.uid for g in self.gone):
            raise Raised(KeyError())
        ENG.fact(imp(H(self), V(self.value(k)).eq(V(k))))
        ENG.fact(ok(self.value(k)))
        return self.value(k)

    def entry(self):
        w = wildcard("key", self)
        return (SymStr(("anykey", w.uid)), self.value(w))

    def delitem(self, I, k):
        self.gone.append(name_of(k))

    def size(self, I):
        p = A("g", "size", self.id + (len(self.gone),))
        ENG.fact(P(0).le(p))
        ENG.fact(isint(p))
        return NV(p, "int")

    def attr(self, I, name):
        if name == "values":
            return BoundM(interp.Meth(lambda I, me: Vals(me)), self)
        if name == "items":
            return BoundM(interp.Meth(lambda I, me: Gen(me.entry)), self)
        if name == "keys":
            return BoundM(interp.Meth(lambda I, me: Keys(me)), self)


class Vals(Virt):
    def __init__(self, of):
        self.of = of

    def aslist(self, I):
        return OnlyValue(self.of)


class OnlyValue(Virt):
    """list(matches.values())"""
    def __init__(self, of):
        self.of = of

    def subscript(self, I, k):
        if k != 0:
            raise Unsupported("another match")
        oblige("a single match is reported only when there is one", self.of.size(I).p.eq(1))
        se = SE(("single", self.of.id, len(self.of.gone)))
        ENG.ctx.notes[("single", se.uid)] = self.of
        return se


# ------------------------------------------------------------------ contracts
class Anys(Virt):
    """the wildcards of an expression"""
    def __init__(self, se):
        self.se = se

    def size(self, I):
        p = A("g", "nwildcards", self.se.uid)
        ENG.fact(P(0).le(p))
        ENG.fact(isint(p))
        return NV(p, "int")

    def subscript(self, I, k):
        if k != 0:
            raise Unsupported("another wildcard")
        a = SE(("any0", self.se.uid))
        ENG.ctx.classes[a.uid] = frozenset(["Any_"])
        return a

    def equals(self, I, o):
        if isinstance(o, LObj) and not o.segs:
            return self.size(I).p.eq(0)
        raise Unsupported("comparison of lists of wildcards")


def patterns(I):
    W.DEFAULT = W.FINITE | {"Any_"}
    I.virt_comps = True
    W.VIRTUAL["key"] = lambda I, se: SymStr(("anykey", se.uid)) if W.isinstance_se(se, (RX.Any_,)) else NotImplemented

    def has(I, se, cls):
        if cls is not RX.Any_ or se.uid in W.LIT:
            return old_has(I, se, cls)
        cl = classes(se)
        if cl <= {"Any_"}:
            return True
        if cl <= LEAF:
            return False
        f = pred("has", "Any_", se.uid)
        i = ENG.choose([(("wildcards", se.uid), f, lambda: W.restrict(se, W.EVERY - LEAF)),
                        (("no wildcards", se.uid), neg(f), lambda: W.restrict(se, W.EVERY - {"Any_"}))])
        return i == 0
    hm = W.VIRTUAL["has"](I, None).f.f
    old_has = hm
    m = interp.Meth(has, "has")
    W.VIRTUAL["has"] = lambda I, se: BoundM(m, se)

    @fn_contract(I, RX.get_anys)
    def ga(I, args, kw):
        return Anys(args[0])

    @cls_contract(I, defaultdict, "collections.defaultdict")
    def dd(I, args, kw):
        if args and args[0] is list:
            return Records()
        if args and args[0] is dict:
            return Rows()
        return DObj({}, len(ENG.levels))

    @fn_contract(I, RX._matches_eq)
    def me(I, args, kw):
        return ENG.choose([(("agree", ENG.uid("m")), TRUE, None), (("disagree", ENG.uid("m")), TRUE, None)]) == 0

    @fn_contract(I, RX.all_same)
    def same(I, args, kw):
        b = args[0]
        if not isinstance(b, Bucket):
            raise Unsupported("list of matches")
        f = pred("same", b.own.id, b.k.uid)
        ENG.fact(imp(f, V(b.any_one()).eq(V(b.head()))))
        return I.fold(f)

    def join(I, args, kw):
        if not isinstance(args[0], Records):
            raise Unsupported("matches in progress")
        args[0].join(I, args[1])
    fn_contract(I, RX.join_dicts)(join)
    fn_contract(I, RX.join_dicts2)(join)

    @cls_contract(I, EQ, "regex.Eq")
    def eqobj(I, args, kw):
        names = ["expr", "query", "up_to_factor", "decompose_singles", "up_to_sum", "_is_divide"]
        a = dict(zip(names, args))
        a.update(kw)
        return Fn(lambda I: matched(I, a)).make()

    @fn_contract(I, EQ._eq)
    def rec(I, args, kw):
        e, q = args[1], args[2]
        if ENG.choose([(("equal", ENG.uid("eq")), TRUE, None), (("not equal", ENG.uid("eq")), TRUE, None)]) == 1:
            return False
        agree(I, e, q)
        me = args[0]
        if isinstance(me, Obj) and me.attrs.get("_matches") is not None:
            me.attrs["_matches"].last.append("nested")
        return True

    @fn_contract(I, RX.divide_anys)
    def div(I, args, kw):
        m = Matches("quotient matches")
        m.lists = True
        r = W.fresh("quotient")
        ENG.fact(imp(H(m), V(args[0]).eq(V(r) * V(args[1]))))
        return (r, m)


def agree(I, e, q, fact=None):
    """e and q have the same value"""
    fact = fact or ENG.fact
    if isinstance(e, SE) and isinstance(q, SE):
        fact(V(e).eq(V(q)))
    elif isinstance(e, LObj) and isinstance(q, LObj):
        for kind in ("SUM", "PROD"):
            fact(measure(kind, e).eq(measure(kind, q)))
    elif is_num(e) and is_num(q):
        fact(nv(e)[0].eq(nv(q)[0]))
    elif isinstance(e, SymStr) and isinstance(q, SymStr):
        if not all(isinstance(x.key, tuple) and x.key[0] == "name" for x in (e, q)):
            raise Unsupported("strings")
        fact(V(SE(e.key[1])).eq(V(SE(q.key[1]))))
    elif isinstance(e, (LObj, SE)) or isinstance(q, (LObj, SE)):
        fact(FALSE)
    else:
        raise Unsupported("fields of %s and %s" % (type(e).__name__, type(q).__name__))


def measure(kind, l):
    W.touch(l)
    return W.seg_measure(kind, l.segs, lambda y: V(W.need_se(y)))


def matched(I, a):
    """the contract of Eq(expr, query, ...)()"""
    e, q = a["expr"], a["query"]
    if I.truth(a.get("up_to_factor", False)) or I.truth(a.get("up_to_sum", False)) or I.truth(a.get("decompose_singles", True)):
        raise Unsupported("a nested match of another kind")
    if ENG.choose([(("match", ENG.uid("eq")), TRUE, None), (("no match", ENG.uid("eq")), TRUE, None)]) == 1:
        return DObj({"success": False}, len(ENG.levels))
    m = Matches()
    ENG.fact(imp(H(m), V(e).eq(V(q))))
    return DObj({"success": True, "matches": m}, len(ENG.levels))


# ------------------------------------------------------------------ Eq._eq
def new_eq(**attrs):
    o = Obj(EQ, len(ENG.levels))
    o.attrs.update(attrs)
    return o


def flag(name):
    return ENG.choose([((name, True), TRUE, None), ((name, False), TRUE, None)]) == 0


def t_eq(cname):
    def fn(I):
        e = sym(cname, "e")
        ENG.fact(ok(e))
        q = sym(None, "q")
        ENG.fact(ok(q))
        rec = Records()
        o = new_eq(_matches=rec, _is_divide=flag("inside a division"))
        r = call_real(I, EQ._eq, [o, e, q])
        if isinstance(r, BV) or not isinstance(r, bool):
            r = I.truth(r)
        if not r:
            return
        goal = V(e).eq(V(q))
        for x in rec.last:
            if isinstance(x, tuple) and x[0].uid[0] == "any0":
                # KF4: the factor of a pattern with a coefficient of its own
                w, y = x
                goal = disj(goal, conj(pred("substr", "factor", ("anykey", w.uid)), V(q).eq(V(y) * V(w) * V(e))))
                ENG.assumed.add("KF4: matching up to a factor, a pattern with an explicit coefficient c gets the factor c instead of 1/c")
        oblige("expression and pattern have the same value", goal)
    Task("C11", "regex.Eq._eq (%s)" % cname, fn)


for c_ in ALLC:
    t_eq(c_)


def t_eq_list(I):
    d1 = sym("Sum", "e")
    d2 = sym("Prod", "q") if flag("terms of another kind") else sym("Sum", "q")
    l1, l2 = W.terms_of(d1, "Sum"), W.terms_of(d2, next(iter(classes(d2))))
    o = new_eq(_matches=Records(), _is_divide=flag("inside a division"))
    inner = I.contracts[EQ._eq]
    r = call_real(I, EQ._eq, [o, l1, l2])
    if I.truth(r):
        agree(I, l1, l2, lambda f: oblige("the lists agree term by term", f))


Task("C11", "regex.Eq._eq (lists)", t_eq_list)


def t_eq_mixed(I):
    """a list and an expression never agree"""
    e, l = sym(None, "e"), W.terms_of(sym("Sum", "q"), "Sum")
    o = new_eq(_matches=Records(), _is_divide=False)
    a = [l, e] if flag("list first") else [e, l]
    r = call_real(I, EQ._eq, [o] + a)
    oblige("a list and an expression never agree", z3.BoolVal(I.truth(r) is False))


Task("C11", "regex.Eq._eq (a list and an expression)", t_eq_mixed)


# ------------------------------------------------------------------ Eq(...)()
CQ = "regex.Eq.__call__"
SQ = CQ + ".<locals>._is_sum_eq"


def flags(s, env):
    """the variables of the loop that hold a bool: iterations that go on to the next leave them as they are"""
    keep = {n: env.vars[n] for n in interp.assigned_names(s.body) if isinstance(env.vars.get(n), bool)}
    loops.poison(env, s.body, set(keep))
    return keep


def iteration(I, s, env, keep):
    """an arbitrary iteration: does it leave the loop?"""
    try:
        I.block(s.body, env)
    except interp.Cont:
        pass
    except interp.Brk:
        return True
    if any(env.vars.get(n) is not v for n, v in keep.items()):
        raise Unsupported("a flag is carried around the loop")
    return False


def close_loop(I, rec):
    """the loop that replaces what is recorded for each wildcard by one expression: an arbitrary wildcard"""
    def h(I, s, env):
        src = I.ev(s.iter, env)
        if not isinstance(src, Gen) or src.entries is None:
            return NotImplemented
        own = src.entries.__self__
        i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        keep = flags(s, env)
        if i == 1:
            for o in env_objects(env):
                if o.attrs.get("_matches") is own:
                    m = Matches()
                    m.closes = own
                    o.attrs["_matches"] = m
            return
        v = own.entry()
        own.stored = []
        I.assign(s.target, v, env)
        if iteration(I, s, env, keep):
            return
        if len(own.stored) != 1:
            oblige("one expression for each wildcard", FALSE)
        else:
            own.close(I, v, SymStr(("anykey", own.stored[0][0].uid)), own.stored[0][1]).closed()
        raise PathEnd()
    I.loops[(CQ, "for")] = h


def env_objects(env):
    e, out = env, []
    while e is not None:
        out += [v for v in e.vars.values() if isinstance(v, Obj)]
        e = e.parent
    return out


def answer(I, r, e, q, factor=None, rest=False, single=True):
    """the reported match is one: under the hypothesis that each wildcard has the value reported for it"""
    if not isinstance(r, DObj):
        raise Unsupported("answer")
    if "success" in r.d and r.d["success"] is False:
        tasks.REC_PATH.append(("no match reported", "proved", "", None))
        return
    if not ("success" in r.d and r.d["success"] is True):
        oblige("success or not", FALSE)
        return
    m = r.d["matches"]
    if isinstance(m, SE):
        m = ENG.ctx.notes[("single", m.uid)]
        if not single:
            oblige("all matches are reported", FALSE)
    if not isinstance(m, Matches) or m.closes is None:
        oblige("the matches are those found", FALSE)
        return
    want = V(q)
    if factor is not None:
        f = r.d["factor"]
        if [g.uid for g in m.gone] != [factor.uid]:
            oblige("only the wildcard of the factor is left out", FALSE)
        want = want * V(f)
        oblige("the factor is defined", ok(f))
    elif m.gone:
        oblige("no wildcard is left out", FALSE)
    if rest:
        want = want + V(r.d["rest"])
        oblige("the rest is defined", ok(r.d["rest"]))
    oblige("the expression has the value of the pattern", imp(H(m), V(e).eq(want)))


def new_query(up, e, q):
    """what the constructor makes of the pattern: a factor of its own when matching up to a factor"""
    if not up:
        return q, None
    w = SE(("factor",))
    ENG.ctx.classes[w.uid] = frozenset(["Any_"])
    g = W.fresh("query")
    ENG.fact(ok(g))
    ENG.fact(V(g).eq(V(w) * V(q)))
    return g, w


def t_call(I):
    e, q = sym(None, "e"), sym(None, "q")
    ENG.fact(ok(e))
    ENG.fact(ok(q))
    up, single = flag("up to a factor"), flag("single matches")
    g, w = new_query(up, e, q)
    rec = Records()
    o = new_eq(_expr=e, _query=g, _up_to_factor=up, _decompose_singles=single, _is_divide=flag("inside a division"), _up_to_sum=False,
               _matches=rec, _result=DObj({}, len(ENG.levels)))
    if up:
        o.attrs["_any_factor"] = w
    close_loop(I, rec)
    r = call_real(I, EQ.__call__, [o])
    answer(I, r, e, q, w, single=single)


Task("C11", CQ, t_call)


class Texts(Virt):
    """the terms of a sum used so far, by their text; total: their sum"""
    def __init__(self, e):
        self.e = e
        self.total = real("accounted")
        self.known = {}
        self.used = []

    def contains(self, I, k):
        t = text_of(k)
        f = pred("accounted", self.e.uid, t.uid)
        if len(ENG.levels) > 1:
            return ENG.decide(f)
        if t.uid not in self.known:
            self.known[t.uid] = ENG.decide(f)
        return self.known[t.uid]

    def attr(self, I, name):
        if name == "append":
            return BoundM(interp.Meth(Texts.add), self)

    def add(I, me, k):
        t = text_of(k)
        if me.known.get(t.uid) is not False:
            oblige("each term is used once", FALSE)
        if not ENG.ctx.notes.get(("term of", me.e.uid, t.uid)):
            oblige("a term of the sum is used", FALSE)
        me.known[t.uid] = True
        me.total = me.total + V(t)


class Row(Virt):
    """the terms of the sum that one term of the pattern matches, by their text, each with its matches"""
    def __init__(self, own, t):
        self.own, self.t = own, t

    def setitem(self, I, k, m):
        t = text_of(k)
        if not ENG.ctx.notes.get(("term of", self.own.e.uid, t.uid)):
            oblige("a term of the sum is recorded", FALSE)
        if not isinstance(m, Matches):
            raise Unsupported("matches of a term")
        oblige("what is recorded for a term of the pattern matches it", imp(H(m), V(t).eq(V(self.t))))

    def size(self, I):
        p = A("g", "size", ENG.uid("row"))
        ENG.fact(P(0).le(p))
        ENG.fact(isint(p))
        return NV(p, "int")

    def candidate(self):
        t = W.fresh("term")
        m = Matches()
        ENG.fact(ok(t))
        ENG.ctx.notes[("term of", self.own.e.uid, t.uid)] = True
        ENG.fact(imp(H(m), V(t).eq(V(self.t))))
        return SymStr(("repr", t.uid)), m

    def attr(self, I, name):
        if name == "items":
            return BoundM(interp.Meth(lambda I, me: Gen(me.candidate, rows=me)), self)
        if name == "values":
            return BoundM(interp.Meth(lambda I, me: Gen(lambda: me.candidate()[1])), self)


class Rows(Virt):
    """for each term of the pattern (by its text) the terms of the sum it matches"""
    def __init__(self, e=None, q=None):
        self.id = ENG.uid("rows")
        self.e, self.q = e, q
        self.complete = False       # a row for each term of the pattern, and no other
        self.touched = []

    def subscript(self, I, k):
        t = text_of(k)
        self.touched.append(t)
        return Row(self, t)

    def one(self):
        t = W.fresh("query term")
        ENG.fact(ok(t))
        return Row(self, t)

    def attr(self, I, name):
        if name == "values":
            return BoundM(interp.Meth(lambda I, me: Gen(me.one, rows=me)), self)


def sum_loops(I, e, q):
    """for each term of the pattern, for each term of the sum"""
    def h(I, s, env):
        src = I.ev(s.iter, env)
        own = src.own if isinstance(src, LObj) else None
        what = "e" if own == e.uid else "q" if own == q.uid else None
        if what is None or s.orelse:
            return NotImplemented
        rows = [v for v in env.vars.values() if isinstance(v, Rows)]
        if len(rows) != 1:
            raise Unsupported("one table of candidates")
        rows = rows[0]
        rows.e, rows.q = e, q
        i = ENG.choose([(("loop", what, "iterate"), TRUE, None), (("loop", what, "exit"), TRUE, None)])
        keep = flags(s, env)
        if i == 1:
            if what == "q":
                rows.complete = True
                rows.touched = []
            return
        t = W.fresh("term" if what == "e" else "query term")
        ENG.fact(ok(t))
        if what == "e":
            ENG.ctx.notes[("term of", e.uid, t.uid)] = True
        else:
            rows.touched = []
        I.assign(s.target, t, env)
        if iteration(I, s, env, keep):
            return
        if what == "q":
            if not any(x.uid == t.uid for x in rows.touched):
                oblige("every term of the pattern gets its row", FALSE)
        if any(x.uid[0] == "query term" and what == "q" and x.uid != t.uid for x in rows.touched):
            oblige("only terms of the pattern get a row", FALSE)
        tasks.REC_PATH.append(("the table of candidates stays right", "proved", "", None))
        raise PathEnd()
    I.loops[(SQ, "for")] = h


ASSUME_TEXTS = "C11: different terms of a sum have different texts"


def c_consolidate(I):
    @fn_contract(I, RX.consolidate)
    def c(I, args, kw):
        rows, e = args
        if not isinstance(rows, Rows):
            raise Unsupported("candidates")
        oblige("candidates for every term of the pattern", z3.BoolVal(rows.complete and rows.e.uid == e.uid))
        if ENG.choose([(("some", ENG.uid("c")), TRUE, None), (("none", ENG.uid("c")), TRUE, None)]) == 1:
            return DObj({"success": False}, len(ENG.levels))
        m = Matches()
        m.closes = rows
        r = W.fresh("rest")
        ENG.fact(ok(r))
        ENG.fact(imp(H(m), V(e).eq(V(rows.q) + V(r))))
        return DObj({"matches": m, "rest": r, "success": True}, len(ENG.levels))


def t_call_sum(I):
    e, q = sym(None, "e"), sym(None, "q")
    ENG.fact(ok(e))
    ENG.fact(ok(q))
    up, single = flag("up to a factor"), flag("single matches")
    g, w = new_query(up, e, q)
    o = new_eq(_expr=e, _query=g, _up_to_factor=up, _decompose_singles=single, _is_divide=False, _up_to_sum=True,
               _matches=Records(), _result=DObj({}, len(ENG.levels)))
    if up:
        o.attrs["_any_factor"] = w
    c_consolidate(I)
    sum_loops(I, e, g)
    r = call_real(I, EQ.__call__, [o])
    answer(I, r, e, q, w, rest=True, single=single)


Task("C11", CQ + " (up to a sum)", t_call_sum, allowed=(NotImplementedError,))


# ------------------------------------------------------------------ consolidate
def t_consolidate(I):
    e, q = sym("Sum", "e"), sym("Sum", "q")
    ENG.fact(ok(e))
    ENG.fact(ok(q))
    rows = Rows(e, q)
    rows.complete = True
    st = {}

    def state(env):
        """the table of what is found and the terms used"""
        f = [v for v in env.vars.values() if isinstance(v, Records)]
        for n, v in list(env.vars.items()):
            if isinstance(v, LObj) and not v.segs and v.kind == "list":
                env.vars[n] = Texts(e)
                ENG.fact(env.vars[n].total.eq(P(0)))
        a = [v for v in env.vars.values() if isinstance(v, Texts)]
        if len(f) != 1 or len(a) != 1:
            raise Unsupported("the state of the loop")
        return f[0], a[0]

    def h(I, s, env):
        src = I.ev(s.iter, env)
        if not isinstance(src, Gen) or src.rows is None or s.orelse:
            return NotImplemented
        f, a = state(env)
        i = ENG.choose([(("loop", type(src.rows).__name__, "iterate"), TRUE, None), (("loop", type(src.rows).__name__, "exit"), TRUE, None)])
        if isinstance(src.rows, Rows):
            done = real("done")
            a.total, a.known = real("accounted"), {}
            ENG.fact(a.total.eq(done))
            keep = flags(s, env)
            if i == 1:
                ENG.fact(done.eq(V(q)))
                ENG.assumed.add(ASSUME_TEXTS)
                st["final"], st["texts"] = f, a
                return
            row = src.make()
            I.assign(s.target, row, env)
            if iteration(I, s, env, keep):
                st["final"], st["texts"] = f, a
                return
            oblige("the terms used have the value of the terms of the pattern", a.total.eq(done + V(row.t)))
            raise PathEnd()
        # the candidates of one term: nothing changes until one is taken
        keep = flags(s, env)
        if i == 1:
            return
        t0, n0 = a.total, len(f.last)
        I.assign(s.target, src.make(), env)
        if iteration(I, s, env, keep):
            return
        if a.total is not t0 or len(f.last) != n0:
            oblige("nothing changes before a candidate is taken", FALSE)
        tasks.REC_PATH.append(("nothing changes before a candidate is taken", "proved", "", None))
        raise PathEnd()
    I.loops[("regex.consolidate", "for")] = h
    r = call_real(I, RX.consolidate, [rows, e])
    if not isinstance(r, DObj):
        raise Unsupported("answer")
    if r.d["success"] is False:
        tasks.REC_PATH.append(("no match reported", "proved", "", None))
        return
    m = r.d["matches"]
    if not (isinstance(m, Matches) and m.closes is st["final"]):
        oblige("the matches are those found", FALSE)
        return
    m.closed()
    rest = r.d["rest"]
    # the terms that are used, and no other, are left out
    used = used_terms(W.terms_bag(e), e)
    if used:
        ENG.fact(W.seg_measure("SUM", used, V).eq(st["texts"].total))
    oblige("the rest is defined", ok(rest))
    oblige("the sum is the pattern and the rest", imp(H(m), V(e).eq(V(q) + V(rest))))


def used_terms(bag, e):
    """the terms of e whose text is in the table (they add up to its total)"""
    part = ENG.ctx.parts.get(bag)
    if part and part[0] == "cases":
        return [x for b in part[1] for x in used_terms(b, e)]
    el = SE(ELEM(bag))
    f = pred("accounted", e.uid, el.uid)
    if bag in ENG.ctx.leafdelta and any(g.eq(f) for g in ENG.ctx.leafdelta[bag].facts):
        return [("p", Piece(bag, {bag: [("v", el)]}))]
    return []


Task("C11", "regex.consolidate", t_consolidate, allowed=(AssertionError,))


# ------------------------------------------------------------------ divide_anys
DQ = "regex.divide_anys"
ASSUME_ONE = "C11: a factor of a pattern matches at most one factor of a product"


class Factors(Virt):
    """the factors of a product, some of them taken out; total: the product of those left (behind the current one)"""
    def __init__(self, e):
        self.e = e
        self.i = self.cur = None
        self.total = V(e)
        self.length = A("g", "len", ENG.uid("len"))
        self.hit = False

    def now(self):
        return self.total * V(self.cur) if self.cur is not None else self.total

    def size(self, I):
        ENG.fact(isint(self.length))
        ENG.fact(P(0).le(self.length))
        return NV(self.length, "int")

    def at(self, k):
        if not (is_num(k) and self.i is not None and nv(k)[0] == self.i):
            raise Unsupported("another factor")

    def subscript(self, I, k):
        self.at(k)
        return self.cur

    def setitem(self, I, k, v):
        self.at(k)
        if v is not None:
            raise Unsupported("a factor is replaced")
        self.cur = None
        self.hit = True

    def comp(self, I, n, env):
        """the factors left, in a list"""
        g = n.generators[0]
        if type(n).__name__ != "ListComp":
            raise Unsupported("comprehension over the factors")
        x = W.fresh("factor")
        ENG.fact(ok(x))
        for v in (None, x):
            e = env.child()
            I.assign(g.target, v, e)
            keep = all(I.truth(I.ev(c, e)) for c in g.ifs)
            if keep != (v is not None) or keep and I.ev(n.elt, e) is not v:
                oblige("the factors left are those that are not taken out", FALSE)
        l = LObj(loops.bag_of("left"), len(ENG.levels))
        ENG.fact(loops.total("PROD", l).eq(self.total))
        return l


def t_divide(I):
    num, den = sym(None, "num"), sym(None, "den")
    for x in (num, den):
        ENG.fact(ok(x))
    st = {"c": ONE}
    made = []

    def factors(I, f, args, kw):
        ENG.used.add("regex.divide_anys._make_factors_list")
        made.append(Factors(args[0]))
        return made[-1]
    I.closures[DQ + ".<locals>._make_factors_list"] = factors

    @cls_contract(I, EQ, "regex.Eq")
    def eqobj(I, args, kw):
        names = ["expr", "query", "up_to_factor", "decompose_singles", "up_to_sum", "_is_divide"]
        a = dict(zip(names, args))
        a.update(kw)

        def run(I):
            r = matched(I, a)
            if r.d["success"] and any(x.hit for x in made):
                ENG.assumed.add(ASSUME_ONE)
                raise Infeasible()
            return r
        return Fn(run).make()

    def inv(fact):
        for x in made:
            fact((x.now() * st["c"]).eq(V(x.e)))

    def havoc():
        st["c"] = real("matched")
        for x in made:
            x.total = real("left")
        inv(ENG.fact)

    def h(I, s, env):
        src, iname, tname, lo = loops.positions(I, s, env)
        if not isinstance(src, Factors) or lo is not None and lo != ZERO or s.orelse or src.i is not None:
            return NotImplemented
        if len(made) != 2 or {made[0].e.uid, made[1].e.uid} != {num.uid, den.uid}:
            raise Unsupported("the factors of both")
        other = made[0] if src is made[1] else made[1]
        inner = other.i is not None
        inv(lambda f: oblige("what is left times what is matched is the product (at the start)", f))
        i = ENG.choose([(("loop", inner, "iterate"), TRUE, None), (("loop", inner, "exit"), TRUE, None)])
        keep = flags(s, env)
        if inner and other.cur is not None and ENG.choose([(("current", ENG.uid("x"), "there"), TRUE, None), (("current", ENG.uid("x"), "taken"), TRUE, None)]) == 1:
            other.cur, other.hit = None, True
        if i == 1:
            havoc()
            return
        src.i = real("i")
        ENG.fact(isint(src.i))
        ENG.fact(P(0).le(src.i))
        ENG.fact(src.i.lt(src.length))
        src.cur = None
        if ENG.choose([(("factor", ENG.uid("x"), "there"), TRUE, None), (("factor", ENG.uid("x"), "taken"), TRUE, None)]) == 0:
            src.cur = W.fresh("factor")
            ENG.fact(ok(src.cur))
        src.hit = False
        havoc()
        cur = src.cur
        if iname:
            env.vars[iname] = NV(src.i, "int")
        if tname:
            env.vars[tname] = cur
        out = iteration(I, s, env, keep)
        if inner and src.cur is not cur:
            st["c"] = st["c"] * V(cur)
        if out:
            # what is left is left, looked at or not
            src.total, src.cur, src.i = src.now(), None, None
            return
        inv(lambda f: oblige("what is left times what is matched is the product", f))
        raise PathEnd()
    I.loops[(DQ, "for")] = h
    r = I.known_items(call_real(I, RX.divide_anys, [num, den]))
    if len(r) != 2 or not isinstance(r[1], Records):
        raise Unsupported("answer")
    if any(x.cur is not None for x in made):
        raise Unsupported("the current factor")
    oblige("quotient of what is left", V(num).eq(V(W.to_se(I, r[0])) * V(den)))


Task("C11", DQ, t_divide)


def t_factors(cname):
    def fn(I):
        e = sym(cname, "e")
        ENG.fact(ok(e))
        other = sym(None, "other")
        ENG.fact(ok(other))

        def run(I, f, args, kw):
            l = I.run_closure(f, [e], {})
            if not isinstance(l, LObj):
                raise Unsupported("list of factors")
            oblige("the factors make the product", loops.total("PROD", l).eq(V(e)))
            raise PathEnd()
        I.closures[DQ + ".<locals>._make_factors_list"] = run
        call_real(I, RX.divide_anys, [e, other])
        raise Unsupported("the factors are not asked for")
    Task("C11", "regex.divide_anys._make_factors_list (%s)" % cname, fn, allowed=(NotImplementedError,))


for c_ in ALLC:
    t_factors(c_)


# ------------------------------------------------------------------ joining, comparing
def t_join(name, second):
    """everything d2 has is recorded in d1, under the same wildcard, and nothing d1 had is lost"""
    f = getattr(RX, name)

    def fn(I):
        d1, d2 = Records("d1"), second()
        done = []

        def h(I, s, env):
            src = I.ev(s.iter, env)
            pairs = isinstance(src, Gen)
            if not (pairs or isinstance(src, Keys) and src.of is d2 or src is d2) or s.orelse:
                return NotImplemented
            i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
            keep = flags(s, env)
            if i == 1:
                done.append(True)
                return
            w = wildcard("key", d2)
            k = SymStr(("anykey", w.uid))
            ENG.fact(H(d2) == V(w).eq(V(d2.value(w)))) if isinstance(d2, Matches) else None
            I.assign(s.target, d2.entry() if pairs else k, env)
            if iteration(I, s, env, keep):
                d1.last = []
                return
            if len(d1.last) != 1 or d1.last[0][0].uid != w.uid:
                oblige("the expressions of a wildcard are recorded under its name", FALSE)
                raise PathEnd()
            x = d1.last[0][1]
            if isinstance(d2, Matches):
                oblige("what is recorded has the value of the match", V(x).eq(V(d2.value(w))) if isinstance(x, SE) else FALSE)
            else:
                oblige("what is recorded is the list of the wildcard", z3.BoolVal(isinstance(x, Bucket) and x.own is d2 and x.k.uid == w.uid))
            raise PathEnd()
        I.loops[("regex." + name, "for")] = h
        call_real(I, f, [d1, d2])
        oblige("every wildcard is joined", z3.BoolVal(len(done) == 1 and not d1.last))
    Task("C11", "regex." + name, fn)


t_join("join_dicts", Matches)
t_join("join_dicts2", lambda: Records("d2"))


class Chain(Virt):
    """a list of n expressions"""
    def __init__(self):
        self.id = ENG.uid("list")
        self.n = A("g", "len", self.id)
        ENG.fact(isint(self.n))
        ENG.fact(P(0).le(self.n))
        self.first = self.element(ZERO)

    def element(self, p):
        x = SE(("at", self.id, p))
        ENG.fact(ok(x))
        return x

    def size(self, I):
        return NV(self.n, "int")

    def subscript(self, I, k):
        p = nv(k)[0]
        c = p.const()
        if c is not None and c < 0:
            p = self.n + p
        if ENG.decide(disj(p.lt(P(0)), self.n.le(p))):
            raise Raised(IndexError())
        x = self.element(p)
        ENG.fact(imp(p.eq(0), V(x).eq(V(self.first))))
        return x


def t_all_same(I):
    l = Chain()

    def h(I, s, env):
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) <= 2 and not s.orelse):
            return NotImplemented
        a = [nv(I.ev(x, env))[0] for x in it.args]
        lo, hi = (ZERO, a[0]) if len(a) == 1 else a
        i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        keep = flags(s, env)
        # behind position p every element up to p is like the first (p: the last one looked at)
        if i == 1:
            st["upto"] = (lo, hi)
            return
        j = real("i")
        ENG.fact(isint(j))
        ENG.fact(lo.le(j))
        ENG.fact(j.lt(hi))
        d = 1 if lo.const() == 0 else 0         # which of the two neighbours is the new one
        if lo.const() not in (0, 1):
            raise Unsupported("the loop starts somewhere else")
        old, new = l.element(j + (d - 1)), l.element(j + d)
        ENG.fact(V(old).eq(V(l.first)))
        I.assign(s.target, NV(j, "int"), env)
        if iteration(I, s, env, keep):
            return
        oblige("the next element is like the first", V(new).eq(V(l.first)))
        raise PathEnd()
    st = {}
    I.loops[("regex.all_same", "for")] = h
    r = call_real(I, RX.all_same, [l])
    if not I.truth(r):
        return
    j = real("j")
    ENG.fact(isint(j))
    ENG.fact(P(0).le(j))
    ENG.fact(j.lt(l.n))
    x = l.element(j)
    int_diffs(j, l.n)
    ENG.fact(imp(j.eq(0), V(x).eq(V(l.first))))
    if "upto" in st:
        lo, hi = st["upto"]
        ENG.fact(imp((j + lo).le(hi) if lo.const() == 0 else j.lt(hi), V(x).eq(V(l.first))))
    oblige("every element is like the first", V(x).eq(V(l.first)))


Task("C11", "regex.all_same", t_all_same)


class Found(Virt):
    """an arbitrary dictionary of matches: which wildcards it has, and an expression for each of them"""
    def __init__(self, tag, on=None):
        self.id = ENG.uid(tag)
        self.on = on

    def comp(self, I, n, env, pairs=False):
        return self.on(I, self, n, env, pairs)

    def ordered(self, I):
        return self

    def there(self, w):
        return pred("has match", self.id, w.uid)

    def value(self, w):
        x = SE(("match", self.id, w.uid))
        ENG.fact(ok(x))
        return x

    def contains(self, I, k):
        return I.fold(self.there(name_of(k)))

    def subscript(self, I, k):
        w = name_of(k)
        if not I.truth(self.contains(I, k)):
            raise Raised(KeyError())
        return self.value(w)

    def entry(self):
        w = wildcard("key", self)
        ENG.fact(self.there(w))
        return SymStr(("anykey", w.uid)), self.value(w)

    def attr(self, I, name):
        if name == "keys":
            return BoundM(interp.Meth(lambda I, me: Keys(me)), self)
        if name == "items":
            return BoundM(interp.Meth(lambda I, me: Items(me)), self)
        if name == "get":
            def get(I, me, k, d=None):
                return me.value(name_of(k)) if I.truth(me.contains(I, k)) else d
            return BoundM(interp.Meth(get), self)


class Items(Virt):
    def __init__(self, of):
        self.of = of

    def comp(self, I, n, env):
        return self.of.comp(I, n, env, True)

    def ordered(self, I):
        return self


class Every(Virt):
    """a condition on every wildcard, as a quantifier"""
    def __init__(self, run, done):
        self.run, self.done = run, done

    def quantified(self, I, what):
        if what not in ("all", "any"):
            raise Unsupported(what)
        side(I, lambda: self.run(what))
        r = ENG.choose([((what, ENG.uid("q")), TRUE, None), (("not " + what, ENG.uid("q")), TRUE, None)]) == 0
        self.done(r == (what == "all"))
        return r


def t_matches_eq(I):
    """two sets of matches agree exactly when no wildcard of both has two different expressions"""
    full, reported = [], []

    def differ(w):
        """both have the wildcard, with expressions that are not equal"""
        return I.truth(I.fold(conj(x.there(w), y.there(w)))) and not I.truth(I.compare("__eq__", x.value(w), y.value(w)))

    def on(I, of, n, env, pairs):
        if type(n).__name__ not in ("GeneratorExp", "ListComp") or len(n.generators) != 1:
            raise Unsupported("a collection of the wildcards")
        g = n.generators[0]

        def run(what):
            e = env.child()
            k, v = of.entry()
            w = name_of(k)
            I.assign(g.target, (k, v) if pairs else k, e)
            kept = all(I.truth(I.ev(c, e)) for c in g.ifs)
            stop = kept and I.truth(I.ev(n.elt, e)) == (what == "any")
            oblige("a wildcard decides exactly when it has two different expressions", z3.BoolVal(stop == differ(w)))
        return Every(run, lambda agree: (full if agree else reported).append(of))

    x, y = Found("x", on), Found("y", on)

    def h(I, s, env):
        src = I.ev(s.iter, env)
        of = src.of if isinstance(src, (Keys, Items)) else src
        if not isinstance(of, Found) or s.orelse:
            return NotImplemented
        i = ENG.choose([(("loop", len(full), "iterate"), TRUE, None), (("loop", len(full), "exit"), TRUE, None)])
        keep = flags(s, env)
        if i == 1:
            full.append(of)
            return
        k, v = of.entry()
        w = name_of(k)
        I.assign(s.target, (k, v) if isinstance(src, Items) else k, env)
        try:
            left = iteration(I, s, env, keep)
        except interp.Ret:
            oblige("a disagreement that is reported is there", z3.BoolVal(differ(w)))
            reported.append(of)
            raise
        if left:
            raise Unsupported("the loop is left")
        oblige("a disagreement is not passed over", z3.BoolVal(not differ(w)))
        raise PathEnd()
    I.loops[("regex._matches_eq", "for")] = h
    r = I.truth(call_real(I, RX._matches_eq, [x, y]))
    if r:
        oblige("they agree only when every wildcard is looked at", z3.BoolVal(bool(full) and not reported))
    else:
        oblige("they disagree only over a wildcard", z3.BoolVal(bool(reported)))


Task("C11", "regex._matches_eq", t_matches_eq)


# ------------------------------------------------------------------ the constructor, eq
def t_init(I):
    e, q = sym(None, "e"), sym(None, "q")
    for x in (e, q):
        ENG.fact(ok(x))
    up = flag("up to a factor")

    @cls_contract(I, RX.Any_, "regex.Any_")
    def wild(I, args, kw):
        return wildcard("wildcard")
    o = Obj(EQ, len(ENG.levels))
    a = dict(up_to_factor=up, decompose_singles=flag("single matches"), up_to_sum=flag("up to a sum"), _is_divide=flag("inside a division"))
    call_real(I, EQ.__init__, [o, e, q], dict(a))
    for n, v in a.items():
        n = "_" + n.lstrip("_")
        oblige("option " + n, z3.BoolVal(o.attrs.get(n) is v))
    oblige("the expression", z3.BoolVal(isinstance(o.attrs.get("_expr"), SE) and o.attrs["_expr"].uid == e.uid))
    oblige("nothing is recorded yet", z3.BoolVal(isinstance(o.attrs.get("_matches"), Records) and not o.attrs["_matches"].last))
    g = o.attrs["_query"]
    oblige("the pattern is defined", ok(g))
    if up:
        w = o.attrs["_any_factor"]
        oblige("a wildcard for the factor", z3.BoolVal(w.uid[0] == "wildcard"))
        oblige("the pattern with its factor", V(g).eq(V(w) * V(q)))
        ENG.assumed.add("C11: a random key of ten characters is not used in the pattern")
    else:
        oblige("the pattern", V(g).eq(V(q)))


Task("C11", "regex.Eq (constructor)", t_init, allowed=(ValueError,))


def t_eq_top(I):
    """eq(expression, pattern), in either order"""
    e, q = sym(None, "e"), sym(None, "q")
    for x in (e, q):
        ENG.fact(ok(x))
    swapped = flag("the pattern first")
    up, us = flag("up to a factor"), flag("up to a sum")

    @cls_contract(I, EQ, "regex.Eq")
    def eqobj(I, args, kw):
        names = ["expr", "query", "up_to_factor", "decompose_singles", "up_to_sum", "_is_divide"]
        a = dict(zip(names, args))
        a.update(kw)
        if I.truth(I.call(I.getattr(a["expr"], "has"), [RX.Any_])):
            raise Raised(ValueError())
        return Fn(lambda I: top(I, a)).make()

    def top(I, a):
        if ENG.choose([(("match", ENG.uid("eq")), TRUE, None), (("no match", ENG.uid("eq")), TRUE, None)]) == 1:
            return DObj({"success": False}, len(ENG.levels))
        m = Matches()
        m.closes = True
        want = V(a["query"])
        d = {"success": True, "matches": m}
        if I.truth(a.get("up_to_factor", False)):
            d["factor"] = W.fresh("factor")
            ENG.fact(ok(d["factor"]))
            want = want * V(d["factor"])
        if I.truth(a.get("up_to_sum", False)):
            d["rest"] = W.fresh("rest")
            ENG.fact(ok(d["rest"]))
            want = want + V(d["rest"])
        ENG.fact(imp(H(m), V(a["expr"]).eq(want)))
        return DObj(d, len(ENG.levels))
    ENG.fact(neg(pred("has", "Any_", e.uid)))
    W.restrict(e, W.EVERY - {"Any_"})
    r = call_real(I, RX.eq, [q, e] if swapped else [e, q], dict(up_to_factor=up, up_to_sum=us))
    if not isinstance(r, DObj):
        raise Unsupported("answer")
    if r.d["success"] is False:
        tasks.REC_PATH.append(("no match reported", "proved", "", None))
        return
    m = r.d["matches"]
    f = V(r.d["factor"]) if up else ONE
    s = V(r.d["rest"]) if us else ZERO
    there = V(e).eq(V(q) * f + s)
    if swapped:
        # no wildcard anywhere: the first is the expression
        there = disj(there, conj(neg(pred("has", "Any_", q.uid)), V(q).eq(V(e) * f + s)))
    oblige("the reported factor and rest are of the pattern", imp(H(m), there))


Task("C11", "regex.eq", t_eq_top, allowed=(ValueError,))

tasks.HAVOC |= {"regex.get_anys", "regex._matches_eq", "regex.Any_", "collections.defaultdict"}
D = tasks.DISCHARGES
EQS = ["regex.Eq._eq (%s)" % c for c in ALLC] + ["regex.Eq._eq (lists)", "regex.Eq._eq (a list and an expression)"]
D["regex.Eq._eq"] = EQS
D["regex.divide_anys._make_factors_list"] = ["regex.divide_anys._make_factors_list (%s)" % c for c in ALLC]
D["regex.Eq"] = ["regex.Eq (constructor)", CQ, CQ + " (up to a sum)"]
D["regex.eq"] = ["regex.eq", "regex.Eq (constructor)", CQ, CQ + " (up to a sum)"]
for n_ in ("_matches_eq", "all_same", "join_dicts", "join_dicts2", "divide_anys", "consolidate"):
    D["regex." + n_] = ["regex." + n_]


def t_key(I):
    """the key of a wildcard is the one it was given"""
    w = Obj(RX.Any_, len(ENG.levels))
    I.call(RX.Any_.__init__, [w, "given"])
    oblige("the key given", z3.BoolVal(I.call(RX.Any_.key.fget, [w]) == "given"))


Task("C11", "regex.Any_.key", t_key)
D["virtual key"] = ["regex.Any_.key"]
