"""C10 search tree, C11 pattern matching, C12 structural queries, C13 polynomials/matrices, C14 combinatorics,
C15 immutability, C16 equality, C17 printing"""
import math
from core import *
from c_basic import gexpr, checked, envs_for, raw_subs, garg
from c_simplify import gtrig, gpyth, glogs, grand, S, P
import simpy.regex as R
import simpy.utils as U
import simpy.combinatorics as CB
import simpy.polynomial as PO
import simpy.linalg as LA
import simpy.transforms as T
import simpy.integration as I
import numpy as np


# ---------------------------------------------------------------- C10
def gtree(rng):
    """text encoding of a tree: (type, children)"""
    def t(d):
        ty = rng.choice(["AND", "OR", "UNSET"]) if d > 0 and rng.random() < .75 else rng.choice(["SOLUTION", "FAILURE", "UNSET"])
        kids = []
        if ty in ("AND", "OR", "UNSET") and d > 0 and rng.random() < .85:
            kids = [t(d - 1) for _ in range(1 if ty == "UNSET" else rng.choice([1, 2, 2, 3]))]
        return [ty, kids]
    return t(rng.choice([0, 1, 2, 3, 4]))


def mktree(spec, parent=None, ctr=None):
    ctr = ctr if ctr is not None else [0]
    ctr[0] += 1
    n = T.Node(E.Symbol("n%d" % ctr[0]), E.Symbol("x"), None, parent, type=spec[0])
    for k in spec[1]:
        n.add_child(mktree(k, n, ctr))
    return n


def sp_solved(n):
    if n.type == "SOLUTION":
        return True
    if not n.children:
        return False
    r = [sp_solved(c) for c in n.children]
    return any(r) if n.type == "OR" else all(r) if n.type in ("AND", "UNSET") else False


def sp_failed(n):
    if n.type == "FAILURE":
        return True
    if not n.children:
        return False
    r = [sp_failed(c) for c in n.children]
    return all(r) if n.type == "OR" else any(r)


def sp_leaves(n):
    return [n] if not n.children else [l for c in n.children for l in sp_leaves(c)]


def allnodes(n):
    return [n] + [m for c in n.children for m in allnodes(c)]


@contract("C10", "tree-accounting", ["Node.is_solved", "Node.is_failed", "Node.leaves", "Node.unfinished_leaves", "_parents", "_get_best_leaf"], 3)
class _:
    def gen(rng):
        return [gtree(rng)]

    def check(args, rng):
        root = mktree(args[0])
        for n in allnodes(root):
            w = "tree %s, node %s" % (args[0], n.expr)
            if bool(n.is_solved) != sp_solved(n):
                raise Fail("%s: is_solved is %s" % (w, n.is_solved))
            if bool(n.is_failed) != sp_failed(n):
                raise Fail("%s: is_failed is %s" % (w, n.is_failed))
            if bool(n.is_finished) != (sp_solved(n) or sp_failed(n)):
                raise Fail("%s: is_finished is %s" % (w, n.is_finished))
            if [id(l) for l in n.leaves] != [id(l) for l in sp_leaves(n)]:
                raise Fail("%s: leaves wrong" % w)
            if [id(l) for l in n.unfinished_leaves] != [id(l) for l in sp_leaves(n) if not (sp_solved(l) or sp_failed(l))]:
                raise Fail("%s: unfinished leaves wrong" % w)
            if [id(c) for c in n.unfinished_children] != [id(c) for c in n.children if not (sp_solved(c) or sp_failed(c))]:
                raise Fail("%s: unfinished children wrong" % w)
            if n.root is not root:
                raise Fail("%s: root wrong" % w)
            anc, p = [], n
            while p is not None:
                anc.append(id(p))
                p = p.parent
            if [id(q) for q in T._parents(n)] != anc or n.distance_from_root != len(anc) - 1:
                raise Fail("%s: ancestors wrong" % w)
            st = not (sp_solved(n) or sp_failed(n)) and any(sp_solved(q) or sp_failed(q) for q in T._parents(n))
            if bool(n.is_stale) != st:
                raise Fail("%s: is_stale wrong" % w)
        if not root.is_finished:
            b = I._get_best_leaf(root)
            if not any(b is l for l in root.unfinished_leaves):
                raise Fail("tree %s: the chosen next node is not an unfinished leaf" % (args[0],))


@contract("C10", "no-ancestor-repeat", ["Node.add_child", "Node.add_children"], 1)
class _:
    def gen(rng):
        g = G.Gen(rng, floats=0)
        es = [g.try_expr(1) for _ in range(3)] + [E.Symbol("x") ** 2]
        return [[[rng.randrange(len(es)), rng.choice("xyu"), rng.random() < .15] for _ in range(rng.randint(2, 6))], es]

    def check(args, rng):
        steps, es = args
        n = T.Node(es[steps[0][0]], E.Symbol(steps[0][1]))
        chain = [n]
        for k, v, filler in steps[1:]:
            c = T.Node(es[k], E.Symbol(v), None, n, is_filler=filler)
            before = len(n.children)
            n.add_child(c)
            rep = any(same_up_to(p.expr, p.var, c.expr, c.var) for p in chain)
            added = len(n.children) == before + 1 and n.children[-1] is c
            if added != (filler or not rep) or len(n.children) not in (before, before + 1):
                raise Fail("chain %s of %s: repeated=%s filler=%s but added=%s" % (steps, es, rep, filler, added))
            if added:
                n = c
                chain.append(c)


def same_up_to(a, av, b, bv):
    """equal after renaming av to bv (structure, independent of the code's own comparison)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, E.Symbol):
        return (b.name == bv.name) if a.name == av.name else a.name == b.name
    if isinstance(a, E.Num):
        return a.value == b.value
    ca, cb = a.children(), b.children()
    return len(ca) == len(cb) and all(same_up_to(x, av, y, bv) for x, y in zip(ca, cb))


@contract("C10", "search-outcome", ["Integration.integrate", "Integration._cycle", "_integrate_safely", "_integrate_heuristically", "_go_backwards"], .15)
class _:
    def gen(rng):
        from c_integ import gintegrand
        return [gintegrand(rng)]

    def check(args, rng):
        e, = args
        x = E.Symbol("x")
        root = T.Node(e.simplify(), x)
        try:
            I._integrate_safely(root)
            integ = I.Integration()
            cur = root
            for _ in range(6):
                ans = integ._cycle(cur)
                check_tree(root)
                if root.is_finished or ans is None:
                    break
                if ans == "SOLVED":
                    cur = integ._get_next_node_post_heuristic_breadth_first(root)
                else:
                    cur = ans
                if cur is None or cur == "SOLVED":
                    break
        except (ValueError, AssertionError, NotImplementedError, AttributeError, ZeroDivisionError, OverflowError, TypeError, RuntimeWarning, KeyError):
            raise Skip()
        if root.is_solved:
            try:
                integ._go_backwards(root)
            except ValueError as ex:
                raise Fail("a solved tree for %s has no solution: %r" % (G.srepr(e), ex))
            if root.solution is None:
                raise Fail("a solved tree for %s has no solution" % G.srepr(e))


def check_tree(root):
    for n in allnodes(root):
        if bool(n.is_solved) != sp_solved(n) or bool(n.is_failed) != sp_failed(n):
            raise Fail("tree accounting wrong at %r" % n)
        if n.type == "SOLUTION" and n.solution is None:
            raise Fail("node %r is marked solved without a solution" % n)
        for c in n.children:
            if c.parent is not n:
                raise Fail("child %r of %r has another parent" % (c, n))
            if not c.is_filler:
                p = n
                while p is not None:
                    if same_up_to(p.expr, p.var, c.expr, c.var):
                        raise Fail("node %r repeats its ancestor %r" % (c, p))
                    p = p.parent


# ---------------------------------------------------------------- C11
def anys_in(q):
    if isinstance(q, R.Any_):
        return {q.key}
    return set().union(*[anys_in(c) for c in q.children()]) if q.children() else set()


def inst(q, m):
    """instantiate the wildcards (raw tree)"""
    if isinstance(q, R.Any_):
        return m[q.key]
    if isinstance(q, (E.Sum, E.Prod)):
        return G.raw(type(q), terms=[inst(t, m) for t in q.terms])
    if isinstance(q, E.Power):
        return G.raw(E.Power, base=inst(q.base, m), exponent=inst(q.exponent, m))
    if isinstance(q, E.log):
        return G.raw(E.log, inner=inst(q.inner, m), base=inst(q.base, m))
    if isinstance(q, E.SingleFunc):
        return G.raw(type(q), inner=inst(q.inner, m))
    return q


A1, A2 = R.Any_("a1"), R.Any_("b2")


def gquery(rng):
    g = G.Gen(rng, floats=0)
    def q(d):
        k = rng.random()
        if d == 0 or k < .25:
            return rng.choice([A1, A1, A2, g.leaf(), g.leaf()])
        if k < .45:
            return E.Sum([q(d - 1), q(d - 1)])
        if k < .65:
            return E.Prod([g.leaf(), q(d - 1)])
        if k < .85:
            return E.Power(q(d - 1), rng.choice([E.Rat(2), E.Rat(3), E.Rat(-1)]))
        return getattr(E, rng.choice(["sin", "cos", "tan", "sec", "log"]))(q(d - 1))
    for _ in range(30):
        try:
            r = q(rng.choice([1, 2, 2]))
            if anys_in(r):
                return r
        except Exception:
            pass
    return E.sin(A1) ** 2


def rebuild_pub(q, m):
    """instantiate with the public constructors"""
    if isinstance(q, R.Any_):
        return m[q.key]
    if isinstance(q, (E.Sum, E.Prod)):
        return type(q)([rebuild_pub(t, m) for t in q.terms])
    if isinstance(q, E.Power):
        return E.Power(rebuild_pub(q.base, m), rebuild_pub(q.exponent, m))
    if isinstance(q, E.log):
        return E.log(rebuild_pub(q.inner, m), rebuild_pub(q.base, m))
    if isinstance(q, E.SingleFunc):
        return type(q)(rebuild_pub(q.inner, m))
    return q


@contract("C11", "match-soundness", ["eq", "Eq.__call__", "Eq._eq", "divide_anys", "consolidate"], 3)
class _:
    def gen(rng):
        g = G.Gen(rng, floats=0)
        k = rng.random()
        if k < .2:
            e, q = gconflict(rng)
        elif k < .5:
            x, y = E.Symbol("x"), E.Symbol("y")
            idn = rng.choice([1 + E.tan(A1) ** 2, 1 - E.sin(A1) ** 2, 1 - E.cos(A1) ** 2, -1 + E.sec(A1) ** 2, 1 + E.cot(A1) ** 2,
                              E.sin(A1) * E.sec(A1), E.cos(A1) * E.csc(A1), E.sin(A1) ** 2 + E.cos(A1) ** 2, 1 + A1 ** 2,
                              E.sin(A1) ** 2 + E.cos(A2) ** 2])
            q = idn
            e = gpyth(rng) if rng.random() < .5 else None
            if e is None:
                try:
                    e = rebuild_pub(q, {"a1": g.try_expr(1), "b2": g.try_expr(1)}) * g.try_expr(1)
                    if isinstance(q, E.Sum):
                        e = e.expand() if e.expandable() else e
                        if rng.random() < .6:
                            e = e + g.try_expr(1)
                except Exception:
                    e = gtrig(rng)
        else:
            q = gquery(rng)
            e = gexpr(rng, rng.choice([1, 2]))
            if rng.random() < .7:
                try:
                    e = rebuild_pub(q, {"a1": g.try_expr(rng.choice([0, 1])), "b2": g.try_expr(rng.choice([0, 1]))})
                    if rng.random() < .3:
                        e = e * g.leaf()
                except Exception:
                    pass
        return [e, q, rng.random() < .5, isinstance(e, E.Sum) and isinstance(q, E.Sum) and rng.random() < .6]

    def check(args, rng):
        e, q, fac, sm = args
        if sm and not (isinstance(e, E.Sum) and isinstance(q, E.Sum)):
            sm = False
        if not anys_in(q) or anys_in(e):
            raise Skip()
        try:
            r = R.eq(e, q, up_to_factor=fac, up_to_sum=sm)
        except Timeout:
            raise
        except (NotImplementedError, ValueError, ZeroDivisionError, AttributeError, OverflowError):
            raise Skip()
        if not r["success"]:
            raise Skip()
        m = r["matches"]
        keys = anys_in(q)
        if not isinstance(m, dict):
            if len(keys) != 1:
                raise Fail("eq(%s, %s): a single match for %d wildcards" % (G.srepr(e), q, len(keys)))
            m = {list(keys)[0]: m}
        if keys - set(m):
            raise Fail("eq(%s, %s, %s, %s): wildcard(s) %s left unbound" % (G.srepr(e), q, fac, sm, keys - set(m)))
        for v in m.values():
            if anys_in(v):
                raise Fail("eq(%s, %s): a match contains a wildcard" % (G.srepr(e), q))
        t = inst(q, m)
        f = r["factor"] if fac else E.Rat(1)
        if fac and isinstance(q, E.Prod) and isinstance(f, E.Rat) and any(isinstance(c, E.Rat) and c.value == f.value != 1 for c in q.terms):
            raise Skip()  # KF4: exactly the pattern's own rational coefficient reported as the factor
        rest = r["rest"] if sm else E.Rat(0)
        envs = envs_for(rng, names_of(e, t, f, rest), 8)
        spec = lambda env, N: O.add(N, O.mul(N, O.ev(f, env, N), O.ev(t, env, N)), O.ev(rest, env, N))
        for en in envs:
            O.val(e, en)
        def spec2(env, N):
            O.ev(e, env, N)
            return spec(env, N)
        same_value("eq(%s, %s, up_to_factor=%s, up_to_sum=%s) matches %s factor %s rest %s" % (
            G.srepr(e)[:500], q, fac, sm, {k: str(v) for k, v in m.items()}, f, rest), spec2, e, envs, must_define=False)


def gconflict(rng):
    """a pattern that uses one wildcard in several places, and an expression that differs from an instance in one of them"""
    x, y = E.Symbol("x"), E.Symbol("y")
    fs = [E.sin, E.cos, E.tan, E.sec, lambda u: u ** 3, lambda u: E.log(u)]
    rng.shuffle(fs)
    shape = rng.choice([[[0, 1], [2]], [[0, 1], [2, 3]], [[0, 1]], [[0], [1]], [[0], [1], [2]], [[0, 1, 2]], [[0, 1], [2], [3]]])
    n = sum(map(len, shape))
    vals = [x] * n
    if rng.random() < .7:
        vals[rng.randrange(n)] = rng.choice([y, 2 * x, x + 1])
    rng.random() < .3 and vals.reverse()

    def build(vs):
        vs = iter(vs)
        ts = []
        for grp in shape:
            t = E.Rat(1)
            for k in grp:
                t = t * fs[k](next(vs))
            ts.append(t)
        return E.Sum(ts) if len(ts) > 1 else ts[0]
    return build(vals), build([A1] * n)


@contract("C11", "match-finds-instances", ["eq", "Eq._eq"], 1)
class _:
    def gen(rng):
        x = E.Symbol("x")
        g = G.Gen(rng, floats=0)
        a = rng.choice([x, E.Symbol("y"), x + 1, 2 * x + 3, x ** 2, E.Symbol("y") * x])
        q = rng.choice([E.sin(A1), E.cos(A1) ** 2, 1 + E.tan(A1) ** 2, 1 - E.sin(A1) ** 2, E.sin(A1) * E.sec(A1), E.log(A1) ** 3])
        return [a, q]

    def check(args, rng):
        a, q = args
        e = rebuild_pub(q, {"a1": a})
        r = call("eq", R.eq, e, q)
        if not r["success"]:
            raise Fail("eq(%s, %s) does not find the instance %s" % (G.srepr(e), q, a))
        r = call("eq", R.eq, q, e)
        if not r["success"]:
            raise Fail("eq(%s, %s) with swapped arguments does not find the instance %s" % (q, G.srepr(e), a))


# ---------------------------------------------------------------- C12
def subterms(e):
    yield e
    for c in e.children():
        yield from subterms(c)


def structural(a, b):
    if type(a) in (E.Rat, E.Float) and type(b) in (E.Rat, E.Float):
        return a.value == b.value      # numbers are equal by value
    if type(a) is not type(b):
        return False
    if isinstance(a, E.Symbol):
        return a.name == b.name
    if isinstance(a, E.Num):
        return a.value == b.value
    if isinstance(a, R.Any_):
        return a.key == b.key
    ca, cb = a.children(), b.children()
    return len(ca) == len(cb) and all(structural(x, y) for x, y in zip(ca, cb))


def spec_count(e, q):
    if type(e) is type(q) and structural(e, q):      # an occurrence is of the same class: 1.0 is no occurrence of 1
        return 1
    return sum(spec_count(c, q) for c in e.children())


def renamed(e, new):
    for old in new:
        e = raw_replace(e, E.Symbol(old), E.Symbol("tmp_" + old))
    for old, n in new.items():
        e = raw_replace(e, E.Symbol("tmp_" + old), E.Symbol(n))
    return e


@contract("C12", "queries", ["Expr.contains", "Expr.symbols", "Expr.has", "count", "general_count", "general_contains", "count_symbols"], 3)
class _:
    def gen(rng):
        e = gexpr(rng, rng.choice([0, 1, 2, 3]), floats=0)
        subs = list(subterms(e))
        q = rng.choice(subs) if rng.random() < .7 else gexpr(rng, 1, floats=0)
        if rng.random() < .4:
            # names that are parts of one another
            new = dict(zip("xyz", rng.choice([("a", "ab", "abc"), ("ab", "b", "a"), ("x1", "x", "x10"), ("e", "pi", "x"), ("sin", "n", "x")])))
            return [renamed(e, new), renamed(q, new), rng.choice(list(new.values()) + ["w"])]
        return [e, q, rng.choice(["x", "y", "z", "w"])]

    def check(args, rng):
        e, q, v = args
        free = O.free_names(e)
        if e.contains(E.Symbol(v)) != (v in free):
            raise Fail("%s contains %s: %s" % (G.srepr(e), v, e.contains(E.Symbol(v))))
        s = e.symbols()
        if sorted(t.name for t in s) != sorted(free) or not all(type(t) is E.Symbol for t in s):
            raise Fail("symbols of %s are reported as %s" % (G.srepr(e), s))
        for cls in (E.Sum, E.Prod, E.Power, E.log, E.sin, E.cos, E.TrigFunction, E.TrigFunctionNotInverse, E.Abs, E.Pi, E.Rat, E.Symbol):
            want = any(isinstance(t, cls) for t in subterms(e))
            if e.has(cls) != want or R.contains_cls(e, cls) != want:
                raise Fail("%s has %s: %s" % (G.srepr(e), cls.__name__, e.has(cls)))
        want = spec_count(e, q)
        if R.count(e, q) != want:
            raise Fail("count of %s in %s is %s, should be %s" % (G.srepr(q), G.srepr(e), R.count(e, q), want))
        cond = lambda t: isinstance(t, E.Symbol)
        n = sum(1 for t in subterms(e) if isinstance(t, E.Symbol))
        if R.general_count(e, cond) != n or U.count_symbols(e) != n or R.general_contains(e, cond) != (n > 0):
            raise Fail("symbol occurrences in %s: %s, should be %s" % (G.srepr(e), U.count_symbols(e), n))


def raw_replace(e, old, new):
    if structural(e, old):
        return new
    if not e.children():
        return e
    if isinstance(e, (E.Sum, E.Prod)):
        return G.raw(type(e), terms=[raw_replace(t, old, new) for t in e.terms])
    if isinstance(e, E.Power):
        return G.raw(E.Power, base=raw_replace(e.base, old, new), exponent=raw_replace(e.exponent, old, new))
    if isinstance(e, E.log):
        return G.raw(E.log, inner=raw_replace(e.inner, old, new), base=raw_replace(e.base, old, new))
    return G.raw(type(e), inner=raw_replace(e.inner, old, new))


def raw_replace_cls(e, classes, fns):
    if not e.children():
        return e
    if isinstance(e, (E.Sum, E.Prod)):
        return G.raw(type(e), terms=[raw_replace_cls(t, classes, fns) for t in e.terms])
    if isinstance(e, E.Power):
        return G.raw(E.Power, base=raw_replace_cls(e.base, classes, fns), exponent=raw_replace_cls(e.exponent, classes, fns))
    if isinstance(e, E.log):
        return G.raw(E.log, inner=raw_replace_cls(e.inner, classes, fns), base=raw_replace_cls(e.base, classes, fns))
    i = raw_replace_cls(e.inner, classes, fns)
    for c, f in zip(classes, fns):
        if isinstance(e, c):
            return f(i)
    return G.raw(type(e), inner=i)


@contract("C12", "replacement", ["replace", "replace_factory", "replace_factory_list", "kinder_replace", "kinder_replace_many", "replace_class"], 3)
class _:
    def gen(rng):
        e = gexpr(rng, rng.choice([1, 2, 3]), floats=0) if rng.random() < .6 else gtrig(rng)
        old = rng.choice(list(subterms(e))) if rng.random() < .85 else gexpr(rng, 1, floats=0)
        g = G.Gen(rng, names=("x", "y", "u"), floats=0)
        return [e, old, g.try_expr(rng.choice([0, 1, 1])), rng.choice(["replace", "kinder", "class"])]

    def check(args, rng):
        e, old, new, how = args
        if how == "class":
            classes = [E.tan, E.sec]
            mk = lambda c: (lambda i: G.raw(c, inner=i))
            want = raw_replace_cls(e, classes, [mk(E.cot), lambda i: G.raw(E.Power, base=G.raw(E.cos, inner=i), exponent=E.Rat(-1))])
            fn = lambda q: R.replace_class(q, classes, [E.cot, lambda i: 1 / E.cos(i)])
        elif how == "kinder":
            want = raw_replace(e, old, new)
            fn = lambda q: R.kinder_replace(q, lambda t: new if t == old else None)
        else:
            want = raw_replace(e, old, new)
            fn = lambda q: R.replace(q, old, new)
        envs = envs_for(rng, names_of(e, old, new), 8)
        spec = V(want)
        try:
            r = fn(e)
        except Timeout:
            raise
        except Exception as ex:
            if all(O.val(want, en) is None for en in envs):
                raise Skip()
            raise Fail("%s of %s by %s in %s raised %r" % (how, G.srepr(old), G.srepr(new), G.srepr(e), ex))
        same_value("%s of %s by %s in %s" % (how, G.srepr(old), G.srepr(new), G.srepr(e)), spec, r, envs, must_define=False)
        if how == "replace" and isinstance(old, E.Symbol) and old.name not in O.free_names(new) and old.name in O.free_names(r):
            raise Fail("replace left %s in %s" % (old, G.srepr(r)))
        if how == "kinder":
            r2, hit = R.kinder_replace(e, lambda t: new if t == old else None, verbose=True)
            if hit != any(structural(t, old) for t in subterms(e)):
                raise Fail("kinder_replace in %s reports hit=%s" % (G.srepr(e), hit))


# ---------------------------------------------------------------- C13
@contract("C13", "polynomial-conversion", ["to_const_polynomial", "_to_const_polynomial", "polynomial_to_expr", "rid_ending_zeros", "is_polynomial"], 2)
class _:
    def gen(rng):
        g = G.Gen(rng, floats=0, names=("x",))
        k = rng.random()
        x = E.Symbol("x")
        if k < .5:
            e = g.poly(x, 5)
        elif k < .8:
            e = E.Prod([g.poly(x, 2) for _ in range(rng.choice([1, 2, 3]))])
        elif k < .88:
            # expansion squares a root only after it has collected the coefficient
            n = rng.choice([2, 3, 3, 4])
            s = E.sqrt(g.poly(x, 1))
            e = (s + 1) ** n + (1 - s) ** n * rng.choice([1, 1, -1])
        else:
            e = gexpr(rng, 2, names=("x",), floats=0)
        return [e]

    def check(args, rng):
        e, = args
        x = E.Symbol("x")
        try:
            p = PO.to_const_polynomial(e, x)
        except AssertionError:
            raise Skip()
        if not PO.is_polynomial(e, x):
            raise Fail("is_polynomial(%s) is False although it converts" % G.srepr(e))
        for c in p:
            if isinstance(c, E.Expr) and c.contains(x):
                raise Fail("coefficient %s of %s contains the variable" % (c, G.srepr(e)))
        envs = envs_for(rng, {"x"}, 10)
        def spec(env, N):
            return O.ev(e, env, N)
        rv = G.raw(E.Sum, terms=[G.raw(E.Prod, terms=[c if isinstance(c, E.Expr) else E.Rat(c), G.raw(E.Power, base=x, exponent=E.Rat(i))]) for i, c in enumerate(p)] + [E.Rat(0)])
        same_value("coefficients %s of %s" % (list(map(str, p)), G.srepr(e)), spec, rv, envs)
        back = call("polynomial_to_expr", PO.polynomial_to_expr, p, x)
        same_value("polynomial_to_expr(%s)" % list(map(str, p)), spec, back, envs)
        lst = list(p) + [E.Rat(0)] * rng.choice([0, 1, 2])
        short = PO.rid_ending_zeros(np.array(lst))
        n = len(lst)
        while n and lst[n - 1] == 0:
            n -= 1
        if [str(v) for v in short] != [str(v) for v in lst[:n]]:
            raise Fail("rid_ending_zeros(%s) = %s" % (lst, short))


@contract("C13", "polynomial-division", ["PolynomialDivision.check", "PolynomialDivision.forward"], 2)
class _:
    def gen(rng):
        x = E.Symbol("x")
        g = G.Gen(rng, floats=0)
        num, den = g.poly(x, rng.choice([2, 3, 4, 5])), g.poly(x, rng.choice([1, 2, 3]))
        return [num, den]

    def check(args, rng):
        num, den = args
        x = E.Symbol("x")
        if den == 0:
            raise Skip()
        e = num / den
        node = T.Node(e, x)
        tr = T.PolynomialDivision()
        if not call("PolynomialDivision.check", tr.check, node):
            raise Skip()
        call("PolynomialDivision.forward", tr.forward, node)
        if not node.children:
            raise Skip()
        r = node.children[0].expr
        envs = envs_for(rng, {"x"}, 10)
        same_value("polynomial division of %s" % G.srepr(e), V(e), r, envs, must_define=False)
        # quotient + remainder/denominator with a remainder of smaller degree
        dd = deg(den, x)
        for t in (r.terms if isinstance(r, E.Sum) else [r]):
            if isinstance(t, E.Prod):
                n, d = t.numerator_denominator
                if d.contains(x) and deg(n, x) is not None and deg(d, x) is not None and deg(n, x) >= max(deg(d, x), 1):
                    raise Fail("polynomial division of %s left the improper fraction %s" % (G.srepr(e), t))


def deg(e, x):
    try:
        return len(PO.rid_ending_zeros(PO.to_const_polynomial(e, x))) - 1
    except Exception:
        return None


@contract("C13", "inverse-of-2x2", ["invert"], 1.5)
class _:
    def gen(rng):
        g = G.Gen(rng, floats=0)
        k = rng.random()
        m = [g.rat() if k < .7 else g.try_expr(rng.choice([0, 0, 1])) for _ in range(4)]
        if rng.random() < .15:
            m[3] = m[1] * m[2] / m[0] if m[0] != 0 else m[3]
        return [m]

    def check(args, rng):
        a, b, c, d = args[0]
        inv = call("invert", LA.invert, np.array([[a, b], [c, d]]))
        envs = envs_for(rng, names_of(args[0]), 8)
        det = lambda env, N: O.add(N, O.mul(N, O.ev(a, env, N), O.ev(d, env, N)),
                                   O.mul(N, Fraction(-1), O.mul(N, O.ev(b, env, N), O.ev(c, env, N))))
        if inv is None:
            for env in envs:
                try:
                    v = det(env, O.FLOAT)
                    big = sum(abs(O.mul(O.FLOAT, O.ev(p, env, O.FLOAT), O.ev(q, env, O.FLOAT))) for p, q in ((a, d), (b, c)))
                except O.Undef:
                    continue
                if O.is_exact(v) and v != 0 or not O.is_exact(v) and abs(v) > 1e-6 * (1 + big):
                    raise Fail("invert(%s) = None but the determinant is %s" % (G.srepr(args[0]), v))
            return
        cof = [[d, b], [c, a]]
        sgn = [[1, -1], [-1, 1]]
        for i in range(2):
            for j in range(2):
                def spec(env, N):
                    dv = det(env, N)
                    if O.near0(N, dv) or abs(dv) < 1e-9:
                        raise O.Undef("singular")
                    return O.mul(N, O.mul(N, Fraction(sgn[i][j]), O.ev(cof[i][j], env, N)), O.recip(N, dv))
                same_value("entry %d,%d of the inverse of %s" % (i, j, G.srepr(args[0])), spec, inv[i, j], envs, must_define=False)


@contract("C13", "partial-fractions", ["PartialFractions.check", "PartialFractions.forward"], 1.5)
class _:
    def gen(rng):
        x = E.Symbol("x")
        g = G.Gen(rng, floats=0)
        lin = lambda: g.rat() * x ** rng.choice([1, 1, 1, 2]) + g.rat()
        if rng.random() < .15:
            # a polynomial whose factors are not polynomials
            s, c = E.sqrt(g.poly(x, 1)), g.rat()
            return [g.rat(), s + c, s - c]
        return [g.poly(x, 1) if rng.random() < .7 else g.rat(), lin(), lin()]

    def check(args, rng):
        n, d1, d2 = args
        x = E.Symbol("x")
        if d1 == 0 or d2 == 0:
            raise Skip()
        e = n / (d1 * d2)
        node = T.Node(e, x)
        tr = T.PartialFractions()
        try:
            ok = tr.check(node)
        except ZeroDivisionError:
            raise Skip()
        except (ValueError, AssertionError) as ex:
            raise Fail("partial fractions of %s raises %s: %s instead of leaving it alone" % (G.srepr(e), type(ex).__name__, ex))
        if not ok:
            raise Skip()
        tr.forward(node)
        if not node.children:
            raise Skip()
        r = node.children[0].expr
        envs = envs_for(rng, {"x"}, 10)
        same_value("partial fractions of %s" % G.srepr(e), V(e), r, envs, must_define=False)


# ---------------------------------------------------------------- C14
@contract("C14", "compositions", ["generate_permutations"], 1)
class _:
    def gen(rng):
        return [rng.randint(0, 6), rng.randint(0, 7)]

    def check(args, rng):
        i, n = args
        if math.comb(n + i, i) > 3000:
            raise Skip()
        r = call("generate_permutations", CB.generate_permutations, i, n)
        s = set(map(tuple, r))
        want = (1 if n == 0 else 0) if i == 0 else math.comb(n + i - 1, i - 1)
        if len(r) != len(s) or len(s) != want or any(len(t) != i or sum(t) != n or min(t, default=0) < 0 for t in s):
            raise Fail("generate_permutations(%d, %d) gives %d lists, %d distinct, %d expected" % (i, n, len(r), len(s), want))
        # the lists are the caller's: what it does with them does not show in the next answer
        if type(r) is list and rng.random() < .5:
            for t in r:
                if type(t) is list:
                    t.append(-1)
            r.append("changed")
            r = call("generate_permutations", CB.generate_permutations, i, n)
            if len(r) != want or set(map(tuple, r)) != s:
                raise Fail("generate_permutations(%d, %d) gives %r after the caller changed an earlier answer" % (i, n, r[:4]))


@contract("C14", "multinomial", ["multinomial_coefficient"], 1)
class _:
    def gen(rng):
        xs = [rng.randint(0, 9) for _ in range(rng.randint(1, 6))]
        n = sum(xs) + (rng.randint(1, 6) if rng.random() < .3 else 0)
        return [xs, n]

    def check(args, rng):
        xs, n = args
        want, left = 1, n
        for x in xs:
            want *= math.comb(left, x)
            left -= x
        got = call("multinomial_coefficient", CB.multinomial_coefficient, xs, n)
        if got != want or type(got) is not int:
            raise Fail("multinomial_coefficient(%s, %d) = %s, should be %s" % (xs, n, got, want))


# ---------------------------------------------------------------- C15
def snap(e):
    if isinstance(e, (list, tuple)):
        return tuple(map(snap, e))
    if isinstance(e, dict):
        return tuple(sorted((k, snap(v)) for k, v in e.items()))
    if not isinstance(e, E.Expr):
        return e
    if isinstance(e, E.Symbol):
        return (id(e), "Symbol", e.name)
    if isinstance(e, E.Num):
        return (id(e), type(e).__name__, e.value)
    if isinstance(e, R.Any_):
        return (id(e), "Any_", e.key)
    if isinstance(e, (E.Sum, E.Prod)):
        return (id(e), type(e).__name__, tuple(snap(t) for t in e.terms))
    if isinstance(e, E.log):
        return (id(e), "log", snap(e.inner), snap(e.base))
    return (id(e), type(e).__name__, tuple(snap(c) for c in e.children()))


OPS = ["add", "mul", "pow", "div", "neg", "abs", "Sum", "Prod", "expand", "expand", "simplify", "diff", "subs", "evalf", "factor", "replace",
       "repr", "latex", "sin", "cos", "tan", "log", "log2", "Abs", "sqrt", "eq", "sort", "integral", "pts", "logs", "flatten", "match", "replcls", "fraction"]


@contract("C15", "no-mutation", ["*"], 1)
class _:
    def gen(rng):
        es = [gexpr(rng, rng.choice([0, 1, 2, 2])) if rng.random() < .55 else grand(rng) if rng.random() < .6 else gexpr(rng, 3) for _ in range(4)]
        if rng.random() < .5:
            es[1] = -es[0] if rng.random() < .5 else rng.choice([E.Power(E.Rat(2), es[0]), E.log(E.Symbol("x")), E.Power(E.e, E.log(E.Symbol("y"), 2))])
        return [es, [rng.choice(OPS) for _ in range(12)], [[rng.randrange(4), rng.randrange(4), rng.randrange(4)] for _ in range(12)]]

    def check(args, rng):
        es, ops, idx = args
        es = list(es)
        lst = [es[0], es[1], es[2], E.Rat(1)]
        sub = {"x": es[1], "y": es[2]}
        consts = (E.pi, E.e, dict(E.sin.special_values), dict(E.cos.special_values))
        pool = list(es)
        for op, (i, j, k) in zip(ops, idx):
            a, b, c = pool[i], pool[j], pool[k]
            ids = snap((pool, lst, sub, consts))
            r = None
            try:
                r = with_timeout(3, doop, op, a, b, c, lst, sub, rng)
            except Timeout:
                return
            except Exception:
                pass
            if snap((pool, lst, sub, consts)) != ids:
                raise Fail("operation %s on %s, %s, %s changed an existing expression" % (op, G.srepr(a), G.srepr(b), G.srepr(c)))
            if isinstance(r, E.Expr) and G.sane(r) and O.size(r) < 40 and rng.random() < .7:
                pool[rng.randrange(4)] = r


def doop(op, a, b, c, lst, sub, rng):
    x = E.Symbol("x")
    if op == "add":
        return a + b
    if op == "mul":
        return a * b
    if op == "pow":
        return a ** rng.choice([b, E.Rat(2), E.Rat(1, 2), E.Rat(-1), E.Rat(3)])
    if op == "div":
        return a / b
    if op == "neg":
        return -a
    if op == "abs":
        return abs(a)
    if op == "Sum":
        lst[:] = lst
        return E.Sum(lst)
    if op == "Prod":
        return E.Prod(lst)
    if op == "expand":
        return a.expand()
    if op == "simplify":
        return a.simplify()
    if op == "diff":
        return a.diff(x)
    if op == "subs":
        return a.subs(sub)
    if op == "evalf":
        return a.evalf({"x": E.Rat(2), "y": E.Rat(1, 3), "z": E.Rat(3)})
    if op == "factor":
        return a.factor()
    if op == "replace":
        return R.replace(a, b, c)
    if op == "repr":
        return repr(a)
    if op == "latex":
        return a.latex()
    if op in ("sin", "cos", "tan", "log", "Abs", "sqrt"):
        return getattr(E, op)(a)
    if op == "log2":
        return E.log(E.Power(E.Rat(2), a), 2) if rng.random() < .5 else E.log(a, 2)
    if op == "eq":
        return a == b
    if op == "sort":
        return E.Sum([c, b, a])
    if op == "integral":
        return I.check_integral_table(a, x)
    if op == "pts":
        return P.product_to_sum_unit(a)
    if op == "logs":
        return S.expand_logs(a)
    if op == "flatten":
        return E.Prod([a, E.Prod([b, c])])
    if op == "match":
        return R.eq(a, 1 + E.tan(A1) ** 2, up_to_factor=True, up_to_sum=isinstance(a, E.Sum))
    if op == "replcls":
        return R.replace_class(a, [E.sin], [lambda q: 1 / E.csc(q)])
    if op == "fraction":
        return S.rewrite_as_one_fraction(a)


@contract("C15", "integration-does-not-mutate", ["integrate"], .15)
class _:
    def gen(rng):
        from c_integ import gintegrand
        return [gintegrand(rng)]

    def check(args, rng):
        e, = args
        s = snap(e)
        try:
            with_timeout(4, I.integrate, e, E.Symbol("x"))
        except (Exception, Timeout):
            pass
        if snap(e) != s:
            raise Fail("integrate changed its argument %s" % G.srepr(e))


# ---------------------------------------------------------------- C16
@contract("C16", "equality-laws", ["Expr.__eq__", "Num.__eq__", "Symbol.__eq__"], 3)
class _:
    def gen(rng):
        a = gexpr(rng, rng.choice([0, 1, 2]))
        k = rng.random()
        if k < .4:
            b = G.rebuild(G.srepr(a))
        elif k < .7:
            b = mutate1(rng, a)
        else:
            b = gexpr(rng, rng.choice([0, 1, 2]))
        return [a, b]

    def check(args, rng):
        a, b = args
        if not a == a or not b == b or a != a:
            raise Fail("%s is not equal to itself" % G.srepr(a))
        ab, ba = a == b, b == a
        if bool(ab) != bool(ba):
            raise Fail("%s == %s is %s but the converse is %s" % (G.srepr(a), G.srepr(b), ab, ba))
        if (a != b) != (not ab):
            raise Fail("== and != agree on %s and %s" % (G.srepr(a), G.srepr(b)))
        if structural(a, b) and not ab:
            raise Fail("%s and %s have the same structure but compare unequal" % (G.srepr(a), G.srepr(b)))
        if ab:
            if O.free_names(a) != O.free_names(b):
                raise Fail("%s == %s but they have different variables" % (G.srepr(a), G.srepr(b)))
            same_value("%s == %s" % (G.srepr(a), G.srepr(b)), V(a), b, envs_for(rng, names_of(a, b), 6), must_define=not (O.has_float(a) or O.has_float(b)))


def mutate1(rng, e):
    """a structurally different expression that is close to e"""
    k = rng.random()
    if not e.children() or k < .15:
        if isinstance(e, E.Symbol):
            return E.Symbol({"x": "y", "y": "z", "z": "x"}.get(e.name, "x"))
        if isinstance(e, E.Rat):
            return rng.choice([E.Rat(e.value + 1), E.Rat(-e.value), E.Float(float(e.value)), E.Rat(e.value + Fraction(1, 10 ** rng.choice([9, 20, 40])))])
        return rng.choice([E.Rat(1), E.pi, E.e])
    if isinstance(e, (E.Sum, E.Prod)):
        ts = list(e.terms)
        i = rng.randrange(len(ts))
        if rng.random() < .2 and len(ts) > 2:
            del ts[i]
        else:
            ts[i] = mutate1(rng, ts[i])
        return G.raw(type(e), terms=ts)
    if isinstance(e, E.Power):
        b, x = e.base, e.exponent
        return G.raw(E.Power, base=mutate1(rng, b), exponent=x) if rng.random() < .5 else G.raw(E.Power, base=b, exponent=mutate1(rng, x))
    if isinstance(e, E.log):
        return G.raw(E.log, inner=mutate1(rng, e.inner), base=e.base) if rng.random() < .6 else G.raw(E.log, inner=e.inner, base=E.Rat(7))
    c = rng.choice([type(e), type(e), E.sin, E.cos, E.Abs])
    return G.raw(c, inner=mutate1(rng, e.inner) if c is type(e) else e.inner)


@contract("C16", "number-equality", ["Num.__eq__", "E.__eq__", "Expr.__eq__"], .6)
class _:
    def gen(rng):
        a = Fraction(rng.randint(-50, 50), rng.choice([1, 1, 2, 3, 7, 10]))
        if rng.random() < .3:
            a = Fraction(rng.randint(-10**30, 10**30), rng.choice([1, 3, 10**12]))
        b = a if rng.random() < .4 else a + Fraction(rng.choice([1, -1]), rng.choice([1, 10**6, 10**15, 10**17, 10**30]))
        return [E.Rat(a), E.Rat(b)]

    def check(args, rng):
        a, b = args
        same = a.value == b.value
        for l, r in [(a, b), (b, a), (a, b.value), (b, a.value), (b.value, a)]:
            if bool(l == r) != same or bool(l != r) == same:
                raise Fail("%s == %s is %s" % (l, r, l == r))
        if b.value.denominator == 1 and bool(a == int(b.value)) != same:
            raise Fail("%s == %s (int) is %s" % (a, b.value, a == int(b.value)))
        for l, r in [(a, b), (b, a)]:
            if (bool(l < r), bool(l <= r), bool(l > r), bool(l >= r)) != (l.value < r.value, l.value <= r.value, l.value > r.value, l.value >= r.value):
                raise Fail("order of %s and %s is wrong" % (l, r))
        x = E.Symbol("x")
        for w in (x, E.pi, E.e, x + a, E.sin(x), E.Power(E.Rat(2), E.Rat(1, 2))):
            if a == w or w == a:
                raise Fail("%s == %s" % (a, w))


@contract("C16", "equality-up-to-variable", ["eq_with_var"], 2)
class _:
    def gen(rng):
        a = gexpr(rng, rng.choice([0, 1, 2]), floats=0)
        v, w = rng.choice("xyz"), rng.choice("xyzu")
        k = rng.random()
        b = raw_subs(a, {v: E.Symbol(w)}) if k < .6 else gexpr(rng, rng.choice([0, 1]), floats=0)
        if k > .3 and k < .6:
            b = mutate1(rng, b)
        return [a, v, b, w]

    def check(args, rng):
        a, v, b, w = args
        got = U.eq_with_var((a, E.Symbol(v)), (b, E.Symbol(w)))
        want = same_up_to(a, E.Symbol(v), b, E.Symbol(w))
        if bool(got) != want:
            raise Fail("eq_with_var(%s, %s; %s, %s) is %s" % (G.srepr(a), v, G.srepr(b), w, got))
