"""usage: python3-vt selftest.py [laws|interp]

laws:   every law instance that the prover adds while a sample of the tasks runs is evaluated with concrete numbers.
interp: the interpreter executes plain Python functions on concrete arguments; the results are compared with CPython's.
"""
import math
import random
import sys
import time
from fractions import Fraction

import z3
import tasks
import prove
import engine
from terms import ATOMS, Poly, EU, PI

SPECIAL = [0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 0.5, -0.5, 1.5, math.pi, math.e, 1 / 3]


class Skip(Exception):
    pass


class Model:
    """an arbitrary assignment of numbers to the ghosts; functions outside their domain get an arbitrary value"""

    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def rnd(self, *key):
        r = random.Random(repr((self.seed,) + key))
        return r.choice(SPECIAL) if r.random() < 0.6 else r.uniform(-4, 4)

    def atom(self, a):
        if a not in self.memo:
            self.memo[a] = v = self._atom(a)
            if isinstance(v, complex) or math.isnan(v) or abs(v) > 1e12:
                raise Skip
        return self.memo[a]

    def poly(self, p):
        t = 0.0
        for mono, c in p.m.items():
            x = float(c)
            for a, n in mono:
                x *= self.atom(a) ** n
            t += x
        if math.isnan(t) or abs(t) > 1e12:
            raise Skip
        return t

    def _atom(self, a):
        key = ATOMS[a]
        h = key[0]
        if h == "c":
            return {"pi": math.pi, "e": math.e}[key[1]]
        if h == "g":
            return self.rnd("g", a)
        if h in ("SUM", "PROD", "allpos") or any(not isinstance(k, Poly) for k in key[1:]):
            raise Skip
        xs = [self.poly(k) for k in key[1:]]
        xs = [0.0 if abs(x) < 1e-11 else x for x in xs]
        odd = self.rnd("undef", h, *[round(x, 6) for x in xs])
        try:
            if h == "inv":
                return 1 / xs[0] if xs[0] else 0.0
            if h == "pow":
                b, x = xs
                if b > 0:
                    return b ** x
                n = round(x)
                if abs(n - x) < 1e-9:
                    return (1.0 if n == 0 else 0.0) if b == 0 else float(b) ** n
                return (0.0 if x > 0 else odd) if b == 0 else odd
            if h == "ln":
                return math.log(xs[0]) if xs[0] > 0 else odd
            if h in ("sin", "cos", "atan"):
                return getattr(math, h)(xs[0])
            if h == "abs":
                return abs(xs[0])
            if h in ("asin", "acos"):
                return getattr(math, h)(xs[0]) if -1 <= xs[0] <= 1 else odd
            if h == "fact":
                n = round(xs[0])
                return float(math.factorial(n)) if abs(n - xs[0]) < 1e-9 and 0 <= n < 15 else odd
            if h == "floor":
                return float(math.floor(xs[0]))
        except OverflowError:
            raise Skip
        raise Skip

    def pred(self, i):
        k = engine.PKEYS[i]
        if k[0] in ("isint", "even"):
            x = self.poly(k[1])
            x = x / 2 if k[0] == "even" else x
            d = abs(x - round(x))
            if 1e-11 < d < 1e-6:
                raise Skip
            return d <= 1e-11 * max(1, abs(x)) or d <= 1e-11
        raise Skip

    def num(self, t):
        if z3.is_rational_value(t):
            return float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.atom(int(t.decl().name()[1:]))
        xs = [self.num(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return sum(xs)
        if k == z3.Z3_OP_MUL:
            return math.prod(xs)
        if k == z3.Z3_OP_SUB:
            return xs[0] - sum(xs[1:])
        if k == z3.Z3_OP_UMINUS:
            return -xs[0]
        raise Skip

    def holds(self, f):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.decl().kind()
        cs = f.children()
        if k == z3.Z3_OP_NOT:
            return not self.holds(cs[0])
        if k == z3.Z3_OP_AND:
            return all([self.holds(c) for c in cs])
        if k == z3.Z3_OP_OR:
            return any([self.holds(c) for c in cs])
        if k == z3.Z3_OP_IMPLIES:
            return not self.holds(cs[0]) or self.holds(cs[1])
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.pred(int(f.decl().name()[1:]))
        if k == z3.Z3_OP_EQ and cs[0].sort() == z3.BoolSort():
            return self.holds(cs[0]) == self.holds(cs[1])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            x, y = self.num(cs[0]), self.num(cs[1])
            if max(abs(x), abs(y)) > 1e9:
                raise Skip
            close = abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))
            if not close and abs(x - y) <= 1e-5 * max(1, abs(x), abs(y)):
                raise Skip
            return {z3.Z3_OP_EQ: close, z3.Z3_OP_LE: close or x < y, z3.Z3_OP_GE: close or x > y,
                    z3.Z3_OP_LT: not close and x < y, z3.Z3_OP_GT: not close and x > y}[k]
        raise Skip


MEASURED = ("measure_facts", "measure_pairs", "allpos", "combos")


def laws(budget=600):
    seen, bad, checked, evaluated, skipped = set(), [], 0, 0, 0
    got = []
    real = prove.Query.axiom

    def axiom(self, f):
        who = sys._getframe(1).f_code.co_name
        if who not in MEASURED and not z3.is_true(f) and f.get_id() not in seen:
            seen.add(f.get_id())
            got.append((who, f))
        return real(self, f)
    prove.Query.axiom = axiom
    t0 = time.time()
    ts = [t for p in sorted(tasks.TASKS) if p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C14") for t in tasks.TASKS[p]]
    random.Random(1).shuffle(ts)
    ran = 0
    for t in ts:
        if time.time() - t0 > budget:
            break
        got.clear()
        seen.clear()
        if t.weight > 20:
            continue
        tasks.run_task(t)
        ran += 1
        for who, f in got:
            hit = 0
            for s in range(25):
                try:
                    m = Model(s)
                    ok = m.holds(f)
                except Skip:
                    continue
                except RecursionError:
                    break
                hit += 1
                if not ok:
                    # an equality decided in floating point: confirm with a second look at the size of the error
                    bad.append((t.name, who, s, str(f)[:300], {n: (tasks.showatom(n), m.memo.get(int(n[1:]))) for n in prove.zconsts(f) if n[0] == "a"}))
                    break
            checked += 1
            evaluated += hit
            skipped += not hit
    prove.Query.axiom = real
    print("laws: %d tasks, %d law instances, %d evaluations, %d instances about lists or out of range skipped, %d violated (%.0f s)" % (ran, checked, evaluated, skipped, len(bad), time.time() - t0))
    for b in bad[:20]:
        print("  ", b)
    return not bad


# ------------------------------------------------------------------ the interpreter
SAMPLES = '''
def f01(n):
    r, i = 0, 0
    while i < n:
        i += 1
        if i % 3 == 0:
            continue
        if i > 10:
            break
        r += i
    else:
        r = -r
    return r
def f02(n):
    return [x * y for x in range(n) for y in range(x) if (x + y) % 2]
def f03(n):
    d = {}
    for i in range(n):
        d.setdefault(i % 3, []).append(i)
    return {k: sum(v) for k, v in d.items()}
def f04(n):
    try:
        if n % 2:
            raise ValueError("odd")
        return "even"
    except ValueError as e:
        return str(e)
    finally:
        pass
def f05(n):
    def g(k, acc=2):
        nonlocal t
        t += acc
        return k + t
    t = 1
    return [g(i) for i in range(n)], t
def f06(n, *a, k=3, **kw):
    return (n, a, k, sorted(kw.items()))
def f06b(n):
    return f06(n, 1, 2, k=n, z=4), f06(*[n, n + 1], **{"k": 5})
def f07(n):
    def gen():
        for i in range(n):
            yield i
            yield -i
    return list(gen()), sum(gen()), max(gen(), default=None)
def f08(n):
    l = list(range(n))
    return l[1:], l[:-1], l[::2], l[-2:], l[::-1], (l[0] if l else None)
def f09(n):
    a, *b = list(range(n + 1))
    c, (d, e) = n, (n + 1, n + 2)
    return a, b, c, d, e
def f10(n):
    return any(i > 3 for i in range(n)), all(i < 3 for i in range(n)), n and 5, n or 7, not n, 1 < n < 5, n if n > 2 else -n
def f11(n):
    from fractions import Fraction
    return Fraction(n, 6) + Fraction(1, 3), Fraction(n, 4) * 2, Fraction(7, 3) // 1, n // 4, -n // 4, n % 5, -n % 5, n ** 3, abs(-n), divmod(n, 3)
def f12(n):
    return list(zip(range(n), "abc")), list(enumerate("ab", 1)), sorted([3, n, 1]), sorted([3, n, 1], key=lambda x: -x), list(reversed([1, n]))
def f13(n):
    l = [1, 2, 3]
    m = l
    m.append(n)
    l2 = l + [9]
    l2.pop()
    l2.extend([n])
    l2[0] = n
    del l2[1]
    return l, l2, l is m, n in l, l.index(n), l.count(n), len(l)
def f14(n):
    s = 0
    for i in range(n):
        for j in range(n):
            if j == i:
                break
        else:
            s += 100
            continue
        s += j
    return s
def f15(n):
    import math
    import itertools
    import functools
    return math.comb(n + 3, 2), math.factorial(n), math.isqrt(n * n + 1), list(itertools.product([0, 1], repeat=2)), list(itertools.combinations(range(n), 2)), functools.reduce(lambda a, b: a * b, range(1, n + 1), 1), math.gcd(n, 6)
def f16(n):
    class K:
        def __init__(self, v):
            self.v = v
        @property
        def w(self):
            return self.v + 1
        def __eq__(self, o):
            return self.v == o.v
    return 0
def f17(n):
    x = {"a": 1, **({"b": n} if n else {})}
    y = [*range(n), *[5]]
    return x, y, x.get("b", 9), list(x.keys()), list(x.values()), {**x, "c": 2}
def f18(n):
    return isinstance(n, int), isinstance(n, (str, float)), type(n) is int, hasattr(n, "nope"), max(n, 2), min([n, 2, 7]), sum([n, 1], 10), round(2.5), int(7.9), bool(n)
def f19(n):
    return "%d-%s" % (n, "x"), f"{n}+{n:d}", "a" * n, ",".join(["p", "q"]), "abc"[1:], "x" + str(n)
def f20(n):
    r = []
    i = n
    while True:
        i -= 1
        if i < 0:
            return r
        r.insert(0, i * i)
def f21(n):
    total = lambda *xs: sum(xs)
    return total(1, 2, n), (lambda a, b=n: a + b)(1)
def f22(n):
    if (k := n * 2) > 4:
        return k
    return -k
'''


def plain(I, v):
    import vals
    import world
    if isinstance(v, vals.NV):
        c = v.p.const()
        if c is None:
            raise Skip
        return int(c) if c.denominator == 1 else c
    if isinstance(v, (tuple, list)):
        return [plain(I, x) for x in v]
    if isinstance(v, (vals.SymStr, vals.BV)):
        raise Skip
    if isinstance(v, world.Perm):
        return {"any order": sorted(plain(I, x) for x in I.known_items(v))}
    if isinstance(v, vals.DObj):
        v = v.d
    if isinstance(v, (vals.LObj,)):
        return [plain(I, x) for x in I.known_items(v)]
    if isinstance(v, dict):
        return {plain(I, k): plain(I, x) for k, x in v.items()}
    if hasattr(v, "items") and not callable(v.items):
        v = v.items
        return {plain(I, k): plain(I, x) for k, x in (v.items() if isinstance(v, dict) else v)}
    return v


def same(a, b):
    if isinstance(a, dict) and list(a) == ["any order"]:
        return isinstance(b, list) and sorted(b) == a["any order"]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def norm(v):
    if isinstance(v, (tuple, list)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {norm(k): norm(x) for k, x in v.items()}
    return v


def interp_check():
    import importlib.util
    import os
    import shutil
    import tempfile
    import load
    from interp import Interp
    from engine import ENG
    import spec
    d = tempfile.mkdtemp()
    path = os.path.join(d, "samples.py")
    with open(path, "w") as f:
        f.write(SAMPLES)
    sp = importlib.util.spec_from_file_location("samples", path)
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    isr = load.is_repo
    import types
    import interp as im
    ours = lambda fn: isr(fn) or isinstance(fn, types.FunctionType) and fn.__code__.co_filename == path
    for m in [load] + [m for m in list(sys.modules.values()) if getattr(m, "is_repo", None) is isr]:
        m.is_repo = ours
    agree = differ = unsup = 0
    for name in sorted(n for n in dir(mod) if n[0] == "f" and n[1:].rstrip("b").isdigit()):
        for n in (0, 1, 2, 4, 5, 7):
            try:
                want = ("value", norm(getattr(mod, name)(n)))
            except Exception as e:
                want = ("raises", type(e).__name__)
            got = []

            def body():
                try:
                    I = Interp()
                    spec.install(I)
                    got.append(("value", norm(plain(I, I.call(getattr(mod, name), [n], {})))))
                except im.Raised as e:
                    got.append(("raises", type(e.exc).__name__))
            ENG.__init__()
            ENG.deadline = time.time() + 30
            ENG.max_paths = 50
            try:
                ENG.explore(body)
                ok = same(got[0], want) if len(got) == 1 else False
            except Skip:
                unsup += 1
                continue
            except im.Unsupported as e:
                unsup += 1
                print("   not supported: %s(%d): %s" % (name, n, e))
                continue
            agree += ok
            differ += not ok
            if not ok:
                print("   DIFFERENT: %s(%d): native %r interpreter %r" % (name, n, want, got))
    shutil.rmtree(d)
    print("interp: %d calls agree, %d differ, %d outside the subset" % (agree, differ, unsup))
    return not differ


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    what = sys.argv[1:] or ["interp", "laws"]
    ok = True
    if "interp" in what:
        ok &= interp_check()
    if "laws" in what:
        ok &= laws(float(next((w for w in what if w.isdigit()), 600)))
    sys.exit(0 if ok else 1)
