"""C12: replacement and search inside expressions.  The functions are recursive: the recursive call is replaced by the contract."""
import tasks
from tasks import *
import load
from t_struct import ALLC
RX = load.simpy.regex


def Task(*a, **k):
    k.setdefault("ghosts", ("v",))
    return tasks.Task(*a, **k)


class Fn:
    """an arbitrary function given by its contract"""
    def __init__(self, f):
        self.f = f

    def make(self):
        return BoundM(interp.Meth(lambda I, me, *a, **k: self.f(I, *a, **k)), self)


# ------------------------------------------------------------------ replacement
# The replacement takes an expression with value v to one with value s: s is v itself when equals are replaced, and the
# value at the changed assignment when a variable is replaced.
def repl_result(I, se, tag="replaced"):
    r = W.fresh(tag)
    W.setdef(r, "v", ghost("s", se))
    ENG.fact(imp(ok(se, "s"), ok(r)))
    ENG.fact(imp(pp(se, "s"), pp(r)))
    ENG.fact(imp(rint(se), rint(r)))
    return r


def no_rule(I, se):
    """nothing replaces a leaf: its value is not changed"""
    ENG.fact(ghost("s", se).eq(V(se)))


def start(cname):
    se = sym(cname)
    ENG.fact(ok(se, "s"))
    if cname in LEAVES:
        no_rule(None, se)
    return se


def t_factory(cname, k):
    def fn(I):
        se = start(cname)
        decided = {}

        def cond(j):
            def f(I, x):
                if not isinstance(x, SE):
                    raise Unsupported("condition")
                if j == 0:
                    decided.setdefault(x.uid, [])
                r = ENG.choose([(("cond", j, x.uid), TRUE, None), (("nocond", j, x.uid), TRUE, None)]) == 0
                decided.setdefault(x.uid, []).append(r)
                if len(decided[x.uid]) == k and not any(decided[x.uid]) and "Symbol" in classes(x) and cname == "Symbol":
                    no_rule(I, x)
                return r
            return Fn(f).make()

        def perform(I, x):
            if not decided.get(x.uid) or not decided[x.uid][-1]:
                oblige("only what satisfies the condition is replaced", FALSE)
            return repl_result(I, x)
        first = []

        def rec(I, f, args, kw):
            if not first:
                first.append(1)
                return I.run_closure(f, args, kw)
            return repl_result(I, (list(args) + list(kw.values()))[0])
        I.closures["regex.replace_factory_list.<locals>._replace"] = rec
        conds = LObj([("v", cond(j)) for j in range(k)], len(ENG.levels))
        perfs = LObj([("v", Fn(perform).make()) for j in range(k)], len(ENG.levels))
        if k == 1:
            g = call_real(I, RX.replace_factory, [conds.segs[0][1], perfs.segs[0][1]])
        else:
            g = call_real(I, RX.replace_factory_list, [conds, perfs])
        r = W.to_se(I, I.call(g, [se]))
        if not first:
            raise Unsupported("no nested replacement function")
        oblige("the value after the replacement", V(r).eq(ghost("s", se)))
    Task("C12", "regex.replace_factory_list (%s, %d rules)" % (cname, k), fn, used=("v", "s"), ghosts=("v", "s"))


for c_ in ALLC:
    for k_ in (1, 2):
        t_factory(c_, k_)


def factory_contract(I, on):
    """replace_factory(_list): a function that applies `on` to what satisfies a condition"""
    @fn_contract(I, RX.replace_factory)
    def c(I, args, kw):
        conds, performs = [args[0]], [args[1]]

        def g(I, x):
            return on(I, conds, performs, x)
        return Fn(g).make()


def t_replace(I):
    """replacing a variable is substitution, replacing a sub-expression by an equal one keeps the value"""
    e = sym(None, "self")
    ENG.fact(ok(e, "s"))
    old, new = sym(None, "old"), sym(None, "new")
    ENG.fact(V(new).eq(ghost("s", old)))
    ENG.fact(imp(ok(old, "s"), ok(new)))

    def on(I, conds, performs, x):
        # the condition holds exactly at sub-expressions equal to old; the new value there is that of new
        y = W.fresh("sub")
        hit = I.truth(I.call(conds[0], [y]))
        same = I.truth(I.compare("__eq__", y, old))
        oblige("the condition is equality with old", z3.BoolVal(hit == same))
        if hit:
            oblige("the replacement is new", V(W.to_se(I, I.call(performs[0], [y]))).eq(ghost("s", old)))
        return repl_result(I, x)
    factory_contract(I, on)
    r = W.to_se(I, call_real(I, RX.replace, [e, old, new]))
    oblige("the value after the replacement", V(r).eq(ghost("s", e)))


Task("C12", "regex.replace", t_replace, used=("v", "s"), ghosts=("v", "s"))


KQ = "regex.kinder_replace_many.<locals>._replace"


def t_kinder(cname, k, cond, verbose):
    def fn(I):
        se = sym(cname)
        ENG.fact(ok(se))
        hits = []

        def perform(I, x):
            i = ENG.choose([(("perform", n, x.uid), TRUE, None) for n in ("none", "false", "new")])
            if i == 0:
                return None
            if i == 1:
                return False
            hits.append(x)
            r = W.fresh("new")
            ENG.fact(V(r).eq(V(x)))
            ENG.fact(ok(r))
            return r
        first = []

        def rec(I, f, args, kw):        # inside: the case that nothing more is hit
            if not first:
                first.append(1)
                return I.run_closure(f, args, kw)
            x = (list(args) + list(kw.values()))[0]
            r = W.fresh("replaced")
            W.setdef(r, "v", V(x))
            ENG.fact(ok(r))
            ENG.fact(imp(pp(x), pp(r)))
            ENG.fact(imp(rint(x), rint(r)))
            return r
        I.closures[KQ] = rec
        kw = {}
        if cond:
            kw["overarching_cond"] = Fn(lambda I, x: ENG.choose([(("over", x.uid), TRUE, None), (("notover", x.uid), TRUE, None)]) == 0).make()
        if verbose:
            kw["verbose"] = True
        perfs = [Fn(perform).make() for _ in range(k)]
        if k == 1:
            r = call_real(I, RX.kinder_replace, [se, perfs[0]], kw)
        else:
            r = call_real(I, RX.kinder_replace_many, [se, LObj([("v", p) for p in perfs], len(ENG.levels))], kw)
        if verbose:
            items = I.known_items(r)
            oblige("a pair", z3.BoolVal(len(items) == 2))
            oblige("a hit is reported exactly when something is replaced", z3.BoolVal(bool(I.truth(items[1])) == bool(hits)))
            r = items[0]
        if not first:
            raise Unsupported("no nested replacement function")
        oblige("the value stays", V(W.to_se(I, r)).eq(V(se)))
    Task("C12", "regex.kinder_replace_many (%s, %d rules%s%s)" % (cname, k, ", condition" if cond else "", ", verbose" if verbose else ""), fn)


for c_ in ALLC:
    t_kinder(c_, 1, False, False)
    t_kinder(c_, 3, True, True)


def t_replcls(cname, cls):
    """functions of the given classes are replaced wherever they are, also inside one another"""
    def fn(I):
        se = start(cname)
        if cname == "Symbol":
            no_rule(I, se)
        made = []

        def make(c):
            def f(I, y):
                if not isinstance(y, SE):
                    raise Unsupported("argument of the new function")
                r = W.fresh("new")
                W.setdef(r, "v", A("g", "new function", c, y.uid))
                ENG.fact(ok(r))
                made.append((c, y, r))
                return r
            return Fn(f).make()
        first = []

        def rec(I, args, kw):
            x = args[0]
            if not first:
                first.append(1)
                return NotImplemented
            return repl_result(I, x)
        fn_contract(I, RX.replace_class)(rec)
        r = W.to_se(I, I.call(RX.replace_class, [se, LObj([("v", getattr(X, c)) for c in cls], len(ENG.levels)), LObj([("v", make(c)) for c in cls], len(ENG.levels))]))
        if cname in cls:
            # (an instance of one of the classes: the new function of its class is applied to the inner expression after the replacement)
            oblige("a function of the class is replaced", z3.BoolVal(any(r is m for _, _, m in made)))
            for c, y, m in made:
                oblige("by the function for its class", z3.BoolVal(c == cname))
                oblige("the argument after the replacement", V(y).eq(ghost("s", fld(se, "inner"))))
            return
        oblige("nothing else is replaced", z3.BoolVal(not made))
        # where none of the classes occurs, nothing changes
        absent = conj(*[neg(pred("has", c, se.uid)) for c in cls])
        ENG.fact(imp(absent, ghost("s", se).eq(V(se))))
        oblige("the value after the replacement", V(r).eq(ghost("s", se)))
    Task("C12", "regex.replace_class (%s; %s)" % (cname, ", ".join(cls)), fn, used=("v", "s"), ghosts=("v", "s"))


for c_ in ALLC:
    t_replcls(c_, ["tan", "csc", "cot", "sec"])
    if c_ in FUNCS and c_ != "log":
        t_replcls(c_, [c_])


# ------------------------------------------------------------------ counting and searching
def cnt(se, cls=None):
    return A("g", "cnt", se.uid)


def cnt_unfold(se, cname, hit):
    """the number of outermost places where the condition holds, by the structure of the class"""
    if hit:
        return ONE
    if cname in ("Sum", "Prod"):
        b = W.terms_bag(se)
        return segsum(b, ELEM(b), A("g", "cnt", ELEM(b)))
    t = ZERO
    for f in W.FIELDSOF.get(cname, []):
        if f in ("base", "exponent", "inner"):
            t = t + cnt(spec.fld(se, f))
    return t


def t_search(name, cname, mode):
    def fn(I):
        se = sym(cname)
        f = getattr(RX, name)
        hits = {}

        def holds(I, x):
            if x.uid not in hits:
                hits[x.uid] = ENG.choose([(("cond", x.uid), TRUE, None), (("nocond", x.uid), TRUE, None)]) == 0
            return hits[x.uid]
        first = []

        def rec(I, args, kw):
            if not first:
                first.append(1)
                return NotImplemented
            x = args[0]
            p = cnt(x)
            ENG.fact(isint(p))
            ENG.fact(P(0).le(p))
            if mode == "count":
                return NV(p, "int")
            i = ENG.choose([(("in", x.uid), P(1).le(p), None), (("notin", x.uid), p.eq(0), None)])
            ENG.fact(P(1).le(p) if i == 0 else p.eq(0))
            return i == 0
        fn_contract(I, f)(rec)
        if name in ("general_count", "general_contains"):
            r = I.call(f, [se, Fn(holds).make()])
            hit = hits.get(se.uid)
        elif name == "contains_cls":
            k = getattr(X, "sin" if cname != "sin" else "cos")
            r = I.call(f, [se, k])
            hit = False
        else:
            # an occurrence is an equal sub-expression of the same class (1 and 1.0 are equal numbers, not occurrences)
            q = sym(cname, "query")
            r = I.call(f, [se, q])
            hit = I.truth(I.compare("__eq__", se, q))
        if hit is None:
            raise Unsupported("the condition is not asked")
        want = cnt_unfold(se, cname, hit)
        if mode == "count":
            oblige("the number of occurrences", nv(r)[0].eq(want))
        else:
            b = W.terms_bag(se)
            oblige("found exactly what is there", P(1).le(want) if I.truth(r) else want.eq(0))
    Task("C12", "regex.%s (%s)" % (name, cname), fn)


def t_clsitself(cname):
    def fn(I):
        se = sym(cname)
        for k in getattr(X, cname).__mro__:
            if k.__module__.startswith("simpy"):
                oblige("an instance is found", z3.BoolVal(I.truth(call_real(I, RX.contains_cls, [se, k]))))
    Task("C12", "regex.contains_cls (%s itself)" % cname, fn)


for c_ in ALLC:
    t_search("general_count", c_, "count")
    t_search("count", c_, "count")
    t_search("general_contains", c_, "contains")
    t_search("contains_cls", c_, "contains")
    t_clsitself(c_)

D = tasks.DISCHARGES
for n_ in ("general_count", "count", "general_contains"):
    D["regex." + n_] = ["regex.%s (%s)" % (n_, c) for c in ALLC]
D["regex.contains_cls"] = ["regex.contains_cls (%s)" % c for c in ALLC] + ["regex.contains_cls (%s itself)" % c for c in ALLC]
D["regex.replace_factory"] = ["regex.replace_factory_list (%s, %d rules)" % (c, k) for c in ALLC for k in (1, 2)]
D["regex.kinder_replace"] = ["regex.kinder_replace_many (%s, 1 rules)" % c for c in ALLC]
D["regex.kinder_replace_many"] = ["regex.kinder_replace_many (%s, 3 rules, condition, verbose)" % c for c in ALLC]
D["regex.replace_class"] = ["regex.replace_class (%s; tan, csc, cot, sec)" % c for c in ALLC]


# ------------------------------------------------------------------ the variables of an expression
class Gathered(Virt):
    """a collection given by an arbitrary element; once: equal names are one element"""
    def __init__(self, make, once=False):
        self.make, self.once = make, once

    def ordered(self, I):
        return self

    def aslist(self, I):
        return self


class Var(Virt):
    """a variable with a given name"""
    def __init__(self, name):
        self.text = name

    def attr(self, I, name):
        if name == "name":
            return self.text


def t_symbols(I):
    """the variables of an expression are those of its parts, each of them once"""
    se = sym(None, "self")
    kid = sym(None, "child")
    name = SymStr(("name", "of a variable of the child"))
    W.VIRTUAL["children"] = lambda I, me: BoundM(interp.Meth(lambda I, me: Gathered(lambda: kid), "children"), me)
    W.VIRTUAL["symbols"] = lambda I, me: BoundM(interp.Meth(lambda I, me: Gathered(lambda: Var(name)) if me is kid else Gathered(lambda: Var(SymStr(None))), "symbols"), me)
    seen = []

    @cls_contract(I, X.Symbol, "expr.Symbol")
    def symbol(I, args, kw):
        return Var((list(args) + list(kw.values()))[0])

    def comp(I, n, env):
        e = env.child()
        srcs = []
        for g in n.generators:
            src = I.ev(g.iter, e)
            if not isinstance(src, Gathered):
                raise Unsupported("a collection of another kind")
            srcs.append(src)
            I.assign(g.target, src.make(), e)
            if not all(I.truth(I.ev(c, e)) for c in g.ifs):
                oblige("no variable is left out", FALSE)
                raise PathEnd()
        x = I.ev(n.elt, e)
        once = type(n).__name__ == "SetComp" and isinstance(x, SymStr) or len(srcs) == 1 and srcs[0].once
        seen.append(n)
        return Gathered(lambda: x, once)
    q = "expr.Expr._symbols"
    I.comps = dict(I.comps or {})
    I.comps[q] = comp
    r = call_real(I, X.Expr._symbols, [se])
    if not isinstance(r, Gathered):
        raise Unsupported("the variables in another form")
    x = r.make()
    oblige("the elements are the variables of the parts", z3.BoolVal(isinstance(x, Var) and x.text is name))
    oblige("each variable once", z3.BoolVal(r.once))


Task("C12", "expr.Expr._symbols", t_symbols)
