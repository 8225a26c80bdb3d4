"""C08: integration by parts, going backwards in the tree.

A node below an integration by parts (transform ByParts) is the filler P made by an earlier application of the rule to the
same problem: its children are the leaf with the part u v and the node C with what was left to integrate, and d(u v) plus
the integrand of C is the integrand of P (obligation of the ordinary case below)."""
import ast
import sys
import tasks
from tasks import *
import load
import loops
import spec
import t_c08
from t_c08 import TM, IM, Task, mknode, start, method_of, same, solve_child, same_value
from vals import Obj
BP = TM.ByParts
NODE = TM.Node


def static(name):
    return BP.__dict__[name].__func__


def c_dv(I):
    """integrating without heuristics: nothing, or an antiderivative"""
    @fn_contract(I, static("_integrate_dv_check"))
    def c(I, args, kw):
        x = W.to_se(I, args[0])
        if not same(args[1], VAR):
            raise Unsupported("another variable")
        if ENG.choose([(("no antiderivative", x.uid), TRUE, None), (("antiderivative", x.uid), TRUE, None)]) == 0:
            return None
        r = W.fresh("v")
        ENG.fact(ok(r))
        ENG.fact(dok(r))
        ENG.fact(ghost("d", r).eq(V(x)))
        return r


def c_parents_check(I):
    """True only when what is left is not the problem itself"""
    @fn_contract(I, static("_parents_exprs_check"))
    def c(I, args, kw):
        n, du, v = args
        if ENG.choose([(("allowed", ENG.uid("c")), TRUE, None), (("repeats", ENG.uid("c")), TRUE, None)]) == 1:
            return False
        ENG.ctx.notes["not itself"] = True
        return True


def above(I, n):
    """the last integration by parts above the problem, if any: P with its children uv and C"""
    @fn_contract(I, static("_get_last_byparts_parent"))
    def c(I, args, kw):
        if args[0] is not n:
            raise Unsupported("the parents of another node")
        if "above" not in ENG.ctx.notes:
            if ENG.choose([(("no integration by parts above",), TRUE, None), (("an integration by parts above",), TRUE, None)]) == 0:
                ENG.ctx.notes["above"] = None
            else:
                pe, ce, uv = (sym(None, t) for t in ("earlier integrand", "left to integrate", "earlier uv"))
                p = mknode(pe, VAR, Obj(BP, len(ENG.levels)), None, "AND", filler=True)
                part = mknode(pe, VAR, Obj(TM.Additivity, len(ENG.levels)), p, "SOLUTION", solution=uv, filler=True)
                left = mknode(ce, VAR, Obj(TM.Additivity, len(ENG.levels)), p)
                for y in (pe, ce, uv):
                    ENG.fact(ok(y))
                    ENG.fact(dok(y))
                ENG.fact(neg(V(pe).eq(0)))
                ENG.fact((ghost("d", uv) + V(ce)).eq(V(pe)))
                p.attrs["_children"] = LObj([("v", part), ("v", left)], len(ENG.levels))
                p.attrs["is_solved"] = True
                ENG.ctx.notes["above"] = (p, part, left)
        a = ENG.ctx.notes["above"]
        return None if a is None else a[0]

    @fn_contract(I, static("_get_first_factor"))
    def ff(I, args, kw):
        p, m = args
        a = ENG.ctx.notes.get("above")
        if m is not n or a is None or a[0] is not p:
            raise Unsupported("other nodes")
        if "factor" not in ENG.ctx.notes:
            if ENG.choose([(("only a part of what was left",), TRUE, None), (("constants pulled out",), TRUE, None)]) == 0:
                ENG.ctx.notes["factor"] = None
            else:
                f = W.fresh("pulled out")
                ENG.fact(ok(f))
                ENG.fact(dok(f))
                ENG.fact(ghost("d", f).eq(0))
                ENG.fact((V(f) * V(n.attrs["expr"])).eq(V(a[2].attrs["expr"])))
                ENG.ctx.notes["factor"] = f
        return ENG.ctx.notes["factor"]


def c_is_poly(I):
    @fn_contract(I, TM.is_polynomial)
    def c(I, args, kw):
        x = W.to_se(I, args[0])
        return ENG.choose([(("polynomial", x.uid), TRUE, None), (("not a polynomial", x.uid), TRUE, None)]) == 0


def quotient(I, a, b):
    """the contract of the quotient, multiplied out (the value and the derivative stay unknowns)"""
    spec.closure(neg(V(b).eq(0)))
    r = W.fresh("quotient")
    ENG.fact(neg(V(b).eq(0)))
    ENG.fact(ok(r))
    ENG.fact(dok(r))
    ENG.fact((V(r) * V(b)).eq(V(a)))
    ENG.fact((ghost("d", r) * V(b) + V(r) * ghost("d", b)).eq(ghost("d", a)))
    ENG.fact(imp(neg(dep(r)), ghost("d", r).eq(0)))
    return r


def by_parts(cname):
    def fn(I):
        e, n = start(I, cname)
        c_dv(I)
        c_parents_check(I)
        above(I, n)
        c_is_poly(I)
        I.ops["__truediv__"] = quotient
        tr = I.call(BP, [])
        if not I.truth(I.call(method_of(BP, "check"), [tr, n])):
            tasks.REC_PATH.append(("the rule does not apply", "proved", "", None))
            return
        I.call(method_of(BP, "forward"), [tr, n])
        oblige("the problem itself stays", T_(n.attrs["expr"] is e and n.attrs["var"] is VAR))
        kids = n.attrs["_children"].concrete()
        if kids is None:
            raise Unsupported("sub-problems of unknown number")
        if not kids:
            tasks.REC_PATH.append(("no sub-problem", "proved", "", None))
            return
        c = kids[ENG.choose([(("alternative", j), TRUE, None) for j in range(len(kids))])]
        oblige("the alternative is below the problem", T_(c.attrs["parent"] is n and c.attrs["is_filler"] is True and n.attrs["type"] != "AND"))
        oblige("it goes back through the rule", T_(getattr(c.attrs["transform"], "cls", None) is BP))
        a = ENG.ctx.notes.get("above")
        if c.attrs["type"] == "FAILURE":
            oblige("nothing is below a failure", T_(c.attrs["_children"].segs == []))
            return
        if c.attrs["type"] == "AND":
            parts = c.attrs["_children"].concrete()
            rest = [x for x in parts if x.attrs["type"] != "SOLUTION"]
            oblige("the parts are below the alternative", T_(all(x.attrs["parent"] is c for x in parts)))
            known = P(0)
            for x in parts:
                if x.attrs["type"] == "SOLUTION":
                    known = known + ghost("d", W.to_se(I, x.attrs["solution"]))
                    oblige("a solved part is a filler", T_(x.attrs["is_filler"] is True))
                else:
                    known = known + V(W.to_se(I, x.attrs["expr"]))
            # what a later application of the rule relies on
            oblige("the part u v and what is left make up the integrand", known.eq(V(e)))
            oblige("first the part u v, then what is left", T_(len(parts) == 2 and parts[0].attrs["type"] == "SOLUTION" and len(rest) == 1))
            for x in parts:
                if x.attrs["type"] != "SOLUTION":
                    solve_child(I, x, tr)
            last = parts[-1]
            I.call(method_of(last.attrs["transform"].cls, "backward"), [last.attrs["transform"], last])
            if c.attrs["solution"] is None:
                oblige("the alternative gets a solution", FALSE)
                return
        elif c.attrs["type"] != "SOLUTION":
            raise Unsupported("an alternative of another type")
        if cname == "Prod":
            oblige("what is left was compared with the problem", T_(ENG.ctx.notes.get("not itself") is True))
        n.attrs["solution"] = None
        t = c.attrs["transform"]
        I.call(method_of(t.cls, "backward"), [t, c])
        r = n.attrs["solution"]
        if r is None:
            oblige("the problem gets a solution", FALSE)
            return
        r = W.to_se(I, r)
        uv = None if a is None else a[1].attrs["solution"]
        if uv is None or same(uv, sym_uv(a)):
            oblige("the derivative of the solution is the integrand", ghost("d", r).eq(V(e)))
            return
        # the part u v of the earlier integration by parts was changed as well: the two together are its solution
        f = ENG.ctx.notes.get("factor")
        if f is None:
            oblige("only the solution of the problem itself is changed", FALSE)
            return
        total = ghost("d", W.to_se(I, uv)) + V(f) * ghost("d", r)
        oblige("the two integrations by parts together have the integrand as derivative", total.eq(V(a[0].attrs["expr"])))
        oblige("the earlier one is solved", T_(n.attrs["type"] == "OR"))
    Task("C08", "transforms.ByParts (%s)" % (cname if isinstance(cname, str) else "other"), fn, allowed=(ValueError,))


def sym_uv(a):
    return sym(None, "earlier uv")


for c_ in ("Prod", "log", "asin", "acos", "atan"):
    by_parts(c_)
by_parts(tuple(c for c in t_c08.ALLC if c not in ("Prod", "log", "asin", "acos", "atan")))


# ------------------------------------------------------------------ the nodes above
def first_factor(I):
    """going up from the problem while constants are pulled out: (their product) * (the problem) is what was left to integrate"""
    e = sym(None, "integrand")
    ENG.fact(ok(e))
    n = mknode(e, VAR)
    pe, ce, uv = (sym(None, t) for t in ("earlier integrand", "left to integrate", "earlier uv"))
    p = mknode(pe, VAR, Obj(BP, len(ENG.levels)), None, "AND", filler=True)
    left = mknode(ce, VAR, Obj(TM.Additivity, len(ENG.levels)), p)
    p.attrs["_children"] = LObj([("v", mknode(pe, VAR, None, p, "SOLUTION", solution=uv, filler=True)), ("v", left)], len(ENG.levels))

    def put(m, tag):
        """what is known of a node below `left`: how it was made"""
        k = ENG.choose([(("made by", x, tag), TRUE, None) for x in ("PullConstant", "another rule")])
        if k == 1:
            m.attrs["transform"] = Obj(TM.LinearUSub, len(ENG.levels))
            return
        t = Obj(TM.PullConstant, len(ENG.levels))
        c, ue = sym(None, ("constant", tag)), sym(None, ("above", tag))
        for y in (c, ue):
            ENG.fact(ok(y))
        ENG.fact(ghost("d", c).eq(0))
        ENG.fact((V(c) * V(m.attrs["expr"])).eq(V(ue)))
        t.attrs["_constant"] = c
        up = left if ENG.choose([(("reached", tag), TRUE, None), (("not yet", tag), TRUE, None)]) == 0 else mknode(ue, VAR)
        if up is left:
            ENG.fact((V(c) * V(m.attrs["expr"])).eq(V(ce)))
        m.attrs["transform"], m.attrs["parent"] = t, up

    def loop(I, s, env):
        names = interp.assigned_names(s.body)
        nodes = [x for x in names if isinstance(env.vars.get(x), Obj)]
        facs = [x for x in names if x in env.vars and x not in nodes]
        if len(nodes) != 1 or len(facs) != 1:
            raise Unsupported("the loop has changed")
        nd, fc = nodes[0], facs[0]
        w = lambda: W.to_se(I, env.vars[fc])
        inv_ = lambda: conj((V(w()) * V(e)).eq(V(env.vars[nd].attrs["expr"])), ghost("d", w()).eq(0))
        oblige("the constants so far times the problem are the integrand reached: on entry", inv_())
        i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        cur = mknode(sym(None, "reached"), VAR)
        if i == 0:
            put(cur, "m")
        elif ENG.choose([(("at the part that was left",), TRUE, None), (("elsewhere",), TRUE, None)]) == 0:
            cur = left
        env.vars[nd] = cur
        env.vars[fc] = sym(None, "constants so far")
        ENG.fact(ok(env.vars[fc]))
        ENG.fact(inv_())
        if I.truth(I.ev(s.test, env)) != (i == 0):
            raise Infeasible()
        if i == 1:
            return
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        except interp.Brk:
            return
        oblige("the constants so far times the problem are the integrand reached: kept", inv_())
        raise PathEnd()
    I.loops[("transforms.ByParts._get_first_factor", "while", 0)] = loop
    r = I.call(static("_get_first_factor"), [p, n])
    if r is None:
        oblige("nothing is claimed", TRUE)
        return
    r = W.to_se(I, r)
    oblige("the constants pulled out times the problem are what was left", (V(r) * V(e)).eq(V(ce)))
    oblige("they are constants", ghost("d", r).eq(0))


Task("C08", "transforms.ByParts._get_first_factor", first_factor)


def not_itself(I):
    """allowed only if what is left to integrate was compared with the problem itself, and found different"""
    e, du, v = (sym(None, t) for t in ("integrand", "du", "v"))
    for y in (e, du, v):
        ENG.fact(ok(y))
    ENG.fact(neg(V(e).eq(0)))
    n = mknode(e, VAR)
    above(I, n)

    @fn_contract(I, static("_get_all_byparts_parents"))
    def all_(I, args, kw):
        if ENG.choose([(("no such parent",), TRUE, None), (("some parent",), TRUE, None)]) == 0:
            return LObj([], len(ENG.levels))
        m = mknode(sym(None, "some earlier integrand"), VAR)
        ENG.fact(ok(m.attrs["expr"]))
        return LObj([("v", m)], len(ENG.levels))
    if I.truth(I.call(static("_parents_exprs_check"), [n, du, v])):
        left = V(du) * V(v) * -1
        fs = []
        for k, x in list(ENG.ctx.notes.items()):
            if k[0] == "neq" and 1 in x:
                fs.append((V(SE(k[1])) * V(e)).eq(left))
            if k[0] == "eqd" and x is False:
                a, b = (V(SE(y)) for y in k[1:])
                fs += [conj(a.eq(left), b.eq(V(e))), conj(b.eq(left), a.eq(V(e)))]
        oblige("what is left was found different from the problem itself", disj(*fs))
    else:
        tasks.REC_PATH.append(("not allowed", "proved", "", None))


Task("C08", "transforms.ByParts._parents_exprs_check", not_itself)


# pulling out a constant: what the steps upwards rely on
def pulled(I, e, n, tr, kids):
    c = tr.attrs.get("_constant")
    for k in kids:
        if c is None or k.attrs["expr"] is None:
            raise Unsupported("the constant is kept elsewhere")
        c = W.to_se(I, c)
        oblige("the constant times the rest is the problem", (V(c) * V(W.to_se(I, k.attrs["expr"]))).eq(V(e)))
        oblige("it is a constant", ghost("d", c).eq(0))


t_c08.rule(TM.PullConstant, cname="Prod", name=": the constant", post=pulled)


# ------------------------------------------------------------------ the whole
def good(I, n):
    """the answer of a solved node (by the obligations of the rules, from its leaves upwards)"""
    S = W.fresh("antiderivative")
    ENG.fact(ok(S))
    ENG.fact(dok(S))
    ENG.fact(ghost("d", S).eq(V(W.to_se(I, n.attrs["expr"]))))
    n.attrs["solution"] = S


def c_whole(I, made):
    new = I.contracts[NODE]

    @cls_contract(I, NODE)
    def node(I, args, kw):
        n = new.apply(I, args, kw)
        made.append(n)
        return n

    @fn_contract(I, IM._integrate_safely)
    def safely(I, args, kw):
        return None

    @fn_contract(I, IM.Integration.__dict__["_go_backwards"].__func__)
    def back(I, args, kw):
        n = args[-1]
        if n not in made or not same(n.attrs["var"], VAR):
            raise Unsupported("another tree")
        s = n.attrs.get("is_solved")
        oblige("only the answer of a solved problem is put together", T_(s is True or n.attrs.get("is_failed") is False and n.attrs.get("open") is False))
        good(I, n)
        return None

    def simp(I, se):
        def go(I, me):
            r = W.fresh("simplified")
            for g in spec.GHOSTS:
                W.setdef(r, g, ghost(g, me))
            ENG.fact(ok(r))
            ENG.fact(dok(r))
            return r
        return BoundM(interp.Meth(go, "simplify"), se)
    W.VIRTUAL["simplify"] = simp


def decide(n, name):
    n.attrs[name] = ENG.choose([((name, ENG.uid("d")), TRUE, None), (("not " + name, ENG.uid("d")), TRUE, None)]) == 0


def whole(I):
    e = sym(None, "integrand")
    ENG.fact(ok(e))
    ENG.fact(dok(e))
    made = []
    t_c08.c_nodes(I, None)
    c_whole(I, made)

    @fn_contract(I, IM.Integration.__dict__["_cycle"])
    def cycle(I, args, kw):
        if ENG.choose([(("solved",), TRUE, None), (("next node",), TRUE, None)]) == 0:
            return "SOLVED"
        return mknode(sym(None, "elsewhere"), VAR)

    @fn_contract(I, IM.Integration.__dict__["_get_next_node_post_heuristic_breadth_first"])
    def nxt(I, args, kw):
        return mknode(sym(None, "elsewhere"), VAR)
    import time

    @fn_contract(I, time.time)
    def now(I, args, kw):
        return NV(A("g", "clock", ENG.uid("t")), "float")

    def loop(I, s, env):
        for x in interp.assigned_names(s.body):
            env.vars[x] = Poison("assigned in a loop")
        i = ENG.choose([(("loop", "exit"), TRUE, None), (("loop", "iterate"), TRUE, None)])
        for n in made:
            decide(n, "is_solved")
            n.attrs["is_failed"] = False if n.attrs["is_solved"] else ENG.choose([(("failed", ENG.uid("d")), TRUE, None), (("open", ENG.uid("d")), TRUE, None)]) == 0
            n.attrs["is_finished"] = n.attrs["is_solved"] or n.attrs["is_failed"]
        for x in interp.assigned_names(s.body):
            if x in env.vars:
                v = mknode(sym(None, "elsewhere"), VAR) if "node" in x else NV(A("g", "clock", ENG.uid("t")), "float")
                env.vars[x] = v
        if I.truth(I.ev(s.test, env)) != (i == 1):
            raise Infeasible()
        if i == 0:
            return
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        except interp.Brk:
            return
        if not tasks.REC_PATH:
            tasks.REC_PATH.append(("another round", "proved", "", None))
        raise PathEnd()
    I.loops[("integration.Integration.integrate", "while", 0)] = loop
    me = Obj(IM.Integration, len(ENG.levels))
    me.attrs.update(_debug=False, _debug_hardcore=False, _breadth_first=False, _timeout=2, logger=None)
    final = ENG.choose([(("final",), TRUE, None), (("not final",), TRUE, None)]) == 0
    r = I.call(IM.Integration.__dict__["integrate"], [me, e, VAR], {"final": final})
    if r is None:
        oblige("no answer only if the problem is not solved", T_(made[0].attrs["is_solved"] is False))
        return
    oblige("an answer only if the problem is solved", T_(made[0].attrs["is_solved"] is True))
    oblige("the derivative of the answer is the integrand", ghost("d", W.to_se(I, r)).eq(V(e)))


Task("C08", "integration.Integration.integrate", whole)


def without_heuristics(I):
    """by parts asks for an antiderivative of dv: nothing, or one"""
    e = sym(None, "integrand")
    ENG.fact(ok(e))
    ENG.fact(dok(e))
    made = []
    t_c08.c_nodes(I, None)
    c_whole(I, made)
    b = ("leaves",)
    left = []

    @fn_contract(I, IM._check_if_node_solvable)
    def table(I, args, kw):
        n = args[0]
        if ENG.choose([(("in the table", ENG.uid("t")), TRUE, None), (("not in the table", ENG.uid("t")), TRUE, None)]) == 0:
            n.attrs["type"] = "SOLUTION"

    def loop(I, s, env):
        src = I.ev(s.iter, env)
        if not isinstance(src, LObj) or src.segs != [("v", "leaves")] or not isinstance(s.target, ast.Name):
            raise Unsupported("the loop has changed")
        i = ENG.choose([(("loop", "exit"), TRUE, None), (("loop", "iterate"), TRUE, None)])
        if i == 1:
            n = mknode(sym(None, "leaf"), VAR)
            env.vars[s.target.id] = n
            try:
                I.block(s.body, env)
            except interp.Cont:
                pass
            except interp.Brk:
                raise Unsupported("the loop has changed")
            oblige("every leaf is finished afterwards", T_(n.attrs["type"] in ("SOLUTION", "FAILURE")))
            raise PathEnd()
        # every leaf is solved or failed: the tree is finished (C10)
        made[0].attrs["open"] = False
        decide(made[0], "is_solved")
        made[0].attrs["is_failed"] = not made[0].attrs["is_solved"]
        for x in interp.assigned_names(s.body) | {s.target.id}:
            env.vars[x] = Poison("after the loop")
    Q = "integration.Integration.integrate_without_heuristics"
    I.loops[(Q, "for")] = loop
    new = I.contracts[NODE]

    @cls_contract(I, NODE)
    def node(I, args, kw):
        n = new.apply(I, args, kw)
        n.attrs["unfinished_leaves"] = LObj([("v", "leaves")], len(ENG.levels))
        n.attrs["leaves"] = LObj([("v", "all leaves")], len(ENG.levels))
        n.attrs["open"] = True
        for f in ("is_solved", "is_failed"):
            n.attrs[f] = Poison("read before the tree is finished")
        return n
    r = I.call(IM.Integration.__dict__["integrate_without_heuristics"].__func__, [e, VAR])
    if r is None:
        oblige("nothing only if the problem is not solved", T_(made[0].attrs["is_failed"] is True))
        return
    oblige("the derivative of the answer is the integrand", ghost("d", W.to_se(I, r)).eq(V(e)))


Task("C08", "integration.Integration.integrate_without_heuristics", without_heuristics)


# ------------------------------------------------------------------ backwards through the tree
def backwards(I):
    """every leaf that is taken backwards is a solved one; each step hands a node with an answer to the rule that made it and
    goes on with its parent, up to the root or until the rule says that other parts are missing"""
    root = mknode(sym(None, "integrand"), VAR)
    root.attrs["is_solved"] = True
    root.attrs["leaves"] = LObj([("v", "leaves")], len(ENG.levels))
    TR = TM.Transform

    def other(tag):
        n = mknode(sym(None, ("integrand", tag)), VAR)
        n.attrs["transform"] = Obj(TR, len(ENG.levels))
        n.attrs["parent"] = root if ENG.choose([(("below the root", tag), TRUE, None), (("deeper", tag), TRUE, None)]) == 0 else mknode(sym(None, ("above", tag)), VAR)
        n.attrs["good"] = True
        n.attrs["solution"] = sym(None, ("answer", tag))
        return n
    steps = []

    @fn_contract(I, TR.__dict__["backward"])
    def back(I, args, kw):
        t, n = args
        oblige("a node goes back through the rule that made it", T_(n.attrs["transform"] is t))
        if n.attrs["solution"] is None:
            # every rule asks its base class first
            raise Raised(ValueError())
        oblige("an answer is that of its node", T_(n.attrs.get("good") is True))
        if ENG.choose([(("answered", ENG.uid("b")), TRUE, None), (("other parts are missing", ENG.uid("b")), TRUE, None)]) == 1:
            raise Raised(ValueError())
        steps.append(n)
        p = n.attrs["parent"]
        p.attrs["good"] = True
        p.attrs["solution"] = sym(None, ("answer", ENG.uid("b")))
        return None

    def climb(I, s, env):
        curs = [x for x in interp.assigned_names(s.body) if isinstance(env.vars.get(x), Obj)]
        if len(curs) != 1:
            raise Unsupported("the loop has changed")
        first = env.vars[curs[0]]
        oblige("starts at a leaf with its answer, or without one", T_(first.attrs["solution"] is None or first.attrs.get("good") is True))
        at_root = ENG.choose([(("at the root",), TRUE, None), (("below",), TRUE, None)]) == 0
        cur = root if at_root else other("cur")
        root.attrs["good"], root.attrs["solution"] = (True, sym(None, "root answer")) if at_root else (None, None)
        if not at_root and ENG.choose([(("answer",), TRUE, None), (("no answer",), TRUE, None)]) == 1:
            cur.attrs["good"], cur.attrs["solution"] = None, None
        env.vars[curs[0]] = cur
        del steps[:]
        if not I.truth(I.ev(s.test, env)):
            raise Unsupported("the loop has changed")
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        except interp.Brk:
            oblige("goes on until the root or until parts are missing", T_(at_root or not steps))
            raise PathEnd()
        oblige("goes on with the parent", T_(not at_root and steps == [cur] and env.vars[curs[0]] is cur.attrs["parent"]))
        raise PathEnd()
    Q = "integration.Integration._go_backwards"

    def leaves(I, s, env):
        src = I.ev(s.iter, env)
        if not isinstance(src, LObj) or not isinstance(s.target, ast.Name):
            raise Unsupported("the loop has changed")
        if src.segs != [("v", "leaves")]:
            raise Unsupported("the loop has changed")
        i = ENG.choose([(("loop", "exit"), TRUE, None), (("loop", "iterate"), TRUE, None)])
        if i == 0:
            root.attrs["solution"] = None if ENG.choose([(("root unanswered",), TRUE, None), (("root answered",), TRUE, None)]) == 0 else sym(None, "root answer")
            root.attrs["good"] = root.attrs["solution"] is not None
            for x in interp.assigned_names(s.body) | {s.target.id}:
                env.vars[x] = Poison("after the loop")
            return
        n = other("leaf")
        decide(n, "is_solved")
        if not n.attrs["is_solved"]:
            n.attrs["good"], n.attrs["solution"] = None, None
        env.vars[s.target.id] = n
        try:
            I.block(s.body, env)
        except (interp.Cont, interp.Brk):
            pass
        if not tasks.REC_PATH:
            tasks.REC_PATH.append(("next leaf", "proved", "", None))
        raise PathEnd()
    I.loops[(Q, "for")] = leaves
    I.loops[(Q, "while", 0)] = climb

    def comp(I, node, env):
        g = node.generators
        if len(g) != 1 or not isinstance(g[0].target, ast.Name):
            raise Unsupported("the selection has changed")
        src = I.ev(g[0].iter, env)
        if not isinstance(src, LObj) or src.segs != [("v", "leaves")]:
            raise Unsupported("the selection has changed")
        n = other("candidate")
        decide(n, "is_solved")
        old = dict(env.vars)
        env.vars[g[0].target.id] = n
        keep = all(I.truth(I.ev(c, env)) for c in g[0].ifs)
        if I.ev(node.elt, env) is not n:
            raise Unsupported("the selection has changed")
        env.vars.clear()
        env.vars.update(old)
        if n.attrs["is_solved"]:
            oblige("the solved leaves are taken", T_(keep))
        return LObj([("v", "leaves")], len(ENG.levels))
    I.comps[Q] = comp
    r = I.call(IM.Integration.__dict__["_go_backwards"].__func__, [root])
    oblige("the root gets an answer", T_(root.attrs["solution"] is not None))


Task("C08", "integration.Integration._go_backwards", backwards, allowed=(ValueError,))
D = tasks.DISCHARGES
D["transforms.ByParts._integrate_dv_check"] = ["integration.Integration.integrate_without_heuristics"]
for q_ in ("_parents_exprs_check", "_get_first_factor"):
    D["transforms.ByParts." + q_] = ["transforms.ByParts." + q_]
for q_ in ("integrate", "integrate_without_heuristics", "_go_backwards"):
    D["integration.Integration." + q_] = ["integration.Integration." + q_]
D["transforms.Transform.backward"] = []      # set below, once every rule is there


# ------------------------------------------------------------------ who is above
def chain_member(I, tag):
    n = mknode(sym(None, ("integrand", tag)), VAR)
    ks = [None, BP, TM.PullConstant, TM.Additivity, TM.LinearUSub]
    k = ks[ENG.choose([(("made by", str(k), tag), TRUE, None) for k in ks])]
    n.attrs["transform"] = None if k is None else Obj(k, len(ENG.levels))
    return n


def last_parent(I):
    """what is found is a node made by an integration by parts, and only constants and sums were taken apart below it"""
    n = mknode(sym(None, "integrand"), VAR)
    state = dict(ended=False)

    @fn_contract(I, TM._parents)
    def ps(I, args, kw):
        if args[0] is not n:
            raise Unsupported("other nodes")
        return LObj([("v", "ancestors")], len(ENG.levels))

    def loop(I, s, env):
        src = I.ev(s.iter, env)
        if not isinstance(src, LObj) or src.segs != [("v", "ancestors")] or not isinstance(s.target, ast.Name):
            raise Unsupported("the loop has changed")
        for x in interp.assigned_names(s.body):
            env.vars[x] = Poison("assigned in a loop")
        if ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)]) == 1:
            state["at"] = None
            return
        m = chain_member(I, "m")
        state["at"] = m
        env.vars[s.target.id] = m
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        except interp.Brk:
            return
        t = m.attrs["transform"]
        oblige("passed over: only what takes constants and sums apart", T_(t is not None and t.cls in (TM.PullConstant, TM.Additivity)))
        raise PathEnd()
    I.loops[("transforms.ByParts._get_last_byparts_parent", "for")] = loop
    r = I.call(static("_get_last_byparts_parent"), [n])
    if r is None:
        oblige("nothing is claimed", TRUE)
    else:
        oblige("made by an integration by parts", T_(r is state.get("at") and getattr(r.attrs["transform"], "cls", None) is BP))


Task("C08", "transforms.ByParts._get_last_byparts_parent", last_parent)


def last_heuristic(I):
    """the rule that made the node, or what is found for its parent"""
    n, up = chain_member(I, "n"), chain_member(I, "up")
    n.attrs["parent"] = up
    found = Obj(TM.RewriteTrig, len(ENG.levels))

    @fn_contract(I, TM._get_last_heuristic_transform)
    def rec(I, args, kw):
        if args[0] is not up:
            raise Unsupported("other nodes")
        return found
    r = call_real(I, TM._get_last_heuristic_transform, [n])
    t = n.attrs["transform"]
    skip = t is not None and t.cls in (TM.PullConstant, TM.Additivity)
    oblige("the last rule that is not a mere taking apart", T_(r is (found if skip else t)))


Task("C08", "transforms._get_last_heuristic_transform", last_heuristic)


def new_node(I):
    """a new node holds what it was given and has no children"""
    e, S = sym(None, "e"), sym(None, "S")
    tr, p = Obj(TM.Expand, len(ENG.levels)), mknode(e, VAR)
    full = ENG.choose([(("all given",), TRUE, None), (("the least",), TRUE, None)]) == 0
    n = I.call(NODE, [e, VAR, tr, p], dict(type="SOLUTION", solution=S, is_filler=True)) if full else I.call(NODE, [e, VAR])
    want = dict(expr=e, var=VAR, transform=tr, parent=p, type="SOLUTION", solution=S, is_filler=True) if full else \
        dict(expr=e, var=VAR, transform=None, parent=None, type="UNSET", solution=None, is_filler=False)
    for k, v in want.items():
        got = n.attrs.get(k)
        oblige("%s as given" % k, T_(got is v or isinstance(v, str) and got == v or same(got, v)))
    c = I.getattr(n, "children")
    oblige("no children", T_(isinstance(c, LObj) and c.segs == []))


Task("C08", "transforms.Node (constructor)", new_node)
D["Node"] = ["transforms.Node (constructor)"]
for q_ in ("ByParts._get_last_byparts_parent", "_get_last_heuristic_transform"):
    D["transforms." + q_] = ["transforms." + q_]


# ------------------------------------------------------------------ rules are applied where they apply
def applied(fname, rules):
    f = IM.__dict__[fname]

    def fn(I):
        n = mknode(sym(None, "integrand"), VAR)
        n.attrs["is_solved"] = False
        ok_, done = {}, []
        for k in TM.SAFE_TRANSFORMS + TM.HEURISTICS + [TM.ByParts]:
            def check(I, args, kw):
                t, m = args
                if not isinstance(t, Obj) or m is not n:
                    raise Unsupported("a rule for another node")
                ok_[t] = ENG.choose([(("applies", t.cls.__name__), TRUE, None), (("does not apply", t.cls.__name__), TRUE, None)]) == 0
                return ok_[t]

            def forward(I, args, kw):
                t, m = args
                oblige("a rule goes forward only where it applies", T_(m is n and ok_.get(t) is True))
                done.append(t)
                m.attrs["_children"] = LObj(list(m.attrs["_children"].segs) + [("v", mknode(sym(None, ("new", len(done))), VAR, t, m))], len(ENG.levels))
            fn_contract(I, method_of(k, "check"))(check)
            fn_contract(I, method_of(k, "forward"))(forward)

        @fn_contract(I, IM._integrate_safely)
        def rec(I, args, kw):
            oblige("goes on with the new sub-problems", T_(args[0].attrs["parent"] is n))
        ok_.clear()
        del done[:]
        if f is IM._integrate_safely:
            call_real(I, f, [n])
        else:
            I.call(f, [n])
        if not done:
            oblige("nothing is added otherwise", T_(n.attrs["_children"].segs == []))
        oblige("the problem itself stays", T_(n.attrs["var"] is VAR))
    Task("C08", "integration." + fname, fn)


applied("_integrate_safely", TM.SAFE_TRANSFORMS)
applied("_integrate_heuristically", TM.HEURISTICS)
D["integration._integrate_safely"] = ["integration._integrate_safely"]
tasks.HAVOC |= {"integration.Integration._cycle", "integration.Integration._get_next_node_post_heuristic_breadth_first", "time.time",
                "polynomial.is_polynomial", "transforms.ByParts._get_all_byparts_parents", "regex.get_anys", "simplify.simplify.is_class_squared"}
