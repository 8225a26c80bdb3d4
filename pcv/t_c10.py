"""C10: the accounts of the integration tree.

A node is an object with a key; its children are a bag of nodes of any number.  What is known of a child is the contract of
the property that is read (is it solved, failed, finished; its leaves), so each property is shown for a node from the same
property of its children: induction over the tree."""
import sys
import tasks
from tasks import *
import load
import loops
from vals import Obj
from t_c12 import Fn
TM = load.simpy.transforms
IM = sys.modules["simpy.integration"]
TYPES = ("AND", "OR", "UNSET", "SOLUTION", "FAILURE")


def Task(*a, **k):
    k.setdefault("ghosts", ("v",))
    return tasks.Task(*a, **k)


def g(name, key):
    return A("g", name, key)


def gdef(name, key):
    return W.ghost(name, SE(key))


FIELDS = ("parent", "type", "transform", "solution", "_children")


class Attrs(dict):
    def __init__(self, node):
        dict.__init__(self)
        self.node = node

    def __contains__(self, n):
        return dict.__contains__(self, n) or n in self.node.known or n in FIELDS

    def __getitem__(self, n):
        if not dict.__contains__(self, n):
            if n not in self.node.known:
                raise Unsupported("a field of a node that its contract does not give: " + n)
            return self.node.known[n](self.node)
        return dict.__getitem__(self, n)


class NodeV(Obj):
    """some node of the tree; `known`: the attributes read through their contract"""
    def __init__(self, key, known):
        Obj.__init__(self, TM.Node, len(ENG.levels) if ENG.levels else 0)
        self.key = key
        self.known = known
        self.attrs = Attrs(self)

    def renamed(self, a, b):
        from vals import renkey
        k = renkey(self.key, a, b)
        return self if k == self.key else NodeV(k, self.known)

    def __repr__(self):
        return "node " + str(self.key)


def flag(name):
    def f(n):
        p = gdef(name, n.key)
        if p.const() is not None:
            return p.const() == 1
        se = SE(n.key)
        ENG.used.add("Node." + {"solved": "is_solved", "failed": "is_failed", "finished": "is_finished"}[name])
        return ENG.choose([((name, n.key), TRUE, lambda: W.setdef(se, name, ONE)), (("not", name, n.key), TRUE, lambda: W.setdef(se, name, ZERO))]) == 0
    return f


def bag_nodes(b, known):
    if b not in ENG.ctx.leafdelta and b not in ENG.ctx.parts:
        d = ENG.ctx.leafdelta[b] = Delta()
        d.facts += [P(0).le(g("same", ELEM(b))), g("same", ELEM(b)).le(1)]
        ENG.fact(P(0).le(W.count(b)))
        ENG.fact(isint(W.count(b)))
    return LObj([("p", Piece(b, {b: [("v", NodeV(ELEM(b), known))]}))], len(ENG.levels))


def node_list(name, ghost_name, why):
    """a list of nodes given by its contract: its total weight"""
    def f(n):
        b = (name, n.key)
        fresh = b not in ENG.ctx.leafdelta and b not in ENG.ctx.parts
        l = bag_nodes(b, KNOWN)
        if fresh:
            W.setdef(SE(n.key), ghost_name, segsum(b, ELEM(b), g("w", ELEM(b))))
            ENG.used.add("Node." + why)
        return l
    return f


KNOWN = {"is_solved": flag("solved"), "is_failed": flag("failed"), "is_finished": flag("finished"),
         "leaves": node_list("leaves", "leafweight", "leaves"),
         "expr": lambda n: SE(("expr", n.key)), "var": lambda n: VARN, "is_filler": lambda n: False}
VARN = None


def the_node(I, drop, typed=True, parent=None):
    """the node the property is read on: of any type, with any children; `drop`: attributes run, not assumed"""
    n = NodeV(("node",), {k: v for k, v in KNOWN.items() if k not in drop})
    n.attrs["_children"] = bag_nodes(("children",), KNOWN)
    if typed:
        n.attrs["type"] = TYPES[ENG.choose([(("type", t), TRUE, None) for t in TYPES])]
    return n


def prop(I, n, name):
    return I.call(TM.Node.__dict__[name].fget, [n])


CB_ = ("children",)


def n_children():
    return W.count(CB_)


def n_with(name):
    return segsum(CB_, ELEM(CB_), gdef(name, ELEM(CB_)) if False else g(name, ELEM(CB_)))


def exactly(name, got, spec_):
    """got (a decided truth value) is the truth of the formula"""
    oblige(name, spec_ if got else neg(spec_))


def t_status(prop_name, name, leaf, one_of):
    def fn(I):
        n = the_node(I, [prop_name])
        got = I.truth(prop(I, n, prop_name))
        t = n.attrs["type"]
        ch, k = n_children(), n_with(name)
        if t == leaf:
            want = TRUE
        elif t == "FAILURE" and name == "solved":
            want = FALSE
        else:
            some = P(1).le(k)
            every = conj(P(1).le(ch), k.eq(ch))
            want = some if (t == "OR") == one_of else every
        exactly("%s exactly when the parts say so" % name, got, want)
    Task("C10", "transforms.Node." + prop_name, fn)


t_status("is_solved", "solved", "SOLUTION", True)
t_status("is_failed", "failed", "FAILURE", False)


def t_finished(I):
    n = the_node(I, ["is_finished"])
    got = I.truth(prop(I, n, "is_finished"))
    s, f = gdef("solved", n.key), gdef("failed", n.key)
    exactly("finished exactly when solved or failed", got, disj(s.eq(1), f.eq(1)))


Task("C10", "transforms.Node.is_finished", t_finished)


def weight(l, by=None):
    segs = l.segs if isinstance(l, LObj) else [("v", x) for x in l]
    return W.seg_measure("SUM", segs, lambda y: g("w", y.key) if by is None else by(y))


def t_leaves(I):
    n = the_node(I, ["leaves"])
    r = prop(I, n, "leaves")
    has = W.length(n.attrs["_children"])
    want = segsum(CB_, ELEM(CB_), g("leafweight", ELEM(CB_)))
    oblige("a node without children is its own leaf", imp(has.eq(0), weight(r).eq(g("w", n.key))))
    oblige("the leaves are those of the children", imp(P(1).le(has), weight(r).eq(want)))


Task("C10", "transforms.Node.leaves", t_leaves)


def t_unfinished(prop_name, bag):
    def fn(I):
        n = the_node(I, [prop_name])
        if bag != CB_:
            n.attrs["leaves"] = bag_nodes(bag, KNOWN)
        r = prop(I, n, prop_name)
        want = segsum(bag, ELEM(bag), g("w", ELEM(bag)) * (1 - g("finished", ELEM(bag))))
        oblige("exactly the unfinished ones", weight(r).eq(want))
    Task("C10", "transforms.Node." + prop_name, fn)


t_unfinished("unfinished_leaves", ("leaves",))
t_unfinished("unfinished_children", CB_)


# ------------------------------------------------------------------ upwards
def up(I, drop=()):
    n = the_node(I, drop, typed=False)
    known = dict(KNOWN)
    known["root"] = lambda m: NodeV(("root", m.key), KNOWN)
    known["distance_from_root"] = lambda m: NV(g("depth", m.key), "int")
    if ENG.choose([(("parent", "none"), TRUE, None), (("parent", "some"), TRUE, None)]) == 0:
        n.attrs["parent"] = None
    else:
        n.attrs["parent"] = NodeV(("parent",), known)
    return n


def t_root(I):
    n = up(I)
    r = prop(I, n, "root")
    want = n.key if n.attrs["parent"] is None else ("root", ("parent",))
    oblige("the root is the parent's root, or the node itself", TRUE if isinstance(r, NodeV) and r.key == want else FALSE)


def t_depth(I):
    n = up(I)
    r = prop(I, n, "distance_from_root")
    oblige("one more than the parent", nv(r)[0].eq(0 if n.attrs["parent"] is None else g("depth", ("parent",)) + 1))


Task("C10", "transforms.Node.root", t_root)
Task("C10", "transforms.Node.distance_from_root", t_depth)


def c_parents(I):
    @fn_contract(I, TM._parents)
    def c(I, args, kw):
        n = args[0]
        b = ("ancestors", n.key)
        l = bag_nodes(b, KNOWN)
        ENG.fact(P(1).le(W.count(b)))
        W.setdef(SE(n.key), "upweight", segsum(b, ELEM(b), g("w", ELEM(b))))
        return l


def t_parents(I):
    n = up(I)
    c_parents(I)

    def climb(I, s, env):
        """going up: the nodes so far and the ancestors of the one reached are the ancestors"""
        names = list(interp.assigned_names(s.body)) + [a for a in env.vars if isinstance(env.vars[a], LObj)]
        nodes = [x for x in names if isinstance(env.vars.get(x), NodeV)]
        lists = [x for x in names if isinstance(env.vars.get(x), LObj)]
        if len(set(nodes)) != 1 or len(set(lists)) != 1:
            raise Unsupported("the loop has changed")
        nd, ls = nodes[0], lists[0]
        ENG.fact(g("upweight", n.key).eq(g("w", n.key) + (0 if n.attrs["parent"] is None else g("upweight", ("parent",)))))
        inv_ = lambda: (weight(env.vars[ls]) + (0 if env.vars[nd] is None else g("upweight", env.vars[nd].key))).eq(g("upweight", n.key))
        oblige("the nodes so far and the ancestors of the one reached: on entry", inv_())
        if ENG.choose([(("reached", "a node"), TRUE, None), (("reached", "the end"), TRUE, None)]) == 0:
            m = NodeV(("reached",), KNOWN)
            m.attrs["parent"] = None if ENG.choose([(("above", "none"), TRUE, None), (("above", "some"), TRUE, None)]) == 0 else NodeV(("above",), KNOWN)
            ENG.fact(g("upweight", m.key).eq(g("w", m.key) + (0 if m.attrs["parent"] is None else g("upweight", ("above",)))))
        else:
            m = None
        env.vars[nd], env.vars[ls] = m, bag_nodes(("so far",), KNOWN)
        ENG.fact(inv_())
        if not I.truth(I.ev(s.test, env)):
            return
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        except interp.Brk:
            return
        oblige("the nodes so far and the ancestors of the one reached: kept", inv_())
        raise PathEnd()
    I.loops[("transforms._parents", "while", 0)] = climb
    r = call_real(I, TM._parents, [n])
    want = g("w", n.key) + (0 if n.attrs["parent"] is None else g("upweight", ("parent",)))
    oblige("the node and the ancestors of its parent", weight(r).eq(want))


Task("C10", "transforms._parents", t_parents)


def t_stale(I):
    n = up(I)
    c_parents(I)
    got = I.truth(prop(I, n, "is_stale"))
    b = ("ancestors", n.key)
    exactly("stale: unfinished below a finished node", got,
            conj(g("finished", n.key).eq(0), P(1).le(segsum(b, ELEM(b), g("finished", ELEM(b))))))


Task("C10", "transforms.Node.is_stale", t_stale)


# ------------------------------------------------------------------ growing the tree
def c_same(I):
    """eq_with_var(ancestor's problem, child's problem) (C16)"""
    @fn_contract(I, load.simpy.utils.eq_with_var)
    def c(I, args, kw):
        def node_of(x):
            e, v = I.known_items(x)
            if not (isinstance(e, SE) and isinstance(v, SE) and e.uid[0] == "expr" and v.uid == ("var", e.uid[1])):
                raise Unsupported("a problem that is not the pair of a node's expression and variable")
            return e.uid[1]
        a, b = node_of(args[0]), node_of(args[1])
        if a == ("child",):
            a, b = b, a
        if b != ("child",):
            raise Unsupported("comparison of other problems")
        p = gdef("same", a)
        if p.const() is not None:
            return p.const() == 1
        se = SE(a)
        return ENG.choose([(("same", a), TRUE, lambda: W.setdef(se, "same", ONE)), (("not same", a), TRUE, lambda: W.setdef(se, "same", ZERO))]) == 0


def t_add_child(filler):
    def fn(I):
        known = dict(KNOWN)
        known["var"] = lambda m: SE(("var", m.key))
        KN = KNOWN["var"]
        KNOWN["var"] = known["var"]
        try:
            n = up(I)
            c_parents(I)
            c_same(I)
            child = NodeV(("child",), {k: v for k, v in KNOWN.items() if k != "is_filler"})
            child.attrs["is_filler"] = filler
            before = weight(n.attrs["_children"])
            I.call(TM.Node.__dict__["add_child"], [n, child])
            grown = weight(n.attrs["_children"]) - before
            b = ("ancestors", n.key)
            if filler:
                oblige("a filler is added", grown.eq(g("w", child.key)))
            else:
                if b not in ENG.ctx.leafdelta:
                    return oblige("the ancestors are looked at", FALSE)
                k = segsum(b, ELEM(b), g("same", ELEM(b)))
                oblige("not added when an ancestor is the same problem", imp(P(1).le(k), grown.eq(0)))
                oblige("added when none is", imp(k.eq(0), grown.eq(g("w", child.key))))
        finally:
            KNOWN["var"] = KN
    Task("C10", "transforms.Node.add_child%s" % (" (filler)" if filler else ""), fn)


t_add_child(False)
t_add_child(True)


def t_add_children(I):
    n = up(I)
    l = bag_nodes(("new",), KNOWN)
    n.attrs["_children"] = LObj([], len(ENG.levels))
    n.attrs["type"] = was = TYPES[ENG.choose([(("type", t), TRUE, None) for t in TYPES])]
    added = []
    kept = []

    @fn_contract(I, TM.Node.__dict__["add_child"])
    def c(I, args, kw):
        me, x = args
        if not (isinstance(me, NodeV) and me.key == n.key):
            raise Unsupported("another node")
        added.append(x.key)

    def h(I, s, env):
        i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        if i == 1:
            n.attrs["_children"] = bag_nodes(("kept",), KNOWN)
            kept.append(n.attrs["_children"])
            ENG.fact(W.count(("kept",)).le(W.count(("new",))))
            return
        l2 = I.ev(s.iter, env)
        oblige("every new child in turn", TRUE if isinstance(l2, LObj) and W.same_segs(l2.segs, l.segs) else FALSE)
        del added[:]
        x = NodeV(("one",), KNOWN)
        I.assign(s.target, x, env)
        I.block(s.body, env)
        oblige("each is added once", TRUE if added == [("one",)] else FALSE)
        raise PathEnd()
    I.loops[("transforms.Node.add_children", "for")] = h
    del added[:], kept[:]
    I.call(TM.Node.__dict__["add_children"], [n, l])
    oblige("nothing else is added", TRUE if not added else FALSE)
    if not kept:
        raise Unsupported("the children are added otherwise")
    # a joint problem some part of which is not explored cannot be solved by its other parts
    lost = W.count(("kept",)).lt(W.count(("new",)))
    failed = n.attrs["type"] == "FAILURE" and was != "FAILURE"
    oblige("a joint problem fails exactly when a part is left out", (lost if failed else neg(lost)) if was == "AND" else TRUE if not failed else FALSE)
    same = n.attrs["_children"] is kept[0] and W.same_segs(kept[0].segs, bag_nodes(("kept",), KNOWN).segs)
    oblige("a failed joint problem has no parts, others keep theirs", W.length(n.attrs["_children"]).eq(0) if failed else TRUE if same and n.attrs["type"] == was else FALSE)


Task("C10", "transforms.Node.add_children", t_add_children)


# ------------------------------------------------------------------ the search's own marks
def t_table(I):
    n = the_node(I, [], typed=True)
    e, v = SE(("expr", n.key)), SE(("var", n.key))
    n.attrs["expr"], n.attrs["var"] = e, v
    n.attrs["solution"] = None
    before = n.attrs["type"]
    ans = W.fresh("answer")
    hit = []

    @fn_contract(I, IM.check_integral_table)
    def c(I, args, kw):
        oblige("the node's own problem is looked up", TRUE if args[0] is e and args[1] is v else FALSE)
        hit.append(ENG.choose([(("table", "none"), TRUE, None), (("table", "hit"), TRUE, None)]))
        return ans if hit[-1] else None
    del hit[:]
    I.call(IM._check_if_node_solvable, [n])
    if hit == [1]:
        oblige("an answer makes a solution leaf", TRUE if n.attrs["type"] == "SOLUTION" and n.attrs["solution"] is ans else FALSE)
    else:
        oblige("no answer, no mark", TRUE if hit == [0] and n.attrs["type"] == before and n.attrs["solution"] is None else FALSE)


Task("C10", "integration._check_if_node_solvable", t_table)


def t_heuristic(I):
    n = the_node(I, [], typed=False)
    n.attrs["type"] = "UNSET"
    n.attrs["_children"] = LObj([], len(ENG.levels))

    def h(I, s, env):
        it = I.ev(s.iter, env)
        c = it.concrete() if isinstance(it, LObj) else list(it)
        if c is None or any(isinstance(x, NodeV) for x in c):
            i = ENG.choose([(("loop", "exit"), TRUE, None), (("loop", "iterate"), TRUE, None)])
            if i == 1:
                I.assign(s.target, NodeV(("one",), KNOWN), env)
                I.block(s.body, env)
                oblige("the children are worked on", TRUE)
                raise PathEnd()
            return
        # the heuristics: any of them may add children (and by parts may find the whole answer)
        n.attrs["_children"] = bag_nodes(("children",), KNOWN)
        for x in interp.assigned_names([s]):
            env.vars[x] = Poison("assigned in a loop")
    I.loops[("integration._integrate_heuristically", "for")] = h

    @fn_contract(I, IM._integrate_safely)
    def c(I, args, kw):
        return None
    call_real(I, IM._integrate_heuristically, [n])
    solved = gdef("solved", n.key)
    t = n.attrs["type"]
    ch = n_children()
    oblige("failed exactly when no heuristic led anywhere", conj(solved.eq(0), ch.eq(0)) if t == "FAILURE" else neg(conj(solved.eq(0), ch.eq(0))))
    oblige("several alternatives are alternatives", conj(P(2).le(ch), solved.eq(0)) if t == "OR" else neg(conj(P(2).le(ch), solved.eq(0))))


Task("C10", "integration._integrate_heuristically", t_heuristic)


D = tasks.DISCHARGES
for n_ in ("is_solved", "is_failed", "is_finished", "leaves"):
    D["Node." + n_] = ["transforms.Node." + n_]
D["transforms._parents"] = ["transforms._parents"]
