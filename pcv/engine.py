"""Symbolic execution of the real functions with contracts at calls (no bound on list lengths or expression trees).

A path is one sequence of branch decisions; all feasible paths are explored by re-execution.  Lists of unknown length
are sequences of known elements and "bags" (a generic element plus the facts that hold for it); a comprehension, loop,
any() or all() over a bag is explored once for the generic element, and every path of the body becomes a sub-bag.
"""
import time
from fractions import Fraction
import z3
from terms import *
from vals import Unsupported, Raised, ren_value, SE, NV, BV


class Infeasible(BaseException):
    pass


class Hoist(BaseException):
    def __init__(self, level, options):
        self.level = level
        self.options = options


class Budget(BaseException):
    pass


# ------------------------------------------------------------------ path state
FIELDS = ("classes", "defs", "attrs", "parts", "leafdelta", "fields", "notes")


class Ctx:
    """facts: formulas; classes: uid -> possible class names; defs: atom id -> Poly; attrs: (uid, attribute) -> value;
    parts: bag -> ('cases', [bag...]) or ('split', [('e', uid) | ('b', bag)...]); leafdelta: bag -> Delta of its generic
    element; fields: uid -> True when the object was built on this path"""
    __slots__ = ("facts",) + FIELDS

    def __init__(self, o=None):
        self.facts = list(o.facts) if o else []
        for n in FIELDS:
            setattr(self, n, dict(getattr(o, n)) if o else {})

    def delta(self, base):
        d = Delta()
        d.facts = self.facts[len(base.facts):]
        for n in FIELDS:
            mine, b = getattr(self, n), getattr(base, n)
            setattr(d, n, {k: v for k, v in mine.items() if k not in b or b[k] is not v})
        return d

    def apply(self, d):
        self.facts += d.facts
        for k, v in d.classes.items():
            if k in self.classes:
                v = self.classes[k] & v
                if not v:
                    raise Infeasible()
            self.classes[k] = v
        for n in FIELDS[1:]:
            getattr(self, n).update(getattr(d, n))


class Delta:
    def __init__(self):
        self.facts = []
        for n in FIELDS:
            setattr(self, n, {})

    def plus(self, o):
        d = Delta()
        for n in FIELDS:
            getattr(d, n).update(getattr(self, n))
            getattr(d, n).update(getattr(o, n))
        d.facts = self.facts + o.facts
        return d

    def renamed(self, a, b):
        r = lambda k: renkey(k, a, b)
        d = Delta()
        d.facts = [renz(f, a, b) for f in self.facts]
        d.classes = {r(k): v for k, v in self.classes.items()}
        d.defs = {next(iter(next(iter(rename(Poly({((k, 1),): Fraction(1)}), a, b).m))))[0]: rename(v, a, b) for k, v in self.defs.items()}
        d.attrs = {r(k): ren_value(v, a, b) for k, v in self.attrs.items()}
        d.parts = {r(k): r(v) for k, v in self.parts.items()}
        for k, v in self.leafdelta.items():
            # binds its own element; the outer element may occur free in it
            d.leafdelta[r(k)] = v.renamed(a, b).renamed(ELEM(k), ELEM(r(k))) if r(k) != k else v.renamed(a, b)
        d.fields = {r(k): v for k, v in self.fields.items()}
        d.notes = {r(k): v for k, v in self.notes.items()}
        return d


def ELEM(bag):
    return ("elem", bag, 0)


# ------------------------------------------------------------------ predicates (boolean atoms)
PKEYS, PIDS, PBIND = [], {}, {}


def pred(*key):
    i = PIDS.get(key)
    if i is None:
        i = len(PKEYS)
        PKEYS.append(key)
        PIDS[key] = i
        s = set()
        scan(key, s)
        PBIND[i] = frozenset(s)
    return z3.Bool("p%d" % i)


def isint(p):
    c = p.const()
    if c is not None:
        return z3.BoolVal(c.denominator == 1)
    if p.m and all(v.denominator == 1 for v in p.m.values()) and not isinstance(p, int):
        mono = p.mono()
        if mono and mono[0] == -1:
            return isint(-p)
    return pred("isint", p)


def iseven(p):
    c = p.const()
    if c is not None:
        return z3.BoolVal(c.denominator == 1 and c % 2 == 0)
    if p.m and p.lead() < 0:
        p = -p
    return pred("even", p)


_cons = {}


def zconsts(f):
    """names of the uninterpreted constants of a formula"""
    i = f.get_id()
    r = _cons.get(i)
    if r is not None and r[0].eq(f):
        return r[1]
    s = set()
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            s.add(x.decl().name())
        else:
            st.extend(x.children())
    _cons[i] = (f, s)
    return s


def zbinders(f):
    s = set()
    for n in zconsts(f):
        if n[0] == "a":
            s |= BINDERS[int(n[1:])]
        elif n[0] == "p":
            s |= PBIND[int(n[1:])]
    return s


def renz(f, a, b):
    sub = []
    for n in zconsts(f):
        if n[0] == "a" and a in BINDERS[int(n[1:])]:
            sub.append((z3.Real(n), rename(Poly({((int(n[1:]), 1),): Fraction(1)}), a, b).z()))
        elif n[0] == "p" and a in PBIND[int(n[1:])]:
            sub.append((z3.Bool(n), pred(*renkey(PKEYS[int(n[1:])], a, b))))
    return z3.substitute(f, *sub) if sub else f


def T_(b):
    return z3.BoolVal(bool(b))


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def conj(*fs):
    out = []
    for f in fs:
        if isinstance(f, (list, tuple)):
            f = conj(*f)
        if z3.is_false(f):
            return FALSE
        if not z3.is_true(f):
            out.append(f)
    return TRUE if not out else out[0] if len(out) == 1 else z3.And(*out)


def disj(*fs):
    out = []
    for f in fs:
        if z3.is_true(f):
            return TRUE
        if not z3.is_false(f):
            out.append(f)
    return FALSE if not out else out[0] if len(out) == 1 else z3.Or(*out)


def neg(f):
    return FALSE if z3.is_true(f) else TRUE if z3.is_false(f) else f.arg(0) if z3.is_not(f) else z3.Not(f)


def imp(a, b):
    return disj(neg(a), b)


# ------------------------------------------------------------------ the engine
class Level:
    def __init__(self, ctx, prefix, elem=None):
        self.ctx = ctx
        self.prefix = prefix
        self.taken = []
        self.labels = []
        self.alts = []
        self.elem = elem
        self.effects = {}       # id(list) -> (list, appended segments)
        self.touched = set()    # outer lists read in this level


class Engine:
    def __init__(self):
        self.levels = []
        self.n = 0
        self.stats = dict(queries=0, solver_s=0.0, paths=0, proved=0)
        self.used = set()           # contracts relied upon
        self.assumed = set()        # trusted facts relied upon
        self.inlined = set()        # repository functions executed symbolically
        self.deadline = None
        self.max_paths = 600
        self.inactive = frozenset()     # ghosts and predicates the task does not need

    @property
    def ctx(self):
        return self.levels[-1].ctx

    # ---- exploration
    def explore(self, fn, elem=None, base=None):
        """all feasible paths of fn: list of (labels, level, kind, value) with kind 'ret' or 'exc'"""
        if len(self.levels) > 12:
            raise Unsupported("too deeply nested loops")
        basectx = base() if base else (self.levels[-1].ctx if self.levels else Ctx())
        todo = [[]]
        out = []
        depth = len(self.levels)
        while todo:
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            prefix = todo.pop()
            lv = Level(Ctx(basectx), prefix, elem)
            self.levels.append(lv)
            try:
                try:
                    v = fn()
                    out.append((tuple(lv.labels), lv, "ret", v))
                except Raised as ex:
                    out.append((tuple(lv.labels), lv, "exc", ex.exc))
                self.stats["paths"] += 1
            except Infeasible:
                pass
            except Hoist as h:
                if h.level != depth - 1 or depth == 0:
                    raise
                # the decision does not depend on the generic element: take it outside and start again
                del self.levels[depth:]
                self.choose(h.options)
                basectx = base() if base else self.levels[-1].ctx
                todo, out = [[]], []
                continue
            finally:
                del self.levels[depth:]
            for i in range(len(prefix), len(lv.taken)):
                for alt in lv.alts[i]:
                    todo.append(lv.taken[:i] + [alt])
            if len(out) > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
        return out

    def choose(self, options):
        """options: list of (label, formula, effect).  Returns the index taken on this path."""
        lv = self.levels[-1]
        opens = [l.elem for l in self.levels]
        if any(e is not None for e in opens):
            binders = set()
            for lab, f, eff in options:
                binders |= zbinders(f)
                scan(lab, binders)
            # outermost level at which the decision makes sense
            for i in range(len(self.levels)):
                if not any(e is not None and e in binders for e in opens[i + 1:]):
                    if i < len(self.levels) - 1:
                        raise Hoist(i, options)
                    break
        k = len(lv.taken)
        if k < len(lv.prefix):
            idx = lv.prefix[k]
            lv.taken.append(idx)
            lv.alts.append([])
            lv.labels.append((options[idx][0], idx))
            self.take(options[idx])
            return idx
        feas = [i for i, (lab, f, eff) in enumerate(options) if self.feasible(f)]
        if not feas:
            raise Infeasible()
        idx = feas[0]
        lv.taken.append(idx)
        lv.alts.append(feas[1:])
        lv.labels.append((options[idx][0], idx))
        self.take(options[idx])
        return idx

    def take(self, opt):
        lab, f, eff = opt
        if not z3.is_true(f):
            self.ctx.facts.append(f)
        if eff:
            eff()

    def feasible(self, f):
        import prove
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return not prove.infeasible(self, self.ctx, f)

    def decide(self, f, label=None):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        lab = label or ("c", f.sexpr())
        return self.choose([(lab, f, None), (lab, neg(f), None)]) == 0

    def fact(self, f):
        if z3.is_false(f):
            raise Infeasible()
        if not z3.is_true(f):
            if self.inactive and self.off(f):
                return
            self.ctx.facts.append(f)

    def off(self, f):
        """is the formula about ghosts the task does not need? (leaving out a fact is always sound)"""
        for n in zconsts(f):
            if n[0] == "p":
                if PKEYS[int(n[1:])][0] in self.inactive:
                    return True
            elif n[0] == "a":
                k = ATOMS[int(n[1:])]
                if k[0] == "g" and k[1] in self.inactive:
                    return True
        return False

    def entails(self, f, timeout=1000):
        import prove
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return prove.prove(self, self.ctx, f, timeout=timeout)[0] == "proved"

    def opens(self):
        return tuple(l.elem for l in self.levels if l.elem)

    def uid(self, tag="r"):
        self.n += 1
        o = self.opens()
        return (tag, self.n) + ((o,) if o else ())


ENG = Engine()
