"""Expressions, numbers and lists of unknown length as the symbolic interpreter sees them."""
import ast
import math
from fractions import Fraction
import z3
import load
from load import E as X
from engine import *
from engine import ENG, ELEM, Level
from terms import *
from vals import *

MISSING_FIELD = object()
MISSING = None      # set by interp
LEAFCLS = {c.__name__: c for c in [X.Sum, X.Prod, X.Power, X.log, X.sin, X.cos, X.tan, X.csc, X.sec, X.cot, X.asin, X.acos,
                                   X.atan, X.Abs, X.Rat, X.Float, X.Pi, X.E, X.Infinity, X.NegInfinity, X.NaN, X.Symbol]}
LEAFCLS["Any_"] = load.simpy.regex.Any_      # a wildcard of a pattern; only where a task says so (DEFAULT)
EVERY = frozenset(LEAFCLS)
FINITE = EVERY - {"Infinity", "NegInfinity", "NaN", "Any_"}
DEFAULT = FINITE
NUMS = frozenset(["Rat", "Float", "Pi", "E"])
NUMV = frozenset(["Rat", "Float"])
TRIG = frozenset(["sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan"])
FIELDSOF = {"Sum": ["terms"], "Prod": ["terms"], "Power": ["base", "exponent"], "log": ["inner", "base"], "Abs": ["inner"],
            "Rat": ["value"], "Float": ["value"], "Symbol": ["name"]}
for _c in TRIG:
    FIELDSOF[_c] = ["inner"]
DENOT = {"terms", "base", "exponent", "inner", "value", "name"}
LIT = {}            # uid -> (class name, {field: value}) of constant expressions
LITKEY = {}
ONEQ, ONNE = [], []  # hooks (a, b) when two expressions are equal / different
GHOSTS = {}         # ghost name -> unfold(se, cls) -> Poly or None
PREDS = {}          # predicate name -> unfold(se, cls) -> list of facts that follow when the predicate holds
ELEMFACTS = []      # functions (cls, parent SE, element SE) -> facts
VIRTUAL = {}        # attribute name -> function(I, se) -> value
ONREFINE = []       # hooks (se, cls)


# ------------------------------------------------------------------ classes
def classes(se):
    l = LIT.get(se.uid)
    if l:
        return frozenset([l[0]])
    return ENG.ctx.classes.get(se.uid, DEFAULT)


def restrict(se, names):
    """the object's class is one of names (already decided on this path)"""
    cur = classes(se)
    new = cur & names
    if not new:
        raise Infeasible()
    if new == cur:
        return
    ENG.ctx.classes[se.uid] = new
    if not (new - NUMV) and (cur - NUMV):
        for c in ENG.ctx.notes.get(("neq", se.uid), ()):
            ENG.fact(neg(V(se).eq(c)))
    if "Rat" not in new and "Rat" in cur:
        ENG.fact(neg(pred("rint", se.uid)))
        ENG.fact(neg(pred("rat", se.uid)))
    if len(new) == 1:
        unfold(se)
    if new == {"Rat"}:
        for k in [k for k in ENG.ctx.notes if k[0] == "closed" and se.uid in k[2:]]:
            if all(classes(SE(u)) == new for u in k[2:]):
                restrict(SE(k[1]), new)


def unfold(se):
    """the class is known: state what that means for every ghost of the object"""
    (c,) = classes(se)
    if ENG.ctx.notes.get(("unfolded", se.uid)):
        return
    ENG.ctx.notes[("unfolded", se.uid)] = True
    if c == "Rat":
        ENG.fact(pred("rint", se.uid) == isint(V(se)))
    for g, f in GHOSTS.items():
        p = f(se, c)
        if p is not None:
            setdef(se, g, p)
    for g, f in PREDS.items():
        fs = [x for x in f(se, c) if not z3.is_true(x)]
        if fs:
            ENG.fact(imp(pred(g, se.uid), conj(*fs)))
    for h in ONREFINE:
        h(se, c)


def setdef(se, g, p):
    if g in ENG.inactive:
        return
    a = A("g", g, se.uid)
    aid = next(iter(next(iter(a.m))))[0]
    if p == a:
        return
    if aid in ENG.ctx.defs:
        ENG.fact(ENG.ctx.defs[aid].eq(p))
    elif aid in patoms(p):
        ENG.fact(a.eq(p))
    else:
        ENG.ctx.defs[aid] = p


def patoms(p, acc=None):
    """all atoms, also inside arguments of functions"""
    acc = set() if acc is None else acc
    for a in p.atoms():
        if a not in acc:
            acc.add(a)
            katoms(ATOMS[a], acc)
    return acc


def katoms(k, acc):
    if isinstance(k, Poly):
        patoms(k, acc)
    elif isinstance(k, tuple):
        for x in k:
            katoms(x, acc)


def ghost(g, se):
    if se.uid in LIT:
        f = GHOSTS[g]
        p = f(se, LIT[se.uid][0])
        if p is not None:
            return p
    a = A("g", g, se.uid)
    aid = next(iter(next(iter(a.m))))[0]
    return ENG.ctx.defs.get(aid, a)


def V(se):
    return ghost("v", se)


def isinstance_se(se, clss):
    """True / False / formula-free decision through the class set"""
    cl = classes(se)
    yes = frozenset(c for c in cl if any(issubclass(LEAFCLS[c], k) for k in clss if isinstance(k, type)))
    if yes == cl:
        return True
    if not yes:
        return False
    i = ENG.choose([(("isa", se.uid, tuple(sorted(yes))), TRUE, lambda: restrict(se, yes)),
                    (("isnt", se.uid, tuple(sorted(yes))), TRUE, lambda: restrict(se, EVERY - yes))])
    return i == 0


def the_class(I, se):
    cl = classes(se)
    if len(cl) == 1:
        return LEAFCLS[next(iter(cl))]
    names = sorted(cl)
    i = ENG.choose([(("class", se.uid, c), TRUE, (lambda c=c: restrict(se, frozenset([c])))) for c in names])
    return LEAFCLS[names[i]]


def group_attr(I, se, name):
    """the class attribute `name`; forks when the possible classes disagree"""
    cl = classes(se)
    groups = {}
    for c in sorted(cl):
        d = I.mro_lookup(LEAFCLS[c], name)
        groups.setdefault(id(d), (d, []))[1].append(c)
    gs = list(groups.values())
    if len(gs) == 1:
        return gs[0][0]
    i = ENG.choose([(("attr", name, se.uid, tuple(g[1])), TRUE, (lambda g=g: restrict(se, frozenset(g[1])))) for g in gs])
    return gs[i][0]


def alloc(cls):
    se = SE(ENG.uid("new"))
    ENG.ctx.classes[se.uid] = frozenset([cls.__name__])
    ENG.ctx.fields[se.uid] = len(ENG.levels)
    return se


def fresh(tag="r", cl=FINITE):
    se = SE(ENG.uid(tag))
    if cl != FINITE:
        ENG.ctx.classes[se.uid] = cl
    return se


def lit(cname, **fields):
    key = (cname,) + tuple(sorted((k, keyof(v)) for k, v in fields.items()))
    uid = LITKEY.get(key)
    if uid is None:
        uid = ("lit", len(LITKEY))
        LITKEY[key] = uid
        LIT[uid] = (cname, fields)
    return SE(uid)


def keyof(v):
    if isinstance(v, SE):
        return v.uid
    if isinstance(v, LObj):
        return tuple(keyof(x) for _, x in v.segs)
    return v


def rat(q):
    return lit("Rat", value=Fraction(q))


def lift_expr(I, e):
    c = type(e).__name__
    if c == "Any_":
        # a wildcard of a pattern: a variable of its own
        se = SE(("wildcard", e.key))
        if se.uid not in ENG.ctx.classes:
            ENG.ctx.classes[se.uid] = frozenset(["Symbol"])
            ENG.fact(pred("ok", se.uid))
        return se
    if c not in LEAFCLS:
        raise Unsupported("constant of class " + c)
    if c == "Rat":
        return rat(e.value)
    fs = {}
    for f in FIELDSOF.get(c, []):
        v = getattr(e, f)
        if f == "terms":
            fs[f] = tuple(lift_expr(I, t) for t in v)
        elif isinstance(v, X.Expr):
            fs[f] = lift_expr(I, v)
        else:
            fs[f] = v
    return lit(c, **fs)


def to_se(I, v):
    """what _cast does with an operand"""
    if isinstance(v, SE):
        return v
    if isinstance(v, bool) or v is None:
        raise Raised(TypeError("operand"))
    if isinstance(v, (int, Fraction)):
        return rat(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return lift_expr(I, X.Float(v))
        return lit("Float", value=v)
    if isinstance(v, NV):
        if v.kind in ("int", "frac"):
            return mkrat(v.p)
        se = fresh("f", frozenset(["Float"]) if v.kind == "float" else NUMV)
        setdef(se, "v", v.p)
        if v.kind == "float":
            unfold(se)
        ENG.fact(pred("ok", se.uid))
        return se
    raise Unsupported("operand %s" % type(v).__name__)


def mkrat(p):
    c = p.const()
    if c is not None:
        return rat(c)
    se = fresh("q", frozenset(["Rat"]))
    setdef(se, "v", p)
    unfold(se)
    ENG.fact(pred("ok", se.uid))
    return se


# ------------------------------------------------------------------ fields
def terms_bag(se):
    return ("terms", se.uid)


def get_field(I, se, name):
    l = LIT.get(se.uid)
    if l:
        if name in l[1]:
            v = l[1][name]
            return LObj([("v", t) for t in v], len(ENG.levels)) if isinstance(v, tuple) else v
        if name in ("value",) and l[0] in ("Pi", "E"):
            return NV(V(se), "float")
        return MISSING_FIELD
    v = ENG.ctx.attrs.get((se.uid, name), MISSING_FIELD)
    if v is not MISSING_FIELD:
        return v
    if name not in DENOT:
        return MISSING_FIELD
    cl = classes(se)
    has = frozenset(c for c in cl if name in FIELDSOF.get(c, ()) or name == "value" and c in NUMS)
    if name == "value" and cl & {"Infinity", "NegInfinity", "NaN"}:
        c = the_class(I, se)
        if c.__name__ not in NUMS:
            return c.value if c.__name__ in ("Infinity", "NegInfinity", "NaN") else MISSING_FIELD
        cl = has = classes(se)
    if not has:
        return MISSING_FIELD
    if has != cl:
        i = ENG.choose([(("has", name, se.uid), TRUE, lambda: restrict(se, has)), (("hasnt", name, se.uid), TRUE, lambda: restrict(se, EVERY - has))])
        if i == 1:
            return MISSING_FIELD
        cl = has
    if se.uid in ENG.ctx.fields:
        return MISSING_FIELD      # allocated on this path and not set yet
    if name == "value":
        p = V(se)
        c = p.const()
        if cl == {"Rat"}:
            return c if c is not None else NV(p, "frac")
        return NV(p, "num" if "Rat" in cl else "float")
    if name == "name":
        return SymStr(("name", se.uid))
    if name == "terms":
        if len(cl) > 1:
            the_class(I, se)
        (c,) = classes(se)
        return terms_of(se, c)
    return SE((name, se.uid))


def terms_of(se, c):
    b = terms_bag(se)
    ensure_terms(se, c)
    l = LObj([("p", Piece(b, {b: [("v", SE(ELEM(b)))]}))], len(ENG.levels))
    l.own = se.uid
    return l


def ensure_terms(se, c):
    b = terms_bag(se)
    if b in ENG.ctx.leafdelta or b in ENG.ctx.parts:
        return
    el = SE(ELEM(b))
    d = Delta()
    # well-formedness of the representation: a sum has no sum, a product no product among its terms
    d.classes[el.uid] = DEFAULT - {c}
    for f in ELEMFACTS:
        d.facts += [x for x in f(c, se, el) if not z3.is_true(x)]
    ENG.ctx.leafdelta[b] = d
    ENG.fact(P(2).le(count(b)))


def count(bag):
    return segsum(bag, ELEM(bag), ONE)


CACHES = {"_symbols_cache", "_nesting_cache", "_expandable_cache", "_expand_cache", "_deconstruct_prod_cache", "_deconstruct_power_cache",
          "_numerator_denominator_cache", "_sans_const_cache", "_const_cache", "_nesting_without_factor", "_strictly_positive",
          "_special_values_cache", "_simplify_cache", "_any_cache"}


def set_field(I, se, name, v):
    if name in DENOT:
        lv = ENG.ctx.fields.get(se.uid)
        if lv is None:
            old = get_field(I, se, name)
            if same_value(old, v):
                return
            raise FrameViolation("the field %s of an existing expression is overwritten" % name)
        if lv < len(ENG.levels):
            raise Unsupported("field of an outer object written in a loop")
        ENG.ctx.attrs[(se.uid, name)] = v
        ENG.ctx.notes.pop(("unfolded", se.uid), None)
        a = A("g", "v", se.uid)
        for g in GHOSTS:
            ENG.ctx.defs.pop(next(iter(next(iter(A("g", g, se.uid).m))))[0], None)
        return
    if name in CACHES:
        if se.uid in LIT:
            return
        ENG.ctx.attrs[(se.uid, name)] = v
        return
    raise Unsupported("attribute %s written: no invariant is known for it" % name)


class FrameViolation(Unsupported):
    pass


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, SE) and isinstance(b, SE):
        return a.uid == b.uid
    if isinstance(a, LObj) and isinstance(b, LObj):
        if len(a.segs) != len(b.segs):
            return False
        for (k, x), (k2, y) in zip(a.segs, b.segs):
            if k != k2:
                return False
            if k == "v" and not same_value(x, y):
                return False
            if k == "p":
                if x.bag != y.bag:
                    return False
                for L in leaves(x.bag):
                    e1, e2 = emits_at(x, L), emits_at(y, L)
                    if len(e1) != len(e2) or not all(p[0] == q[0] == "v" and same_value(p[1], q[1]) for p, q in zip(e1, e2)):
                        return False
        return True
    if isinstance(a, NV) and isinstance(b, NV):
        return a.p == b.p
    return False


def complete(se):
    """an object built on this path whose fields are set: define its ghosts from them"""
    if se.uid in LIT or se.uid not in ENG.ctx.fields:
        return
    cl = classes(se)
    if len(cl) == 1 and not ENG.ctx.notes.get(("unfolded", se.uid)):
        (c,) = cl
        if all((se.uid, f) in ENG.ctx.attrs for f in FIELDSOF.get(c, [])):
            for f in FIELDSOF.get(c, []):
                v = ENG.ctx.attrs[(se.uid, f)]
                for x in (v.segs if isinstance(v, LObj) else [("v", v)]):
                    if isinstance(x[1], SE):
                        complete(x[1])
            ENG.ctx.notes[("unfolded", se.uid)] = True
            for g, f in GHOSTS.items():
                p = f(se, c)
                if p is not None:
                    setdef(se, g, p)


# ------------------------------------------------------------------ bags
def leaves(bag, ctx=None):
    ctx = ctx or ENG.ctx
    p = ctx.parts.get(bag)
    if p is None:
        return [bag]
    if p[0] == "split":
        raise Unsupported("iteration over a list that was taken apart differently")
    out = []
    for b in p[1]:
        out += leaves(b, ctx)
    return out


def emits_at(piece, L):
    """the emitted segments for leaf L (a descendant of a leaf the piece knows)"""
    a = L
    while a not in piece.emits:
        if isinstance(a, tuple) and a[0] == "sub":
            a = a[1]
        else:
            raise Unsupported("piece does not cover its bag")
    e = piece.emits[a]
    return [(k, ren_value(x, ELEM(a), ELEM(L))) for k, x in e] if a != L else e


def resolve(segs):
    """replace pieces whose bag has been split by its parts"""
    out = []
    for k, x in segs:
        if k == "p":
            out += resolve_piece(x)
        else:
            out.append((k, x))
    return out


def resolve_piece(piece):
    p = ENG.ctx.parts.get(piece.bag)
    if p and p[0] == "split":
        if set(piece.emits) != {piece.bag}:
            raise Unsupported("a list with several kinds of elements was split")
        out = []
        e = piece.emits[piece.bag]
        for kind, x in p[1]:
            if kind == "e":
                for k2, y in e:
                    y2 = ren_value(y, ELEM(piece.bag), x)
                    out += resolve([(k2, y2)])
            else:
                out += resolve_piece(Piece(x, {x: [(k2, ren_value(y, ELEM(piece.bag), ELEM(x))) for k2, y in e]}))
        return out
    if p and p[0] == "cases":
        if any_split(piece.bag):
            # some element of one kind has been named: the kinds apart, their order is not known any more
            if len([b for b in p[1] if not is_empty(b)]) > 1:
                ENG.ctx.notes["loose"] = True
            out = []
            for b in p[1]:
                if is_empty(b):
                    continue
                em = {}
                for l, e in piece.emits.items():
                    if l == b or below(l, b):
                        em[l] = e
                if not em:
                    em = {b: emits_at(piece, b)}
                out += resolve_piece(Piece(b, em))
            return out
        if not leaves(piece.bag):
            return []
    return [("p", piece)]


def below(l, b):
    while isinstance(l, tuple) and l[0] == "sub":
        l = l[1]
        if l == b:
            return True
    return False


def any_split(bag):
    p = ENG.ctx.parts.get(bag)
    if p is None:
        return False
    return p[0] == "split" or any(any_split(b) for b in p[1])


def is_empty(bag):
    p = ENG.ctx.parts.get(bag)
    return p is not None and p[0] == "cases" and all(is_empty(b) for b in p[1])


def ordered():
    if ENG.ctx.notes.get("loose"):
        raise Unsupported("position in a list whose order is not tracked any more")


def open_split(I, segs):
    """segments ready for iteration: nothing split stays, and a bag whose element is being iterated over by an enclosing
    loop is seen as: the elements before it, the element itself, the elements after it"""
    segs = resolve(segs)
    out = []
    for k, x in segs:
        if k == "p":
            hit = None
            for e in ENG.opens():
                if rootof(e[1]) == rootof(x.bag) and rootof(x.bag) is not None:
                    hit = e
            if hit is not None:
                out += around(x, hit)
                continue
        out.append((k, x))
    return out


def rootof(bag):
    while isinstance(bag, tuple) and bag[0] == "sub":
        bag = bag[1]
    return bag


def around(piece, e):
    bag = piece.bag
    if set(piece.emits) != {bag}:
        raise Unsupported("nested iteration over a filtered list")
    em = piece.emits[bag]
    pre, post = sides(bag, e)
    mk = lambda b: ("p", Piece(b, {b: [(k, ren_value(y, ELEM(bag), ELEM(b))) for k, y in em]}))
    return [mk(pre)] + [(k, ren_value(y, ELEM(bag), e)) for k, y in em] + [mk(post)]


def sides(bag, e):
    """bags of the elements before / after the open element e of the bag"""
    out = []
    for side in ("pre", "post"):
        b = (side, bag, e)
        if b not in ENG.ctx.leafdelta:
            d = base_delta(bag)
            ENG.ctx.leafdelta[b] = d.renamed(ELEM(bag), ELEM(b)) if d else Delta()
        out.append(b)
    return out


def base_delta(bag):
    for lv in reversed(ENG.levels):
        if bag in lv.ctx.leafdelta:
            return lv.ctx.leafdelta[bag]
    return None


def delta_of(L):
    return ENG.ctx.leafdelta.get(L) or Delta()


def explore_leaf(I, piece, L, fn):
    el = emits_at(piece, L)

    def base():
        c = Ctx(ENG.ctx)
        c.apply(delta_of(L))
        return c
    return ENG.explore(lambda: fn(el), elem=ELEM(L), base=base)


def commit_cases(L, outs):
    """outs: list of levels (paths).  The leaf is partitioned by the paths; returns the leaf of each path"""
    base = ENG.ctx
    ds = [lv.ctx.delta(base) for lv in outs]
    if len(outs) == 1:
        ENG.ctx.leafdelta[L] = ds[0]
        return [L]
    subs = []
    for k, d in enumerate(ds):
        s = ("sub", L, ENG.n * 100 + k)
        subs.append(s)
        ENG.ctx.leafdelta[s] = d.renamed(ELEM(L), ELEM(s))
    ENG.n += 1
    ENG.ctx.parts[L] = ("cases", tuple(subs))
    return subs


def merge_outs(outs):
    """drop duplicate information: paths are kept as they are"""
    return outs


def map_piece(I, piece, fn):
    """fn(emitted segments) -> segments; returns the resulting piece; exceptions inside are early exits"""
    emits = {}
    exits = []
    every = []
    for L in leaves(piece.bag):
        outs = explore_leaf(I, piece, L, fn)
        check_no_effects(outs)
        every += outs
        if any(k == "exc" for _, _, k, _ in outs):
            exits.append((L, outs))
            continue
        ls = commit_cases(L, [o[1] for o in outs])
        for l, o in zip(ls, outs):
            emits[l] = [(k, ren_value(x, ELEM(L), ELEM(l))) for k, x in o[3]]
    if exits:
        # either no element raises, or the first one that does
        opts = [(("noraise", piece.bag), TRUE, None)]
        flat = []
        for L, outs in exits:
            for o in outs:
                if o[2] == "exc":
                    flat.append((L, o))
                    opts.append((("raise", piece.bag, L, o[0]), TRUE, None))
        i = ENG.choose(opts)
        if i:
            L, o = flat[i - 1]
            at_element(L, o[1])
            late_writes(I, piece.bag, every, [x for x in every if x[2] == "ret"])
            exit_writes(o, ELEM(L), ENG.ctx.notes["at"][1])
            raise Raised(o[3])
        for L, outs in exits:
            good = [o for o in outs if o[2] == "ret"]
            ls = commit_cases(L, [o[1] for o in good])
            for l, o in zip(ls, good):
                emits[l] = [(k, ren_value(x, ELEM(L), ELEM(l))) for k, x in o[3]]
    late_writes(I, piece.bag, every, [x for x in every if x[2] == "ret"])
    return Piece(piece.bag, emits)


def write(o, name, v):
    """an attribute of an object or an entry of a dictionary is written; inside a loop this is kept until it is known
    which elements take part"""
    kind, store = ("attr", o.attrs) if isinstance(o, Obj) else ("dict", o._d)
    if o.level >= len(ENG.levels):
        store[name] = v
        return
    lv = ENG.levels[-1]
    _, old = lv.effects.setdefault((kind, id(o)), (o, {}))
    lv.effects[(kind, id(o))] = (o, dict(old, **{name: v}) if isinstance(name, str) else {**old, name: v})


def obj_read(o, name):
    k = ("attr", id(o))
    for lv in reversed(ENG.levels[o.level:]):
        if k in lv.effects and name in lv.effects[k][1]:
            v = lv.effects[k][1][name]
            break
        lv.touched.add(k + (name,))
    else:
        v = o.attrs[name] if name in o.attrs else MISSING
    if isinstance(v, Poison):
        raise Unsupported("attribute %s: %s" % (name, v.why))
    return v


def writes_of(o):
    return [(k, ob, name, v) for k, (ob, app) in o[1].effects.items() if k[0] in ("attr", "dict") for name, v in app.items()]


def list_effects(o):
    return {k: v for k, v in o[1].effects.items() if k[0] not in ("attr", "dict")}


def check_no_effects(outs):
    for o in outs:
        if list_effects(o):
            raise Unsupported("a comprehension changes a list")


def late_writes(I, label, outs, normal):
    """the elements on the `normal` paths may write constants: afterwards the place holds what it held, or that constant"""
    vals = {}
    for o in normal:
        for k, ob, name, v in writes_of(o):
            if not (v is None or isinstance(v, (bool, str, int, Poison))):
                raise Unsupported("a loop leaves different values in an outer object")
            vals.setdefault((k, name), (ob, []))[1].append(v)
    for o in outs:
        for k, name in vals:
            if k in o[1].touched or k + (name,) in o[1].touched:
                raise Unsupported("an outer object is read and written in the same loop")
    maps = {}
    for o in normal:
        w = {(k, name): v for k, ob, name, v in writes_of(o)}
        if w:
            maps[repr(sorted(w.items(), key=repr))] = w
    if len(maps) == 1:
        # all that write write the same
        if ENG.choose([(("left", label, j), TRUE, None) for j in range(2)]):
            for (k, name), v in list(maps.values())[0].items():
                write(vals[(k, name)][0], name, v)
        return
    for (k, name), (ob, vs) in vals.items():
        vs = sorted(set(vs), key=repr)
        i = ENG.choose([(("left", label, name, j), TRUE, None) for j in range(len(vs) + 1)])
        if i:
            write(ob, name, vs[i - 1])


def exit_writes(o, a, b):
    for k, ob, name, v in writes_of(o):
        write(ob, name, ren_value(v, a, b))


def at_element(L, lv, pre_effects=False):
    """some element of L takes the path lv: name it; returns its key and the bags around it"""
    ENG.n += 1
    at = ("at", L, ENG.n)
    d = lv.ctx.delta(ENG.ctx).renamed(ELEM(L), at)
    pre, post = ("pre", L, at), ("post", L, at)
    for b in (pre, post):
        ENG.ctx.leafdelta[b] = delta_of(L).renamed(ELEM(L), ELEM(b))
    ENG.ctx.parts[L] = ("split", (("b", pre), ("e", at), ("b", post)))
    ENG.ctx.apply(d)
    ENG.ctx.notes["at"] = (ELEM(L), at)
    return at, pre, post


# ------------------------------------------------------------------ comprehension and loops
def comprehension(I, n, env, elt):
    gens = n.generators
    if getattr(I, "texts", None):
        r = I.texts.comprehension(I, gens, env, elt)
        if r is not NotImplemented:
            return r

    def go(k, env):
        if k == len(gens):
            return [("v", I.ev(elt, env))]
        g = gens[k]
        src = I.ev(g.iter, env)
        out = []
        for kind, x in I.iterate(src):
            if kind == "v":
                e = env.child()
                I.assign(g.target, x, e)
                if all(I.truth(I.ev(c, e)) for c in g.ifs):
                    out += go(k + 1, e)
            else:
                def fn(el):
                    res = []
                    for k2, y in el:
                        if k2 == "p":
                            sub = LObj([(k2, y)], len(ENG.levels))
                            e = env.child()
                            e.vars["$src"] = sub
                            g2 = [ast.comprehension(g.target, ast.Name("$src", ast.Load()), g.ifs, 0)] + gens[k + 1:]
                            res += comprehension(I, type("G", (), dict(generators=g2)), e, elt).segs
                            continue
                        e = env.child()
                        I.assign(g.target, y, e)
                        if all(I.truth(I.ev(c, e)) for c in g.ifs):
                            res += go(k + 1, e)
                    return res
                out.append(("p", map_piece(I, x, fn)))
        return out
    first = I.ev(gens[0].iter, env) if isinstance(gens[0].iter, ast.Name) else None
    segs = go(0, env)
    if isinstance(first, Perm):
        return Perm(segs, len(ENG.levels), "list")
    return LObj(segs, len(ENG.levels))


def search(I, segs, test):
    """is there an element for which test (value -> bool) holds?"""
    for kind, x in segs:
        if kind == "v":
            if test(x):
                return True
        else:
            flat = []
            keep = []
            every = []
            for L in leaves(x.bag):
                def fn(el):
                    for k2, y in el:
                        if k2 == "v":
                            if test(y):
                                return True
                        elif search(I, open_split(I, [(k2, y)]), test):
                            return True
                    return False
                outs = explore_leaf(I, x, L, fn)
                check_no_effects(outs)
                every += outs
                for o in outs:
                    if o[2] == "exc" or o[3] is True:
                        flat.append((L, o))
                keep.append((L, [o for o in outs if o[2] == "ret" and o[3] is False]))
            if flat:
                opts = [(("none", x.bag), TRUE, None)] + [(("some", x.bag, L, o[0]), TRUE, None) for L, o in flat]
                i = ENG.choose(opts)
                if i:
                    L, o = flat[i - 1]
                    at, _, _ = at_element(L, o[1])
                    late_writes(I, x.bag, every, [y for _, outs in keep for y in outs])
                    exit_writes(o, ELEM(L), at)
                    if o[2] == "exc":
                        raise Raised(o[3])
                    return True
            for L, outs in keep:
                commit_cases(L, [o[1] for o in outs])
            late_writes(I, x.bag, every, [y for _, outs in keep for y in outs])
    return False


def for_loop(I, s, env, segs):
    from interp import Brk, Cont, Ret, Env, assigned_names
    names = assigned_names(s.body)
    tnames = assigned_names([ast.Assign([s.target], ast.Constant(0))])
    for kind, x in segs:
        if kind == "v":
            I.assign(s.target, x, env)
            try:
                I.block(s.body, env)
            except Brk:
                return
            except Cont:
                continue
            continue
        acc = accumulators(s.body, names, env)
        results = []
        for L in leaves(x.bag):
            def fn(el, L=L):
                sig = ("next", None)
                benv = env.copy()
                for n in names:
                    if n not in tnames and n not in acc:
                        if isinstance(benv.vars.get(n), LObj) and only_aug(s.body, n):
                            continue
                        benv.vars[n] = Poison("assigned in the loop body")
                for n in acc:
                    benv.vars[n] = AccV(n)
                for k2, y in el:
                    if k2 == "p":
                        sub = open_split(I, [(k2, y)])
                        try:
                            for_loop(I, s, benv, sub)
                        except Brk:
                            pass
                        continue
                    I.assign(s.target, y, benv)
                    try:
                        I.block(s.body, benv)
                    except Brk:
                        return ("break", None, benv)
                    except Cont:
                        pass
                    except Ret as r:
                        return ("return", r.v, benv)
                return ("next", None, benv)
            results.append((L, explore_leaf(I, x, L, fn)))
        exits, normal = [], []
        lists = {}
        for L, outs in results:
            for o in outs:
                for key, (lst, app) in list_effects(o).items():
                    lists[key] = lst
                if o[2] == "exc" or o[3][0] != "next":
                    exits.append((L, o))
            normal.append((L, [o for o in outs if o[2] == "ret" and o[3][0] == "next"]))
        for L, outs in results:
            for o in outs:
                if o[1].touched & set(lists):
                    raise Unsupported("a list is read and changed in the same loop")
        at = None
        if exits:
            opts = [(("noexit", x.bag), TRUE, None)] + [(("exit", x.bag, L, o[0]), TRUE, None) for L, o in exits]
            i = ENG.choose(opts)
            if i:
                at = exits[i - 1]
        if at is not None:
            L, o = at
            n_eff = any(list_effects(p) for _, outs in normal for p in outs)
            if n_eff and len(results) > 1:
                raise Unsupported("early exit from a loop over several kinds of elements")
            norm = dict(normal)[L]
            pre_d = [p[1].ctx.delta(ENG.ctx) for p in norm]
            key, pre, post = at_element(L, o[1])
            if n_eff or True:
                # the elements before it took a normal path
                if not norm:
                    ENG.ctx.parts[pre] = ("cases", ())
                    subs = []
                elif len(norm) == 1:
                    ENG.ctx.leafdelta[pre] = pre_d[0].renamed(ELEM(L), ELEM(pre))
                    subs = [pre]
                else:
                    subs = []
                    for k, d in enumerate(pre_d):
                        b = ("sub", pre, ENG.n * 100 + k)
                        subs.append(b)
                        ENG.ctx.leafdelta[b] = d.renamed(ELEM(L), ELEM(b))
                    ENG.n += 1
                    ENG.ctx.parts[pre] = ("cases", tuple(subs))
                if n_eff and norm:
                    apply_effects(I, lists, pre, L, list(zip(subs, norm)), env)
            late_writes(I, x.bag, [p for _, outs in results for p in outs], [p for _, outs in normal for p in outs])
            exit_writes(o, ELEM(L), key)
            for kk, (lst, app) in list_effects(o).items():
                if kk[0] == "acc":
                    raise Unsupported("accumulator with an early exit")
                for k2, y in app:
                    raw_append(lst, (k2, ren_value(y, ELEM(L), key)))
            if o[2] == "exc":
                raise Raised(o[3])
            sig, val, benv = o[3]
            for n in names | tnames:
                if n in benv.vars and not isinstance(benv.vars[n], (Poison, AccV)):
                    env.vars[n] = ren_value(benv.vars[n], ELEM(L), key)
                elif n not in tnames and n not in acc and assigned_on(n, normal, env):
                    env.vars[n] = Poison("assigned before the loop ended")
            if sig == "return":
                raise Ret(ren_value(val, ELEM(L), key))
            return
        pairs = []
        for L, outs in normal:
            ls = commit_cases(L, [o[1] for o in outs])
            pairs += [(l, o, L) for l, o in zip(ls, outs)]
        for key, lst in lists.items():
            em = {}
            for l, o, L in pairs:
                app = o[1].effects.get(key, (None, []))[1]
                em[l] = [(k2, ren_value(y, ELEM(L), ELEM(l))) for k2, y in app]
            pc = Piece(x.bag, em)
            if key[0] == "acc":
                tot = ZERO
                kind = "int"
                from interp import nv, mknum
                for l, ev in em.items():
                    for k2, y in ev:
                        q, kd = nv(y)
                        kind = kd if kd != "int" else kind
                        tot = tot + segsum(l, ELEM(l), q)
                q, kd = nv(env.get(key[1]))
                env.vars[key[1]] = mknum(q + tot, kd if kind == "int" else kind)
            elif any(em.values()):
                raw_append(lst, ("p", pc))
        for n in names | tnames:
            if n in acc:
                continue
            if isinstance(env.vars.get(n), LObj) and only_aug(s.body, n):
                continue
            if n not in tnames and not assigned_on(n, normal, env):
                continue
            env.vars[n] = Poison("last iteration")
        late_writes(I, x.bag, [p for _, outs in results for p in outs], [p for _, outs in normal for p in outs])
    if s.orelse:
        I.block(s.orelse, env)


def assigned_on(n, normal, env):
    """does an iteration that goes on assign the variable?"""
    return any(not isinstance(o[3][2].vars.get(n), Poison) for _, outs in normal for o in outs)


def apply_effects(I, lists, bag, L, pairs, env):
    for key, lst in lists.items():
        if key[0] == "acc":
            raise Unsupported("accumulator with an early exit")
        em = {}
        for l, o in pairs:
            app = o[1].effects.get(key, (None, []))[1]
            em[l] = [(k2, ren_value(y, ELEM(L), ELEM(l))) for k2, y in app]
        raw_append(lst, ("p", Piece(bag, em)))


class AccV:
    def __init__(self, name):
        self.name = name


def only_aug(body, n):
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store):
                if not any(isinstance(y, ast.AugAssign) and y.target is x and isinstance(y.op, ast.Add) for y in ast.walk(st)):
                    return False
    return True


def accumulators(body, names, env):
    from interp import is_num
    out = set()
    for n in names:
        try:
            v = env.get(n)
        except Raised:
            continue
        if is_num(v) and only_aug(body, n):
            # not read anywhere else in the body
            reads = sum(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) for st in body for x in ast.walk(st))
            if reads == 0:
                out.add(n)
    return out


# ------------------------------------------------------------------ lists
def touch(lst):
    for lv in ENG.levels[lst.level:] if lst.level else []:
        if ("l", id(lst)) in lv.effects:
            raise Unsupported("a list is read inside the loop that changes it")
        lv.touched.add(("l", id(lst)))


def raw_append(lst, seg):
    if lst.level >= len(ENG.levels):
        if lst.own is not None:
            raise FrameViolation("the term list of an existing expression is changed")
        lst.segs.append(seg)
        return
    if lst.own is not None:
        raise FrameViolation("the term list of an existing expression is changed")
    lv = ENG.levels[-1]
    k = ("l", id(lst))
    if k in lv.touched:
        raise Unsupported("a list is read and changed in the same loop")
    lv.effects.setdefault(k, (lst, []))[1].append(seg)


def permuted(lst):
    """the same elements in an unknown order.  Known elements keep their identity; which position they take is unknown,
    so a list of several known elements becomes a list whose parts may only be measured or searched"""
    return LObj(list(lst.segs), len(ENG.levels), "list") if False else Perm(list(lst.segs), len(ENG.levels), "list")


class Perm(LObj):
    """a list whose order is unknown, except for the first `fixed` elements"""
    __slots__ = ("fixed",)

    def __init__(self, *a):
        LObj.__init__(self, *a)
        self.fixed = 0


def last_found(v):
    at = ENG.ctx.notes.get("at")
    return ren_value(v, at[0], at[1]) if at else v


def list_extend(I, lst, v):
    for seg in I.iterate(v):
        raw_append(lst, seg)


def length(lst):
    t = ZERO
    for k, x in resolve(lst.segs):
        if k == "v":
            t = t + 1
        else:
            t = t + piece_measure("SUM", x, lambda y: ONE)
    return t


def piece_measure(kind, piece, f):
    r = ZERO if kind == "SUM" else ONE
    for L in leaves(piece.bag):
        for k, y in emits_at(piece, L):
            if k == "v":
                b = f(y)
            else:
                b = seg_measure(kind, [(k, y)], f)
            r = r + segsum(L, ELEM(L), b) if kind == "SUM" else r * segprod(L, ELEM(L), b)
    return r


def seg_measure(kind, segs, f):
    r = ZERO if kind == "SUM" else ONE
    for k, x in resolve(segs):
        b = f(x) if k == "v" else piece_measure(kind, x, f)
        r = r + b if kind == "SUM" else r * b
    return r


def forall(segs, f):
    """does f(value) -> formula hold for all elements?  TRUE when every generic element provably satisfies it"""
    out = []
    for k, x in resolve(segs):
        if k == "v":
            out.append(f(x))
        else:
            for L in leaves(x.bag):
                for k2, y in emits_at(x, L):
                    if not in_leaf(L, lambda: ENG.entails(forall([(k2, y)], f) if k2 == "p" else f(y))):
                        return FALSE
    return conj(*out)


def in_leaf(L, fn):
    c = Ctx(ENG.ctx)
    try:
        c.apply(delta_of(L))
    except Infeasible:
        return True
    ENG.levels.append(Level(c, [], ELEM(L)))
    try:
        return fn()
    finally:
        ENG.levels.pop()


def expose(I, lst, n, end=False):
    """make the first n (or last n) elements of the list known ones"""
    lst.segs = resolve(lst.segs)
    done = 0
    guard = 0
    while done < n:
        guard += 1
        if guard > 12:
            raise Unsupported("exposing list elements")
        order = list(reversed(lst.segs)) if end else lst.segs
        if done >= len(order):
            return
        k, x = order[done]
        if k == "v":
            done += 1
            continue
        split_one(I, x, end)
        lst.segs = resolve(lst.segs)


def expect_end(I, lst, n):
    """is there nothing after the first n elements (already exposed)?"""
    for k, x in list(lst.segs[n:]):
        if k != "p":
            continue
        bag = x.bag
        if bag in ENG.ctx.parts or set(x.emits) != {bag}:
            return
        if ENG.entails(count(bag).eq(0)):
            i = 1
        else:
            i = ENG.choose([(("nonempty", bag), P(1).le(count(bag)), None), (("empty", bag), count(bag).eq(0), None)])
        if i == 0:
            raise Raised(ValueError("unpack"))
        ENG.ctx.parts[bag] = ("cases", ())
    lst.segs = resolve(lst.segs)


def split_one(I, piece, end):
    bag = piece.bag
    if bag in ENG.ctx.parts:
        full = []
        for L in leaves(bag):
            if ENG.entails(count(L).eq(0)):
                ENG.ctx.parts[L] = ("cases", ())
            else:
                full.append(L)
        if len(full) != 1:
            raise Unsupported("indexing a list with several kinds of elements")
        bag = full[0]
        piece = Piece(bag, {bag: emits_at(piece, bag)})
    if set(piece.emits) != {bag} or len(piece.emits[bag]) != 1:
        raise Unsupported("indexing a filtered list")
    opts = [(("nonempty", bag), P(1).le(count(bag)), None), (("empty", bag), count(bag).eq(0), None)]
    if ENG.entails(P(1).le(count(bag))):
        opts = opts[:1]
    i = ENG.choose(opts)
    if i == 1:
        ENG.ctx.parts[bag] = ("cases", ())
        return
    ENG.n += 1
    h, rest = ("at", bag, "last" if end else "first"), ("rest", bag, "last" if end else "first")
    d = delta_of(bag)
    ENG.ctx.leafdelta[rest] = d.renamed(ELEM(bag), ELEM(rest))
    ENG.ctx.parts[bag] = ("split", (("b", rest), ("e", h)) if end else (("e", h), ("b", rest)))
    ENG.ctx.apply(d.renamed(ELEM(bag), h))
    ENG.fact(P(0).le(count(rest)))


class IdxV(NV):
    """position of the open element (key) in the list whose segments were segs; plus offset"""
    __slots__ = ("segs", "pos", "key", "off")

    def __init__(self, segs, pos, key, off=0):
        NV.__init__(self, A("g", "idx", ("i", key)) + P(off), "int")
        self.segs = segs
        self.pos = pos
        self.key = key
        self.off = off

    def renamed(self, a, b):
        return IdxV(self.segs, self.pos, renkey(self.key, a, b), self.off)


def list_in(I, lst, v):
    """is the value among the elements?  Yes: then it equals the one at some position, which `index` gives"""
    touch(lst)
    segs = resolve(list(lst.segs))
    opts, acts = [], []
    for pos, (k, x) in enumerate(segs):
        if k == "v":
            opts.append((("equals", pos, repr(x)[:60]), TRUE, None))
            acts.append((pos, None, x))
            continue
        for L in leaves(x.bag):
            for k2, y in emits_at(x, L):
                if k2 != "v":
                    raise Unsupported("membership in a nested list")
                if y is None and v is not None:
                    continue
                opts.append((("among", L, pos), P(1).le(count(L)), None))
                acts.append((pos, L, y))
    uid = ENG.uid("wit")
    i = ENG.choose(opts + [(("not among", uid), TRUE, None)])
    if i == len(opts):
        return False
    pos, L, y = acts[i]
    if L is not None:
        ENG.ctx.apply(delta_of(L).renamed(ELEM(L), uid))
        y = ren_value(y, ELEM(L), uid)
    if not I.truth(I.fold(I.eq_values(v, y))):
        raise Infeasible()
    ENG.ctx.notes[("among", uid)] = (id(lst), lst, segs, pos, uid if L is not None else None, v)
    return True


def list_index(I, lst, v):
    for k, w in reversed(list(ENG.ctx.notes.items())):
        if isinstance(k, tuple) and k[0] == "among" and (w[1] is lst or same_segs(w[2], resolve(list(lst.segs)))) and w[5] is v:
            segs, pos, key = w[2], w[3], w[4]
            if key is None and all(s[0] == "v" for s in segs[:pos]):
                return pos
            return IdxV(segs, pos, key)
    raise Unsupported("index in a list of unknown length")


def list_get(I, lst, k):
    touch(lst)
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, IdxV):
        if k.off == 0 and same_segs(lst.segs, k.segs):
            x = k.segs[k.pos][1]
            return [ren_value(y, ELEM(x.bag), k.key) for _, y in x.emits[x.bag]][0]
        raise Unsupported("indexing with a loop position")
    if isinstance(k, NV):
        raise Unsupported("symbolic index")
    if not isinstance(k, int):
        raise Raised(TypeError("index"))
    c = lst.concrete()
    if isinstance(lst, Perm):
        return perm_get(I, lst, k)
    if c is None or len(c) > 1:
        ordered()
    if c is None:
        expose(I, lst, k + 1 if k >= 0 else -k, end=k < 0)
        segs = lst.segs
    else:
        segs = lst.segs
    try:
        seg = segs[k]
    except IndexError as ex:
        if lst.concrete() is None:
            raise Unsupported("index")
        raise Raised(ex)
    if seg[0] != "v":
        raise Raised(IndexError()) if False else Unsupported("index into an unknown part of a list")
    return seg[1]


def perm_get(I, lst, k):
    """some element: after this the order of that one is fixed"""
    n = None
    if k < 0:
        c = lst.concrete()
        if c is None:
            raise Unsupported("last element of a sorted list")
        k += len(c)
        if k < 0:
            raise Raised(IndexError())
    while lst.fixed <= k:
        lst.segs = lst.segs[:lst.fixed] + resolve(lst.segs[lst.fixed:])
        opts, acts = [], []
        for i in range(lst.fixed, len(lst.segs)):
            kind, x = lst.segs[i]
            if kind == "v":
                opts.append((("first", i, segid(lst.segs[i])), TRUE, None))
                acts.append((i, None))
            else:
                ls = leaves(x.bag)
                if len(ls) != 1 or len(emits_at(x, ls[0])) != 1 or emits_at(x, ls[0])[0][0] != "v":
                    raise Unsupported("element of a sorted filtered list")
                opts.append((("firstof", x.bag), P(1).le(count(x.bag)), None))
                acts.append((i, x))
        if not opts:
            raise Raised(IndexError())
        i, x = acts[ENG.choose(opts)]
        rest = lst.segs[:i] + lst.segs[i + 1:]
        if x is None:
            el = [lst.segs[i]]
        else:
            (bag,) = leaves(x.bag)
            x = Piece(bag, {bag: emits_at(x, bag)})
            ENG.n += 1
            at = ("at", bag, ENG.n)
            d = delta_of(bag).renamed(ELEM(bag), at)
            b = ("rest", bag, at)
            ENG.ctx.leafdelta[b] = delta_of(bag).renamed(ELEM(bag), ELEM(b))
            ENG.ctx.parts[bag] = ("split", (("e", at), ("b", b)))
            ENG.ctx.apply(d)
            ENG.fact(P(0).le(count(b)))
            el = resolve_piece(x)
            rest = lst.segs[:i] + el[1:] + lst.segs[i + 1:]
            el = el[:1]
        lst.segs = rest[:lst.fixed] + el + rest[lst.fixed:]
        lst.fixed += 1
    return lst.segs[k][1]


def same_segs(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and (x[1] is y[1] or x[0] == "p" and x[1].bag == y[1].bag) for x, y in zip(a, b))


def list_set(I, lst, k, v):
    if lst.level < len(ENG.levels):
        raise Unsupported("list item written in a loop")
    if lst.own is not None:
        raise FrameViolation("an element of the term list of an existing expression is replaced")
    if isinstance(k, int):
        list_get(I, lst, k)
        lst.segs[k] = ("v", v)
        return
    raise Unsupported("symbolic index")


def list_slice(I, lst, lo, hi):
    touch(lst)
    lvl = len(ENG.levels)
    if isinstance(lo, IdxV) or isinstance(hi, IdxV):
        ix = lo if isinstance(lo, IdxV) else hi
        if not same_segs(lst.segs, ix.segs) or (lo is not None and hi is not None):
            raise Unsupported("slice with a loop position")
        x = ix.segs[ix.pos][1]
        if set(x.emits) != {x.bag}:
            raise Unsupported("slice of a filtered list")
        parts = around(x, ix.key)
        pre, mid, post = parts[0], parts[1:-1], parts[-1]
        head, tail = list(lst.segs[:ix.pos]), list(lst.segs[ix.pos + 1:])
        if hi is not None:
            segs = head + [pre] + (mid if hi.off == 1 else [])
            if hi.off not in (0, 1):
                raise Unsupported("slice offset")
        else:
            segs = (mid if lo.off == 0 else []) + [post] + tail
            if lo.off not in (0, 1):
                raise Unsupported("slice offset")
        return LObj(segs, lvl, lst.kind)
    if isinstance(lo, NV) or isinstance(hi, NV):
        raise Unsupported("symbolic slice")
    ordered()
    if lst.concrete() is None:
        if lo is not None and lo >= 0 and (hi is None):
            expose(I, lst, lo)
        elif lo is None and hi is not None and hi < 0:
            expose(I, lst, -hi, end=True)
        elif lo is None and hi is not None and hi >= 0:
            expose(I, lst, hi)
        elif lo is None and hi is None:
            pass
        else:
            raise Unsupported("slice")
    return LObj(list(lst.segs[lo:hi]), lvl, lst.kind)


def list_eq(I, a, b):
    sa = a.segs if isinstance(a, LObj) else [("v", x) for x in a]
    sb = b.segs if isinstance(b, LObj) else [("v", x) for x in b]
    sa, sb = resolve(sa), resolve(sb)
    if all(k == "v" for k, _ in sa) and all(k == "v" for k, _ in sb):
        if len(sa) != len(sb):
            return FALSE
        for (_, x), (_, y) in zip(sa, sb):
            if not I.truth(I.fold(I.eq_values(x, y))):
                return FALSE
        return TRUE
    la, lb = LObj(sa, len(ENG.levels)), LObj(sb, len(ENG.levels))
    if same_value(la, lb):
        return TRUE
    # equal lists of expressions have equal sums and products of values
    def facts():
        for kind in ("SUM", "PROD"):
            for g in GHOSTS:
                ENG.fact(seg_measure(kind, sa, lambda x: ghost(g, need_se(x))).eq(seg_measure(kind, sb, lambda x: ghost(g, need_se(x)))))
        ENG.fact(length(la).eq(length(lb)))
    i = ENG.choose([(("listeq", tuple(map(segid, sa)), tuple(map(segid, sb))), TRUE, facts), (("listne", tuple(map(segid, sa)), tuple(map(segid, sb))), TRUE, None)])
    return TRUE if i == 0 else FALSE


def need_se(x):
    if not isinstance(x, SE):
        raise Unsupported("comparison of lists of something else")
    return x


def segid(s):
    return s[1].uid if isinstance(s[1], SE) else s[1].bag if s[0] == "p" else repr(s[1])


class Bounded:
    """range(n) with an unknown bound"""
    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi


class EnumOf(Virt):
    """enumerate of a list known through a contract"""
    def __init__(self, of):
        self.of = of


class Backwards(Virt):
    """a range of unknown length, from its end"""
    def __init__(self, rng):
        self.rng = rng


REPEAT = []     # [elem] * n for an unknown n


class SymList(Virt):
    """the list of the variables (or wildcards) of an expression: only its length is known"""
    def __init__(self, se, what):
        self.se = se
        self.what = what

    def count(self):
        p = A("g", "n" + self.what, self.se.uid)
        ENG.fact(P(0).le(p))
        ENG.fact(isint(p))
        return p


class Vec(Virt):
    """a list of non-negative integers of a given length and total"""
    def __init__(self, length, total):
        self.uid = ENG.uid("vec")
        self.length = length
        self.total = total

    def entry(self, key):
        return A("g", "vec", (self.uid, key))


def vec_align(v, shape):
    """the entries next to the elements of a list of the same length"""
    shape = resolve(shape)
    n = ZERO
    for k, x in shape:
        n = n + (ONE if k == "v" else piece_measure("SUM", x, lambda y: ONE))
    if not (n == v.length or ENG.entails(n.eq(v.length))):
        raise Unsupported("a vector of another length")
    out = []
    tot = ZERO
    for pos, (k, x) in enumerate(shape):
        if k == "v":
            p = v.entry(pos)
            ENG.fact(isint(p))
            ENG.fact(P(0).le(p))
            tot = tot + p
            out.append((k, NV(p, "int")))
            continue
        em = {}
        for L in leaves(x.bag):
            e = emits_at(x, L)
            if len(e) != 1 or e[0][0] != "v":
                raise Unsupported("a vector next to a filtered list")
            p = v.entry(ELEM(L))
            d = delta_of(L).plus(Delta())
            d.facts = d.facts + [isint(p), P(0).le(p)]
            ENG.ctx.leafdelta[L] = d
            tot = tot + segsum(L, ELEM(L), p)
            em[L] = [("v", NV(p, "int"))]
        out.append(("p", Piece(x.bag, em)))
    ENG.fact(tot.eq(v.total))
    return out


class SetOf:
    def __init__(self, lst):
        self.lst = lst


def dict_key(I, d, k):
    if isinstance(k, SymStr):
        return sub_lookup(I, d, k)
    if isinstance(k, NV):
        raise Unsupported("symbolic dictionary key")
    try:
        return d.d.get(k, MISSING)
    except TypeError:
        raise Unsupported("dictionary key")


def sub_lookup(I, d, k):
    names = sorted(d.d, key=str)
    vals = [(("key", k.key, n), str_eq(k, n), (lambda n=n: narrow(k, n))) for n in names]
    i = ENG.choose(vals + [(("nokey", k.key, tuple(map(str, names))), conj(*[neg(str_eq(k, n)) for n in names]), None)])
    return d.d[names[i]] if i < len(names) else MISSING


STRVALUES = {}      # key -> function(constant) called when the string is known to be that constant


def narrow(k, n):
    f = ENG.ctx.notes.get(("strval", k.key))
    if f:
        f(n)


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        if a.key is not None and a.key == b.key:
            return TRUE
        if a.key is None or b.key is None:
            return pred("streq?", ENG.uid("s"))
        x, y = sorted([a.key, b.key], key=repr)
        return pred("streq", x, y)
    if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
        return FALSE
    s, c = (a, b) if isinstance(a, SymStr) else (b, a)
    if s.key is None:
        return pred("streq?", ENG.uid("s"))
    if isinstance(s.key, tuple) and s.key[0] == "str":
        # str(number) equals a numeral exactly when the number does
        try:
            return s.key[1].eq(Fraction(c))
        except ValueError:
            return FALSE
    return pred("streqc", s.key, c)


def str_in(I, s, items):
    fs = [str_eq(s, c) for c in items if isinstance(c, (str, SymStr))]
    return I.fold(disj(*fs))


# ------------------------------------------------------------------ numbers
def floor(p):
    c = p.const()
    if c is not None:
        return P(math.floor(c))
    r = A("floor", p)
    ENG.fact(isint(r))
    ENG.fact(r.le(p))
    ENG.fact(p.lt(r + 1))
    ENG.fact(imp(isint(p), r.eq(p)))
    return r


def numden(p):
    c = p.const()
    if c is not None:
        return P(c.numerator), P(c.denominator)
    n, d = A("num", p), A("den", p)
    k = ("numden", p)
    if not ENG.ctx.notes.get(k):
        ENG.ctx.notes[k] = True
        ENG.fact(isint(n))
        ENG.fact(isint(d))
        ENG.fact(P(1).le(d))
        ENG.fact((p * d).eq(n))
        ENG.fact(isint(p) == d.eq(1))
    return n, d


def bit_length(I, n):
    b = A("bits", n.p)
    ENG.fact(isint(b))
    ENG.fact(P(0).le(b))
    ENG.fact(n.p.lt(power(P(2), b)))
    ENG.fact((-n.p).lt(power(P(2), b)))
    return NV(b, "int")


def num_pow(I, p, k1, q, k2, kind):
    from interp import mknum
    c = q.const()
    if k2 in ("int",) or k2 == "frac" and ENG.decide(isint(q)):
        if ENG.decide(conj(p.eq(0), q.lt(0))):
            raise Raised(ZeroDivisionError())
        if k1 == "int" and k2 == "int" and not ENG.decide(P(0).le(q)):
            return mknum(power(p, q), "float")
        k = k1 if k1 != "int" else ("int" if k2 == "int" else "frac")
        return mknum(power(p, q), k)
    # a non-integer exponent: Python computes a float
    return mknum(power(p, q), "float")


# ------------------------------------------------------------------ operators and comparisons of expressions
OPS = {}


def expr_binop(I, op, a, b):
    if isinstance(a, (LObj, tuple, DObj, str, SymStr)) or isinstance(b, (LObj, tuple, DObj, str, SymStr)) or a is None or b is None:
        raise Unsupported("expression operator with a container")
    a, b = to_se(I, a), to_se(I, b)
    if op in ("__mod__", "__floordiv__"):
        f = group_attr(I, a, op)
        if f is None:
            raise Raised(TypeError(op))
        r = I.call(f, [a, b])
        if r is NotImplemented:
            raise Raised(TypeError(op))
        return r
    ENG.used.add("operator " + op)
    return I.ops.get(op, OPS[op])(I, a, b)


def expr_neg(I, a):
    if getattr(I, "opposite", None):
        r = I.opposite(I, a)
        if r is not NotImplemented:
            return r
    ENG.used.add("operator __neg__")
    return OPS["__neg__"](I, a)


def expr_compare(I, op, a, b):
    if op == "__eq__":
        return I.fold(eq_expr(I, a, b))
    if op == "__ne__":
        return I.fold(neg(eq_expr(I, a, b)))
    if isinstance(a, SE) and classes(a) <= NUMS and (isinstance(b, SE) and classes(b) <= NUMS or not isinstance(b, SE)):
        p, q = V(a), V(to_se(I, b))
        ENG.used.add("comparison of numbers")
        f = {"__lt__": lambda: p.lt(q), "__le__": lambda: p.le(q), "__gt__": lambda: q.lt(p), "__ge__": lambda: q.le(p)}[op]()
        return I.fold(f)
    if not isinstance(a, SE):
        from interp import MIRROR
        return expr_compare(I, MIRROR[op], b, a)
    f = group_attr(I, a, op)
    if f is None or f is object.__dict__.get(op):
        raise Raised(TypeError("'%s' not supported" % op))
    return I.call(f, [a, to_se(I, b)])


def eq_expr(I, a, b):
    """contract of ==: equal expressions have the same ghosts; numbers are equal exactly when their values are"""
    for x in (a, b):
        if x is None or isinstance(x, (bool, str, SymStr, LObj, tuple, DObj, type)):
            return FALSE if not isinstance(x, (SymStr,)) else FALSE
        if isinstance(x, BV):
            raise Unsupported("comparison of an expression with a bool")
    a, b = to_se(I, a), to_se(I, b)
    ENG.used.add("equality of expressions")
    if a.uid == b.uid:
        return TRUE
    ca, cb = classes(a), classes(b)
    common = ca & cb
    if ca & NUMV and cb & NUMV:
        common = common | ((ca | cb) & NUMV)
    if not common:
        return FALSE
    if ca <= NUMV and cb <= NUMV:
        return V(a).eq(V(b))
    if len(ca) == 1 and ca == cb and next(iter(ca)) in ("Pi", "E"):
        return TRUE
    if a.uid in LIT and b.uid in LIT:
        return z3.BoolVal(LITEQ(a, b))
    key = ("eqd",) + tuple(sorted([a.uid, b.uid], key=repr))
    old = ENG.ctx.notes.get(key)
    if old is not None:
        return z3.BoolVal(old)
    for x, y in ((a, b), (b, a)):
        if classes(y) <= NUMV and V(y).const() is not None:
            c = V(y).const()

            def eq(x=x):
                restrict(x, NUMV)
                ENG.ctx.notes[key] = True

            def ne(x=x):
                ENG.ctx.notes[key] = False
                ENG.ctx.notes[("neq", x.uid)] = ENG.ctx.notes.get(("neq", x.uid), ()) + (c,)
                if classes(x) <= NUMV:
                    ENG.fact(neg(V(x).eq(c)))
            i = ENG.choose([(("eqc", x.uid, c), V(x).eq(c), eq), (("nec", x.uid, c), TRUE, ne)])
            return z3.BoolVal(i == 0)

    def eq():
        ENG.ctx.notes[key] = True
        restrict(a, common if not (cb & NUMV and ca & NUMV) else (cb | NUMV))
        restrict(b, classes(a) if not (classes(a) & NUMV) else classes(a) | NUMV)
        for g in GHOSTS:
            ENG.fact(ghost(g, a).eq(ghost(g, b)))
        if not (classes(a) | classes(b)) & {"Float"} and a.uid not in LIT and b.uid not in LIT:
            ENG.fact(pred("rint", a.uid) == pred("rint", b.uid))
        for h in ONEQ:
            h(a, b)

    def ne():
        ENG.ctx.notes[key] = False
        for h in ONNE:
            h(a, b)
        if classes(a) <= NUMV and classes(b) <= NUMV:
            ENG.fact(neg(V(a).eq(V(b))))
    i = ENG.choose([(("eq", a.uid, b.uid), TRUE, eq), (("ne", a.uid, b.uid), TRUE, ne)])
    return z3.BoolVal(i == 0)


def LITEQ(a, b):
    ca, fa = LIT[a.uid]
    cb, fb = LIT[b.uid]
    if ca in NUMV and cb in NUMV:
        return fa["value"] == fb["value"]
    if ca != cb or set(fa) != set(fb):
        return False
    return all(fa[k] == fb[k] if not isinstance(fa[k], (SE, tuple)) else
               (LITEQ(fa[k], fb[k]) if isinstance(fa[k], SE) else len(fa[k]) == len(fb[k]) and all(LITEQ(x, y) for x, y in zip(fa[k], fb[k])))
               for k in fa)


def same_object(a, b):
    if a.uid in LIT or b.uid in LIT:
        raise Unsupported("identity of a constant")
    fa, fb = a.uid in ENG.ctx.fields, b.uid in ENG.ctx.fields
    if fa or fb:
        return False
    if not classes(a) & classes(b):
        return False
    raise Unsupported("identity of two objects")


# ------------------------------------------------------------------ generated methods
def generated(I, f, args, kw):
    import dataclasses
    name = f.__name__
    if name == "__init__" and args and isinstance(args[0], (SE, Obj)):
        o = args[0]
        cls = the_class(I, o) if isinstance(o, SE) else o.cls
        fs = [x for x in dataclasses.fields(cls) if x.init]
        for x, v in zip(fs, args[1:]):
            I.setattr(o, x.name, v)
        for x in fs[len(args) - 1:]:
            if x.name in kw:
                I.setattr(o, x.name, kw[x.name])
            elif x.default is not dataclasses.MISSING:
                I.setattr(o, x.name, I.lift(x.default))
            elif x.default_factory is not dataclasses.MISSING:
                I.setattr(o, x.name, I.call(x.default_factory, []))
            else:
                raise Raised(TypeError("missing " + x.name))
        pi = I.mro_lookup(cls, "__post_init__")
        if pi is not None:
            I.call(pi, [o])
        return None
    if name == "__eq__":
        return I.fold(eq_expr(I, args[0], args[1]))
    raise Unsupported("generated function " + name)
