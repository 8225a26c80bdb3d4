"""Obligations: each task is one function of the repository (and, where it is generic, one class) with its contract."""
import sys
import time
import traceback
import z3
import load
from load import E as X
from engine import *
from engine import ENG
import engine
import prove
from terms import *
from vals import *
import world as W
from world import V, ghost, classes
import spec
from spec import *
import interp
from interp import Interp

TASKS = {}          # property -> [Task]


class Task:
    def __init__(self, prop, name, fn, allowed=(), used=("v",), limit=60, setup=None, paths=600, bounded=None, weight=1, ghosts=("v", "s", "d"), exact=None):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.allowed = allowed
        self.used = used
        self.limit = limit
        self.setup = setup
        self.paths = paths
        self.bounded = bounded
        self.weight = weight
        self.ghosts = ghosts
        self.exact = prop in ("C02", "C14", "C16") if exact is None else exact
        TASKS.setdefault(prop, []).append(self)


DISCHARGES = {}     # name of a contract used at calls -> the tasks that discharge it
HAVOC = set()      # contracts that claim nothing of the result


def oblige(name, goal, timeout=None):
    """an obligation of the path being explored"""
    t = timeout or TIMEOUT
    if FRAME[0]:
        return "proved"
    r, d = prove.prove(ENG, ENG.ctx, goal, timeout=t)
    REC_PATH.append((name, r, detail(d), goal))
    return r


TIMEOUT = 4000
FRAME = [False]     # only frame conditions are checked
REC_PATH = []


def detail(d):
    if d is None or isinstance(d, str):
        return d or ""
    try:
        return model_text(d)
    except Exception as ex:
        return "model: %s" % ex


def showatom(n):
    if n[0] == "a":
        return repr(prove.one_atom(int(n[1:])))
    if n[0] == "p":
        return str(engine.PKEYS[int(n[1:])])
    return n


def model_text(m):
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name())[:60]:
        out.append("%s = %s" % (showatom(d.name())[:120], str(m[d])[:40]))
    return "; ".join(out)


class Refuted(BaseException):
    """one refuted obligation is enough"""


def run_task(t, verbose=False):
    """executes the task; returns a report"""
    global REC_PATH
    ENG.__init__()
    prove.CACHE.clear()
    prove.ICACHE.clear()
    ENG.deadline = time.time() + t.limit
    ENG.max_paths = t.paths
    spec.only(*t.ghosts)
    spec.USED.clear()
    spec.USED.update(t.used)
    I = Interp()
    W.VIRTUAL.clear()
    W.DEFAULT = W.FINITE
    spec.install(I)
    FRAME[0] = getattr(t, "frame", False)
    if t.setup:
        t.setup(I)
    recs = []
    t0 = time.time()
    status, reason = None, ""

    def body():
        global REC_PATH
        REC_PATH = []
        recs.append((None, REC_PATH))
        try:
            I.depth = 0
            ENG.ctx.classes[VAR.uid] = frozenset(["Symbol"])
            W.setdef(VAR, "d", ONE)
            t.fn(I)
            if t.exact and ENG.ctx.notes.get("rounded"):
                REC_PATH.append(("no rounded number in an exact result", "refuted", "a float is turned into an exact number, or the float nearest to an exact number is compared", None))
        except PathEnd:
            pass
        except W.FrameViolation as ex:
            if not FRAME[0]:
                raise
            REC_PATH.append(("frame", "refuted", str(ex), None))
        except Raised as ex:
            if not FRAME[0] and not isinstance(ex.exc, tuple(t.allowed)):
                r = prove.infeasible(ENG, ENG.ctx, TRUE, timeout=2000)
                REC_PATH.append(("no %s" % type(ex.exc).__name__, "proved" if r else "raises", "%r" % (ex.exc,), None))
        recs[-1] = (tuple(str(l[0][0]) + ":" + str(l[1]) if isinstance(l[0], tuple) else str(l) for l in ENG.levels[-1].labels), REC_PATH)
        if not prove.consistent(ENG, ENG.ctx):
            recs[-1] = (recs[-1][0], [])
        elif not REC_PATH:
            REC_PATH.append(("frame" if FRAME[0] else "path allowed", "proved", "", None))
        if any(o[1] in ("refuted", "raises") for o in recs[-1][1]):
            raise Refuted()
    try:
        ENG.explore(body)
    except Refuted:
        pass
    except Undef as ex:
        status, reason = "undecided", "outside the domain: %s" % ex
    except Unsupported as ex:
        status, reason = "undecided", "unsupported: %s" % ex
        if verbose:
            traceback.print_exc(limit=-4)
    except Budget:
        status, reason = "undecided", "time limit"
    except (RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, z3.Z3Exception) as ex:
        status, reason = "undecided", "engine: %s %s" % (type(ex).__name__, ex)
        if verbose:
            traceback.print_exc(limit=-4)
    obl = [(lab, o) for lab, rec in recs for o in rec]
    bad = [(lab, o) for lab, o in obl if o[1] != "proved"]
    if status is None:
        if not obl:
            status, reason = "undecided", "no path reaches the postcondition"
        elif not bad:
            status = "proved"
        elif any(o[1] in ("refuted", "raises") for _, o in bad):
            status, reason = "refuted", "%d of %d obligations" % (len(bad), len(obl))
        else:
            status, reason = "undecided", "solver gave up on %d of %d obligations" % (len(bad), len(obl))
    return dict(function=t.name, prop=t.prop, status=status, reason=reason, obligations=len(obl), discharged=len(obl) - len(bad),
                refuted=[dict(obligation=o[0], path=list(lab or ())[:12], detail=(o[2] or "")[:1500], goal=str(o[3])[:400], status=o[1]) for lab, o in bad][:8],
                paths=ENG.stats["paths"], queries=ENG.stats["queries"], solver_s=round(ENG.stats["solver_s"], 2), time=round(time.time() - t0, 2),
                used=sorted(ENG.used), assumed=sorted(ENG.assumed), inlined=sorted(ENG.inlined), bounded=t.bounded)


def sym(cname, tag="self"):
    """an arbitrary well-formed object of the class"""
    se = SE((tag,))
    if cname:
        ENG.ctx.classes[se.uid] = frozenset([cname]) if isinstance(cname, str) else frozenset(cname)
        if isinstance(cname, str):
            W.unfold(se)
    return se


def method(cname, name):
    c = getattr(X, cname)
    f = c.__dict__.get(name)
    if f is None:
        for k in c.__mro__:
            if name in k.__dict__:
                f = k.__dict__[name]
                break
    return f


def call_real(I, f, args, kw=None):
    """run the body of the function under verification (contracts apply to what it calls)"""
    c = I.contracts.get(f)
    I.skip = c
    return I.call(f, args, kw or {})


# ------------------------------------------------------------------ C04
def t_diff(cname):
    def fn(I):
        se = sym(cname)
        ENG.fact(ok(se))
        ENG.fact(dok(se))
        f = method(cname, "diff")
        r = call_real(I, f, [se, VAR])
        r = W.to_se(I, r)
        oblige("value of the derivative", V(r).eq(ghost("d", se)))
    Task("C04", "expr.%s.diff" % cname, fn, allowed=(NotImplementedError,))


for c in ["Sum", "Prod", "Power", "log", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "Abs", "Rat", "Float", "Pi", "E", "Symbol"]:
    t_diff(c)


FUNCS = ["log", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "Abs"]
LEAVES = ["Rat", "Float", "Pi", "E"]


# ------------------------------------------------------------------ C05
def t_subs(cname, meth):
    def fn(I):
        se = sym(cname)
        ENG.fact(ok(se, "s"))
        ENG.fact(neg(ok(se)) if False else TRUE)
        f = method(cname, meth)
        r = W.to_se(I, call_real(I, f, [se, SubsMap()]))
        if cname in LEAVES:
            oblige("constants stay", (ghost("s", se)).eq(V(r)))
        else:
            oblige("value after the substitution", V(r).eq(ghost("s", se)))
    Task("C05", "expr.%s.%s" % (cname, meth), fn)


for c in ["Sum", "Prod", "Power"] + FUNCS + LEAVES + ["Symbol"]:
    t_subs(c, "subs")
    t_subs(c, "_evalf")


# ------------------------------------------------------------------ loops with invariants
def while_inv(I, qual, vars_, inv_, variant=None):
    """a contract for a while loop: vars_ {name: kind}, inv_(poly of each name) -> formula, variant -> Poly"""
    def h(I, s, env):
        names = interp.assigned_names(s.body)
        cur = lambda: {n: interp.nv(env.get(n))[0] for n in vars_}
        for n in names:
            if n not in vars_:
                env.vars[n] = Poison("assigned in a loop")
        for n in vars_:
            if n not in env.vars:
                raise Unsupported("the loop has changed: no variable " + n)
        oblige("loop invariant on entry", inv_(**cur()))
        i = ENG.choose([(("loop", "iterate"), TRUE, None), (("loop", "exit"), TRUE, None)])
        for n, k in vars_.items():
            p = A("g", "loop", ENG.uid(n))
            if k == "int":
                ENG.fact(isint(p))
            env.vars[n] = NV(p, k)
        ENG.fact(inv_(**cur()))
        if I.truth(I.ev(s.test, env)) != (i == 0):
            raise Infeasible()
        if i == 1:
            return
        v0 = variant(**cur()) if variant else None
        try:
            I.block(s.body, env)
        except interp.Cont:
            pass
        except interp.Brk:
            return
        oblige("loop invariant preserved", inv_(**cur()))
        if variant:
            oblige("the loop terminates", conj(P(0).le(v0), variant(**cur()).le(v0 - 1)))
        raise PathEnd()
    I.loops[(qual, "while", 0)] = h


def law_mono_base(a, b, k):
    """a, b >= 0, k > 0: a < b exactly when a^k < b^k"""
    f, g = power(a, k), power(b, k)
    pre = conj(P(0).le(a), P(0).le(b), P(0).lt(k))
    ENG.fact(imp(pre, a.lt(b) == f.lt(g)))
    ENG.fact(imp(pre, a.eq(b) == f.eq(g)))


def law_mono_exp(b, x, y):
    """b > 1: x <= y exactly when b^x <= b^y"""
    ENG.fact(imp(P(1).lt(b), x.le(y) == power(b, x).le(power(b, y))))


def law_pow_pow(b, x, y):
    """b > 0: (b^x)^y == b^(xy)"""
    ENG.fact(imp(P(0).lt(b), power(power(b, x), y).eq(power(b, x * y))))


def law_cong(a, x, b, y):
    """equal arguments, equal powers"""
    ENG.fact(imp(conj(a.eq(b), x.eq(y)), power(a, x).eq(power(b, y))))


def int_diffs(*ps):
    """differences of integers are integers (so x < y means x + 1 <= y)"""
    for i, p in enumerate(ps):
        for q in ps[:i]:
            ENG.fact(imp(conj(isint(p), isint(q)), isint(p - q)))


def num(tag, kind, facts=True):
    p = A("g", "num", (tag,))
    if kind == "int":
        ENG.fact(isint(p))
    return NV(p, kind)


import t_c02  # noqa: E402,F401
import t_c06  # noqa: E402,F401
import t_c01  # noqa: E402,F401
import t_struct  # noqa: E402,F401
import t_c03  # noqa: E402,F401
import t_c14  # noqa: E402,F401
import t_c12  # noqa: E402,F401
import t_c07  # noqa: E402,F401
import t_c10
import t_c08  # noqa: E402,F401
import t_c08b  # noqa: E402,F401
import t_c08c  # noqa: E402,F401
import t_c13  # noqa: E402,F401
import t_c17  # noqa: E402,F401
import t_c16  # noqa: E402,F401
import t_c11  # noqa: E402,F401
import t_c09  # noqa: E402,F401
import t_fresh  # noqa: E402,F401
import t_c15  # noqa: E402,F401

if __name__ == "__main__":
    import tasks
    TASKS = tasks.TASKS
    run_task = tasks.run_task
    import json
    sel = sys.argv[1:]
    for p, ts in TASKS.items():
        for t in ts:
            if not sel or any(s in (p + ":" + t.name) for s in sel):
                r = run_task(t, verbose=True)
                print(p, t.name, r["status"], r["reason"], "%d/%d" % (r["discharged"], r["obligations"]), "paths", r["paths"], "%.1fs" % r["time"], "solver %.1f" % r["solver_s"])
                if r["status"] != "proved":
                    for x in r["refuted"][:3]:
                        print("    ", x)
