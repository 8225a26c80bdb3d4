"""Run-time form of the contracts: each contract draws arguments, runs the real function and compares the
result with the mathematical spec function (oracle.py).  A failure is a concrete input on the real code."""
import random
import signal
import time
import traceback
import warnings
from fractions import Fraction

import simpy.expr as E
import oracle as O
import gen as G

warnings.simplefilter("ignore")
CONTRACTS = []          # (prop, name, functions, gen, check, weight)


class Fail(Exception):
    pass


class Skip(Exception):
    pass


def contract(prop, name, functions, weight=1.0):
    def deco(cls):
        CONTRACTS.append(dict(prop=prop, name=name, functions=functions, gen=cls.gen, check=cls.check, weight=weight))
        return cls
    return deco


def envs_for(rng, names, n=8):
    names = sorted(set(names))
    modes = ["pos", "pos", "any", "any", "unit", "int", "any", "int"]
    return [G.env(rng, names, modes[i % len(modes)]) for i in range(n)]


def sv(spec, env, N):
    try:
        return spec(env, N)
    except (OverflowError, ZeroDivisionError, ValueError):
        raise O.Undef("arith")


def perturb(env, N):
    return {k: v for k, v in env.items()}


def same_value(what, spec, res, envs, must_define=True, mag=None, tol=1e-7):
    """spec(env,N) raises Undef outside the domain.  Returns number of informative points."""
    if not isinstance(res, E.Expr):
        raise Fail("%s: result is not an expression: %r" % (what, res))
    hits = 0
    for env in envs:
        try:
            want = sv(spec, env, O.FLOAT)
        except O.Undef:
            continue
        got, why = None, None
        try:
            got = O.ev(res, env)
        except O.Undef as u:
            why = str(u)
        except (OverflowError, ZeroDivisionError, ValueError):
            why = "arith"
        if got is not None:
            if O.close(want, got, tol=tol):
                hits += 1
                continue
        elif not must_define or why in ("overflow", "pow overflow", "huge", "trig argument too large", "arith"):
            continue
        # confirm in 60 digits
        M = O.mp()
        menv = env
        try:
            want = sv(spec, menv, M)
        except O.Undef:
            continue
        try:
            got = O.ev(res, menv, M)
        except O.Undef as u:
            if not must_define or "overflow" in str(u) or "huge" in str(u):
                continue
            # a removable coincidence (an exact zero produced by rounding)?
            if boundary(res, menv, M):
                continue
            raise Fail("%s: value should be %s at %s but the result %s is undefined (%s)" % (
                what, show(want), showenv(env), G.srepr(res), u))
        if O.is_exact(want) and O.is_exact(got):
            if want == got:
                hits += 1
                continue
        else:
            a, b = M.f(want), M.f(got)
            m = 1
            if floaty(res):
                m = O.magnitude(res, menv, M)
                t = 1e-7
            else:
                t = 1e-18
            if abs(a - b) <= t * max(abs(a), abs(b), m if floaty(res) else 1e-30, 1e-15):
                hits += 1
                continue
        raise Fail("%s: value should be %s at %s but the result %s has value %s" % (
            what, show(want), showenv(env), G.srepr(res), show(got)))
    return hits


def floaty(e):
    return O.has_float(e)


def boundary(e, env, N):
    """is some subterm numerically zero without being exactly zero (so definedness is a matter of rounding)?"""
    for c in e.children():
        if boundary(c, env, N):
            return True
    try:
        v = O.ev(e, env, N)
    except Exception:
        return False
    return not O.is_exact(v) and abs(v) < 1e-9


def show(v):
    return str(v) if O.is_exact(v) else str(v)[:24]


def showenv(env):
    return "{" + ", ".join("%s=%s" % (k, env[k]) for k in sorted(env)) + "}"


def names_of(*es):
    s = set()
    for e in es:
        if isinstance(e, (list, tuple)):
            s |= names_of(*e)
        elif isinstance(e, E.Expr):
            s |= O.free_names(e)
    return s


def V(e):
    return lambda env, N: O.ev(e, env, N)


class Timeout(BaseException):
    pass


def with_timeout(secs, fn, *a):
    def h(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call(what, fn, *a, allow=()):
    """run real code; an unexpected exception is a failure unless listed"""
    try:
        return fn(*a)
    except allow as ex:
        raise Skip(repr(ex))
    except Timeout:
        raise
    except RecursionError:
        raise Fail("%s: does not terminate (RecursionError) on %s" % (what, ", ".join(map(G.srepr, a))[:300]))
    except Exception as ex:
        raise Fail("%s: raised %s on %s" % (what, repr(ex)[:150], ", ".join(map(G.srepr, a))[:600]))


def exprs_in(a):
    if isinstance(a, E.Expr):
        yield a
    elif isinstance(a, (list, tuple)):
        for t in a:
            yield from exprs_in(t)
    elif isinstance(a, dict):
        for t in a.values():
            yield from exprs_in(t)


def warm(args, rng):
    """a history for the same objects: operations that must not change the meaning of anything"""
    import simpy.regex as R
    es = [e for e in exprs_in(args) if O.size(e) < 30]
    log = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        if not es:
            break
        e = rng.choice(es)
        while e.children() and rng.random() < .25:
            e = rng.choice(e.children())
        v = E.Symbol(rng.choice("xyzw"))
        op = rng.choice(["diff", "diff2", "subs", "evalf", "symbols", "contains", "nesting", "expandable", "repr", "add", "mul",
                         "has", "anys", "count", "numden", "eq", "expand"])
        log.append(op + " " + v.name)
        try:
            if op == "diff":
                e.diff(v)
            elif op == "diff2":
                E.diff(e, v)
            elif op == "subs":
                e.subs({v.name: E.Rat(rng.choice([0, 1, 2, 5])) if rng.random() < .5 else E.Symbol("y") + 1})
            elif op == "evalf":
                e.evalf({n: E.Rat(rng.choice([1, 2, 3])) for n in "xyzuw"})
            elif op == "symbols":
                e.symbols()
            elif op == "contains":
                e.contains(v)
            elif op == "nesting":
                E.nesting(e, v), E.nesting(e)
            elif op == "expandable":
                e.expandable()
            elif op == "expand" and e.expandable():
                e.expand()
            elif op == "repr":
                repr(e), e.latex()
            elif op == "add":
                e + 3 * e, e - v, 2 * e + v
            elif op == "mul":
                e * v, 1 / e, -e, 3 * e
            elif op == "has":
                e.has(E.Pi), e.has(E.TrigFunction), e.has(E.log)
            elif op == "anys":
                R.get_anys(e)
            elif op == "count":
                R.count(e, v)
            elif op == "numden":
                e.numerator_denominator
            elif op == "eq":
                R.eq(e, R.Any_("a") * v)
        except Exception:
            pass
    return log


WARM = {"C01", "C03", "C04", "C05", "C06", "C07", "C09", "C11", "C12", "C13", "C16"}


def run_one(c, args, seed):
    rng = random.Random(seed)
    try:
        wrng = random.Random(seed * 7 + 5)
        if c["prop"] in WARM and wrng.random() < .4:
            try:
                with_timeout(3, warm, args, wrng)
            except Timeout:
                pass
        with_timeout(20, c["check"], args, rng)
    except Skip:
        return "skip"
    except Timeout:
        return "timeout"
    except MemoryError:
        return "timeout"            # out of the bound of the search, as with time
    except Fail as f:
        return "timeout" if "MemoryError" in str(f) else "FAIL " + str(f)
    except Exception as ex:
        return "FAIL %s: raised %s\n%s" % (c["name"], repr(ex)[:300], traceback.format_exc()[-1500:])
    return "ok"
