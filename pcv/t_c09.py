"""C09: a definite integral is the difference of the antiderivative at the bounds; what is returned when there is none."""
import sys
import tasks
from tasks import *
import load
from vals import Obj, SymDict
IM = sys.modules["simpy.integration"]
FOUND = "a found antiderivative"


def at(f, x, b):
    """the value of f when x takes the value of b"""
    return A("g", "valueat", (f.uid, x.uid, b.uid))


def c_subs(I, x):
    def f(I, se):
        def go(I, me, d):
            if not isinstance(d, SymDict):
                raise Unsupported("substitution of several variables")
            k, b = d.key, d.value
            if not I.truth(I.fold(I.eq_values(k, I.getattr(x, "name")))):
                raise Unsupported("substitution of another variable")
            r = W.fresh("substituted")
            W.setdef(r, "v", at(me, x, W.to_se(I, b)))
            ENG.fact(ok(r))
            return r
        return BoundM(interp.Meth(go, "subs"), se)
    W.VIRTUAL["subs"] = f


def t_bounds(I):
    e, x, lo, hi = sym(None, "integrand"), sym("Symbol", "var"), sym(None, "lower"), sym(None, "upper")
    for q in (e, lo, hi):
        ENG.fact(ok(q))
    F = W.fresh("antiderivative")
    ENG.fact(ok(F))
    me = Obj(IM.Integration, len(ENG.levels))
    found = []

    @fn_contract(I, IM.Integration.__dict__["integrate"])
    def c(I, args, kw):
        oblige("the integrand is integrated in the variable", TRUE if args[1] is e and args[2] is x else FALSE)
        found.append(ENG.choose([(("antiderivative", "none"), TRUE, None), (("antiderivative", "found"), TRUE, None)]))
        return F if found[-1] else None
    del found[:]
    c_subs(I, x)
    r = call_real(I, IM.Integration.__dict__["integrate_bounds"], [me, e, (x, lo, hi)])
    if found == [0]:
        oblige("nothing is returned when no antiderivative is found", TRUE if r is None else FALSE)
    elif found == [1]:
        oblige("upper value minus lower value", V(W.to_se(I, r)).eq(at(F, x, hi) - at(F, x, lo)))
    elif not found:
        oblige("no number is returned without an antiderivative", TRUE if r is None else FALSE)
    else:
        raise Unsupported("the antiderivative is asked for otherwise")


tasks.Task("C09", "integration.Integration.integrate_bounds", t_bounds, ghosts=("v",))


def t_entry(shape):
    """integrate(...): what is asked of the search"""
    def fn(I):
        e = sym(None, "integrand")
        ENG.fact(ok(e))
        x, lo, hi = sym("Symbol", "var"), sym(None, "lower"), sym(None, "upper")
        only = sym("Symbol", "theonly")
        r1, r2 = W.fresh("indefinite"), W.fresh("definite")
        calls = []
        n = []

        def syms(I, se):
            if se is not e:
                raise Unsupported("symbols of something else")
            n.append(ENG.choose([(("symbols", "one"), TRUE, None), (("symbols", "several"), TRUE, None)]))
            l = LObj([("v", only)] + ([("v", sym("Symbol", "another"))] if n[-1] else []), len(ENG.levels))
            return BoundM(interp.Meth(lambda I, me: l, "symbols"), se)
        W.VIRTUAL["symbols"] = syms

        @fn_contract(I, IM.Integration.__dict__["integrate"])
        def c(I, args, kw):
            calls.append(("i",) + tuple(args[1:]))
            return r1

        @fn_contract(I, IM.Integration.__dict__["integrate_bounds"])
        def d(I, args, kw):
            b = I.known_items(args[2])
            calls.append(("b", args[1]) + tuple(b))
            return r2
        del calls[:], n[:]
        bounds = {"none": None, "var": x, "pair": (lo, hi), "triple": (x, lo, hi)}[shape]
        r = I.call(spec.unwrap(IM.integrate), [e] + ([bounds] if bounds is not None else []))
        want = {"none": ("i", e, only), "var": ("i", e, x), "pair": ("b", e, only, lo, hi), "triple": ("b", e, x, lo, hi)}[shape]
        same = len(calls) == 1 and len(calls[0]) == len(want) and all(p is q or p == q and isinstance(p, str) or isinstance(p, SE) and isinstance(q, SE) and p.uid == q.uid for p, q in zip(calls[0], want))
        oblige("the right integral is asked for", TRUE if same else FALSE)
        oblige("its answer is returned", TRUE if r is (r1 if want[0] == "i" else r2) else FALSE)
    tasks.Task("C09", "integration.integrate (%s)" % {"none": "no variable given", "var": "variable", "pair": "two bounds", "triple": "variable and bounds"}[shape], fn,
               ghosts=("v",), allowed=(ValueError,))


for s_ in ("none", "var", "pair", "triple"):
    t_entry(s_)
D = tasks.DISCHARGES
D["integration.Integration.integrate_bounds"] = ["integration.Integration.integrate_bounds"]
D["transforms.Transform.backward"] = [t.name for t in tasks.TASKS["C08"] if t.name.startswith("transforms.") and t.name[11].isupper()]
for n_ in {t.name[11:].split(" ")[0].rstrip(":") for p_ in ("C08", "C13") for t in tasks.TASKS[p_] if t.name.startswith("transforms.") and t.name[11].isupper()}:
    if "." not in n_:
        D["transforms.%s.check" % n_] = D["transforms.%s.forward" % n_] = [
            t.name for p_ in ("C08", "C13") for t in tasks.TASKS[p_] if t.name.startswith("transforms." + n_) and t.name[11 + len(n_):][:1] in ("", " ", ":")]
