"""Results may not depend on what was computed before for something that only looks the same: the number pi and a variable
called "pi" (e and "e") print alike.  Each contract here runs a contract of its property on both, one after the other."""
from core import *
import core

TWINS = {"expand": "C03", "derivative": "C04", "substitution": "C05", "numeric-evaluation": "C05", "simplify": "C07",
         "indefinite-integral": "C08", "definite-integral": "C09", "queries": "C12", "replacement": "C12"}
NUM = {"pi": E.pi, "e": E.e}


def rename(a, var, new, name):
    if isinstance(a, E.Expr):
        return a.subs({var: new})
    if isinstance(a, (list, tuple)):
        return type(a)(rename(x, var, new, name) for x in a)
    if isinstance(a, dict):
        return {name if k == var else k: rename(x, var, new, name) for k, x in a.items()}
    return a


def exprs(a):
    if isinstance(a, E.Expr):
        yield a
    elif isinstance(a, (list, tuple)):
        for x in a:
            yield from exprs(x)
    elif isinstance(a, dict):
        yield from exprs(list(a.values()))


def twins_of(base):
    class T:
        def gen(rng):
            for _ in range(30):
                args = base["gen"](rng)
                used = set().union(*[O.free_names(x) for x in exprs(args)])
                if "x" in used and (len(used) == 1 or base["name"] in ("indefinite-integral", "definite-integral", "derivative")):
                    # the variable of calculus stays: something else becomes pi
                    used.discard("x")
                if used and not isinstance(args[0], str):
                    var, name = rng.choice(sorted(used)), rng.choice(["pi", "pi", "pi", "e"])
                    a = rename(args, var, NUM[name], name)
                    b = rename(args, var, E.Symbol(name), name)
                    if all(G.sane(x) for x in exprs([a, b])) and (base["name"] != "expand" or a[0].expandable() and b[0].expandable()):
                        return [a, b] if rng.random() < .7 else [b, a]
            return None

        def check(args, rng):
            if not args:
                raise Skip()
            try:
                base["check"](args[0], rng)
            except Skip:
                pass
            base["check"](args[1], rng)
    return T


for c in list(core.CONTRACTS):
    if TWINS.get(c["name"]) == c["prop"]:
        core.contract(c["prop"], c["name"] + "-of-namesakes", c["functions"], .1 * c["weight"])(twins_of(c))
