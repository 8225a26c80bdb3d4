"""C16: equality up to the name of a variable.

The second expression has at an assignment the value the first one has when its variable takes the value of the second one's
variable (ghost s of the first one): for a node from the same of its children."""
import tasks
from tasks import *
import load
UT = load.simpy.utils
ALLC = sorted(W.FINITE)


def t_eqvar(cname):
    def fn(I):
        e1 = sym(cname, "first")
        e2 = sym(None, "second")
        a, b = sym("Symbol", "avar"), sym("Symbol", "bvar")
        ENG.fact(ok(e1, "s"))
        ENG.fact(ok(e2))
        ENG.fact(ghost("s", a).eq(V(b)))
        first = []

        def rec(I, f, args, kw):
            x, y = args
            if not first:
                if not (x is e1 and y is e2):
                    raise Unsupported("the comparison starts elsewhere")
                first.append(1)
                return I.run_closure(f, args, kw)
            x, y = W.to_se(I, x), W.to_se(I, y)
            if ENG.choose([(("same", x.uid, y.uid), TRUE, None), (("not same", x.uid, y.uid), TRUE, None)]) == 1:
                return False
            W.setdef(y, "v", ghost("s", x))
            return True
        I.closures["utils.eq_with_var.<locals>._recursive_call"] = rec
        if cname == "Symbol":
            # the assignment of the first expression differs in its variable only
            n = I.fold(I.eq_values(e1, a))
            if I.truth(n):
                ENG.fact(ghost("s", e1).eq(V(b)))
            else:
                ENG.fact(ghost("s", e1).eq(V(e1)))
        r = call_real(I, UT.eq_with_var, [(e1, a), (e2, b)])
        if not first:
            raise Unsupported("no nested comparison function")
        if I.truth(r):
            oblige("equal after renaming the variable", V(e2).eq(ghost("s", e1)))
        else:
            tasks.REC_PATH.append(("reported different", "proved", "", None))
    tasks.Task("C16", "utils.eq_with_var (%s)" % cname, fn, used=("v", "s"), ghosts=("v", "s"))


for c_ in ALLC:
    t_eqvar(c_)
tasks.DISCHARGES["utils.eq_with_var"] = ["utils.eq_with_var (%s)" % c for c in ALLC]
