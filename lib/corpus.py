"""Well-formed programs with known output, drawn from the random generator and from the templates of the other checks."""
import os, sys, importlib
import gen
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks")
if HERE not in sys.path: sys.path.insert(0, HERE)

class _Null:
    """A stand-in for the case context of the template functions."""
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
    def count(self, *a): self.n += 1
    def state(self, *a): pass

PROFILES = [dict(), dict(), dict(stmts=6, routines=4, nest=2), dict(exprdepth=5, routines=2), dict(bigcopy=True, arrays=4, records=3, variants=2),
            dict(sets=3, strings=3), dict(ptrs=2, variants=2, routines=4)]

def templates():
    import C01, C02, C04, C05, C22
    from progcheck import Prog
    def prog(f):
        def g(rng):
            P = Prog(); f(_Null(rng), P, rng); return P.src(), P.want()
        return g
    ts = [("C01m", prog(C01.matrix)), ("C01e", prog(C01.effects)), ("C02l", prog(C02.loops)), ("C02c", prog(C02.cases)), ("C02n", prog(C02.nest)),
          ("C04t", lambda rng: C04.nested(_Null(rng), rng)), ("C04p", prog(C04.params)), ("C04f", prog(C04.procparams)), ("C04c", prog(C04.conformant)), ("C04a", prog(C04.aliases)), ("C04a", prog(C04.aliases)), ("C04r", prog(C04.recursion)),
          ("C05t", prog(lambda c, P, r: C05.table(c, P, r, C05.Base(r)))), ("C05m", prog(C05.mixed)),
          ("C22h", lambda rng: C22.history(_Null(rng), None)), ("C22h", lambda rng: C22.history(_Null(rng), None)), ("C22s", lambda rng: C22.schema(_Null(rng), None))]
    for name in ("C06", "C07", "C10", "C11", "C16"):
        if os.path.exists(os.path.join(HERE, name + ".py")):
            m = importlib.import_module(name)
            for fn in getattr(m, "TEMPLATES", []):
                ts.append((name + fn.__name__, prog(fn)))
    return ts

_t = None
def make(rng, limit=8000, share=0.5):
    """(kind, source, expected output). Raises whatever a template raises when it cannot make one."""
    global _t
    if rng.random() < share:
        src, want, cover, feats = gen.program(rng, limit, **rng.choice(PROFILES))
        return "random", src, want
    if _t is None: _t = templates()
    k, f = rng.choice(_t)
    src, want = f(rng)
    return k, src, want
