import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import corpus
LEVELS = ["-O0", "-O1", "-O2", "-O3"]
def optset(rng):
    o = [rng.choice(LEVELS)]
    for x, p in (("-g", .35), ("-no-memcpy", .35), ("-Cr", .35), ("-callgraph", .15), ("-std=none", .2), ("-m32", .3)):
        if rng.random() < p: o.append(x)
    if "-m32" not in o and rng.random() < .15: o.append("-m64")
    rng.shuffle(o)
    return o

def behaviour(c, kit, src, o, name):
    r = K.compile_pas(kit, src, c.dir, name=name, opts=o, cpu=20)
    c.count("compilations")
    if r.timeout: return None
    if r.rc != 0: return ("compiler status %d" % r.rc, clip(r.out + r.err, 300))
    x = K.run(["./" + name], c.dir, cpu=20)
    c.count("runs")
    if x.timeout == "wall": return None
    return (x.rc, x.out, "time limit" if x.timeout else "")

def case(c):
    kit, rng = c.kits["plain"], c.rng
    kind, src, want = corpus.make(rng)
    n = 7
    seen = []
    # one run without options is the reference; the oracle output of the generator is not consulted
    for i in range(n):
        o = [] if i == 0 else ["-O0"] if i == 1 and rng.random() < .3 else optset(rng)
        b = behaviour(c, kit, src, o, "p%d" % i)
        if b is None: continue
        seen.append((o, b))
        for x in o: c.state("option", x)
        c.state("options", *sorted(o))
        c.count("pairs_compared", len(seen) - 1)
        if b != seen[0][1]:
            raise Violation("options change the behaviour: with [%s] %s, with [%s] %s" % (" ".join(seen[0][0]), clip(repr(seen[0][1]), 400), " ".join(o), clip(repr(b), 400)),
                            {"p.pas": src, "options": " ".join(seen[0][0]) + "\n" + " ".join(o), "out1": repr(seen[0][1]), "out2": repr(b)})
    if isinstance(seen[0][1][0], str):
        raise Violation("the compiler rejects or fails on a well-formed program: %s" % (seen[0][1],), {"p.pas": src})
    if len(seen) < 2: raise Inconclusive("fewer than two option sets finished")
    c.state("kind", kind)
    if want.count(b"\n") >= 3: c.key = C.sha(src)
    c.sample = clip(src, 1200)

if __name__ == "__main__":
    simple_check("C03",
        "Each case is one generated program compiled and run under seven option sets (the default one and six random combinations of -O0..-O3, -g, "
        "-no-memcpy, -Cr, -callgraph, -std=none, -m32/-m64), all outputs and exit statuses compared byte for byte. Non-trivial: distinct source "
        "with at least three output lines.",
        ["reals in the programs are exact dyadic values, because extended precision on the 32-bit target may round others differently",
         "programs are free of undefined behaviour and of index errors by construction (reference interpreter)"], case)
