"""Development aid: shrink a generated program (seed) whose compiled behaviour differs from the interpreter's.
usage: shrink.py SEED [compiler options]"""
import sys, os, random, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gen, pas, kit as K

def walk(x, seen, out):
    if id(x) in seen: return
    if isinstance(x, (list, tuple)):
        for y in x: walk(y, seen, out)
        return
    if isinstance(x, (pas.T, pas.Var)) or not hasattr(x, "__dict__"): return
    seen[id(x)] = x
    if isinstance(x, (pas.S, pas.E, pas.Routine, pas.Call, pas.Program)):
        out.append(x)
        for y in list(x.__dict__.values()): walk(y, seen, out)

def build(seed, **prof):
    rng = random.Random(seed)
    for _ in range(30):
        g = gen.Gen(rng, **prof)
        try: p = g.build()
        except RecursionError: continue
        it = gen.repair(rng, p, 20000)
        if it is not None:
            rng.choice([0]*7)
            return p
def main():
    seed = int(sys.argv[1]); opts = sys.argv[2:]
    kit = K.Kit('/repo', K._clean_env())
    d = "/tmp/shrink%d" % seed; os.makedirs(d, exist_ok=True)
    p = build(seed)
    def kind():
        try: it = p.run(20000)
        except (pas.UB, pas.TooLong, pas.GotoEx, KeyError, RecursionError): return None
        try: r = K.compile_pas(kit, p.source(), d, opts=opts)
        except Exception: return None
        if r.rc != 0:
            return ("C", r.rc, (r.out + r.err)[-3000:].split(b"Error:")[0][:40] if r.rc<0 else (r.out+r.err).split(b'\n')[0].split(b'Error: ')[-1].split(b"'")[0])
        e = K.run(["./p"], d, cpu=3)
        if e.rc != 0: return ("R", e.rc)
        if e.out != b"".join(it.out): return ("D",)
        return ""
    k0 = kind()
    print("kind", k0)
    if not k0: return
    def attempt(do, undo):
        do()
        if kind() == k0: return True
        undo(); return False
    end = time.time() + 240
    while time.time() < end:
        changed = False
        out = []; walk(p, {}, out)
        ss = [x for x in out if isinstance(x, pas.S) and not x.dead and not isinstance(x, pas.Label)]
        n = len(ss)
        while n >= 1 and time.time() < end:
            i = 0
            while i < len(ss):
                part = [x for x in ss[i:i+n] if not x.dead]
                def do():
                    for x in part: x.dead = True
                def undo():
                    for x in part: x.dead = False
                if part and attempt(do, undo): changed = True
                i += n
            n //= 2
        out = []; walk([p], {}, out)
        # expressions of live statements
        live = []
        def coll(x, seen):
            if id(x) in seen: return
            seen[id(x)] = x
            if isinstance(x, pas.S) and x.dead: return
            if isinstance(x, pas.E):
                if x.repl is None: live.append(x)
                else: return
            if isinstance(x, (list, tuple)):
                for y in x: coll(y, seen)
            elif isinstance(x, (pas.S, pas.E, pas.Routine, pas.Call, pas.Program)):
                for y in x.__dict__.values(): coll(y, seen)
        coll(p, {})
        for x in live:
            if time.time() > end: break
            if isinstance(x, pas.Lit): continue
            n = gen.literal_for(random.Random(1), x) if not isinstance(x, pas.LV) or True else None
            if n is None: continue
            def do(): x.repl = n
            def undo(): x.repl = None
            try:
                if attempt(do, undo): changed = True
            except AssertionError: undo()
        # drop routines and variables
        for r in [x for x in out if isinstance(x, pas.Routine)]:
            for attr in ("routines", "locals"):
                for y in list(getattr(r, attr)):
                    l = getattr(r, attr); i = l.index(y)
                    def do(): del l[i]
                    def undo(): l.insert(i, y)
                    if attempt(do, undo): changed = True
        for attr in ("types", "consts"):
            l = getattr(p, attr)
            for y in list(l):
                i = l.index(y)
                def do(): del l[i]
                def undo(): l.insert(i, y)
                if attempt(do, undo): changed = True
        if not changed: break
    it = p.run(20000); src = p.source()
    src = "\n".join(l for l in src.split("\n") if l.strip() not in ("{ };",)) 
    print(src); print("want:", b"".join(it.out)[:300].decode("latin-1"))
    r = K.compile_pas(kit, p.source(), d, opts=opts)
    print((r.out+r.err)[:600].decode("latin-1")) if r.rc else print("got:", K.run(["./p"], d, cpu=3).out[:300].decode("latin-1"))
main()
