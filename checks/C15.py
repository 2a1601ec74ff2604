import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import corpus, spell, C21 as U, subprocess, hashlib, shutil, resource, time

def conditions(r, i):
    """An environment the compiler may run in: (environment changes, stack limit, working directory style)."""
    env = {}
    if i == 0: return env, None
    if r.random() < .6: env["MALLOC_PERTURB_"] = str(r.randrange(1, 255))
    if r.random() < .3: env["MALLOC_ARENA_TEST"] = str(r.randrange(1, 4))
    if r.random() < .3: env["MALLOC_MMAP_THRESHOLD_"] = str(r.choice([64, 1024, 1 << 20]))
    if r.random() < .3: env["MALLOC_TOP_PAD_"] = str(r.choice([0, 4096, 1 << 22]))
    if r.random() < .3: env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=%d" % r.choice([0, 1, 7])
    for _ in range(r.randrange(0, 30)): env["V%d" % r.randrange(1000)] = "x" * r.randrange(0, 400)
    if r.random() < .4: env["LC_ALL"] = r.choice(["C", "C.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "nonsense"])
    if r.random() < .3: env["TZ"] = r.choice(["UTC", "Asia/Tokyo", "x"])
    if r.random() < .3: env["HOME"] = "/nonexistent"
    if r.random() < .2: env["COLUMNS"] = "20"; env["TERM"] = r.choice(["dumb", "xterm-256color"])
    return env, r.choice([None, None, 16 << 20, 64 << 20])

def compile_in(c, kit, d, src, units, opts, emit, cond):
    os.makedirs(d)
    for n, s in [("p", src)] + list((units or {}).items()):
        with open(os.path.join(d, n + ".pas"), "wb") as f: f.write(s if isinstance(s, bytes) else s.encode("latin-1"))
    env = dict(kit.env); env.update(cond[0])
    tmp = d + ".tmp"; os.makedirs(tmp); env["TMPDIR"] = tmp
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (30, 32)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if cond[1]: resource.setrlimit(resource.RLIMIT_STACK, (cond[1], resource.getrlimit(resource.RLIMIT_STACK)[1]))
    return subprocess.Popen([kit.lacsap] + opts + emit + ["p.pas"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=open(d + ".out", "wb"), stderr=open(d + ".err", "wb"), preexec_fn=pre)

def snapshot(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as h: out[os.path.relpath(p, d)] = hashlib.sha1(h.read()).hexdigest()
    return out

DECOYS = ["a.out", "q.pas", "system.pas", "p.o.bak", "runtime.pas", "libruntime.a", "math.pas", "x.ll", "P.pas", "p.txt", "core"]
def case(c):
    kit, rng = c.kits["plain"], c.rng
    units = None
    if rng.random() < .25: kind, (src, units, want) = "units", U.split(U.Null(rng), rng)
    else: kind, src, want = corpus.make(rng)
    bad = rng.random() < .35
    if bad:
        # an erroneous variant: its diagnostics must be the same too
        ts = spell.tokens(src)
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(10, len(ts)); k = rng.randrange(4)
            if k == 0: del ts[i]
            elif k == 1: ts.insert(i, ts[rng.randrange(10, len(ts))])
            elif k == 2: ts[i] = ts[rng.randrange(10, len(ts))]
            elif ts[i][0] == "id": ts[i] = ("id", ts[i][1] + "q")
        src = "\n".join(" ".join(t for _, t in ts[j:j + 12]) for j in range(0, len(ts), 12))
    c.state("kind", kind, bad)
    opts = random_opts(rng, cr=True)
    emit = rng.choice([["-emit=llvm"], ["-emit=llvm"], []])
    if bad: emit = ["-emit=llvm"]
    n = 6 if emit else 4
    procs = []
    dirs = []
    # Units are found under absolute names, which positions and debug information mention.
    together = not units and rng.random() < .5
    same = os.path.join(c.dir, "same")
    for i in range(n):
        d = os.path.join(c.dir, "d%d%s" % (i, "x" * rng.choice([0, 1, 30])))
        dirs.append(d)
        cond = conditions(rng, i)
        for k in cond[0]: c.state("env", k if k[0] != "V" else "V")
        at = same if units else d
        p = compile_in(c, kit, at, src, units, opts, emit, cond)
        if i > 0 and rng.random() < .5:
            for x in rng.sample(DECOYS, 4):
                with open(os.path.join(at, x), "wb") as f: f.write(b"unrelated " + x.encode())
            p.decoys = True
        else: p.decoys = False
        procs.append(p)
        if not together:
            try: p.wait(120)
            except subprocess.TimeoutExpired: p.kill(); raise Inconclusive("time limit")
        if units:
            for e in ("", ".out", ".err", ".tmp"): os.rename(same + e, d + e)
        c.count("compilations")
    res = []
    for d, p in zip(dirs, procs):
        try: rc = p.wait(120)
        except subprocess.TimeoutExpired: p.kill(); raise Inconclusive("time limit")
        out, err = open(d + ".out", "rb").read(), open(d + ".err", "rb").read()
        res.append((rc, out, err, snapshot(d), os.listdir(d + ".tmp"), p.decoys))
    if any(r[0] in (-24, -9) for r in res): raise Inconclusive("compiler time limit")
    if bad and all(r[0] not in (0, 1) for r in res): raise Inconclusive("the compiler fails on this erroneous program")
    fs = {"p.pas": src, "options": " ".join(opts + emit)}
    fs.update({u + ".pas": s for u, s in (units or {}).items()})
    srcs = {n + ".pas": hashlib.sha1(s if isinstance(s, bytes) else s.encode("latin-1")).hexdigest() for n, s in [("p", src)] + list((units or {}).items())}
    allowed = {"p.ll"} if emit else {"p.o", "p"}
    for i, (rc, out, err, snap, tmp, dec) in enumerate(res):
        if dec:
            for x in DECOYS:
                if x in snap:
                    if snap[x] != hashlib.sha1(b"unrelated " + x.encode()).hexdigest(): raise Violation("compiling with %s changed the unrelated file %s" % (" ".join(opts + emit), x), fs)
                    del snap[x]
        for x, h in srcs.items():
            if snap.pop(x, None) != h: raise Violation("compiling with %s changed or removed the source %s" % (" ".join(opts + emit), x), fs)
        if set(snap) - allowed: raise Violation("compiling with %s left the files %s" % (" ".join(opts + emit), sorted(set(snap) - allowed)), fs)
        if tmp: raise Violation("compiling with %s left files in the temporary directory: %s" % (" ".join(opts + emit), tmp), fs)
        if not bad and rc != 0: raise Violation("the compiler rejects or fails on a well-formed program (status %d): %s" % (rc, clip(out + err)), fs)
        c.count("files_compared", len(snap)); c.count("diagnostic_bytes_compared", len(out) + len(err))
        a = res[0]
        if (rc, out, err, snap) != (a[0], a[1], a[2], a[3]):
            what = "status %s and %s" % (a[0], rc) if rc != a[0] else "diagnostics" if (out, err) != a[1:3] else "outputs %s" % sorted(k for k in set(snap) | set(a[3]) if snap.get(k) != a[3].get(k))
            det = ""
            if what == "diagnostics": k, g, w = firstdiff(err, a[2]); det = ": line %d %r and %r" % (k, clip(g), clip(w))
            if emit and "outputs" in what:
                x, y = (open(os.path.join(dirs[j], "p.ll"), "rb").read() for j in (i, 0)); fs["a.ll"], fs["b.ll"] = y, x
                k, g, w = firstdiff(x, y); det = ": IR line %d %r and %r" % (k, clip(g), clip(w))
            raise Violation("two compilations of the same source with %s differ in %s%s" % (" ".join(opts + emit), what, det), fs)
    for d in dirs:
        shutil.rmtree(d); shutil.rmtree(d + ".tmp")
    c.count("pairs_compared", n - 1)
    c.key = C.sha(src, *opts); c.sample = clip(src, 800)

if __name__ == "__main__":
    simple_check("C15",
        "Each case compiles one random program (or program with units, or erroneous variant of one) four to six times with the same options, to IR or to an executable, each time in another directory (in the same one for units) "
        "under another environment (variables, locale, allocator tunables and MALLOC_PERTURB_, stack limit), one after the other or all at once, half of them beside unrelated decoy files. "
        "Monitors compare exit status, messages and all output files byte for byte and check that sources and decoys are untouched and nothing else is left behind, also in TMPDIR. "
        "Address layout differs between the runs because the kernel randomises it. Non-trivial: distinct source and options.",
        ["the name under which the source is given to the compiler is the same"], case)
