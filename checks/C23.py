import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import corpus, mutate, C21, stat, signal, shutil

REPORT = re.compile(r"(ERROR: AddressSanitizer: \S+[^\n]*|[^\n]*runtime error:[^\n]*)")
def report(r):
    t = r.err.decode("latin-1")
    m = REPORT.search(t)
    if not m: return None
    fr = re.findall(r"#\d+ \S+ in ([^\n]*)", t)[:4]
    return m.group(1) + " " + " | ".join(x[:90] for x in fr)

def clean(d):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.islink(p) or os.path.isfile(p): os.unlink(p)
        else: shutil.rmtree(p)

def put(d, files):
    for n, s in files.items():
        with open(os.path.join(d, n + ".pas"), "wb") as f: f.write(s.encode("latin-1"))

def runnable(p):
    try: st = os.lstat(p)
    except OSError: return False
    if not stat.S_ISREG(st.st_mode) or not st.st_mode & 0o100: return False
    with open(p, "rb") as f: return f.read(4) == b"\x7fELF"

def compiler(kit, d, files, opts, cpu=40):
    put(d, files)
    return K.run([kit.lacsap] + list(opts) + ["p.pas"], d, kit.env, cpu=cpu)

def some_valid(c):
    rng = c.rng
    k = rng.random()
    if k < .25:
        src, us, want = C21.split(C21.Null(rng), rng)
        return "units", dict({"p": src}, **us), want
    kind, src, want = corpus.make(rng, rng.choice([2500, 6000, 12000]))
    return kind, {"p": src}, want

def valid(c):
    """A valid program through the sanitized compiler."""
    rng = c.rng
    for _ in range(2):
        kind, files, want = some_valid(c)
        opts = random_opts(rng, m32=True, g=True, memcpy=True, cr=False)
        emit = rng.choice(["exe", "exe", "exe", "llvm", "ast"])
        extra = {"exe": [], "llvm": ["-emit=llvm"], "ast": ["-emit=ast"]}[emit] + (["-callgraph"] if rng.random() < .15 else []) + (["-v", "1"] if rng.random() < .1 else [])
        clean(c.dir)
        r = compiler(c.kits["san"], c.dir, files, opts + extra)
        fs = {n + ".pas": s for n, s in files.items()}; fs["options"] = " ".join(opts + extra); fs["message"] = r.err[-20000:]
        if r.timeout == "wall": raise Inconclusive("wall clock limit")
        rep = report(r)
        if rep: raise Violation("sanitizer report while compiling a valid program with %s: %s" % (opts + extra, clip(rep, 500)), fs)
        if r.timeout: raise Violation("the compiler does not end on a valid program with %s" % (opts + extra), fs)
        if r.rc != 0: raise Violation("the compiler ends with status %s on a valid program with %s: %s" % (r.rc, opts + extra, clip(r.out + r.err, 400)), fs)
        exe = os.path.join(c.dir, "p")
        if emit == "exe":
            if not runnable(exe): raise Violation("status 0 but there is no executable (%s)" % opts, fs)
            x = K.run(["./p"], c.dir, cpu=20)
            if x.timeout == "wall": raise Inconclusive("wall clock limit")
            if x.rc != 0 or x.out != (want if isinstance(want, bytes) else want.encode("latin-1")):
                raise Violation("the executable made by the compiler (status 0) does not run as the source says: status %s, %s" % (x.rc, clip(firstdiff(want, x.out) if False else x.out, 200)), fs)
            c.count("executables_run")
        elif emit == "llvm" and not os.path.exists(exe + ".ll"): raise Violation("status 0 but there is no IR file", fs)
        c.count("valid_compilations_sanitized"); c.state("valid", kind, emit, *sorted(opts))
        c.key = C.sha(*files.values())
        c.sample = clip(files["p"], 400)

def invalid(c):
    """Damaged programs: the status must tell whether there is an executable."""
    rng, kit = c.rng, c.kits["plain"]
    _, files, _ = some_valid(c)
    _, o, _ = corpus.make(rng, 2000)
    for _ in range(10):
        f2 = dict(files)
        n = rng.choice(list(files))
        try: f2[n] = mutate.mutate(rng, files[n], o)
        except (IndexError, ValueError): continue
        opts = random_opts(rng, m32=True) if rng.random() < .3 else []
        clean(c.dir)
        r = compiler(kit, c.dir, f2, opts, cpu=30)
        fs = {k + ".pas": s for k, s in f2.items()}; fs["message"] = (r.out + r.err)[-20000:]
        if r.timeout == "wall": raise Inconclusive("wall clock limit")
        exe = os.path.join(c.dir, "p")
        made = os.path.lexists(exe)
        if r.timeout: raise Violation("the compiler does not end (%s CPU seconds) on a damaged program %s" % (30, opts), fs)
        if r.rc == 0:
            if not runnable(exe): raise Violation("status 0 but there is no executable for a damaged program (%s): %s" % (opts, clip(r.err, 200)), fs)
            if re.search(rb": Error: |^Errors in |Internal compiler error", r.err + r.out, re.M): raise Violation("status 0 after an error message for a damaged program (%s): %s" % (opts, clip(r.out + r.err, 200)), fs)
            c.count("damaged_still_valid")
        else:
            if made: raise Violation("status %s but an executable was left for a damaged program (%s): %s" % (r.rc, opts, clip(r.err, 200)), fs)
            if r.rc > 0 and not (r.out + r.err).strip(): raise Violation("status %s without any message for a damaged program (%s)" % (r.rc, opts), fs)
            if r.rc < 0 and not (r.out + r.err).strip():
                if r.rc == -signal.SIGSEGV and deep(f2[n]): c.count("crash_on_deep_nesting"); continue
                raise Violation("the compiler dies with signal %d without any message on a damaged program (%s)" % (-r.rc, opts), fs)
            c.count("crashed_with_message" if r.rc < 0 else "rejected")
        m = re.search(rb"Error: ([^\n]{0,60})|(Internal compiler error at [^\n]*)", r.err)
        c.state("damaged", r.rc, re.sub(r"'[^']*'|\d+", "#", m.group(0).decode("latin-1")) if m else "")
    c.key = C.sha(*files.values()); c.sample = clip(files["p"], 300)

def deep(s): return False

def driver(c):
    """Failures outside the source text: files that can not be read or written, a linker that is missing or fails, odd names."""
    rng, kit = c.rng, c.kits["plain"]
    kind, files, want = some_valid(c)
    w = want if isinstance(want, bytes) else want.encode("latin-1")
    base = "p"
    exp = None # True: must work; False: must fail
    env = dict(kit.env); pre = []; opts = random_opts(rng)
    d = c.dir; clean(d)
    k = rng.choice(["obj_dir", "obj_full", "obj_stale", "exe_dir", "exe_full", "ll_dir", "ll_full", "no_file", "dir_source", "empty", "nolinker", "linkfail", "linkkill", "name", "ext", "noext", "path", "noopt", "twofiles", "symlink",
                    "stale_exe", "nounit", "unitdir", "fsize", "abs", "rel", "nolib", "emitast", "garbage", "crlf_name"])
    name = "p.pas"; cwd = d; lac = kit.lacsap; out = "p"; emit = None
    if k == "obj_dir": os.mkdir(d + "/p.o"); exp = False
    elif k == "obj_full": os.symlink("/dev/full", d + "/p.o"); exp = False
    elif k == "obj_stale": # an object of another program that can not be replaced
        open(d + "/p.o", "wb").write(b"junk"); exp = True
    elif k == "exe_dir": os.mkdir(d + "/p"); exp = False
    elif k == "exe_full": os.mkdir(d + "/p"); open(d + "/p/x", "w").close(); exp = False
    elif k in ("ll_dir", "ll_full"):
        emit = "llvm"; opts = opts + ["-emit=llvm"]; exp = False
        if k == "ll_dir": os.mkdir(d + "/p.ll")
        else: os.symlink("/dev/full", d + "/p.ll")
    elif k == "no_file": name = "q.pas"; exp = False
    elif k == "dir_source": os.mkdir(d + "/q.pas"); name = "q.pas"; exp = False
    elif k == "empty": files = dict(files, p=rng.choice(["", " ", "\n", "{ }", "(* ", "p", "program"])); exp = False
    elif k == "garbage": files = dict(files, p="".join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 10, 1000, 50000])))); exp = False
    elif k == "nolinker": os.mkdir(d + "/bin"); env["PATH"] = d + "/bin"; exp = False
    elif k in ("linkfail", "linkkill"):
        os.mkdir(d + "/bin"); env["PATH"] = d + "/bin:" + env["PATH"]
        with open(d + "/bin/clang", "w") as f: f.write("#!/bin/sh\n" + ("exit %d\n" % rng.choice([1, 2, 3, 127, 128, 255]) if k == "linkfail" else "kill -9 $$\n"))
        os.chmod(d + "/bin/clang", 0o755); exp = False
    elif k == "name":
        base = rng.choice(["a b", "it's", "x;y", "a&b", "$HOME", "(p)", "*", "a\"b", "tab\tname", "-", "p.pas", "\xe4", "a`b`", "#p", "~", "a\\b"]); exp = True
    elif k == "crlf_name": base = "a\nb"; exp = True
    elif k == "ext": base = "p"; name = rng.choice(["p.txt", "p.pasx", "p.PAS", "pas", ".pa", "x", "p."]); exp = False
    elif k == "noext": name = "program"; exp = False
    elif k == "path":
        os.symlink(kit.dir, d + "/bin"); env["PATH"] = d + "/bin:" + env["PATH"]; lac = "lacsap"; exp = True
    elif k == "symlink": os.symlink(kit.lacsap, d + "/lc"); lac = "./lc"; exp = True
    elif k == "noopt": opts = opts + [rng.choice(["-O4", "-nosuch", "-emit=obj", "-std=ansi", "-O"])]; exp = False
    elif k == "twofiles": opts = opts + ["p.pas"]; exp = False
    elif k == "stale_exe": open(d + "/p", "wb").write(b"old"); exp = True
    elif k == "nounit": files = dict(files, p=re.sub(r"(?s)^(\s*program[^;]*;)", r"\1 uses zznothere;", files["p"], count=1)); exp = False
    elif k == "unitdir":
        files = dict(files, p=re.sub(r"(?s)^(\s*program[^;]*;)", r"\1 uses zznothere;", files["p"], count=1)); os.mkdir(d + "/zznothere.pas"); exp = False
    elif k == "fsize": exp = False
    elif k == "abs": exp = True
    elif k == "rel": os.mkdir(d + "/sub"); cwd = d + "/sub"; exp = True
    elif k == "nolib":
        os.mkdir(d + "/bin"); os.link(kit.lacsap, d + "/bin/lacsap") if False else shutil.copy(kit.lacsap, d + "/bin/lacsap"); lac = d + "/bin/lacsap"; exp = False
    elif k == "emitast": opts = opts + ["-emit=ast"]; emit = "ast"; exp = True
    if len(files) > 1 and k in ("name", "crlf_name", "ext", "noext"): files = {"p": corpus.gen.program(rng, 2000)[0]}; w = None
    put(d, files)
    if k in ("name", "crlf_name"):
        os.rename(d + "/p.pas", d + "/" + base + ".pas"); name = base + ".pas"; out = base
        if base.startswith("-"): name = "./" + name
    if k in ("ext", "noext"): os.rename(d + "/p.pas", d + "/" + name); out = name.rsplit(".", 1)[0]
    if k == "abs": name = d + "/p.pas"
    if k == "rel": name = "../p.pas"
    r = K.run([lac] + opts + [name], cwd, env, cpu=40, fsize=(2000 if k == "fsize" else 64 << 20)) if lac != "lacsap" else \
        K.run(["/bin/sh", "-c", 'exec lacsap "$@"', "sh"] + opts + [name], cwd, env, cpu=40)
    fs = {n + ".pas": s for n, s in files.items()}; fs["message"] = (r.out + r.err)[-20000:]; fs["setup"] = "%s %r %r" % (k, name, opts)
    if r.timeout == "wall": raise Inconclusive("wall clock limit")
    if r.timeout: raise Violation("the compiler does not end (%s)" % k, fs)
    exe = d + "/" + out
    if exp and r.rc != 0: raise Violation("status %s for a valid program (%s, file %r, %s): %s" % (r.rc, k, name, opts, clip(r.out + r.err, 300)), fs)
    if not exp and r.rc == 0: raise Violation("status 0 although nothing can be made (%s, file %r, %s): %s" % (k, name, opts, clip(r.out + r.err, 300)), fs)
    if r.rc == 0 and emit is None:
        if not runnable(exe): raise Violation("status 0 but no executable (%s, file %r)" % (k, name), fs)
        if w is not None:
            x = K.run([exe], d, cpu=20)
            if x.timeout == "wall": raise Inconclusive("wall clock limit")
            if x.rc != 0 or x.out != w: raise Violation("status 0 but the executable is not that of the source (%s, file %r)" % (k, name), fs)
    if r.rc != 0:
        if runnable(exe) and k != "stale_exe" and name not in ("p.pas.pas",): raise Violation("status %s but an executable was made (%s)" % (r.rc, k), fs)
        if not (r.out + r.err).strip() and k != "fsize": raise Violation("status %s without a message (%s, file %r)" % (r.rc, k, name), fs)
    c.count("driver_cases"); c.state("driver", k, r.rc, base)
    c.key = C.sha(k, name, *files.values()); c.sample = "%s: %s" % (k, clip(r.err, 200))

def case(c):
    k = c.idx % 10
    if k < 5: valid(c)
    elif k < 9: invalid(c)
    else:
        for _ in range(4): driver(c)

if __name__ == "__main__":
    simple_check("C23", "a case counts once per distinct source text compiled by the sanitized compiler, per distinct program whose damaged versions were judged, and per distinct driver situation",
                 ["crashes of the compiler on ill-formed programs that announce themselves with a message count as rejections here (C13 decides what must be a diagnostic)",
                  "leaks are not counted: the compiler never frees its syntax tree by design", "memory safety is judged on valid programs only; LLVM's own libraries are not instrumented"],
                 case, budget_quick=36, builds={"plain": {}, "san": {"compiler": "san"}})
