"""Builds the compiler and runtime from /repo's working tree into a private scratch directory and runs programs."""
import os, sys, subprocess, shutil, tempfile, time, resource, atexit, signal, re

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18"
BASEPATH = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"

class InfraError(Exception):
    pass

def _clean_env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "LDFLAGS", "DEBUG", "CC", "CXX", "MAKELEVEL", "MFLAGS")}
    e["PATH"] = BASEPATH
    e["LANG"] = "C.UTF-8"
    e["HOME"] = "/root"
    e["CCACHE_DISABLE"] = "1"
    return e

_scratch = None
_owner = os.getpid()

def scratch():
    """One scratch directory per check process, removed at exit."""
    global _scratch, _owner
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH", "/tmp")
        _scratch = tempfile.mkdtemp(prefix="lacsap-vf-", dir=base)
        _owner = os.getpid()
        atexit.register(_rm)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *a: sys.exit(3))
    return _scratch

def _rm():
    if _scratch and os.getpid() == _owner and os.environ.get("VERIF_KEEP") is None:
        shutil.rmtree(_scratch, ignore_errors=True)

class Kit:
    """A built compiler (+ runtimes) with everything needed to compile programs with it."""
    def __init__(self, dir, env):
        self.dir = dir
        self.lacsap = os.path.join(dir, "lacsap")
        self.env = env

def _copy_sources(dst):
    os.makedirs(dst)
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in (".git", "_build", "test")]
        for f in files:
            if f.endswith((".cpp", ".c", ".h", ".hpp", ".inc", ".def", ".sh")) or f == "Makefile":
                os.makedirs(os.path.join(dst, rel), exist_ok=True)
                shutil.copy(os.path.join(root, f), os.path.join(dst, rel, f))

def _make(dir, args, what, timeout=800):
    r = subprocess.run(["make"] + args, cwd=dir, env=_clean_env(), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise InfraError("building %s failed:\n%s" % (what, r.stdout.decode("utf-8", "replace")[-3000:]))

WRAP = r'''#!/bin/sh
# stands in for the C compiler driver the Pascal compiler links with: same command plus sanitizer flags
exec /usr/bin/clang %s "$@"
'''

def build(compiler="plain", runtime="plain", tag=None):
    """compiler: plain|san ; runtime: plain|san. Returns a Kit."""
    tag = tag or "kit-%s-%s" % (compiler, runtime)
    d = os.path.join(scratch(), tag)
    _copy_sources(d)
    common = ["USECLANG=1", "M32=1", "NDEBUG=1", "LLVM_DIR=" + LLVM]
    if compiler == "plain":
        cargs = common + ["DEBUG=-DNDEBUG=1 -O1"]
    else:
        cargs = common + ["DEBUG=-DNDEBUG=1 -O1 -g1", "CXX_EXTRA=" + SAN + " -fno-sanitize=vptr",
                          "LD=clang++ " + SAN + " -fno-sanitize=vptr"]
    # the dependency file includes nothing we need for a build from scratch
    open(os.path.join(d, ".depends"), "w").close()
    open(os.path.join(d, "runtime", ".depends"), "w").close()
    open(os.path.join(d, "runtime", ".depends32"), "w").close()
    rargs = ["-C", "runtime", "CC=clang", "M32=1"]
    if runtime == "san":
        rargs += ["CFLAGS=-g -Wall -std=c11 -O1 " + SAN]
    p = subprocess.Popen(["make", "-j4"] + rargs + ["libruntime.a", "libruntime-m32.a"], cwd=d, env=_clean_env(),
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    _make(d, ["-j8"] + cargs + ["lacsap"], "lacsap")
    out = p.communicate()[0]
    if p.returncode != 0:
        raise InfraError("building the runtime failed:\n" + out.decode("utf-8", "replace")[-3000:])
    for f in ("libruntime.a", "libruntime-m32.a"):
        shutil.copy(os.path.join(d, "runtime", f), os.path.join(d, f))
    env = _clean_env()
    if runtime == "san":
        w = os.path.join(d, "wrapbin")
        os.makedirs(w)
        with open(os.path.join(w, "clang"), "w") as f:
            f.write(WRAP % SAN)
        os.chmod(os.path.join(w, "clang"), 0o755)
        env["PATH"] = w + ":" + env["PATH"]
    if compiler == "san":
        env["ASAN_OPTIONS"] = "detect_leaks=0:detect_container_overflow=0:exitcode=99:abort_on_error=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    return Kit(d, env)

MSAN = "-fsanitize=memory -fno-sanitize-recover=memory -fno-omit-frame-pointer"

def add_runtime(kit, name, flags):
    """Builds another copy of the runtime library with the given flags; returns the path of the archive."""
    d = os.path.join(kit.dir, "runtime-" + name)
    shutil.copytree(os.path.join(kit.dir, "runtime"), d, ignore=shutil.ignore_patterns("*.o", "*.o32", "*.a"))
    _make(d, ["-j8", "CC=clang", "CFLAGS=-g -Wall -std=c11 -O1 " + flags, "libruntime.a"], "the runtime (%s)" % name)
    return os.path.join(d, "libruntime.a")

_DEF = re.compile(r"^(define .*\)[^{\n]*)\{", re.M)
def instrument(kit, cwd, name, attr, flags, lib, opts=(), emit=True):
    """Compiles name.pas to IR, has the sanitizer pass instrument every function of it and links it with a sanitized
    runtime. Returns (compiler result, link result or None, IR text)."""
    r = run([kit.lacsap, "-emit=llvm"] + list(opts) + [name + ".pas"], cwd, kit.env, cpu=30) if emit else None
    p = os.path.join(cwd, name + ".ll")
    if r and (r.rc or not os.path.exists(p)): return r, None, ""
    with open(p) as f: ir = f.read()
    with open(os.path.join(cwd, name + "." + attr + ".ll"), "w") as f: f.write(_DEF.sub(r"\1 %s {" % attr, ir))
    l = run(["clang"] + flags.split() + ["-w", name + "." + attr + ".ll", lib, "-lm", "-o", name + "." + attr], cwd, cpu=60)
    return r, l, ir

class Res:
    __slots__ = ("rc", "out", "err", "timeout", "wall")
    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

def _limits(cpu, mem, fsize):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem) if mem else (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    return f

_asan = {}
def _head(exe, cwd):
    """The executable's bytes when it is one of ours (cached for the compiler)."""
    if os.sep not in exe: return b""
    p = os.path.join(cwd, exe)
    if p not in _asan or exe.startswith("./"):
        try:
            with open(p, "rb") as f: _asan[p] = b"__asan_init" if b"__asan_init" in f.read() else b""
        except OSError:
            return b""
    return _asan[p]

def run(cmd, cwd, env=None, stdin=b"", cpu=10, wall=150, mem="default", fsize=64 << 20, maxout=16 << 20):
    """Runs a command under CPU-time, file-size and wall-clock limits. .timeout is None, 'cpu' or 'wall'.
    Input and output go through unlinked files, so a program that floods its output hits the file-size limit."""
    if mem == "default": # sanitized programs reserve terabytes of address space
        mem = None if env and "ASAN_OPTIONS" in env or b"__asan_init" in _head(cmd[0], cwd) else 6 << 30
    t = time.time()
    close = []
    if isinstance(stdin, bytes):
        if stdin:
            fi = tempfile.TemporaryFile(dir=scratch())
            fi.write(stdin)
            fi.flush()
            fi.seek(0)
        else:
            fi = open(os.devnull, "rb")
        close.append(fi)
    else:
        fi = stdin
    fo, fe = tempfile.TemporaryFile(dir=scratch()), tempfile.TemporaryFile(dir=scratch())
    p = subprocess.Popen(cmd, cwd=cwd, env=env or _clean_env(), stdin=fi, stdout=fo, stderr=fe,
                         preexec_fn=_limits(cpu, mem, fsize))
    to = None
    try:
        p.wait(timeout=wall)
    except subprocess.TimeoutExpired:
        to = "wall"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    if p.returncode == -signal.SIGXCPU or (p.returncode == -signal.SIGKILL and to is None):
        to = "cpu"
    fo.seek(0)
    fe.seek(0)
    r = Res(p.returncode, fo.read(maxout), fe.read(maxout), to, time.time() - t)
    for x in close + [fo, fe]:
        x.close()
    return r

def compile_pas(kit, src, cwd, name="p", opts=(), units=None, cpu=30, emit=None, write=True):
    """Writes src to cwd/name.pas and compiles it. Returns Res."""
    if write:
        with open(os.path.join(cwd, name + ".pas"), "wb") as f:
            f.write(src if isinstance(src, bytes) else src.encode("latin-1"))
        for u, s in (units or {}).items():
            with open(os.path.join(cwd, u + ".pas"), "wb") as f:
                f.write(s if isinstance(s, bytes) else s.encode("latin-1"))
    return run([kit.lacsap] + list(opts) + [name + ".pas"], cwd, kit.env, cpu=cpu)

def sanitizer_report(res):
    e = res.err
    return b"ERROR: AddressSanitizer" in e or b"runtime error:" in e or b"ERROR: LeakSanitizer" in e or b"MemorySanitizer" in e
