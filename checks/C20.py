import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import corpus, re, collections, struct
B = K.LLVM + "/bin/"
MON = r'''
#include <stdio.h>
#include <stdlib.h>
extern void __real___write_int32(void* f, int v, int w);
static FILE* log_;
void __wrap___write_int32(void* f, int v, int w)
{
    if (w != 997) { __real___write_int32(f, v, w); return; }
    if (!log_ && !(log_ = fopen("marks.log", "w"))) abort();
    fprintf(log_, "%d %lx\n", v, (unsigned long)__builtin_return_address(0));
    fflush(log_);
}
'''
SIMPLE = re.compile(r"^(\s+)((?:write|writeln)\(.*|writeln|[a-z]\w*(?:\[.*?\]|\^|\.\w+)* := .*|pr\d+(?:\(.*)?)(;?)$")

FILE = 100000
def mark(src, rng, share, file=0):
    """Puts a marker on the line before some simple statements: write(<file and line of the marker>: 997), observed by the monitor."""
    out, marks = [], []
    inbody = False
    for l in src.split("\n"):
        if re.match(r"^\s*begin\b", l): inbody = True
        m = SIMPLE.match(l)
        if m and inbody and rng.random() < share:
            ind, st, sc = m.groups()
            if st.endswith(";"): st = st[:-1]; sc = ";"
            if rng.random() < .15: out.append(rng.choice(["", "{ note }", "  // note", "(* a", ""]))
            if out[-1] == "(* a": out.append("note *)")
            n = len(out) + 1
            out.append("%sbegin write(%d: 997);" % (ind, n + file))
            n += file
            out.append(ind + "  " + st)
            out.append(ind + "end" + sc)
            marks.append(n)
        else:
            out.append(l)
    return "\n".join(out), marks

def tool(c, cmd, what, files, cpu=60, env=None):
    r = K.run(cmd, c.dir, env=env, cpu=cpu)
    if r.timeout: raise Inconclusive("time limit: " + cmd[0])
    if r.rc != 0:
        raise Violation("%s: %s" % (what, clip(r.out + r.err, 500)), files)
    return r

def libs(kit, m32):
    return ["-L" + kit.dir, "-lruntime" + ("-m32" if m32 else ""), "-lm"]

def same_program(c, kit, src, want, o, units=None, kind=""):
    """The emitted IR passes the verifier, and built by clang it behaves like the executable made directly."""
    fs = {"p.pas": src, "options": " ".join(o)}
    fs.update({u + ".pas": s for u, s in (units or {}).items()})
    expect(c, kit, src, want, o, units=units, what="executable (%s)" % kind)
    compile_ok(c, kit, src, list(o) + ["-emit=llvm"], units)
    if not os.path.exists(os.path.join(c.dir, "p.ll")):
        raise Violation("-emit=llvm with options %s exits 0 without writing p.ll" % " ".join(o), fs)
    fs["p.ll"] = open(os.path.join(c.dir, "p.ll"), "rb").read()
    tool(c, [B + "opt", "-passes=verify", "-disable-output", "p.ll"], "the IR emitted with options %s does not pass the verifier" % " ".join(o), fs)
    c.count("ir_files_verified")
    c.count("ir_functions", fs["p.ll"].count(b"\ndefine "))
    m32 = "-m32" in o
    lvl = c.rng.choice(O)
    tool(c, ["/usr/bin/clang", "-Wno-override-module", lvl, "-o", "q", "p.ll"] + (["-m32"] if m32 else []) + libs(kit, m32),
         "clang cannot build the IR emitted with options %s" % " ".join(o), fs)
    r = K.run(["./q"], c.dir, cpu=20)
    c.count("runs")
    if r.timeout == "wall": raise Inconclusive("wall clock limit")
    if r.out != want or r.rc != 0 or r.timeout:
        k, g, w = firstdiff(r.out, want)
        raise Violation("the program clang %s builds from the IR emitted with options %s behaves differently from the executable: status %s, line %d is %r instead of %r"
                        % (lvl, " ".join(o), r.rc, k, clip(g), clip(w)), fs)

def debug_info(c, kit, src, want, rng, kind, units):
    src, marks = mark(src, rng, .5)
    files = ["p"]
    if units:
        units = dict(units)
        for u in sorted(units):
            units[u], m = mark(units[u], rng, .5, FILE * len(files))
            marks += m; files.append(u)
    if not marks: return
    texts = [src] + [units[u] for u in files[1:]]
    o = ["-g", "-O0"] if rng.random() < .6 else ["-g", rng.choice(O)]
    m32 = rng.random() < .15
    if m32: o.append("-m32")
    fs = {"p.pas": src, "options": " ".join(o)}
    fs.update({u + ".pas": t for u, t in (units or {}).items()})
    compile_ok(c, kit, src, o, units)
    r = tool(c, [B + "llvm-dwarfdump", "--verify", "p.o"], "debug information made with options %s is malformed" % " ".join(o), fs)
    c.count("debug_objects_verified")
    with open(os.path.join(c.dir, "mon.c"), "w") as f: f.write(MON)
    tool(c, ["/usr/bin/clang", "-no-pie", "-O1", "-w", "-o", "t", "p.o", "mon.c", "-Wl,--wrap=__write_int32"] + (["-m32"] if m32 else []) + libs(kit, m32),
         "the object file made with options %s cannot be linked" % " ".join(o), fs)
    lg = os.path.join(c.dir, "marks.log")
    if os.path.exists(lg): os.remove(lg)
    r = K.run(["./t"], c.dir, cpu=20)
    c.count("runs")
    if r.timeout == "wall": raise Inconclusive("wall clock limit")
    if r.out != want or r.rc != 0:
        k, g, w = firstdiff(r.out, want)
        raise Violation("with options %s the program behaves differently: status %s, line %d is %r instead of %r" % (" ".join(o), r.rc, k, clip(g), clip(w)), fs)
    seen = collections.Counter()
    if os.path.exists(lg):
        for l in open(lg):
            a, b = l.split(); seen[(int(a), int(b, 16) - 1)] += 1
    c.count("statement_events", sum(seen.values()))
    keys = sorted(seen)
    if not keys: return
    s = tool(c, [B + "llvm-symbolizer", "--obj=t", "--output-style=JSON", "--no-inlines"] + ["0x%x" % k[1] for k in keys], "llvm-symbolizer failed", fs)
    import json
    res = []
    for x in s.out.decode("latin-1").splitlines():
        if x.strip():
            j = json.loads(x); res += j if isinstance(j, list) else [j]
    if len(res) != len(keys): raise Inconclusive("unexpected answer of llvm-symbolizer")
    exact = 0
    for (ln, addr), x in zip(keys, res):
        fr = x.get("Symbol") or [{}]
        got, fn = fr[0].get("Line", 0), fr[0].get("FileName", "")
        c.count("lines_symbolized")
        if got == ln % FILE and os.path.basename(fn) != files[ln // FILE] + ".pas":
            raise Violation("options %s: the code for line %d of %s.pas is attributed to file %r" % (" ".join(o), ln % FILE, files[ln // FILE], fn), fs)
        exact += got == ln % FILE
    c.count("lines_exact", exact)
    if "-O0" in o:
        if len(keys) >= 8 and exact * 2 < len(keys):
            raise Violation("options %s: only %d of %d executed statements are attributed to their line" % (" ".join(o), exact, len(keys)), fs)
        # the code generator may drop an instruction that has no effect: what is left of a statement is looked up in the IR
        compile_ok(c, kit, src, o + ["-emit=llvm"], units)
        ll = open(os.path.join(c.dir, "p.ll"), "rb").read().decode("latin-1")
        loc = {m.group(1): (int(m.group(2)), m.group(3)) for m in re.finditer(r"^(!\d+) = (?:distinct )?!DILocation\(line: (\d+).*?scope: (!\d+)", ll, re.M)}
        scope = {m.group(1): m.group(2) for m in re.finditer(r"^(!\d+) = .*?DISubprogram\(.*?file: (!\d+)", ll, re.M)}
        fname = {m.group(1): os.path.basename(m.group(2)) for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "(.*?)"', ll, re.M)}
        where = {k: (fname.get(scope.get(v[1])), v[0]) for k, v in loc.items()}
        lines, calls = set(), {}
        for m in re.finditer(r"^  .*!dbg (!\d+)", ll, re.M):
            if m.group(1) in where:
                lines.add(where[m.group(1)])
                k = re.search(r"call void @__write_int32\(.* i32 (\d+), i32 997\)", m.group(0))
                if k: calls[int(k.group(1))] = where[m.group(1)]
        for v in {k[0] for k in keys}:
            c.count("executed_statement_lines")
            f, ln = files[v // FILE] + ".pas", v % FILE
            if calls.get(v) != (f, ln):
                raise Violation("options %s: the call made by the statement on line %d of %s is at %s in the IR" % (" ".join(o), ln, f, calls.get(v)), fs)
            if (f, ln + 1) not in lines:
                raise Violation("options %s: line %d of %s (%s) was executed but no instruction is attributed to it" % (" ".join(o), ln + 1, f, texts[v // FILE].split("\n")[ln].strip()), fs)
    c.state("marks", min(len({k[0] for k in keys}), 60))

def scalar(rng):
    """(type, bytes, value text, expected bytes)"""
    k = rng.randrange(7)
    if k == 0: v = rng.randrange(33, 127); return "char", "chr(%d)" % v, bytes([v])
    if k == 1: v = rng.randrange(-2**31 + 1, 2**31); return "integer", "%d" % v, struct.pack("<i", v)
    if k == 2: v = rng.randrange(-2**62, 2**62); return "longint", "%d" % v, struct.pack("<q", v)
    if k == 3: v = rng.randrange(-2**40, 2**40) / 256; return "real", repr(v), struct.pack("<d", v)
    if k == 4: return "boolean", "true", b"\1"
    if k == 5: v = rng.choice(["rot", "grn", "blu"]); return "colour", v, struct.pack("<i", ["rot", "grn", "blu"].index(v))
    n = rng.randrange(1, 12); t = "".join(rng.choice("ABCDEFGH") for _ in range(n)); return "string[%d]" % n, "'%s'" % t, bytes([n]) + t.encode()

def layout(c, kit, rng):
    """Records written to a file of records: each field is found in the file's bytes where the debug information says it is."""
    decl, do, want, n = [], [], [], [0]      # want: path of member names, index in bytes, bytes
    def rec(depth):
        fs, cells = [], []
        for _ in range(rng.randrange(2, 8)):
            n[0] += 1; f = "m%d" % n[0]; q = rng.random()
            if depth and q < .25:
                t, sub = rec(depth - 1)
                cells += [([f] + p, f + "." + x, v, e, o) for p, x, v, e, o in sub]
            elif q < .4:
                k = rng.randrange(2, 6); t = "array [1..%d] of integer" % k
                for i in range(1, k + 1):
                    v = rng.randrange(-2**31 + 1, 2**31); cells.append(([f], "%s[%d]" % (f, i), "%d" % v, struct.pack("<i", v), 4 * i - 4))
            else:
                t, v, e = scalar(rng); cells.append(([f], f, v, e, 0))
            fs.append("%s: %s" % (f, t))
        n[0] += 1; t = "t%d" % n[0]; decl.append("  %s = record %s end;" % (t, "; ".join(fs)))
        return t, cells
    t, cells = rec(2)
    src = "program p;\ntype colour = (rot, grn, blu);\n%s\nvar v: %s; f: file of %s;\nbegin\n  assign(f, 'data'); rewrite(f);\n%s\n  f^ := v; put(f); close(f)\nend.\n" % (
        "\n".join(decl), t, t, "\n".join("  v.%s := %s;" % (x, v) for _, x, v, _, _ in cells))
    o = ["-g", rng.choice(["-O0", "-O1", "-O2"])]
    fs = {"p.pas": src, "options": " ".join(o)}
    compile_ok(c, kit, src, o)
    d = os.path.join(c.dir, "data")
    if os.path.exists(d): os.remove(d)
    r = K.run(["./p"], c.dir, cpu=20)
    if r.rc != 0: raise Violation("options %s: status %s; %s" % (" ".join(o), r.rc, clip(r.err)), fs)
    data = open(d, "rb").read()
    r = tool(c, [B + "llvm-dwarfdump", "--debug-info", "p.o"], "debug information cannot be read", fs)
    at, name = {}, None
    for l in r.out.decode("latin-1").split("\n"):
        if "DW_TAG_" in l: name = None
        m = re.search(r'DW_AT_name\s+\("(m\d+)"\)', l)
        if m: name = m.group(1)
        m = re.search(r"DW_AT_data_member_location\s+\((0x[0-9a-f]+|\d+)\)", l)
        if m and name: at[name] = int(m.group(1), 0)
    for path, x, v, e, o2 in cells:
        if not all(f in at for f in path): c.count("members_not_described"); continue
        k = sum(at[f] for f in path) + o2
        c.count("members_located")
        if data[k:k + len(e)] != e:
            raise Violation("options %s: the debug information puts v.%s at byte %d, where the record has %r, but its value %s is %r" % (" ".join(o), x, k, data[k:k + len(e)], v, e), fs)

def case(c):
    if c.idx % 5 == 4: layout(c, c.kits["plain"], c.rng)
    kit, rng = c.kits["plain"], c.rng
    kind, src, want = corpus.make(rng)
    units = None
    if rng.random() < .2:
        import C21
        src, units, want = C21.split(c, rng)
        kind = "units"
    o = random_opts(rng)
    if "-g" not in o and rng.random() < .25: o.append("-g")
    c.state("opts", *sorted(o)); c.state("kind", kind)
    same_program(c, kit, src, want, o, units, kind)
    debug_info(c, kit, src, want, rng, kind, units)
    if want.count(b"\n") >= 3: c.key = C.sha(src)
    c.sample = clip(src, 1200)

if __name__ == "__main__":
    simple_check("C20",
        "Each case is a generated program (from the random generator, the templates of the other checks, or split over units) compiled under a random "
        "option set to an executable and to IR; the IR goes through LLVM's verifier and an independent clang build (random -O level) whose behaviour must be that of the "
        "executable. Programs are also compiled with -g with markers between their statements: a monitor linked in place of a runtime routine "
        "records the address of every marker executed, and the line table must map it to the marker's line and contain the statement after it. "
        "Non-trivial: distinct source with at least three output lines.",
        ["the code generator may merge identical calls of two statements, so the line table of the executable must be right for most markers; which line each call has is checked exactly in the IR at -O0", "that the statement after an executed marker has a line is checked in the IR at -O0, because the code generator drops stores that have no effect"], case)
