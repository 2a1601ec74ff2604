"""Helpers for checks that compile a Pascal program, run it and compare what it does with a reference."""
import os, sys, re
import kit as K, check as C, gen
from check import Violation, Inconclusive

O = ["-O0", "-O1", "-O2", "-O3"]
def random_opts(rng, m32=True, g=True, memcpy=True, cr=False):
    """A random option set; -Cr only on request, for programs known to stay within bounds."""
    o = [rng.choice(O)]
    if m32 and rng.random() < 0.2: o.append("-m32")
    elif rng.random() < 0.1: o.append("-m64")
    if g and rng.random() < 0.12: o.append("-g")
    if memcpy and rng.random() < 0.12: o.append("-no-memcpy")
    if cr and rng.random() < 0.15: o.append("-Cr")
    return o

def clip(b, n=300):
    s = b.decode("latin-1") if isinstance(b, bytes) else str(b)
    return s if len(s) <= n else s[:n // 2] + " ... " + s[-n // 2:]

def firstdiff(got, want):
    a, b = got.split(b"\n"), want.split(b"\n")
    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    g = a[k] if k < len(a) else b"<end>"
    w = b[k] if k < len(b) else b"<end>"
    return k + 1, g, w

def compile_ok(c, kit, src, opts=(), units=None, name="p", dir=None, cpu=60, valid_kind="well-formed"):
    """Compiles a valid program; anything but success is a violation (a compile-time limit is inconclusive)."""
    r = K.compile_pas(kit, src, dir or c.dir, name=name, opts=opts, units=units, cpu=cpu)
    c.count("compilations")
    if r.timeout:
        raise Inconclusive("compile time limit with %s" % " ".join(opts))
    if r.rc != 0:
        fs = {name + ".pas": src}
        fs.update({u + ".pas": s for u, s in (units or {}).items()})
        raise Violation("the compiler rejects or fails on a %s program (status %d) with options %s: %s"
                        % (valid_kind, r.rc, " ".join(opts), clip((r.out + r.err).split(b"Exiting")[0], 300)), fs)
    return r

def expect(c, kit, src, want, opts=(), units=None, stdin=b"", args=(), rc=0, name="p", what="program", cpu=20, env=None,
           files=None, canon=None, dir=None):
    """Compiles and runs src; its output must be `want` and its exit status rc. Returns the run result."""
    d = dir or c.dir
    compile_ok(c, kit, src, opts, units, name, d)
    r = K.run(["./" + name] + list(args), d, env=env, stdin=stdin, cpu=cpu)
    c.count("runs")
    fs = {name + ".pas": src, "expected": want, "got": r.out, "stdin": stdin,
          "options": " ".join(opts), "stderr": r.err}
    fs.update({u + ".pas": s for u, s in (units or {}).items()})
    fs.update(files or {})
    if r.timeout == "wall":
        raise Inconclusive("run exceeded the wall-clock limit")
    got = canon(r.out) if canon else r.out
    if got != want or r.rc != rc or r.timeout:
        k, g, w = firstdiff(got, want)
        raise Violation("%s, options %s: status %s (expected %d)%s; output line %d is %r, expected %r; stderr %r"
                        % (what, " ".join(opts), r.rc, rc, " (time limit)" if r.timeout else "", k, clip(g), clip(w), clip(r.err, 200)), fs)
    return r

def gen_case(c, kit, prof, nopts=1, limit=20000, what="random program", cr=False, need=None):
    """One random program against the reference interpreter under nopts option sets."""
    src, want, cover, feats = gen.program(c.rng, limit, **prof)
    for k, v in cover.items():
        c.count("ev_" + k, v)
    for _ in range(nopts):
        o = random_opts(c.rng, cr=cr)
        c.state("opts", *o)
        expect(c, kit, src, want, o, what=what)
    for k in feats:
        c.state("feature", k, min(feats[k], 9))
    c.count("output_lines_checked", want.count(b"\n"))
    if want.count(b"\n") >= 5:
        c.key = C.sha(src)
    c.sample = clip(src, 1500)

class Prog:
    """Program text plus the output it must produce."""
    def __init__(self, name="p"):
        self.name = name
        self.uses, self.labels, self.consts, self.types, self.vars, self.subs, self.body = [], [], [], [], [], [], []
        self.consts2 = []
        self.out = []
        self.n = 0
    def uid(self, p="x"):
        self.n += 1
        return "%s%d" % (p, self.n)
    def var(self, t, name=None):
        n = name or self.uid("v")
        self.vars.append("%s: %s" % (n, t))
        return n
    def const(self, v, name=None):
        n = name or self.uid("k")
        self.consts.append("%s = %s" % (n, v))
        return n
    def type(self, t, name=None):
        n = name or self.uid("t")
        self.types.append("%s = %s" % (n, t))
        return n
    def do(self, s):
        self.body.append(s)
    def say(self, items, text):
        """writeln(items) that must print text."""
        self.body.append("writeln(%s)" % items)
        self.out.append(text.encode("latin-1") if isinstance(text, str) else text)
    def src(self):
        s = "program %s(input, output);\n" % self.name
        s += "".join("uses %s;\n" % u for u in self.uses)
        if self.labels: s += "label %s;\n" % ", ".join(self.labels)
        if self.consts: s += "const\n" + "".join("  %s;\n" % x for x in self.consts)
        if self.types: s += "type\n" + "".join("  %s;\n" % x for x in self.types)
        if self.consts2: s += "const\n" + "".join("  %s;\n" % x for x in self.consts2)
        if self.vars: s += "var\n" + "".join("  %s;\n" % x for x in self.vars)
        s += "".join(x + "\n" for x in self.subs)
        return s + "begin\n" + ";\n".join("  " + x for x in self.body) + "\nend.\n"
    def want(self):
        return b"".join(x + b"\n" for x in self.out)

def qs(b):
    """A Pascal string literal for bytes without control characters."""
    s = b.decode("latin-1") if isinstance(b, bytes) else b
    return "'" + s.replace("'", "''") + "'"

def simple_check(prop, rule, assumptions, fn, budget_quick=32, budget_thorough=780, builds=None, pre=None):
    """Standard main of a check: build, (probe known findings,) run cases until the time budget is used."""
    def m():
        ck = C.Check(prop, rule, assumptions)
        kits = {n: ck.build(**kw) for n, kw in (builds or {"plain": {}}).items()}
        if pre: pre(ck, kits)
        ck.run(fn, 10 ** 9, kits, ck.tier(budget_quick, budget_thorough))
        ck.finish()
    C.main(m)

# ---- operands in every kind of place
LOCS = ["lit", "const", "glob", "local", "param", "vparam", "prot", "elem", "field", "ptr", "func", "elem2", "nested", "with"]
def located(P, rng, ops, mk, locs=None):
    """Adds a routine to P in which each operand (type name, literal text[, constable]) lives in a random place and
    runs the statements mk(list of operand texts). Returns the chosen places."""
    n = P.uid("q")
    params, args, locs_, init, names, chosen, inner = [], [], [], [], [], [], []
    withs = []
    for op in ops:
        t, lit = op[0], op[1]
        constable = op[2] if len(op) > 2 else True
        L = [l for l in (locs or LOCS) if constable or l not in ("lit", "const")]
        loc = rng.choice(L)
        chosen.append(loc)
        x = P.uid("o")
        if loc == "lit":
            names.append("(%s)" % lit if lit[:1] in "-+" else lit)
        elif loc == "const":
            P.consts2.append("%s = %s" % (x, lit))
            names.append(x)
        elif loc in ("glob", "nested"):
            P.var(t, x); P.do("%s := %s" % (x, lit)); names.append(x)
        elif loc == "local":
            locs_.append("%s: %s" % (x, t)); init.append("%s := %s" % (x, lit)); names.append(x)
        elif loc == "param":
            params.append("%s: %s" % (x, t)); args.append(lit); names.append(x)
        elif loc == "prot":
            params.append("protected %s: %s" % (x, t)); args.append(lit); names.append(x)
        elif loc == "vparam":
            g = P.var(t); P.do("%s := %s" % (g, lit))
            params.append("var %s: %s" % (x, t)); args.append(g); names.append(x)
        elif loc == "elem":
            lo = rng.choice([0, 1, -4, 17]); k = lo + rng.randrange(4)
            P.var("array [%d..%d] of %s" % (lo, lo + 3, t), x)
            P.do("%s[%d] := %s" % (x, k, lit))
            if rng.random() < 0.5:
                iv = P.var("integer"); P.do("%s := %d" % (iv, k)); names.append("%s[%s]" % (x, iv))
            else:
                names.append("%s[%d]" % (x, k))
        elif loc == "elem2":
            locs_.append("%s: array [boolean, 'b'..'d'] of %s" % (x, t))
            k = rng.choice(["true", "false"]) + ", '" + rng.choice("bcd") + "'"
            init.append("%s[%s] := %s" % (x, k, lit)); names.append("%s[%s]" % (x, k))
        elif loc == "field":
            P.var("record fa: char; fb: %s; fc: boolean end" % t, x)
            P.do("%s.fb := %s" % (x, lit)); names.append("%s.fb" % x)
        elif loc == "with":
            f = P.uid("w")
            P.var("record fa: boolean; %s: %s; fc: char end" % (f, t), x)
            P.do("%s.%s := %s" % (x, f, lit)); names.append(f); withs.append(x)
        elif loc == "ptr":
            P.var("^" + t, x); P.do("new(%s)" % x); P.do("%s^ := %s" % (x, lit)); names.append("%s^" % x)
        elif loc == "func":
            P.subs.append("function %s: %s; begin %s := %s end;" % (x, t, x, lit)); names.append(x)
    body = mk(names)
    if withs: body = "with %s do begin %s end" % (", ".join(withs), body)
    text = "procedure %s%s;\n" % (n, "(" + "; ".join(params) + ")" if params else "")
    if locs_: text += "var " + "; ".join(locs_) + ";\n"
    if "nested" in chosen:
        text += "procedure inner; begin %s end;\n" % body if not (set(chosen) & {"elem2"}) else "procedure inner; begin %s end;\n" % body
        body = "inner"
    P.subs.append(text + "begin %s end;" % "; ".join(init + [body]))
    P.do(n + ("(" + ", ".join(args) + ")" if args else ""))
    return chosen
