import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import cmath, math

class Skip(Exception): pass
def lit(v):
    s = repr(float(v))
    if "e" in s:
        m, e = s.split("e"); s = (m if "." in m else m + ".0") + "E" + e
    return s

# ---- expressions: (kind, type, children) with types c (complex), r (real), i (integer), l (longint)
CF = ["sqrt", "exp", "ln", "sin", "cos", "arctan", "sqr"]
def fold(x): return complex(x) if not isinstance(x, complex) else x
def apply(op, a):
    """The value of one operation."""
    if op == "re": return fold(a[0]).real
    if op == "im": return fold(a[0]).imag
    if op == "abs": return abs(a[0])
    if op == "arg":
        if a[0] == 0: raise Skip
        return cmath.phase(a[0])
    if op == "cmplx": return complex(a[0], a[1])
    if op == "polar": return complex(a[0] * math.cos(a[1]), a[0] * math.sin(a[1]))
    if op == "neg": return -a[0]
    if op == "+": return a[0] + a[1]
    if op == "-": return a[0] - a[1]
    if op == "*": return a[0] * a[1]
    if op == "/":
        if abs(a[1]) < 1e-60: raise Skip
        return a[0] / a[1]
    if op in ("pow", "**"):
        z = fold(a[0])
        if z == 0: raise Skip
        if op == "pow" and abs(a[1]) < 200:
            w = complex(1)
            for _ in range(abs(int(round(a[1])))): w *= z
            return w if a[1] >= 0 else 1 / w
        return cmath.exp(a[1] * cmath.log(z))
    if op == "sqr": return a[0] * a[0]
    if op == "sqrt": return cmath.sqrt(a[0])
    if op == "exp": return cmath.exp(a[0])
    if op == "ln":
        if a[0] == 0: raise Skip
        return cmath.log(a[0])
    if op == "sin": return cmath.sin(a[0])
    if op == "cos": return cmath.cos(a[0])
    if op == "arctan":
        if abs(a[0] - 1j) < .05 or abs(a[0] + 1j) < .05: raise Skip
        return cmath.atan(a[0])
    if op == "toreal": return a[0]
    raise AssertionError(op)

def evaluate(e, env, r, amount):
    """Value of e; with an amount, every leaf and intermediate result is disturbed by that relative error."""
    k = e[0]
    if k == "var": v = env[e[2]]; exact = not isinstance(v, (float, complex))
    elif k == "num": v = e[2]; exact = isinstance(v, int)
    else:
        v = apply(k, [evaluate(x, env, r, amount) for x in e[2]]); exact = k in ("cmplx", "re", "im", "toreal") or isinstance(v, int)
    m = abs(v)
    if m != m or m > 1e60 or (m and m < 1e-60): raise Skip
    if amount and not exact:
        t = r.random() * 2 * math.pi
        v = v + complex(math.cos(t), math.sin(t)) * m * amount if isinstance(v, complex) else v * (1 + amount * math.cos(t))
    return v

def text(e, names):
    k = e[0]
    if k == "var": return names[e[2]]
    if k == "num": return (lit(e[2]) if isinstance(e[2], float) else str(e[2])) if e[2] >= 0 else "(%s)" % (lit(e[2]) if isinstance(e[2], float) else e[2])
    a = [text(x, names) for x in e[2]]
    if k == "neg": return "(-%s)" % a[0]
    if k in ("+", "-", "*", "/"): return "(%s %s %s)" % (a[0], k, a[1])
    if k in ("pow", "**"): return "(%s %s %s)" % (a[0], k, a[1])
    if k == "toreal": return a[0]
    return "%s(%s)" % (k, ", ".join(a))

def gen(r, d, t, vs):
    leaf = [v for v in vs if v[0] == t]
    if t == "i" or t == "l": 
        if leaf and r.random() < .6: return ("var", t, r.choice(leaf)[1])
        return ("num", "i", r.randrange(0, 10))
    if d <= 0 or r.random() < .15:
        if leaf and r.random() < .8: return ("var", t, r.choice(leaf)[1])
        if t == "r": return ("num", "r", r.randrange(1, 4000) / 64)
        return ("cmplx", "c", [gen(r, 0, r.choice("rri"), vs), gen(r, 0, r.choice("rri"), vs)])
    g = lambda t: gen(r, d - 1, t, vs)
    if t == "r":
        k = r.choice(["re", "im", "abs", "arg", "abs", "re", "im", "-", "*"])
        if k in ("-", "*"): return (k, "r", [g("r"), g("r")])
        return (k, "r", [g("c")])
    k = r.choice(["+", "-", "*", "/", "+", "-", "*", "/", "neg", "pow", "**", "cmplx", "polar"] + CF)
    if k in ("+", "-", "*", "/"):
        p = r.choice(["cc", "cc", "cc", "cr", "rc", "ci", "ic", "cl", "lc"])
        return (k, "c", [g(p[0]), g(p[1])])
    if k == "pow": return (k, "c", [g("c"), ("num", "i", r.randrange(-5, 8)) if r.random() < .6 else g("i")])
    if k == "**": return (k, "c", [g("c"), g(r.choice("rri"))])
    if k == "cmplx": return (k, "c", [g(r.choice("rrri")), g(r.choice("rrri"))])
    if k == "polar": return (k, "c", [g("r"), g("r")])
    return (k, "c", [g("c")])

def value(r, m=6):
    k = r.randrange(6)
    if k == 0: return float(r.randrange(-9, 10))
    if k == 1: return r.randrange(-4000, 4000) / 64
    if k == 2: return (r.random() * 2 - 1) * 10.0 ** r.randrange(-m, m)
    if k == 3: return r.choice([0.0, 1.0, -1.0, 0.5, 2.0, -2.0])
    return r.random() * 4 - 2

PLACES = ["global", "local", "param", "vparam", "field", "elem", "ptr", "elem2", "func", "nested"]
def case(c):
    kit, r = c.kits["plain"], c.rng
    P = Prog()
    P.type("record before: char; z: complex; after: integer end", "rec")
    P.type("array [0..3] of complex", "arr"); P.type("array [1..2] of record tag: boolean; m: arr end", "deep"); P.type("^complex", "pc"); P.type("^rec", "pr")
    P.var("complex", "tmp"); P.var("integer", "guard"); P.var("integer", "idx"); P.do("guard := 4711"); P.do("idx := 2")
    checks = []     # (what, reference, tolerance) per output line
    want_exact = []
    def show(e, what, tol, ref, P=P):
        checks.append((what, ref, tol))
    # variables holding operands in various places
    vs, env, names, decls, params, args, pre, subs = [], {}, {}, [], [], [], [], []
    inner_only = False
    nv = r.randrange(4, 8)
    for j in range(nv):
        t = r.choice("cccccrril")
        n = "%s%d" % (t, j)
        if t == "c": v = complex(value(r), value(r)); ty, s = "complex", "cmplx(%s, %s)" % (lit(v.real), lit(v.imag))
        elif t == "r": v = value(r, 3); ty, s = "real", lit(v)
        elif t == "i": v = r.randrange(-9, 10); ty, s = "integer", str(v)
        else: v = r.randrange(-9, 10); ty, s = "longint", str(v)
        vs.append((t, n)); env[n] = v
        pl = r.choice(PLACES) if t == "c" else r.choice(["global", "local", "param", "vparam"])
        c.state("place", t, pl)
        if pl in ("global", "nested"): P.var(ty, n); P.do("%s := %s" % (n, s)); names[n] = n
        elif pl == "local": decls.append("%s: %s" % (n, ty)); pre.append("%s := %s" % (n, s)); names[n] = n
        elif pl == "param": params.append("%s: %s" % (n, ty)); args.append(s); names[n] = n
        elif pl == "vparam": P.var(ty, "g" + n); P.do("g%s := %s" % (n, s)); params.append("var %s: %s" % (n, ty)); args.append("g" + n); names[n] = n
        elif pl == "field": P.var("rec", n); P.do("%s.before := 'b'; %s.after := 77; %s.z := %s" % (n, n, n, s)); names[n] = n + ".z"
        elif pl == "elem": P.var("arr", n); P.do("%s[1] := tmp; %s[2] := %s; %s[3] := tmp" % (n, n, s, n)); names[n] = n + r.choice(["[2]", "[idx]"])
        elif pl == "elem2": P.var("deep", n); P.do("%s[2].m[2] := %s; %s[1] := %s[2]" % (n, s, n, n)); names[n] = n + r.choice(["[2].m[2]", "[1].m[idx]", "[idx].m[idx]"])
        elif pl == "ptr":
            if r.random() < .5: P.var("pc", n); P.do("new(%s); %s^ := %s" % (n, n, s)); names[n] = n + "^"
            else: P.var("pr", n); P.do("new(%s); %s^.z := %s" % (n, n, s)); names[n] = n + "^.z"
        elif pl == "func":
            subs.append("function %s: complex; begin %s := %s end;" % (n, n, s)); names[n] = n
    lines = []
    def emit(e, what, single):
        t = e[1]
        try:
            ref = evaluate(e, env, r, 0)
            spread = 0
            if not single:
                for _ in range(5): spread = max(spread, abs(evaluate(e, env, r, 1e-14) - ref))
        except (Skip, OverflowError, ValueError, ZeroDivisionError):
            c.count("expressions_skipped"); return
        tol = 60 * spread + 1e-13 * abs(ref) + 1e-300
        if tol > 1e-7 * abs(ref) and tol > 1e-280 and abs(ref) > 0 or (abs(ref) == 0 and spread > 0): c.count("expressions_ill_conditioned"); return
        x = text(e, names)
        if t == "c":
            how = r.randrange(6)
            if how == 0: lines.append("writeln(re(%s):28, ' ', im(%s):28)" % (x, x))
            elif how == 1: lines.append("tmp := %s; writeln(re(tmp):28, ' ', im(tmp):28)" % x)
            elif how == 2: lines.append("show(%s)" % x)
            elif how == 3: lines.append("rv.z := %s; rv2 := rv; show(rv2.z)" % x)
            elif how == 4: lines.append("show(same(%s))" % x)
            else: lines.append("av[idx] := %s; av2 := av; writeln(re(av2[2]):28, ' ', im(av2[idx]):28)" % x)
        else: lines.append("writeln(%s:28)" % x)
        checks.append((x, ref, tol)); c.count("expressions"); c.count("op_" + e[0])
    def exact(x, v):
        lines.append("writeln(%s)" % x); checks.append((x, v, None)); c.count("comparisons")
    cs = [n for t, n in vs if t == "c"]
    while len(lines) < 40:
        k = r.randrange(8)
        if k == 0 and cs:
            # single operation on an operand with special parts
            f = r.choice(CF + ["abs", "arg", "re", "im", "neg", "**", "pow"])
            z = complex(*r.choice([(4.0, 0.0), (-4.0, 0.0), (0.0, 2.0), (0.0, -2.0), (-1.0, 0.0), (1.0, 0.0), (3.0, 4.0), (-3.0, -4.0), (0.5, 0.0), (-0.25, 1.0), (1.0, 1e-9), (-1.0, 1e-9), (1e-9, 1.0), (1.0, -1e-12), (1e8, 1.0), (1.0, 1e8), (-1e8, -1e-3)]))
            if f == "ln" and abs(abs(z) - 1) < 1e-6: continue
            if f in ("exp", "sin", "cos", "**", "arctan") and abs(z) > 100: continue
            if f == "arctan" and z.real == 0: continue
            zz = ("cmplx", "c", [("num", "r", z.real), ("num", "r", z.imag)])
            if f in ("**", "pow"):
                if abs(z) > 100: continue
                emit((f, "c", [zz, ("num", "i", r.randrange(-3, 4))]), f, True)
            else: emit((f, "r" if f in ("abs", "arg", "re", "im") else "c", [zz]), f, True)
            if checks and checks[-1][2] is not None and checks[-1][0]: checks[-1] = (checks[-1][0], checks[-1][1], max(checks[-1][2], 2e-13 * abs(checks[-1][1])))
        elif k == 1 and cs:
            a = r.choice(cs); b = r.choice(cs); o = r.choice(["=", "<>"])
            exact("%s %s %s" % (names[a], o, names[b]), (env[a] == env[b]) == (o == "="))
            z = env[a]; m = r.randrange(4)
            z = [z, complex(z.real, z.imag + 1), complex(z.real + 1, z.imag), complex(z.imag, z.real)][m]
            exact("%s %s cmplx(%s, %s)" % (names[a], o, lit(z.real), lit(z.imag)), (env[a] == z) == (o == "="))
            if r.random() < .4:
                q = r.randrange(-3, 4); exact("cmplx(%d, %d) %s %s" % (q, r.choice([0, 0]), o, r.choice([str(abs(q)), "%d.0" % abs(q)])), (q == abs(q)) == (o == "="))
        elif k == 2:
            # mixed assignment
            t = r.choice("ri"); e = gen(r, 1, t, vs)
            try: ref = evaluate(e, env, r, 0)
            except (Skip, OverflowError, ValueError, ZeroDivisionError): continue
            if e[0] not in ("var", "num"): continue
            x = text(e, names)
            lines.append(r.choice(["tmp := %s; show(tmp)", "show(%s)", "rv.z := %s; show(rv.z)", "av[3] := %s; show(av[3])", "show(same(%s))"]) % x); checks.append((x, complex(ref), 0.0)); c.count("widening")
        else:
            d = r.choice([1, 1, 1, 2, 2, 3, 4])
            emit(gen(r, d, r.choice("cccr"), vs), "expr", False)
    lines.append("if guard = 4711 then writeln('ok')"); checks.append(("guard", "ok", None))
    P.var("rec", "rv"); P.var("rec", "rv2"); P.var("arr", "av"); P.var("arr", "av2")
    P.subs.append("procedure show(z: complex); begin writeln(re(z):28, ' ', im(z):28) end;")
    P.subs.append(r.choice(["function same(z: complex): complex; begin same := z end;", "function same(protected z: complex) = q: complex; begin q := z end;", "function same(z: complex): complex; var t: complex; procedure set_; begin t := z end; begin set_; same := t end;"]))
    P.subs += subs
    body = ";\n  ".join(lines)
    head = "procedure go%s;\n" % ("(" + "; ".join(params) + ")" if params else "") + ("var " + "; ".join(decls) + ";\n" if decls else "")
    if r.random() < .3: P.subs.append(head + "procedure inner;\nbegin\n  %s\nend;\nbegin %s end;" % (body, "; ".join(pre + ["inner"])))
    else: P.subs.append(head + "begin\n  %s\nend;" % ";\n  ".join(pre + [body]))
    P.do("go" + ("(" + ", ".join(args) + ")" if args else ""))
    o = random_opts(r); c.state("opts", *o)
    src = P.src()
    compile_ok(c, kit, src, o)
    res = K.run(["./p"], c.dir, cpu=20); c.count("runs")
    fs = {"p.pas": src, "options": " ".join(o), "got": res.out}
    if res.timeout: raise Inconclusive("time limit")
    out = res.out.decode("latin-1").split("\n")
    if res.rc != 0 or len(out) != len(checks) + 1: raise Violation("status %d and %d lines of output, expected status 0 and %d lines; %s" % (res.rc, len(out) - 1, len(checks), clip(res.err)), fs)
    for ln, (x, ref, tol) in zip(out, checks):
        if ref == "ok": ok, want = ln == "ok", "ok"
        elif tol is None: ok, want = ln == str(ref).upper(), str(ref).upper()
        else:
            try: v = [float(t) for t in ln.split()]
            except ValueError: v = []
            want = "%r within %.1e" % (ref, tol)
            if isinstance(ref, complex): ok = len(v) == 2 and abs(complex(*v) - ref) <= tol
            else: ok = len(v) == 1 and abs(v[0] - ref) <= tol
        if not ok: raise Violation("%s gives %s, expected %s, options %s" % (clip(x, 200), clip(ln), want, " ".join(o)), fs)
        c.count("values_checked")
    c.key = C.sha(src); c.sample = clip(src, 1200)

if __name__ == "__main__":
    simple_check("C17",
        "Each case compiles and runs one random program with about forty complex expressions (one operation, or trees up to depth four mixing complex, real and integer operands and all complex functions) whose operands live in "
        "variables, parameters, fields, elements, pointers and function results. The monitor compares both parts of each value with Python's complex arithmetic; the tolerance is 1e-13 relative to the magnitude plus sixty times the "
        "change a disturbance of 1e-14 of every operand and intermediate result makes (ill-conditioned expressions are skipped). Comparisons and widening assignments are exact. Non-trivial: distinct program.",
        ["magnitudes between 1e-60 and 1e60", "0 ** 0, arctan within 0.05 of i or -i and ln of an operand of magnitude within 1e-6 of 1 are not used as single operations"], case)
