import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
PROF = dict(routines=6, nest=3, stmtw=dict(call=8, assign=4, trace=4, **{"for": 1, "while": 1}), procparams=True, recursion=True, stmts=6, ptrs=1, variants=1)

def nested(c, rng):
    """A tower of nested recursive routines; each activation's variables are updated through static links."""
    depth = rng.randrange(2, 6)
    n = rng.randrange(2, 5)
    out = []
    # routine k at level k with local x_k; the innermost adds to all enclosing variables; recursion at random levels
    rec = [rng.randrange(0, 3) for _ in range(depth)]
    src = "program p(output);\nvar g: integer;\n"
    ind = ""
    useproc = rng.random() < 0.6
    if useproc: src += "procedure apply(procedure q(k: integer); k: integer); begin q(k) end;\n"
    for k in range(depth):
        src += "%sprocedure r%d(n%d: integer%s);\n%svar x%d: integer; y%d: array [1..3] of integer;\n" % (ind, k, k, "; var up: integer" if k else "", ind, k, k)
        ind += " "
    ups = "; ".join("x%d := x%d + n%d * %d; y%d[%d] := y%d[%d] + x%d" % (k, k, rng.randrange(depth), rng.randrange(1, 4), k, 1 + k % 3, k, 1 + k % 3, k) for k in range(depth))
    import re
    ups_model = re.findall(r"x(\d+) := x\d+ \+ n(\d+) \* (\d+); y\d+\[(\d)\] := y\d+\[\d\] \+ x\d+", ups)
    # bodies from the innermost outwards
    for k in range(depth - 1, -1, -1):
        ind = " " * k
        b = "x%d := n%d; y%d[1] := 0; y%d[2] := 0; y%d[3] := 0;" % (k, k, k, k, k)
        if rec[k]:
            b += " if n%d > 0 then %s;" % (k, "r%d(n%d - 1%s)" % (k, k, ", x%d" % k if k else ""))
        if k == depth - 1:
            b += " %s; g := g + 1;" % ups
        else:
            for i in range(rng.randrange(1, 3)):
                b += " r%d(%d, x%d);" % (k + 1, rng.randrange(0, n), k)
        if k: b += " up := up + x%d;" % k
        b += " writeln('r%d ', n%d, %s)" % (k, k, ", ".join("' ', x%d, ' ', y%d[1], ' ', y%d[2], ' ', y%d[3]" % (j, j, j, j) for j in range(k + 1)))
        src += "%sbegin %s end;\n" % (ind, b)
        if k == depth - 1: inner = b
        bodies.append((k, b)) if False else None
        BOD[k] = b
    src += "begin g := 0; r0(%d); writeln(g) end.\n" % n
    # model: interpret the generated bodies with Python closures
    class Fr:
        def __init__(s, lvl, parent): s.lvl, s.parent, s.v = lvl, parent, {}
    G = [0]; steps = [0]
    def find(fr, k):
        while fr.lvl != k: fr = fr.parent
        return fr
    def call(k, parent, n_, up):
        steps[0] += 1
        if steps[0] > 3000: raise Inconclusive("too long")
        fr = Fr(k, parent); fr.n = n_; fr.x = n_; fr.y = [0, 0, 0, 0]
        for st in [s.strip() for s in BOD[k].split(";")]:
            m = re.match(r"(if n\d+ > 0 then )?r(\d+)\((n\d+ - 1|\d+)(, x(\d+))?\)$", st)
            if m:
                if m.group(1) and fr.n <= 0: continue
                arg = fr.n - 1 if "n" in m.group(3) else int(m.group(3))
                kk = int(m.group(2))
                par = fr if kk == k + 1 else fr.parent
                call(kk, par, arg, fr)
                continue
            m = re.match(r"x(\d+) := x\d+ \+ n(\d+) \* (\d+)$", st)
            if m:
                a = find(fr, int(m.group(1))); a.x += find(fr, int(m.group(2))).n * int(m.group(3)); continue
            m = re.match(r"y(\d+)\[(\d)\] := y\d+\[\d\] \+ x\d+$", st)
            if m:
                a = find(fr, int(m.group(1))); a.y[int(m.group(2))] += a.x; continue
            if st.startswith("up :="): up.x += fr.x
            elif st.startswith("g :="): G[0] += 1
            elif st.startswith("writeln"):
                line = "r%d %d" % (k, fr.n)
                for j in range(k + 1):
                    a = find(fr, j); line += " %d %d %d %d" % (a.x, a.y[1], a.y[2], a.y[3])
                out.append(line)
    call(0, None, n, None)
    out.append(str(G[0]))
    if any(abs(int(w)) > 2**31 - 1 for l in out for w in l.split() if w.lstrip("-").isdigit()): raise Inconclusive("overflow")
    c.count("activations", steps[0]); c.state("tower", depth, *rec)
    return src, "\n".join(out).encode() + b"\n"
BOD = {}

def results(c, rng):
    """Nested functions whose parameters, variables and results (named or not) hide one another, changed by helpers of every level."""
    d = rng.randrange(2, 6); M = 9973
    same = rng.random() < 0.75
    N = lambda k: "n" if same else "n%d" % k
    X = lambda k: "x" if same else "x%d" % k
    T = lambda k: rng.choice(["t", "f%d" % (k + 1)]) if same and k == d - 1 else "t" if same else "t%d" % k
    names = [T(k) for k in range(d)]
    res = ["r%d" % k if rng.random() < 0.5 else None for k in range(d)]
    R = lambda k: res[k] or "f%d" % k
    LIM = rng.randrange(1, 7)
    loops = rng.random() < 0.2
    bodies = []
    for k in range(d):
        ops = []
        for _ in range(rng.randrange(3, 7)):
            o = rng.choice(["bump", "bump", "bump", "down", "down", "rec", "set", "show"])
            if o == "down" and (k == d - 1 or sum(x[0] == "down" for x in ops) > 1): o = "bump"
            if o == "bump": ops.append((o, rng.randrange(k + 1), rng.randrange(1, 99), rng.choice(["call", "proc", "proc2"])))
            elif o == "down": ops.append((o, rng.randrange(1, 50)))
            elif o == "rec": ops.append((o, rng.randrange(k + 1), rng.randrange(1, 50)))
            elif o == "set": ops.append((o, rng.randrange(1, 99)))
            else: ops.append((o,))
        if not any(x[0] == "down" for x in ops) and k < d - 1: ops.append(("down", 3))
        if k == d - 1 and loops: ops.insert(0, ("loop", rng.randrange(d), 260000 + rng.randrange(1000)))
        bodies.append(ops)
    src = "program p(output);\nvar g, h: integer;\nprocedure apply(procedure q(k: integer); k: integer); begin q(k) end;\n"
    src += "procedure apply2(procedure q(k: integer); k: integer);\n  procedure in2(k: integer); begin q(k) end;\nbegin apply(in2, k) end;\n"
    for k in range(d):
        I = " " * k
        src += "%sfunction f%d(%s: integer)%s: integer;\n%svar %s, %s: integer;\n" % (I, k, N(k), " = " + res[k] if res[k] else "", I, X(k), names[k])
        src += "%s procedure bump%d(v: integer); begin %s := (%s + v + %s) mod %d; %s := %s end;\n" % (I, k, X(k), X(k), N(k), M, R(k), X(k))
    for k in range(d - 1, -1, -1):
        b = ["%s := %s; %s := %s" % (X(k), N(k), R(k), N(k))]
        for o in bodies[k]:
            if o[0] == "bump": b.append({"call": "bump%d(%d)", "proc": "apply(bump%d, %d)", "proc2": "apply2(bump%d, %d)"}[o[3]] % o[1:3])
            elif o[0] == "loop": b.append("if h = 0 then for h := 1 to %d do apply(bump%d, 1)" % (o[2], o[1]))
            elif o[0] == "down": b.append("%s := f%d(%d); %s := (%s + %s) mod %d" % (names[k], k + 1, o[1], X(k), X(k), names[k], M))
            elif o[0] == "rec": b.append("if g < %d then begin g := g + 1; %s := f%d(%d); %s := (%s + %s) mod %d end" % (LIM, names[k], o[1], o[2], X(k), X(k), names[k], M))
            elif o[0] == "set": b.append("%s := (%s * 2 + %d) mod %d" % (X(k), X(k), o[1], M))
            else: b.append("writeln(%d, ' ', %s, ' ', %s, ' ', g)" % (k, N(k), X(k)))
        src += "%sbegin %s end;\n" % (" " * k, "; ".join(b))
    src += "begin g := 0; h := 0; writeln(f0(%d)); writeln(g) end.\n"
    n0 = rng.randrange(1, 50); src = src.replace("f0(%d)", "f0(%d)" % n0)
    out = []; G = [0, 0]; steps = [0]
    class Fr: pass
    def at(fr, j):
        while fr.k != j: fr = fr.up
        return fr
    def bump(a, v): a.x = (a.x + v + a.n) % M; a.r = a.x
    def call(k, up, n):
        steps[0] += 1
        if steps[0] > 600: raise Inconclusive("too long")
        f = Fr(); f.k, f.up, f.n, f.x, f.r = k, up, n, n, n
        for o in bodies[k]:
            if o[0] == "bump": bump(at(f, o[1]), o[2])
            elif o[0] == "loop":
                if not G[1]:
                    G[1] = 1; a = at(f, o[1])
                    for _ in range(o[2]): bump(a, 1)
            elif o[0] == "down": t = call(k + 1, f, o[1]); f.x = (f.x + t) % M
            elif o[0] == "rec":
                if G[0] < LIM:
                    G[0] += 1
                    t = call(o[1], at(f, o[1]).up, o[2]); f.x = (f.x + t) % M
            elif o[0] == "set": f.x = (f.x * 2 + o[1]) % M
            else: out.append("%d %d %d %d" % (k, n, f.x, G[0]))
        return f.r
    out.append(str(call(0, None, n0))); out.append(str(G[0]))
    c.count("result_activations", steps[0]); c.state("results", d, same, tuple(bool(x) for x in res), loops)
    return src, "\n".join(out).encode() + b"\n"

def params(c, P, rng):
    """Value, var and protected parameters of every kind of type; results of every kind of type."""
    P.type("(ra, rb, rc, rd)", "en"); P.type("array [1..5] of integer", "ai"); P.type("record a: integer; b: char; c: array [0..2] of real end", "rt")
    P.type("set of 0..100", "st"); P.type("string[20]", "s20"); P.type("array ['a'..'c'] of rt", "art"); P.type("packed array [1..6] of char", "pc6")
    P.type("record case k: boolean of true: (i, j: integer); false: (x: real; d: char) end", "vr")
    kinds = {
        "integer": (lambda: rng.randrange(-999, 999), lambda v: str(v), lambda n: "write(%s)" % n, lambda v: str(v)),
        "longint": (lambda: rng.randrange(-10**6, 10**6), str, lambda n: "write(%s)" % n, str),
        "char": (lambda: rng.choice("abcXYZ09"), lambda v: "'%s'" % v, lambda n: "write(%s)" % n, str),
        "boolean": (lambda: rng.random() < 0.5, lambda v: "true" if v else "false", lambda n: "write(%s)" % n, lambda v: "TRUE" if v else "FALSE"),
        "en": (lambda: rng.randrange(4), lambda v: "ra rb rc rd".split()[v], lambda n: "write(ord(%s))" % n, str),
        "real": (lambda: rng.randrange(-800, 800) / 8, lambda v: "%.3f" % v, lambda n: "write(%s:1:3)" % n, lambda v: "%.3f" % v),
        "s20": (lambda: "".join(rng.choice("abcd") for _ in range(rng.randrange(2, 12))), lambda v: "'%s'" % v, lambda n: "write(%s)" % n, str),
        "st": (lambda: tuple(sorted(rng.sample(range(101), 3))), lambda v: "[%s]" % ", ".join(map(str, v)),
               lambda n: "write(card(%s)); for wi := 0 to 100 do if wi in %s then write(' ', wi)" % (n, n), lambda v: "3" + "".join(" %d" % x for x in v)),
    }
    comp = {
        "ai": ["%%s[%d]" % i for i in range(1, 6)], "pc6": ["%%s[%d]" % i for i in range(1, 7)],
        "rt": ["%s.a", "%s.b", "%s.c[0]", "%s.c[1]", "%s.c[2]"],
        "art": ["%%s['%s'].%s" % (k, f) for k in "abc" for f in ("a", "b", "c[0]", "c[2]")],
        "vr": ["%s.k", "%s.i", "%s.j"],
    }
    ctype = lambda t, acc: "char" if t == "pc6" or acc.endswith(".b") else "integer" if t == "ai" or acc[-2:] in (".a", ".i", ".j") else "boolean" if acc.endswith(".k") else "real"
    P.var("integer", "wi")
    # each test value is a list of (access, kind, value)
    def mkval(t):
        if t in kinds: return [("%s", t, kinds[t][0]())]
        return [(a, ctype(t, a), True if a == "%s.k" else kinds[ctype(t, a)][0]()) for a in comp[t]]
    def store(n, val): return "; ".join("%s := %s" % (a % n, kinds[k][1](v)) for a, k, v in val)
    def dump(n, val): return "; write(' '); ".join(kinds[k][2](a % n) for a, k, v in val)
    def text(val): return " ".join(kinds[k][3](v) for a, k, v in val)
    for _ in range(14):
        t = rng.choice(list(kinds) + list(comp) * 2)
        v1, v2, v3 = mkval(t), mkval(t), mkval(t)
        g = P.var(t); h = P.var(t); q = P.uid("q")
        k = rng.randrange(6)
        P.do(store(g, v1)); P.do(store(h, v2))
        if k == 0:   # value parameter: a private copy
            P.subs.append("procedure %s(x: %s);\nbegin %s; write(' | '); %s; %s; write(' | '); %s end;" % (q, t, dump("x", v1), store("x", v3), dump("x", v3), dump(g, v1)))
            P.do("%s(%s)" % (q, g)); P.do("write(' | ')"); P.do(dump(g, v1)); P.say("''", " | ".join(map(text, (v1, v3, v1, v1))))
        elif k == 1: # var parameter: the argument itself, also seen through the global
            P.subs.append("procedure %s(var x, y: %s);\nbegin %s; %s; write(' | '); x := y; %s; write(' | '); %s end;" % (q, t, store("x", v3), dump(g, v3), dump(g, v2), dump("y", v2)))
            P.do("%s(%s, %s)" % (q, g, h)); P.do("write(' | ')"); P.do(dump(g, v2)); P.say("''", " | ".join(map(text, (v3, v2, v2, v2))))
        elif k == 2: # value parameter unaffected by a change of the actual during the call
            P.subs.append("procedure %s(x: %s; var z: %s);\nbegin %s; %s; write(' | '); %s end;" % (q, t, t, store("z", v3), dump("x", v1), dump("z", v3)))
            P.do("%s(%s, %s)" % (q, g, g)); P.do("write(' | ')"); P.do(dump(g, v3)); P.say("''", " | ".join(map(text, (v1, v3, v3))))
        elif k == 3: # protected parameter keeps the value
            P.subs.append("procedure %s(protected x: %s);\nvar l: %s;\nbegin l := x; %s; %s; write(' | '); %s end;" % (q, t, t, store("l", v3), dump("x", v1), dump("l", v3)))
            P.do("%s(%s)" % (q, g)); P.do("write(' | ')"); P.do(dump(g, v1)); P.say("''", " | ".join(map(text, (v1, v3, v1))))
        elif k == 4: # results: last assignment wins, recursion has its own result and locals
            P.subs.append("function %s(n: integer; x, y: %s): %s;\nvar l: %s;\nbegin l := x; %s := y; if n > 0 then begin l := %s(n - 1, y, x); if odd(n) then %s := x end end;" % (q, t, t, t, q, q, q))
            n = rng.randrange(4)
            P.do("%s := %s(%d, %s, %s)" % (h, q, n, g, h)); r = v1 if n > 0 and n % 2 else v2
            P.do(dump(h, r)); P.do("write(' | ')"); P.do(dump(g, v1)); P.say("''", text(r) + " | " + text(v1))
        else:        # recursion: each activation keeps its own copy
            P.subs.append("procedure %s(n: integer; x: %s);\nvar l: %s;\nbegin l := x; if n > 0 then begin %s; %s(n - 1, x) end; %s; write(' | '); %s; write(' / ') end;" % (q, t, t, store("x", v3), q, dump("l", v1), dump("x", v3)))
            n = rng.randrange(3)
            P.do("%s(%d, %s)" % (q, n, g))
            # activation n has l = its argument; deeper ones got v3
            ls = [v1] + [v3] * n
            xs = [v3] * n + [v3 if n else v1]
            P.say("''", "".join("%s | %s / " % (text(l), text(x)) for l, x in list(zip(ls, xs))[::-1]))
        c.count("parameter_passings"); c.state("param", t, k)

def conformant(c, P, rng):
    lo = rng.choice([0, 1, -5, 40]); n = rng.randrange(1, 9)
    P.type("array [%d..%d] of integer" % (lo, lo + n - 1), "ta")
    lo2 = rng.choice([0, 2, -1]); n2 = rng.randrange(1, 6)
    P.type("array [%d..%d] of integer" % (lo2, lo2 + n2 - 1), "tb")
    P.var("ta", "a"); P.var("tb", "b")
    P.subs.append("procedure fill(var x: array [l..h: integer] of integer; k: integer);\nvar i: integer;\nbegin for i := l to h do x[i] := i * k end;\n"
                  "function sum(x: array [l..h: integer] of integer): integer;\nvar i, s: integer;\nbegin s := 0; for i := h downto l do begin s := s + x[i]; x[i] := 0 end; sum := s end;\n"
                  "procedure bounds(var x: array [l..h: integer] of integer);\nbegin writeln(l, ' ', h, ' ', x[l], ' ', x[h]) end;\n")
    for name, l, m in (("a", lo, n), ("b", lo2, n2)):
        k = rng.randrange(1, 50)
        P.do("fill(%s, %d)" % (name, k)); 
        P.do("bounds(%s)" % name); P.out.append(b"%d %d %d %d" % (l, l + m - 1, l * k, (l + m - 1) * k))
        s = sum(range(l, l + m))
        P.say("sum(%s), ' ', sum(%s)" % (name, name), "%d %d" % (s * k, s * k))
        c.count("conformant_calls", 4); c.state("conf", l, m)

def procparams(c, P, rng):
    """Procedural parameters carry the environment of the activation in which they were passed."""
    P.var("integer", "g")
    P.subs.append("""
procedure twice(procedure q); begin q; q end;
function comp(function f(x: integer): integer; n, x: integer): integer;
begin if n = 0 then comp := x else comp := f(comp(f, n - 1, x)) end;
procedure level(n: integer; procedure q);
var k: integer;
  procedure mine; begin k := k + n; g := g + k end;
begin
  k := n * 10;
  if n > 0 then begin
    if odd(n) then level(n - 1, mine) else level(n - 1, q)
  end else begin q; q end;
  writeln(n, ' ', k, ' ', g)
end;
procedure base; begin g := g + 1000 end;
procedure user(m: integer);
var loc: integer;
  procedure bump; begin loc := loc + m end;
  function addm(x: integer): integer; begin addm := x * 2 + m; loc := loc + 1 end;
begin
  loc := 0; twice(bump); writeln(loc);
  writeln(comp(addm, 3, m)); writeln(loc)
end;""")
    n = rng.randrange(0, 7)
    P.do("g := 0"); P.do("level(%d, base)" % n)
    env = {"g": 0}; out = []
    def level(n, q):
        k = [n * 10]
        def mine(): k[0] += n; env["g"] += k[0]
        if n > 0: level(n - 1, mine if n % 2 else q)
        else: q(); q()
        out.append("%d %d %d" % (n, k[0], env["g"]))
    def base(): env["g"] += 1000
    level(n, base)
    m = rng.randrange(-20, 20)
    P.do("user(%d)" % m)
    x = m
    for _ in range(3): x = x * 2 + m
    out += [str(2 * m), str(x), str(2 * m + 3)]
    P.out += [o.encode() for o in out]
    c.count("procedural_calls", n + 6); c.state("procparam", n)

def aliases(c, P, rng):
    """Var parameters, globals, components and heap variables that are the same variable."""
    P.type("array [0..4] of integer", "arr"); P.type("record f, g: integer; w: arr end", "rec"); P.type("^integer", "pint")
    for n in ("g0", "g1"): P.var("integer", n)
    for n in ("ga", "gb"): P.var("arr", n)
    for n in ("gr", "gs"): P.var("rec", n)
    for n in ("pp", "pq"): P.var("pint", n)
    cells = {}
    def fresh(): return [rng.randrange(1, 500)]
    G = {}
    for n in ("g0", "g1"): G[n] = fresh()
    for n in ("ga", "gb"): G[n] = [fresh() for _ in range(5)]
    for n in ("gr", "gs"): G[n] = {"f": fresh(), "g": fresh(), "w": [fresh() for _ in range(5)]}
    for n in ("pp", "pq"): G[n] = fresh()
    if rng.random() < .3: P.do("new(pp); pq := pp"); G["pq"] = G["pp"]
    else: P.do("new(pp); new(pq)")
    P.do("; ".join("%s := %d" % (n, v[0]) for n, v in [("g0", G["g0"]), ("g1", G["g1"]), ("pp^", G["pp"]), ("pq^", G["pq"])]))
    for n in ("ga", "gb"): P.do("; ".join("%s[%d] := %d" % (n, i, x[0]) for i, x in enumerate(G[n])))
    for n in ("gr", "gs"): P.do("; ".join(["%s.%s := %d" % (n, k, G[n][k][0]) for k in "fg"] + ["%s.w[%d] := %d" % (n, i, x[0]) for i, x in enumerate(G[n]["w"])]))
    subs = []
    for q in range(rng.choice([1, 2])):
        hasp = [rng.random() < .8 for _ in range(3)]
        pars = ["var a, b: integer"] + ["var x, y: arr"] * hasp[0] + ["var r: rec"] * hasp[1] + ["p: pint"] * hasp[2] + ["n: integer"]
        # an operand: text and a function from (environment, i) to its cell
        def operand():
            o = ["a", "b", "a", "b", "g0", "g1", "ga", "pp", "gr"] + ["x", "y"] * hasp[0] + ["r", "r"] * hasp[1] + ["p"] * hasp[2]
            o = rng.choice(o)
            if o in ("a", "b", "g0", "g1"): return o, lambda e, i: e[o]
            if o in ("pp", "p"): return o + "^", lambda e, i: e[o]
            if o in ("ga", "x", "y"):
                if rng.random() < .4: return o + "[i mod 5]", lambda e, i: e[o][i % 5]
                j = rng.randrange(5); return "%s[%d]" % (o, j), lambda e, i: e[o][j]
            if rng.random() < .5: k = rng.choice("fg"); return "%s.%s" % (o, k), lambda e, i: e[o][k]
            j = rng.randrange(5); return "%s.w[%d]" % (o, j), lambda e, i: e[o]["w"][j]
        st = []
        for _ in range(rng.randrange(4, 11)):
            l, u, v, k, cnd = operand(), operand(), operand(), rng.randrange(1, 9), rng.random() < .25
            st.append(("%s%s := (%s * %d + %s + i) mod 1009" % ("if %s > %s then " % (u[0], v[0]) if cnd else "", l[0], u[0], k, v[0]), l, u, v, k, cnd))
        P.subs.append("procedure al%d(%s);\nvar i: integer;\nbegin for i := 1 to n do begin %s end end;" % (q, "; ".join(pars), "; ".join(s[0] for s in st)))
        subs.append((hasp, st))
    names = {"g0": lambda: G["g0"], "g1": lambda: G["g1"], "pp^": lambda: G["pp"], "pq^": lambda: G["pq"]}
    for a in ("ga", "gb"):
        for j in range(5): names["%s[%d]" % (a, j)] = lambda a=a, j=j: G[a][j]
    for a in ("gr", "gs"):
        for k in "fg": names["%s.%s" % (a, k)] = lambda a=a, k=k: G[a][k]
        names["%s.w[2]" % a] = lambda a=a: G[a]["w"][2]
    arrs = {"ga": lambda: G["ga"], "gb": lambda: G["gb"], "gr.w": lambda: G["gr"]["w"], "gs.w": lambda: G["gs"]["w"]}
    for _ in range(10):
        q = rng.randrange(len(subs)); hasp, st = subs[q]
        a = rng.choice(list(names)); b = a if rng.random() < .4 else rng.choice(list(names)); x = rng.choice(list(arrs)); y = x if rng.random() < .4 else rng.choice(list(arrs))
        r, p, n = rng.choice(["gr", "gs"]), rng.choice(["pp", "pq"]), rng.randrange(1, 7)
        args = [a, b] + [x, y] * hasp[0] + [r] * hasp[1] + [p] * hasp[2] + [str(n)]
        env = {"a": names[a](), "b": names[b](), "x": arrs[x](), "y": arrs[y](), "r": G[r], "p": G[p], "g0": G["g0"], "g1": G["g1"], "ga": G["ga"], "pp": G["pp"], "gr": G["gr"]}
        for i in range(1, n + 1):
            for s, l, u, v, k, cnd in st:
                uu, vv = u[1](env, i)[0], v[1](env, i)[0]
                if not cnd or uu > vv: l[1](env, i)[0] = (uu * k + vv + i) % 1009
        P.do("al%d(%s)" % (q, ", ".join(args)))
        vs = ["g0", "g1", "pp^", "pq^"] + ["%s[%d]" % (m, i) for m in ("ga", "gb", "gr.w", "gs.w") for i in range(5)] + ["gr.f", "gr.g", "gs.f", "gs.g"]
        cs = [G["g0"], G["g1"], G["pp"], G["pq"]] + G["ga"] + G["gb"] + G["gr"]["w"] + G["gs"]["w"] + [G["gr"]["f"], G["gr"]["g"], G["gs"]["f"], G["gs"]["g"]]
        P.say(", ' ', ".join(v + ":1" for v in vs), " ".join(str(z[0]) for z in cs))
        c.count("alias_calls"); c.state("alias", a == b, x == y, hasp[2] and p[1] == a[1])

def recursion(c, P, rng):
    """Every activation has locals, value parameters and a result of its own, of whatever size."""
    out = P.out; SZ = [1, 3, 40, 255, 256, 511, 512, 1023, 1024, 1025, 2048, 4096, 9000]
    kinds = []
    for _ in range(rng.choice([2, 3, 4])):
        n = rng.choice(SZ); k = rng.choice(["int", "int", "char", "real", "rec", "str", "set", "scalar"])
        if k == "int": t = P.type("array [1..%d] of integer" % n); kinds.append((t, ["%%s[%d]" % j for j in sorted({1, n, rng.randrange(1, n + 1)})], lambda v: str(v), ":1", str))
        elif k == "char": t = P.type("packed array [1..%d] of char" % n); kinds.append((t, ["%%s[%d]" % j for j in sorted({1, n})], lambda v: "chr(%d)" % (33 + v % 90), "", lambda v: chr(33 + v % 90)))
        elif k == "real": t = P.type("array [1..%d] of real" % n); kinds.append((t, ["%%s[%d]" % j for j in sorted({1, n})], lambda v: "%d.5" % v, ":1:1", lambda v: "%d.5" % v))
        elif k == "rec": t = P.type("record h: char; a: array [0..%d] of longint; z: integer end" % n); kinds.append((t, ["%s.z", "%s.a[0]", "%%s.a[%d]" % n], lambda v: str(v), ":1", str))
        elif k == "str": t = P.type("string[%d]" % rng.choice([5, 80, 255])); kinds.append((t, ["%s"], lambda v: "'s%d'" % (v % 1000), "", lambda v: "s%d" % (v % 1000)))
        elif k == "set": t = P.type("set of 0..255"); kinds.append((t, None, None, None, None))
        else: kinds.append(("integer", ["%s"], lambda v: str(v), ":1", str))
    val = lambda n, i, j: n * 37 + i * 11 + j * 5 + 1
    def sets(n, who):
        """Pascal statements giving the locals the values of activation n (an expression)."""
        r = []
        for i, (t, acc, lit, fmt, txt) in enumerate(kinds):
            x = who % i
            if acc is None: r.append("%s := [n, n + %d]" % (x, 100 + i)); continue
            for j, a in enumerate(acc):
                e = "n * 37 + %d" % (i * 11 + j * 5 + 1)
                if txt is str: r.append("%s := %s" % (a % x, e))
                elif fmt == ":1:1": r.append("%s := %s + 0.5" % (a % x, e))
                elif t.startswith("t") and lit(0).startswith("chr"): r.append("%s := chr(33 + (%s) mod 90)" % (a % x, e))
                else: r.append("writestr(%s, 's', (%s) mod 1000:1)" % (a % x, e))
        return "; ".join(r)
    def shows(who, n):
        it, tx = [], []
        for i, (t, acc, lit, fmt, txt) in enumerate(kinds):
            x = who % i
            if acc is None: it.append("card(%s):1, n in %s, (n + %d) in %s" % (x, x, 100 + i, x)); tx.append("2TRUETRUE"); continue
            for j, a in enumerate(acc): it.append(a % x + fmt); tx.append(txt(val(n, i, j)))
        return ", ' ', ".join(it), " ".join(tx)
    loc = "var " + "; ".join("l%d: %s" % (i, k[0]) for i, k in enumerate(kinds)) + ";"
    shape = rng.choice(["self", "inner", "mutual", "twice"]); depth = rng.choice([2, 3, 5]); vi = rng.randrange(len(kinds)); vt = kinds[vi][0]
    fn = rng.random() < .6
    P.type(vt, "vt")
    trace = []
    pre = sets(0, "l%d"); sh = shows("l%d", 0)[0]
    byval = rng.random() < .6
    call = lambda k, f="r": "%s(n - 1%s)" % (f, ", l%d" % vi if byval else "")
    head = "procedure %%s(n: integer%s);" % ("; v: vt" if byval else "")
    rec = {"self": call(0), "inner": "inner", "mutual": call(0, "r2"), "twice": call(0) + "; " + pre + "; " + call(0)}[shape]
    scr = "; ".join("l%d := l%d" % (i, i) for i, k in enumerate(kinds))
    body = "begin\n  %s;\n  if n > 1 then begin %s end;\n  writeln(n:1, ' ', %s)\nend;" % (pre, rec, sh)
    inner = "procedure inner; begin %s end;\n" % call(0) if shape == "inner" else ""
    if shape == "mutual": P.subs.append((head % "r2").rstrip() + " forward;"); P.subs.append(head % "r" + "\n" + loc + "\n" + body); P.subs.append("procedure r2;\n" + loc + "\n" + body.replace("r2(n - 1", "r(n - 1"))
    else: P.subs.append(head % "r" + "\n" + loc + "\n" + inner + body)
    def run(n):
        if n > 1:
            run(n - 1)
            if shape == "twice": run(n - 1)
        out.append(("%d %s" % (n, shows("l%d", n)[1])).encode())
    if byval: P.var("vt", "gv")
    P.do("r(%d%s)" % (depth, ", gv" if byval else "")); run(depth)
    c.count("recursions"); c.state("rec", shape, byval, tuple(sorted({k[0][0] for k in kinds})))

def case(c):
    kit, rng = c.kits["plain"], c.rng
    k = c.idx % 8
    if k < 2:
        c.state("kind", "random"); gen_case(c, kit, PROF, nopts=2); return
    if k == 2:
        src, want = nested(c, rng)
    elif k == 5: src, want = results(c, rng)
    else:
        P = Prog()
        if k == 3: params(c, P, rng)
        elif k == 6: aliases(c, P, rng)
        elif k == 7: recursion(c, P, rng)
        else: conformant(c, P, rng); procparams(c, P, rng)
        src, want = P.src(), P.want()
    for _ in range(2): expect(c, kit, src, want, random_opts(rng), what="routine table")
    c.count("lines_checked", want.count(b"\n")); c.key = C.sha(src); c.sample = clip(src, 1500)

if __name__ == "__main__":
    simple_check("C04",
        "Each case is one program run under two random option sets: a random program of nested, recursive, forward and procedural-parameter routines "
        "against a reference interpreter; towers of nested recursive routines updating all enclosing activations; a table of value, var, protected "
        "parameters and results over every kind of type; var parameters, globals, components and heap variables that are the same variable; recursion with locals and value parameters of 1 to 72000 bytes; conformant arrays; environments carried by procedural parameters. Non-trivial: distinct source, all its lines checked.",
        ["the result of a nested function is never hidden by a name of its own"], case)
