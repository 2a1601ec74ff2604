import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
EN = ["aa", "bb", "cc", "dd", "ee", "ff", "gg"]
IMAX, IMIN, LMAX = 2**31 - 1, -2**31, 2**63 - 1

def show(t, v):
    """(write argument for variable x of type t, text of value v)"""
    if t in ("char", "csub"): return "ord(%s)", str(v)
    if t in ("en", "ensub"): return "ord(%s)", str(v)
    if t == "boolean": return "%s", "TRUE" if v else "FALSE"
    return "%s", str(v)
def lit(t, v):
    if t in ("char", "csub"): return "'%s'" % chr(v) if 32 < v < 127 and v != 39 else "chr(%d)" % v
    if t in ("en", "ensub"): return EN[v]
    if t == "boolean": return "true" if v else "false"
    if v == IMIN: return "(-2147483647 - 1)"
    return str(v)
TYPES = {"integer": (IMIN, IMAX), "longint": (-LMAX, LMAX), "char": (0, 255), "boolean": (0, 1), "en": (0, 6), "ensub": (1, 5),
         "isub": (-3, 200), "csub": (97, 122), "bsub": (0, 255)}
DECL = "en = (%s);\n  ensub = bb..ff;\n  isub = -3..200;\n  csub = 'a'..'z';\n  bsub = 0..255" % ", ".join(EN)

def loops(c, P, rng):
    P.type(DECL.split(" = ", 1)[1], "en")
    P.var("integer", "cnt"); P.var("integer", "evals")
    P.subs.append("".join("function b_%s(x: %s): %s; begin evals := evals + 1; b_%s := x end;\n" % (t, t, t, t) for t in TYPES))
    for _ in range(28):
        t = rng.choice(list(TYPES))
        lo, hi = TYPES[t]
        n = rng.choice([0, 0, 1, 1, 2, 3, 5, 9])
        k = rng.randrange(6)
        if k == 0: a = hi - n + 1 if n else hi
        elif k == 1: a = lo
        elif k == 2 and t not in ("integer", "longint"): a, n = lo, hi - lo + 1
        else: a = rng.randrange(max(lo, -500), min(hi, 1000) + 1)
        b = a + n - 1
        if n == 0:
            if a == lo and a < hi: a += 1
            b = rng.randrange(max(lo, a - 50), a) if a > lo else None
        if b is None or not lo <= b <= hi or not lo <= a <= hi: continue
        down = rng.random() < 0.5
        seq = list(range(a, b + 1))
        s, e = (a, b)
        if down: seq.reverse(); s, e = b, a
        v = P.var(t)
        local = rng.random() < 0.4
        f = rng.random() < 0.5
        S, E_ = lit(t, s), lit(t, e)
        if f: S, E_ = "b_%s(%s)" % (t, S), "b_%s(%s)" % (t, E_)
        elif rng.random() < 0.5:
            # bounds in variables that the body changes: they are evaluated once, before the loop
            x, y = P.var(t), P.var(t)
            P.do("%s := %s" % (x, S)); P.do("%s := %s" % (y, E_))
            S, E_ = x, y
            chg = "; %s := %s; %s := %s" % (x, lit(t, lo if t not in ("integer", "longint") else 0), y, lit(t, hi if t not in ("integer", "longint") else 3))
        body = "cnt := cnt + 1"
        if "chg" in dir() and S[0] == "v" : body += chg
        few = len(seq) <= 12
        if few: body += "; write(' ', %s)" % (show(t, 0)[0] % v)
        else: body += "; if cnt in [1, 2, 100] then write(' ', %s)" % (show(t, 0)[0] % v)
        P.do("cnt := 0; evals := 0; write('%s')" % t)
        loop = "for %s := %s %s %s do begin %s end" % (v, S, "downto" if down else "to", E_, body)
        if local:
            q = P.uid("q")
            P.vars.remove("%s: %s" % (v, t))
            P.subs.append("procedure %s; var %s: %s; begin %s end;" % (q, v, t, loop))
            P.do(q)
        else:
            P.do(loop)
        vis = seq if few else [x for i, x in enumerate(seq) if i + 1 in (1, 2, 100)]
        P.say("' n=', cnt, ' e=', evals", "%s%s n=%d e=%d" % (t, "".join(" " + show(t, x)[1] for x in vis), len(seq), 2 if f else 0))
        c.count("for_loops"); c.count("iterations", len(seq))
        c.state("for", t, "down" if down else "to", min(n, 10), "edge" if k in (0, 1) else "full" if k == 2 else "mid", f, local)

def cases(c, P, rng):
    P.type(DECL.split(" = ", 1)[1], "en")
    P.var("integer", "fc")
    for _ in range(7):
        t = rng.choice(["integer", "char", "en", "boolean", "isub", "csub", "bsub", "longint"])
        lo, hi = TYPES[t]
        if t == "longint": lo, hi = -2**40, 2**40
        if t == "integer": lo, hi = rng.choice([(-20, 30), (-20, 30), (IMIN + 5, IMAX - 5)])
        pool = sorted(set([lo, hi] + [rng.randrange(lo, hi + 1) for _ in range(rng.choice([1, 3, 10]))]))
        if t == "longint": pool = [v for v in pool if not 2**31 <= abs(v) < 2**32]
        br, used, i = [], set(), 0
        labels = []
        while i < len(pool):
            k = rng.randrange(4)
            if k == 0 and i + 1 < len(pool) and t != "longint":
                labels.append((pool[i], pool[i + 1])); i += 2
            else:
                if k != 1: labels.append((pool[i], pool[i]))
                i += 1
        rng.shuffle(labels)
        groups = []
        while labels:
            m = rng.randrange(1, 4)
            groups.append(labels[:m]); labels = labels[m:]
        if not groups: continue
        other = rng.choice(["otherwise", "else"])
        q, x = P.uid("q"), "x"
        txt = "procedure %s(x: %s);\nbegin\n  case x of\n" % (q, t)
        names = {}
        def lt(v):
            x = lit(t, v)
            if "chr(" not in x: return x
            if v not in names: names[v] = P.const(x)
            return names[v]
        for gi, g in enumerate(groups):
            txt += "    %s: %s;\n" % (", ".join(lt(a) if a == b else "%s..%s" % (lt(a), lt(b)) for a, b in g),
                                     rng.choice(["write('g%d ')" % gi, "begin write('g%d'); write(' ') end" % gi, "if true then write('g%d ') else write('no')" % gi]))
        txt += "    %s write('other ')\n  end;\n  writeln('end')\nend;" % other
        P.subs.append(txt)
        vals = set(pool)
        for g in groups:
            for a, b in g: vals |= {a, b, a - 1, b + 1, (a + b) // 2}
        vals = [v for v in sorted(vals) if TYPES[t][0] <= v <= TYPES[t][1] and not (t in ("longint",) and 2**31 <= abs(v) < 2**32)]
        for v in rng.sample(vals, min(14, len(vals))):
            P.do("%s(%s)" % (q, lit(t, v)))
            hit = next((gi for gi, g in enumerate(groups) if any(a <= v <= b for a, b in g)), None)
            P.out.append(b"%s end" % (b"g%d" % hit if hit is not None else b"other"))
            c.count("case_selections"); c.state("case", t, "other" if hit is None else "hit", len(groups))

def forin(c, P, rng):
    """for-in over arrays of any size, index type and element type, and over sets, reached in different ways."""
    P.type(DECL.split(" = ", 1)[1], "en")
    P.var("integer", "cnt"); P.var("longint", "sum"); i = P.var("integer", "i")
    for _ in range(7):
        e = rng.choice(["integer", "char", "en", "longint", "real", "string[9]", "boolean", "bsub", "isub"])
        if rng.random() < .25:
            lo, hi = rng.choice([(0, 255), (0, 6), (1, 5), (-3, 200), (97, 122)])
            idx = {(0, 255): "char", (0, 6): "en", (1, 5): "ensub", (-3, 200): "isub", (97, 122): "csub"}[lo, hi]
            at = {"char": "chr(i)", "csub": "chr(i)", "en": "succ(aa, i)", "ensub": "succ(aa, i)"}.get(idx, "i")
        else:
            lo = rng.choice([0, 1, 1, -5, 100, -300, 2**20]); hi = lo + rng.choice([0, 1, 2, 6, 31, 40, 255, 256, 300, 700]); idx = "%d..%d" % (lo, hi); at = "i"
        n = hi - lo + 1; mul, add, m = rng.randrange(1, 50), rng.randrange(0, 100), {"char": 256, "en": 7, "boolean": 2, "bsub": 256, "isub": 200, "string[9]": 1000}.get(e, 100000)
        vals = [((x - lo) * mul + add) % m for x in range(lo, hi + 1)]
        ex = "((i - (%d)) * %d + %d) mod %d" % (lo, mul, add, m)
        a, v = P.uid("a"), P.uid("v")
        how = rng.choice(["var", "field", "deref", "param", "local", "elem"]); at_ = "array [%s] of %s" % (idx, e)
        ty = P.uid("ta"); P.type(at_, ty)
        ref = {"var": a, "field": a + ".f", "deref": a + "^", "param": "x", "local": "x", "elem": a + "[2]"}[how]
        conv = {"char": "chr(%s)", "en": "succ(aa, %s)", "boolean": "odd(%s)", "real": "(%s) / 4", "string[9]": None}.get(e, "%s")
        put = lambda r: "for i := %d to %d do %s[%s] := %s" % (lo, hi, r, at, conv % ex) if conv else "for i := %d to %d do begin writestr(%s[%s], %s:1); %s[%s] := 'q' + %s[%s] end" % (lo, hi, r, at, ex, r, at, r, at)
        num = {"char": "ord(%s)", "en": "ord(%s)", "boolean": "ord(%s)", "real": "trunc(%s * 4)", "string[9]": "length(%s)"}.get(e, "%s") % v
        nv = [len(str(x)) + 1 for x in vals] if e == "string[9]" else vals
        few = n <= 40
        body = "cnt := cnt + 1; sum := (sum * 3 + %s) mod 1000003; %s" % (num, "write(%s, ' ')" % (v if e not in ("char", "en", "real") else num) if few else "if cnt in [1, 2, 200] then write(%s:1, ' ')" % num)
        loop = "cnt := 0; sum := 0; for %s in %s do begin %s end; writeln('n=', cnt:1, ' s=', sum:1)" % (v, ref, body)
        h, sh = 0, []
        for q, x in enumerate(nv):
            h = (h * 3 + x) % 1000003
            if few: sh.append({"boolean": "TRUE" if vals[q] else "FALSE", "string[9]": "q%d" % vals[q]}.get(e, "%d" % vals[q]) + " ")
            elif q + 1 in (1, 2, 200): sh.append("%d " % x)
        P.var(e, v)
        if how in ("param", "local"):
            q = P.uid("q")
            if how == "param":
                P.var(ty, a); P.do(put(a))
                P.subs.append("procedure %s(%sx: %s); begin %s end;" % (q, rng.choice(["", "var ", "protected "]), ty, loop)); P.do("%s(%s)" % (q, a))
            else: P.subs.append("procedure %s; var x: %s; i: integer; begin %s; %s end;" % (q, ty, put("x"), loop)); P.do(q)
        else:
            P.var({"var": ty, "field": "record g: integer; f: %s; h: char end" % ty, "deref": "^" + ty, "elem": "array [1..3] of %s" % ty}[how], a)
            if how == "deref": P.do("new(%s)" % a)
            P.do(put(ref)); P.do(loop)
        P.out.append(("%sn=%d s=%d" % ("".join(sh), n, h)).encode("latin-1"))
        c.count("forin_elements", n); c.state("forin", e, how, min(n, 300))

def nest(c, P, rng):
    """Dangling else, empty statements, nested loops with goto out of them, while/repeat counts."""
    P.var("integer", "i"); P.var("integer", "j"); P.var("integer", "n")
    def dang(depth):
        # if c1 then if c2 then ... s1 else s2: the else belongs to the nearest if
        conds = [rng.random() < 0.6 for _ in range(depth)]
        nelse = rng.randrange(0, depth + 1)
        ids = ["e%d" % k for k in range(nelse)]
        src = "".join("if %s then " % ("n > 0" if x else "n < 0") for x in conds) + "write('body ')" + "".join(" else write('%s ')" % e for e in ids)
        P.do("n := 5"); P.do(src)
        # conds[depth-1-k] owns else k
        out = None
        for lvl, x in enumerate(conds):
            if not x:
                k = depth - 1 - lvl
                out = ids[k] + " " if k < nelse else ""
                break
        else:
            out = "body "
        P.say("'.'", out + ".")
        c.state("dangling", depth, nelse)
    for _ in range(10):
        dang(rng.randrange(1, 5)); c.count("dangling_else")
    for _ in range(6):
        a, st, lim = rng.randrange(-5, 10), rng.randrange(1, 4), rng.randrange(-5, 25)
        k = rng.randrange(3)
        P.do("i := %d; n := 0" % a)
        x, n = a, 0
        if k == 0:
            P.do("while i < %d do begin i := i + %d; n := n + 1 end" % (lim, st))
            while x < lim: x += st; n += 1
        elif k == 1:
            P.do("repeat i := i + %d; n := n + 1 until i >= %d" % (st, lim))
            while True:
                x += st; n += 1
                if x >= lim: break
        else:
            lab = rng.randrange(1, 9999)
            while str(lab) in P.labels: lab += 1
            P.labels.append(str(lab))
            m = rng.randrange(1, 9)
            P.do("begin for j := 1 to 10 do begin while true do begin n := n + 1; if n mod 3 = 0 then goto %d; if n > 0 then n := n + 1; i := i + 1 end end; %d: ; end" % (lab, lab))
            n, x = 0, a
            while True:
                n += 1
                if n % 3 == 0: break
                n += 1; x += 1
        P.say("i, ' ', n", "%d %d" % (x, n)); c.count("loops")
    # for-in over arrays and sets
    for _ in range(5):
        lo = rng.randrange(-9, 9); m = rng.randrange(1, 7)
        vals = [rng.randrange(-100, 100) for _ in range(m)]
        a = P.var("array [%d..%d] of integer" % (lo, lo + m - 1))
        for i, v in enumerate(vals): P.do("%s[%d] := %d" % (a, lo + i, v))
        P.do("for i in %s do write(i, ' ')" % a); P.say("'.'", "".join("%d " % v for v in vals) + ".")
        base = rng.choice([0, 1, 10, 100, 200])
        ms = sorted(set(base + rng.randrange(0, 50) for _ in range(rng.randrange(0, 9))))
        s = P.var("set of %d..%d" % (base, base + 49))
        order = ms[:]; rng.shuffle(order)
        P.do("%s := [%s]" % (s, ", ".join(map(str, order))))
        P.do("for i in %s do write(i, ' ')" % s); P.say("'.'", "".join("%d " % v for v in ms) + ".")
        c.count("for_in", 2)

PROF = dict(stmtw=dict(case=6, **{"for": 6, "while": 4, "repeat": 4, "if": 5, "goto": 4, "forin": 3, "with": 2, "compound": 2}), depth=5, stmts=9, routines=3, reals=False, variants=0, arrays=2, records=1)
def case(c):
    kit, rng = c.kits["plain"], c.rng
    k = c.idx % 4
    if k < 2:
        c.state("kind", "random"); gen_case(c, kit, PROF, nopts=2)
        return
    P = Prog()
    (loops if k == 2 else rng.choice([cases, cases, forin, nest]))(c, P, rng)
    src = P.src()
    for _ in range(2):
        expect(c, kit, src, P.want(), random_opts(rng), what="statement table")
    c.count("lines_checked", len(P.out)); c.key = C.sha(src); c.sample = clip(src, 1500)

if __name__ == "__main__":
    simple_check("C02",
        "Each case is one program run under two random option sets: a random statement-heavy program (nested loops, case, goto, with, for-in, "
        "if chains) whose trace is compared with a reference interpreter, or a table of for loops over every ordinal type with bounds at the "
        "edges of the type, case statements probed around every label, dangling-else chains, or loop counts. Non-trivial: distinct source with at least five checked lines.",
        ["gotos leave only nested blocks of the same routine", "a for variable is not assigned in its loop"], case)
