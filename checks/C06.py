import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *

ALPH = "abcABC xyz019.,-+_~!\"#%&(){}*/"
def rs(r, n, hi=False):
    return "".join(r.choice(ALPH) for _ in range(n))
def lit(r, t):
    """A literal (or concatenation with chr) for t; t has no control characters."""
    return qs(t)

class Store:
    """String variables of many capacities in many places, char arrays, and their model values."""
    def __init__(s, P, r):
        s.P, s.r = P, r
        P.type("string", "st")
        s.vars, s.caps, s.val, s.arrs, s.alen = [], {}, {}, [], {}
        def cap(): return r.choice([1, 2, 3, 5, 8, 12, 20, 31, 32, 63, 64, 100, 127, 128, 200, 254, 255])
        s.show, s.types = [], {}
        def add(path, t, k): s.vars.append(path); s.caps[path] = k; s.types[path] = t; s.val[path] = ""
        for _ in range(r.randrange(2, 5)):
            k = cap(); t = P.type(r.choice(["string[%d]", "string[%d]", "string(%d)"]) % k) if k != 255 or r.random() < .5 else "st"; add(P.var(t), t, k)
        k = cap(); t = P.type(r.choice(["string[%d]", "string[%d]", "string(%d)"]) % k); a = P.var("array [1..3] of " + t)
        for i in range(1, 4): add("%s[%d]" % (a, i), t, k)
        k = cap(); t = P.type(r.choice(["string[%d]", "string[%d]", "string(%d)"]) % k); a = P.var("record c1: char; f: %s; c2: integer end" % t); add(a + ".f", t, k); s.rec = a
        P.do("%s.c1 := 'K'; %s.c2 := 4711" % (a, a))
        k = cap(); t = P.type(r.choice(["string[%d]", "string[%d]", "string(%d)"]) % k); a = P.var("^" + t); P.do("new(%s)" % a); add(a + "^", t, k)
        for _ in range(2):
            n = r.randrange(2, 20); lo = r.choice([1, 0, 5]); t = P.type("%sarray [%d..%d] of char" % ("packed " if r.random() < .6 else "", lo, lo + n - 1))
            v = P.var(t); v2 = P.var(t); s.alen[v] = s.alen[v2] = (n, lo); s.arrs += [v, v2]
            for x in (v, v2): s.val[x] = rs(r, n); P.do("%s := %s" % (x, qs(s.val[x])))
        for v in s.vars: s.val[v] = rs(r, r.randrange(0, s.caps[v] + 1)); P.do("%s := %s" % (v, qs(s.val[v]))) if s.val[v] else P.do("%s := ''" % v)
        P.subs.append("function dbl(x: st): st; begin dbl := x + x end;")
        P.subs.append("function rev(protected x: st): st; var i: integer; y: st; begin y := ''; for i := 1 to length(x) do y := x[i] + y; rev := y end;")
        P.subs.append("procedure app(var x: st; y: st); begin x := x + y end;")
        P.var("integer", "i"); P.var("longint", "l"); P.var("real", "r"); P.var("char", "ch"); P.var("st", "tmp"); P.var("boolean", "bo")
    def expr(s, d=2):
        """(text, value): a string expression; value is at most 255 long."""
        r = s.r
        k = r.randrange(12 if d else 5)
        if k <= 1: v = r.choice(s.vars); return v, s.val[v]
        if k == 2: t = rs(r, r.choice([0, 2, 3, 5, 9, 17])); return qs(t), t
        if k == 3: v = r.choice(s.arrs); return v, s.val[v]
        if k == 4:
            vs = [v for v in s.vars if len(s.val[v]) >= 3]
            if not vs: return s.expr(0)
            v = r.choice(vs); a = r.randrange(1, len(s.val[v])); b = r.randrange(a, len(s.val[v]) + 1)
            if a == b: b = min(a + 1, len(s.val[v])); a = b - 1
            return "%s[%d..%d]" % (v, a, b), s.val[v][a - 1:b]
        if k <= 7:
            a, va = s.expr(d - 1); b, vb = s.expr(d - 1)
            if r.random() < .2: c = r.choice("qQ;:"); b, vb = "'%s'" % c, c
            if len(va + vb) > 255: return (a, va)
            if "+" in b and not b.startswith("'"): b = "(%s)" % b
            return "%s + %s" % (a, b), va + vb
        a, va = s.expr(d - 1)
        if k == 8: return "trim(%s)" % a, va.strip(" ")
        if k == 9:
            n = r.randrange(1, len(va) + 3); m = r.randrange(0, 20)
            return "%s(%s, %s, %d)" % (r.choice(["copy", "substr"]), a, n, m), va[n - 1:n - 1 + m]
        if k == 10:
            n = r.randrange(1, len(va) + 2); return "%s(%s, %d)" % (r.choice(["copy", "substr"]), a, n), va[n - 1:]
        if len(va) * 2 > 255: return a, va
        return ("dbl(%s)" % a, va * 2) if r.random() < .5 else ("rev(%s)" % a, va[::-1])

def ops(c, P, r):
    S = Store(P, r)
    for step in range(r.randrange(25, 45)):
        k = r.choice(["assign"] * 5 + ["write", "cmp", "cmp", "idx", "setidx", "index", "len", "arr", "arr", "val", "wstr", "rstr", "self", "char", "over", "loop", "app", "cond"])
        c.count("op_" + k)
        if k == "assign":
            v = r.choice(S.vars); e, x = S.expr(3)
            if len(x) > S.caps[v]: continue
            P.do("%s := %s" % (v, e)); S.val[v] = x; P.say("%s, '|', length(%s):1" % (v, v), "%s|%d" % (x, len(x))); c.state("assign", S.caps[v], min(len(x), 40) // 4)
        elif k == "self":
            v = r.choice(S.vars); x = S.val[v]; t = rs(r, 2)
            if 0 < len(x) * 2 + 2 <= S.caps[v]:
                P.do("%s := %s + %s + %s" % (v, v, qs(t), v)); S.val[v] = x + t + x; P.say(v, S.val[v])
        elif k == "write":
            e, x = S.expr(3); P.say("'<', %s, '>'" % e, "<" + x + ">")
        elif k in ("cmp", "cond"):
            a, x = S.expr(2); b, y = S.expr(2)
            if r.random() < .35: b, y = qs(x), x
            elif r.random() < .3 and len(x) > 2:
                j = r.randrange(len(x)); y = x[:j] + r.choice(ALPH) + x[j + 1:] if r.random() < .6 else x[:j]; b = qs(y)
            if len(y) == 1 and b.startswith("'"): b = "dbl(%s)" % b; y = y * 2
            ops2 = {"=": x == y, "<>": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}
            # the blank-padding rule of = makes trailing blanks implementation-dependent here
            o = r.choice(list(ops2)); v = ops2[o]
            isarr = lambda t: t in S.arrs or ".." in t and "(" not in t and "+" not in t
            if isarr(a) and (isarr(b) or b[:1] == "'") or isarr(b) and a[:1] == "'": a, x = "dbl(%s)" % a, x * 2; v = {"=": x == y, "<>": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
            if len(x) > 255: continue
            if x.rstrip(" ") == y.rstrip(" ") and x != y: continue
            if k == "cmp" and r.random() < .4:
                f = {"=": "eq", "<>": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[o]
                P.say("%s(%s, %s)" % (f, a, b), "TRUE" if v else "FALSE")
            elif k == "cmp":
                w = lambda t: "(%s)" % t if "+" in t and t[0] != "'" else t
                P.say("%s %s %s" % (w(a), o, w(b)), "TRUE" if v else "FALSE")
            else:
                P.do("if %s %s %s then writeln('yes') else writeln('no')" % (a, o, b)); P.out.append(b"yes" if v else b"no")
        elif k == "idx":
            vs = [v for v in S.vars if S.val[v]]
            v = r.choice(vs + S.arrs); n = r.randrange(len(S.val[v])); base = 1 if v in S.vars else S.alen[v][1]
            P.do("i := %d" % (n + base)); P.say("%s[%s], ord(%s[%d]):4" % (v, r.choice(["i", str(n + base)]), v, n + base), S.val[v][n] + "%4d" % ord(S.val[v][n]))
        elif k == "setidx":
            vs = [v for v in S.vars if S.val[v]]
            v = r.choice(vs + S.arrs); n = r.randrange(len(S.val[v])); base = 1 if v in S.vars else S.alen[v][1]; ch = r.choice("$^@MN")
            P.do("i := %d" % (n + base)); P.do("%s[%s] := '%s'" % (v, r.choice(["i", str(n + base)]), ch)); S.val[v] = S.val[v][:n] + ch + S.val[v][n + 1:]
            P.say("%s, '|'" % v, S.val[v] + "|")
        elif k == "index":
            if r.random() < .5:  # texts full of partial matches: occurrences that overlap earlier candidates
                ab = r.choice(["ab", "ab", "abc"]); es, vs = [], []
                for _ in range(8):
                    x = "".join(r.choice(ab) for _ in range(r.randrange(3, 30))); m = r.randrange(2, 7)
                    j = r.randrange(len(x)); t = x[j:j + m] if r.random() < .7 else "".join(r.choice(ab) for _ in range(m))
                    if r.random() < .3: t = "a" * (m - 1) + "b"; x = x[:j] + "a" * r.randrange(m - 1, m + 3) + "b" + x[j:]
                    es.append("index(%s, %s):1" % (qs(x), qs(t) if r.random() < .7 else "substr(%s, 2)" % qs("z" + t))); vs.append(str(x.find(t) + 1))
                c.count("index_partial", len(es))
                P.say(", ' ', ".join(es), " ".join(vs)); continue
            e, x = S.expr(2)
            if len(x) > 3 and r.random() < .7:
                a = r.randrange(len(x) - 2); t = x[a:a + r.randrange(1, 4)]
            else: t = rs(r, r.randrange(1, 4))
            P.say("index(%s, %s):1" % (e, qs(t)), str(x.find(t) + 1))
        elif k == "len":
            e, x = S.expr(2); v = r.choice(S.vars)
            if e in S.vars: P.say("length(%s):1" % e, str(len(x)))
            P.say("%s.capacity:1" % v, str(S.caps[v])) if v in S.vars and not v.endswith("]") else None
            P.do("tmp := %s" % e); P.say("length(tmp):1", str(len(x)))
        elif k == "arr":
            v, v2 = r.choice([S.arrs[:2], S.arrs[2:]]); n, lo = S.alen[v]
            m = r.randrange(5)
            if m == 0: S.val[v] = rs(r, n); P.do("%s := %s" % (v, qs(S.val[v])))
            elif m == 1: S.val[v] = S.val[v2]; P.do("%s := %s" % (v, v2))
            elif m == 2 and n > 3:
                a = r.randrange(1, n - 1); b = r.randrange(a + 1, n); t = rs(r, b - a + 1)
                P.do("%s[%d..%d] := %s" % (v, lo + a, lo + b, qs(t))); S.val[v] = S.val[v][:a] + t + S.val[v][b + 1:]
            else:
                x, y = S.val[v], S.val[v2]
                if r.random() < .4:
                    j = r.randrange(n); y = x[:j] + r.choice(ALPH) + x[j + 1:]; S.val[v2] = y; P.do("%s := %s" % (v2, qs(y)))
                o, f = r.choice([("=", x == y), ("<>", x != y), ("<", x < y), ("<=", x <= y), (">", x > y), (">=", x >= y)])
                P.say("%s %s %s" % (v, o, v2), "TRUE" if f else "FALSE")
                if r.random() < .5: P.say("%s = %s" % (v, qs(x)), "TRUE")
            P.say(v, S.val[v])
        elif k == "val":
            m = r.randrange(3)
            if m == 0: n = r.choice([r.randrange(-10**9, 10**9), 0, 7, -1]); P.do("tmp := '%s'" % spell(r, n)); P.do("val(tmp, i)"); P.say("i:1", str(n))
            elif m == 1: n = r.randrange(-2**62, 2**62); P.do("tmp := '%s'" % spell(r, n)); P.do("val(tmp, l)"); P.say("l:1", str(n))
            else: n = r.randrange(-10**6, 10**6) / 64; P.do("tmp := '%s'" % (repr(n) if r.random() < .7 else "%.14e" % n if r.random() < .5 else "%sE%d" % (repr(n * 1000), -3))); P.do("val(tmp, r)"); P.say("r:1:6", "%.6f" % n)
        elif k == "wstr":
            v = r.choice(S.vars); n = r.randrange(-999, 9999); e, x = S.expr(1); w = r.randrange(0, 6)
            t = x + "%*d" % (w, n) + "TRUE"
            if len(t) <= S.caps[v]:
                P.do("writestr(%s, %s, %d:%d, true)" % (v, e, n, w)); S.val[v] = t; P.say(v, t)
        elif k == "rstr":
            n, m = r.randrange(-9999, 9999), r.randrange(-10**6, 10**6) / 8; t = rs(r, r.randrange(0, 8)).strip()
            src = "%s%d %s%.3f %s" % (" " * r.randrange(3), n, " " * r.randrange(3), m, t)
            P.do("tmp := %s" % qs(src)); P.do("readstr(tmp, i, r, ch)"); P.say("i:1, ' ', r:1:3, ch", "%d %.3f " % (n, m))
        elif k == "char":
            v = r.choice(S.vars); ch = r.choice("hjklHJ")
            P.do("ch := '%s'" % ch); P.do("%s := %s" % (v, r.choice(["ch", "'%s'" % ch]))); S.val[v] = ch; P.say("%s, length(%s):1" % (v, v), ch + "1")
        elif k == "over":
            # a value longer than the target: only the neighbours are specified, then the target gets a new value
            v = r.choice(S.vars)
            if S.caps[v] < 255:
                t = rs(r, r.randrange(S.caps[v] + 1, 256)); P.do("tmp := %s" % qs(t))
                P.do(r.choice(["%s := tmp" % v, "%s := %s" % (v, qs(t)), "writestr(%s, tmp)" % v, "readstr(tmp, %s)" % v, "%s := tmp + 'x'" % v if len(t) < 255 else "%s := tmp" % v]))
                P.say("length(%s) <= %s" % (v, S.caps[v]), "TRUE"); P.do("%s := 'o'" % v); S.val[v] = "o"
        elif k == "loop":
            e, x = S.expr(1)
            P.do("tmp := %s" % e); P.do("for i := 1 to length(tmp) do write(tmp[i], '.'); writeln"); P.out.append("".join(ch + "." for ch in x).encode())
        elif k == "app":
            v = [x for x in S.vars if S.types[x] == "st"]
            if v:
                v = r.choice(v); e, x = S.expr(1)
                if len(S.val[v] + x) <= 255: P.do("app(%s, %s)" % (v, e)); S.val[v] += x; P.say(v, S.val[v])
        if step % 9 == 8:
            for v in r.sample(S.vars, min(4, len(S.vars))): P.say("%s, '|'" % v, S.val[v] + "|")
    for v in S.vars + S.arrs: P.say("%s, '|'" % v, S.val[v] + "|")
    P.say("%s.c1, %s.c2:1" % (S.rec, S.rec), "K4711")

def params(c, P, r):
    """Value, protected and var parameters and results of several capacities: the parameter is a copy of its own capacity."""
    P.type("string", "st")
    caps = [r.choice([1, 4, 10, 33, 80, 255]) for _ in range(3)]
    ts = [P.type("string[%d]" % k) for k in caps]
    for i, (t, k) in enumerate(zip(ts, caps)):
        P.subs.append("procedure v%d(x: %s; n: integer); begin x[1] := '#'; writeln(n:1, x, length(x):1) end;" % (i, t))
        P.subs.append("procedure p%d(protected x: %s); begin writeln(x, length(x):1) end;" % (i, t))
        P.subs.append("procedure r%d(var x: %s); begin x := 'w'; end;" % (i, t))
        P.subs.append("function f%d(x: st): %s; begin f%d := x end;" % (i, t, i))
    val = {}
    vs = []
    for i, (t, k) in enumerate(zip(ts, caps)):
        v = P.var(t, "s%d" % i); x = rs(r, r.randrange(1, k + 1)); P.do("%s := %s" % (v, qs(x))); val[v] = x; vs.append(v)
    for _ in range(18):
        v = r.choice(vs); i = r.randrange(3); k = caps[i]
        e, x = r.choice([(v, val[v]), (qs("ab" * 3), "ab" * 3), ("%s + 'z'" % v, (val[v] + "z")[:255]), ("copy(%s, 1, 2)" % v, val[v][:2]), ("'y'", "y"), ("trim(%s)" % v, val[v].strip(" "))])
        if len(x) > k or not x: continue
        m = r.randrange(4)
        if m == 0: P.do("v%d(%s, %d)" % (i, e, len(x))); P.out.append(("%d#%s%d" % (len(x), x[1:], len(x))).encode())
        elif m == 1: P.do("p%d(%s)" % (i, e)); P.out.append(("%s%d" % (x, len(x))).encode())
        elif m == 2: P.say("f%d(%s), '|'" % (i, e), x + "|")
        else: P.do("r%d(s%d)" % (i, i)); val["s%d" % i] = "w"
        c.state("param", m, k, len(x) > 30)
        for w in vs: P.say(w, val[w])

def spell(r, n):
    """Decimal spellings of n: leading zeros, a sign."""
    return ("-" if n < 0 else r.choice(["", "", "+"])) + "0" * r.choice([0, 0, 0, 1, 2, 5]) + str(abs(n))

def bytelit(b):
    """An expression for any bytes: literals for printable runs, chr() for the others."""
    parts, run = [], ""
    for x in b:
        if 32 <= x < 127: run += chr(x)
        else:
            if run: parts.append(qs(run)); run = ""
            parts.append("chr(%d)" % x)
    if run or not parts: parts.append(qs(run))
    return parts
def anybytes(c, P, r):
    """Strings and char arrays over all byte values: comparison, search, copy, concatenation, length and trim."""
    P.type("string", "st")
    P.var("integer", "i"); P.var("st", "tmp")
    vs, val, cap = [], {}, {}
    for _ in range(5):
        k = r.choice([6, 16, 40, 100, 255]); t = P.type(r.choice(["string[%d]", "string[%d]", "string(%d)"]) % k); v = P.var(t); vs.append(v); cap[v] = k
    alph = r.choice([[0, 1, 65], [0, 255, 128, 127], [97, 0], [200, 201, 72], list(range(256)), [32, 160, 9, 66], [127, 128, 129]])
    def rb(n): return bytes(r.choice(alph) for _ in range(n))
    def put(v, b):
        ps = bytelit(b)
        P.do("%s := %s" % (v, "''" if not b else ps[0]))
        for q in ps[1:]: P.do("%s := %s + %s" % (v, v, q))
        val[v] = b
    def show(e):
        P.do("tmp := %s" % e); P.do("write(length(tmp):1); for i := 1 to length(tmp) do write(' ', ord(tmp[i]):1); writeln")
    def shown(b): P.out.append(("%d" % len(b) + "".join(" %d" % x for x in b)).encode())
    n = r.randrange(3, 11); arrs = []
    ta = P.type("packed array [1..%d] of char" % n)
    for _ in range(2): v = P.var(ta); arrs.append(v); val[v] = bytes(r.randrange(1, 256) for _ in range(n)); [P.do("%s[%d] := chr(%d)" % (v, j + 1, x)) for j, x in enumerate(val[v])]
    for v in vs: put(v, rb(r.randrange(0, min(cap[v], 12) + 1)))
    for _ in range(24):
        k = r.choice(["cmp"] * 8 + ["arr", "arr", "index", "index", "cat", "copy", "trim", "mut", "assign", "case"])
        a, b = r.choice(vs), r.choice(vs)
        c.count("byte_" + k)
        if k == "cmp":
            # b becomes equal to a, a prefix of it, or differs in one place
            x = val[a]; m = r.randrange(4); y = x
            if m == 1 and x: y = x[:r.randrange(len(x))]
            elif m == 2 and x: j = r.randrange(len(x)); y = x[:j] + rb(1) + x[j + 1:]
            elif m == 3: y = x + rb(r.randrange(1, 3))
            if a == b or len(y) > cap[b]: continue
            put(b, y)
            if x.rstrip(b" ") == y.rstrip(b" ") and x != y: continue
            fl = [x == y, x != y, x < y, x <= y, x > y, x >= y]
            if r.random() < .5: P.say(", ".join("%s %s %s" % (a, o, b) for o in ["=", "<>", "<", "<=", ">", ">="]), "".join(str(q).upper() for q in fl))
            else: P.say(", ".join("%s(%s, %s)" % (o, a, b) for o in ["eq", "ne", "lt", "le", "gt", "ge"]), "".join(str(q).upper() for q in fl))
            c.state("cmp", m, min(len(x), 9), fl[2], fl[0])
        elif k == "arr":
            x, y = [arrs, arrs[::-1]][r.randrange(2)]
            if r.random() < .4: P.do("%s := %s" % (x, y)); val[x] = val[y]
            else: j = r.randrange(n); q = r.randrange(1, 256); P.do("%s[%d] := chr(%d)" % (x, j + 1, q)); val[x] = val[x][:j] + bytes([q]) + val[x][j + 1:]
            u, w = val[x], val[y]
            P.say(", ".join("%s %s %s" % (x, o, y) for o in ["=", "<>", "<", "<=", ">", ">="]), "".join(str(q).upper() for q in [u == w, u != w, u < w, u <= w, u > w, u >= w]))
            show(x); shown(u)
        elif k == "index":
            x = val[a]
            if len(x) > 1 and r.random() < .7: j = r.randrange(len(x)); y = x[j:j + r.randrange(1, 4)]
            else: y = rb(r.randrange(1, 4))
            if a == b or len(y) > cap[b] or not y: continue
            put(b, y); P.say("index(%s, %s):1" % (a, b), str(x.find(y) + 1))
        elif k == "cat": show("%s + %s + %s" % (a, b, a)); shown((val[a] + val[b] + val[a])[:255]) if len(val[a]) * 2 + len(val[b]) <= 255 else P.body.__delitem__(slice(-2, None))
        elif k == "copy": j, m = r.randrange(1, len(val[a]) + 2), r.randrange(0, 9); show("copy(%s, %d, %d)" % (a, j, m)); shown(val[a][j - 1:j - 1 + m])
        elif k == "trim":
            y = b" " * r.randrange(4) + bytes(r.randrange(33, 256) for _ in range(r.randrange(1, 3))) + rb(r.randrange(3)).replace(b" ", b"x") + bytes([r.randrange(33, 256)]) + b" " * r.randrange(3)
            if len(y) <= cap[a]: put(a, y); show("trim(%s)" % a); shown(y.strip(b" "))
        elif k == "mut" and val[a]:
            j = r.randrange(len(val[a])); q = r.choice(alph); P.do("i := %d" % (j + 1)); P.do("%s[i] := chr(%d)" % (a, q)); val[a] = val[a][:j] + bytes([q]) + val[a][j + 1:]
        elif k == "assign" and len(val[b]) <= cap[a]: P.do("%s := %s" % (a, b)); val[a] = val[b]
        if r.random() < .3: show(a); shown(val[a])
    for v in vs: show(v); shown(val[v])

def lengths(c, P, r):
    """Lengths around the largest: what is concatenated, appended or assigned keeps as many leading characters as fit."""
    cap = r.choice([255, 255, 254, 128, 127, 100, 31]); t = P.type("string[%d]" % cap); P.type("string", "st")
    for n in "ab": P.var("st", n)
    P.var("integer", "g1"); P.var(t, "d"); P.var("integer", "g2"); P.var("st", "w"); P.var("integer", "i"); P.var("integer", "h")
    P.subs.append("procedure fill(var s: st; n, k: integer); var i: integer; begin s := ''; for i := 1 to n do s := s + chr(33 + (i * k) mod 90) end;")
    P.do("g1 := 4711; g2 := 815")
    F = lambda n, k: "".join(chr(33 + i * k % 90) for i in range(1, n + 1))
    for _ in range(14):
        m = r.randrange(5); tot = r.choice([255, 255, 256, 254, cap, cap, cap + 1, cap - 1, 300, 510])
        la = min(255, r.choice([0, 1, tot // 2, max(tot - 1, 0), tot, r.randrange(256)])); lb = max(0, min(255, tot - la)); ka, kb = r.choice([1, 7, 11, 31]), r.choice([3, 13, 17])
        P.do("fill(a, %d, %d); fill(b, %d, %d)" % (la, ka, lb, kb)); A, B = F(la, ka), F(lb, kb)
        if m == 0: P.do("w := a + b"); x = A + B
        elif m == 1: P.do("w := a; w := w + b"); x = A + B
        elif m == 2: P.do("d := a + b; w := d"); x = (A + B)[:min(cap, 255)]
        elif m == 3: P.do("w := a + '%s' + b" % "xyz"[:1 + la % 3]); x = (A + "xyz"[:1 + la % 3])[:255] + B
        else: P.do("w := copy(a + b, 2, 300)" if la + lb else "w := a"); x = (A + B)[1:255] if la + lb else A
        x = x[:255]
        P.do("h := 0; for i := 1 to length(w) do h := (h * 31 + ord(w[i])) mod 65521")
        h = 0
        for ch in x: h = (h * 31 + ord(ch)) % 65521
        P.say("length(w):1, ' ', h:1, ' ', g1:1, g2:1, length(a):4, length(b):4, length(d) <= %d" % cap, "%d %d 4711815%4d%4dTRUE" % (len(x), h, la, lb))
        c.state("len", m, min(max(la + lb - 253, 0), 5)); c.count("length_sums")

TEMPLATES = [ops, params, anybytes, lengths]
def case(c):
    kit, rng = c.kits["plain"], c.rng
    P = Prog()
    f = {4: params, 2: anybytes, 6: anybytes, 8: lengths}.get(c.idx % 9, ops)
    f(c, P, rng)
    src = P.src()
    for _ in range(2): expect(c, kit, src, P.want(), random_opts(rng), what="string " + f.__name__)
    c.count("lines_checked", len(P.out)); c.key = C.sha(src); c.sample = clip(src, 1500)

if __name__ == "__main__":
    simple_check("C06",
        "Each case is one program holding string variables of many capacities (globals, array elements, record fields, heap objects) and char arrays, whose values "
        "a byte-sequence model mirrors through 25 to 45 random operations (assignment of expression trees, concatenation, comparisons, indexing, slices, copy, substr, "
        "index, trim, val, writestr, readstr, values longer than the target) with every target and regularly every variable printed; string parameters and "
        "results of several capacities; or strings and char arrays over all byte values, also 0 and above 127. Two random option sets. Non-trivial: distinct source, all lines checked.",
        ["strings differing only in trailing blanks are not compared", "the value stored when a value exceeds the capacity is not specified, only that nothing else changes"], case)
