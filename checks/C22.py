import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
CH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 +-*/=<>.,;:!?"

# ---- types with values: gen a value, its text as an initial value, as printed leaves, and as assignments
class T:
    inline = False
    def alias(s, P): return s.n
class Int(T):
    def __init__(s, P, r): s.n = "integer"
    def gen(s, r): return r.choice([0, 1, -1, r.randint(-99, 99), r.randint(-2**31 + 1, 2**31 - 1)])
    def lit(s, v, r): return r.choice(["%d" % v] * 4 + ["%d + 1" % (v - 1)] if abs(v) < 10**6 else ["%d" % v])
    def leaf(s, x, v): return [(x + ":1", str(v), "%s := %s" % (x, "%s"), s, x)]
    def plain(s, v): return str(v)
class Long(Int):
    def __init__(s, P, r): s.n = "longint"
    def gen(s, r): return r.choice([0, 7, -7, r.randint(-2**62, 2**62)])
    def lit(s, v, r): return str(v)
class Sub(Int):
    def __init__(s, P, r):
        s.lo = r.randint(-40, 40); s.hi = s.lo + r.randint(0, 90); s.n = P.type("%d..%d" % (s.lo, s.hi)) if r.random() < .5 else "%d..%d" % (s.lo, s.hi)
    def gen(s, r): return r.choice([s.lo, s.hi, r.randint(s.lo, s.hi)])
    def lit(s, v, r): return str(v)
class Real(T):
    def __init__(s, P, r): s.n = "real"
    def gen(s, r): return r.choice([r.randint(-9999, 9999) / 8, float(r.randint(-50, 50)), r.randint(1, 999) * 1e10])
    def lit(s, v, r): return "%d" % v if v == int(v) and abs(v) < 1e6 and r.random() < .6 else repr(v)
    def plain(s, v): return repr(v)
    def leaf(s, x, v): return [(x + ":1:3", "%.3f" % v, "%s := %s" % (x, "%s"), s, x)]
class Chr(T):
    def __init__(s, P, r): s.n = "char"
    def gen(s, r): return r.choice(CH)
    def lit(s, v, r): return r.choice(["'%s'" % v] * 3 + ["chr(%d)" % ord(v)])
    def plain(s, v): return "'%s'" % v
    def leaf(s, x, v): return [(x, v, "%s := %s" % (x, "%s"), s, x)]
class SubC(Chr):
    def __init__(s, P, r): s.n = P.type("'d'..'w'") if r.random() < .5 else "'d'..'w'"
    def gen(s, r): return chr(r.randint(ord("d"), ord("w")))
    def lit(s, v, r): return "'%s'" % v
class Bool(T):
    def __init__(s, P, r): s.n = "boolean"
    def gen(s, r): return r.random() < .5
    def lit(s, v, r): return r.choice(["true", "not false"] if v else ["false", "not true"])
    def plain(s, v): return "true" if v else "false"
    def leaf(s, x, v): return [(x, "TRUE" if v else "FALSE", "%s := %s" % (x, "%s"), s, x)]
class Enum(T):
    def __init__(s, P, r):
        s.names = [P.uid("en") for _ in range(r.randint(2, 7))]; s.n = P.type("(" + ", ".join(s.names) + ")")
    def gen(s, r): return r.randrange(len(s.names))
    def lit(s, v, r): return s.names[v]
    def plain(s, v): return s.names[v]
    def leaf(s, x, v): return [(x, s.names[v], "%s := %s" % (x, "%s"), s, x)]
class Str(T):
    def __init__(s, P, r): s.cap = r.choice([1, 3, 10, 60, 255]); s.n = P.type("string[%d]" % s.cap) if r.random() < .6 else "string[%d]" % s.cap
    def gen(s, r): return "".join(r.choice(CH) for _ in range(r.choice([0, 1, min(s.cap, 50), r.randint(0, min(s.cap, 50))])))
    def lit(s, v, r):
        if len(v) > 1 and r.random() < .2: k = r.randint(1, len(v) - 1); return "'%s' + '%s'" % (v[:k], v[k:])
        return "'%s'" % v
    def plain(s, v): return "'%s'" % v
    def leaf(s, x, v): return [("length(%s):1, ':', %s" % (x, x), "%d:%s" % (len(v), v), "%s := %s" % (x, "%s"), s, x)]
class Chars(T):
    def __init__(s, P, r): s.k = r.randint(2, 20); s.n = P.type("packed array [1..%d] of char" % s.k)
    def gen(s, r): return "".join(r.choice(CH) for _ in range(r.choice([s.k, s.k, r.randint(2, s.k)]))).ljust(s.k)
    def lit(s, v, r):
        t = v.rstrip(" "); return "'%s'" % (t if len(t) > 1 and r.random() < .5 else v)
    def plain(s, v): return "'%s'" % v
    def leaf(s, x, v): return [(x, v, "%s := %s" % (x, "%s"), s, x)]
class Set(T):
    def __init__(s, P, r):
        s.kind = r.choice(["int", "char", "int"])
        if s.kind == "int": s.lo, s.hi = r.choice([0, 1, 5]), r.choice([7, 31, 32, 63, 64, 150, 255]); s.n = P.type("set of %d..%d" % (s.lo, s.hi))
        else: s.n = P.type("set of char"); s.lo, s.hi = 32, 126
    def gen(s, r):
        v = set(r.randint(s.lo, s.hi) for _ in range(r.randrange(6)))
        if r.random() < .4: a = r.randint(s.lo, s.hi); v |= set(range(a, min(s.hi, a + r.randrange(9)) + 1))
        return frozenset(v - {39})
    def el(s, k): return str(k) if s.kind == "int" else "'%s'" % chr(k)
    def lit(s, v, r):
        out, L = [], sorted(v)
        while L:
            j = 1
            while j < len(L) and L[j] == L[0] + j: j += 1
            if j > 1 and r.random() < .6: out.append("%s..%s" % (s.el(L[0]), s.el(L[j - 1]))); L = L[j:]
            else: out.append(s.el(L[0])); L = L[1:]
        r.shuffle(out)
        return "[" + ", ".join(out) + "]"
    def plain(s, v): return "[" + ", ".join(s.el(k) for k in sorted(v)) + "]"
    def leaf(s, x, v):
        ks = sorted({s.lo, s.hi, (s.lo + s.hi) // 2} | set(sorted(v)[:4]))
        ks = [k for k in ks if k != 39]
        return [("card(%s):1, %s" % (x, ", ".join("ord(%s in %s):1" % (s.el(k), x) for k in ks)), str(len(v)) + "".join(str(int(k in v)) for k in ks), "%s := %s" % (x, "%s"), s, x)]
class Ptr(T):
    def __init__(s, P, r): s.n = P.type("^" + r.choice(["integer", "char", "real"]))
    def gen(s, r): return None
    def lit(s, v, r): return "nil"
    plain = lambda s, v: "nil"
    def leaf(s, x, v): return [("%s = nil" % x, "TRUE", "%s := %s" % (x, "%s"), s, x)]
class Arr(T):
    def __init__(s, P, r, d=0):
        s.e = pick(P, r, d + 1); k = r.choice("iiicbe")
        if k == "i": lo = r.choice([0, 1, -3, 100]); n = r.choice([1, 2, 3, 5, 12, 60]) if d == 0 else r.randint(1, 4); s.ix = [str(lo + i) for i in range(n)]; t = "%d..%d" % (lo, lo + n - 1)
        elif k == "c": a = r.choice("amA"); n = r.randint(1, 9); s.ix = ["'%s'" % chr(ord(a) + i) for i in range(n)]; t = "'%s'..'%s'" % (a, chr(ord(a) + n - 1))
        elif k == "b": s.ix = ["false", "true"]; t = "boolean"
        else: e = Enum(P, r); s.ix = e.names; t = e.n
        s.n = P.type("%sarray [%s] of %s" % (r.choice(["", "packed "]) if not isinstance(s.e, Chr) else "", t, s.e.n))
    def gen(s, r):
        pool = [s.e.gen(r) for _ in range(r.randint(1, 4))]
        return [r.choice(pool) for _ in s.ix]
    def lit(s, v, r):
        n = len(v); groups = []; i = 0
        other = None
        if r.random() < .5 : other = r.choice(v)
        while i < n:
            j = i
            while j + 1 < n and v[j + 1] == v[i]: j += 1
            k = r.randint(i, j)
            if v[i] == other: i = j + 1; continue
            groups.append((i, k)); i = k + 1
        r.shuffle(groups)
        out = ["%s: %s" % (s.ix[a] if a == b else "%s..%s" % (s.ix[a], s.ix[b]), s.e.lit(v[a], r)) for a, b in groups]
        t = r.choice([", ", "; "]).join(out)
        if any(x == other for x in v) and other is not None or (other is None and isinstance(s.e, Ptr) and not out): t += " otherwise " + s.e.lit(other, r)
        return "[" + t + "]"
    def leaf(s, x, v): return [z for k, u in zip(s.ix, v) for z in s.e.leaf("%s[%s]" % (x, k), u)]
class Rec(T):
    def __init__(s, P, r, d=0):
        n = r.randint(1, 5); s.f = []
        while len(s.f) < n:
            t = pick(P, r, d + 1)
            for _ in range(min(r.choice([1, 1, 2, 3]), n - len(s.f))): s.f.append((P.uid("f"), t))
        s.n = P.type("record " + "; ".join("%s: %s" % (a, t.n) for a, t in s.f) + " end")
    def gen(s, r):
        v, last = [], None
        for a, t in s.f:
            u = v[-1] if last is t and r.random() < .5 else t.gen(r)
            v.append(u); last = t
        return v
    def lit(s, v, r):
        g = []
        for (a, t), u in zip(s.f, v):
            if g and g[-1][1] is t and g[-1][2] == u and r.random() < .7: g[-1][0].append(a)
            else: g.append([[a], t, u])
        r.shuffle(g)
        return "[" + "; ".join("%s: %s" % (", ".join(a), t.lit(u, r)) for a, t, u in g) + "]"
    def leaf(s, x, v): return [z for (a, t), u in zip(s.f, v) for z in t.leaf("%s.%s" % (x, a), u)]
SIMPLE = [Int, Int, Long, Sub, Real, Real, Chr, SubC, Bool, Enum, Str, Str, Chars, Set, Set, Ptr]
def pick(P, r, d):
    if d < 3 and r.random() < (.55 if d == 0 else .3): return r.choice([Arr, Rec])(P, r, d)
    return r.choice(SIMPLE)(P, r)

def show(P, r, x, t, v, where, cap=14):
    L = t.leaf(x, v)
    if len(L) > cap: L = sorted(r.sample(L, cap), key=L.index)
    out = where if where is not None else P.body
    out.append("writeln('%s: ', %s)" % (x.split(".")[0].split("[")[0], ", '|', ".join(a for a, *_ in L)))
    return (x.split(".")[0].split("[")[0] + ": " + "|".join(b for _, b, *_ in L)).encode()

def constname(P, r, t, v):
    """A structured (or simple) constant of that value."""
    n = P.uid("k")
    if isinstance(t, (Arr, Rec)): P.consts2.append("%s = %s%s" % (n, t.n, t.lit(v, r)))
    elif isinstance(t, (Set, Ptr)): return None
    else: P.consts2.append("%s = %s" % (n, t.plain(v) if isinstance(t, Real) else t.lit(v, r)))
    return n

class Item: pass
def history(c, kits):
    """Initialised variables in the program and in routines that are activated several times, also recursively, and change them."""
    r, P = c.rng, Prog()
    out = P.out
    types = [pick(P, r, 0) for _ in range(r.randint(1, 4))]
    def decl(t, dst, tag):
        """One declaration with an initial value; returns its variables."""
        v = t.gen(r); k = r.choice(["clause", "clause", "type", "override", "const", "field", "comp", "expr"])
        names = [P.uid(tag) for _ in range(r.choice([1, 1, 2, 3]))]
        res = [(n, t, v) for n in names]
        init = t.lit(v, r)
        def simple(n): return n
        if k in ("type", "override") :
            n = P.uid("tv"); P.types2.append("%s = %s value %s" % (n, t.n, t.lit(v, r)))
            if k == "type": dst.append("%s: %s" % (", ".join(names), n))
            else: v2 = t.gen(r); dst.append("%s: %s value %s" % (", ".join(names), n, t.lit(v2, r))); res = [(a, t, v2) for a in names]
        elif k == "const":
            kn = constname(P, r, t, v)
            dst.append("%s: %s value %s" % (", ".join(names), t.n, kn or init))
        elif k == "field":
            f1, f2 = P.uid("f"), P.uid("f"); n = P.uid("tr")
            v2 = t.gen(r)
            P.types2.append("%s = record %s: %s value %s; %s: char; %s: %s value %s end" % (n, f1, t.n, init, P.uid("f"), f2, t.n, t.lit(v2, r)))
            dst.append("%s: %s" % (", ".join(names), n)); res = [z for a in names for z in ((a + "." + f1, t, v), (a + "." + f2, t, v2))]
        elif k == "comp":
            n = P.uid("tv"); P.types2.append("%s = %s value %s" % (n, t.n, init))
            lo, w = r.choice([0, 1, -2]), r.randint(1, 3)
            if r.random() < .5: dst.append("%s: array [%d..%d] of %s" % (", ".join(names), lo, lo + w, n)); res = [("%s[%d]" % (a, lo + i), t, v) for a in names for i in (0, w)]
            else: dst.append("%s: array [%d..%d, boolean] of %s" % (", ".join(names), lo, lo + w, n)); res = [("%s[%d, %s]" % (a, lo + i, b), t, v) for a in names for i, b in ((0, "true"), (w, "false"))]
        else: dst.append("%s: %s value %s" % (", ".join(names), t.n, init))
        c.count("decl_" + k); c.state(k, type(t).__name__, tag)
        return res
    P.types2 = []
    glob = [z for t in types for z in decl(t, P.vars, "g")]
    routines = []
    for _ in range(r.randint(0, 2)):
        loc = []; vs = []
        for t in r.sample(types, min(len(types), 2)): vs += decl(t, loc, "l")
        routines.append((P.uid("p"), loc, vs))
    # heap variables of a type with an initial state
    if r.random() < .4:
        t = r.choice(types); v = t.gen(r); n, pn = P.uid("tv"), P.uid("tp")
        P.types2 += ["%s = %s value %s" % (n, t.n, t.lit(v, r)), "%s = ^%s" % (pn, n)]
        h = P.var(pn)
        for _ in range(r.choice([1, 2])):
            P.do("new(%s)" % h); out.append(show(P, r, h + "^", t, v, None))
            if r.random() < .6 and change(P, r, t, h + "^", v, P.body): P.do("dispose(%s)" % h)
        c.count("heap")
    for n, t, v in glob: out.append(show(P, r, n, t, v, None))
    if r.random() < .5:
        t = r.choice(types); v = t.gen(r); kn = constname(P, r, t, v)
        if kn:
            c.count("constants_used")
            if not isinstance(t, (Int, Long, Real, Chr, Bool, Enum, Str, Chars)): out.append(show(P, r, kn, t, v, None))
            else: out.append(show(P, r, kn, t, v, None)) if not isinstance(t, (Str, Chars)) else None
            if not isinstance(t, Chars) or len(v) == t.k:
                x = P.var(t.n); P.do("%s := %s" % (x, kn)) if not isinstance(t, Chars) else P.do("%s := %s" % (x, t.plain(v))); out.append(show(P, r, x, t, v, None))
    if r.random() < .5:
        t = r.choice(types); v = t.gen(r); n = P.uid("tv")
        P.types2.append("%s = %s value %s" % (n, t.n, t.lit(v, r)))
        x = P.var(n); w = t.gen(r)
        if assignable(t): P.do("%s := %s" % (x, t.plain(w))); out.append(show(P, r, x, t, w, None))
        P.do("%s := default(%s)" % (x, r.choice([n, x]))); out.append(show(P, r, x, t, v, None)); c.count("default")
    for n, loc, vs in routines:
        depth = r.choice([1, 2, 3])
        b1, b2, o1, o2 = [], [], [], []
        for x, t, v in vs: o1.append(show(P, r, x, t, v, b1))
        ch = []
        for x, t, v in vs:
            w = t.gen(r)
            if assignable(t): ch.append("%s := %s" % (x, t.plain(w))); o2.append(show(P, r, x, t, w, b2))
            else:
                L = [z for z in t.leaf(x, v)]; z = r.choice(L); u = z[3].gen(r)
                ch.append(z[2] % z[3].plain(u)); q = z[3].leaf(z[4], u)[0]
                b2.append("writeln(%s)" % q[0]); o2.append(q[1].encode())
        nested = r.random() < .3
        body = b1 + ch + ["if n > 1 then %s(n - 1)" % n] + b2
        inner = P.uid("i")
        text = "procedure %s(n: integer);\nvar %s;\n" % (n, ";\n  ".join(loc))
        if nested: text += "procedure %s; begin %s end;\n" % (inner, ";\n  ".join(ch)); body = b1 + [inner] + ["if n > 1 then %s(n - 1)" % n] + b2
        P.subs.append(text + "begin\n  %s\nend;" % ";\n  ".join(body))
        for _ in range(r.choice([1, 2])):
            P.do("%s(%d)" % (n, depth))
            for _ in range(depth): out.extend(o1)
            for _ in range(depth): out.extend(o2)
        c.count("activations", depth)
    # consts2 may use types only; the types with values may use constants: order const, type, const
    s = P.src_types2()
    if kits is None: return s, P.want()
    expect(c, kits["plain"], s, P.want(), random_opts(r), what="initial values")
    c.key = C.sha(s); c.sample = clip(s, 1500); c.count("values_checked", sum(o.count(b"|") + 1 for o in out))

def assignable(t): return not isinstance(t, (Arr, Rec))
def change(P, r, t, x, v, body):
    L = t.leaf(x, v); z = r.choice(L); body.append(z[2] % z[3].plain(z[3].gen(r))); return True
def src_types2(P):
    if P.types2:
        P2 = Prog(P.name); P2.__dict__.update(P.__dict__)
        s = P.src()
        i = s.index("var\n") if "\nvar\n" in s else None
        head = "type\n" + "".join("  %s;\n" % x for x in P.types2)
        k = s.find("\nvar\n"); m = s.find("\nprocedure "); b = s.find("\nbegin\n")
        at = min(q for q in (k, m, b) if q >= 0)
        return s[:at + 1] + head + s[at + 1:]
    return P.src()
Prog.src_types2 = src_types2

def schema(c, kits):
    """Schema types with discriminants against what the written-out type gives."""
    r, P = c.rng, Prog()
    out = P.out
    for _ in range(r.randint(1, 4)):
        k = r.choice(["arr", "arr", "arr2", "sub", "set", "cidx", "eidx"])
        n = P.uid("sc"); x, i, j = P.var("integer"), P.var("integer"), P.var("integer")
        def use(vals): return "%s(%s)" % (n, ", ".join(vals))
        def num(v):
            z = r.randrange(4)
            if z == 0: kn = P.const(str(v)); return kn
            if z == 1 and v > 2: return "%d + 2" % (v - 2)
            return str(v)
        if k == "arr":
            lo = r.choice([0, 1, -5]); hi = lo + r.choice([0, 1, 4, 20, 99]); e, w = r.choice([("integer", 4), ("real", 8), ("longint", 8), ("array [1..2] of integer", 8)])
            P.type("array [%d..%s] of %s" % (lo, "d", e), n + "(d: integer)")
            tn = P.type(use([num(hi)])); a = P.var(tn); b = P.var(tn); acc = "[1]" if "array" in e else ""
            P.do("for %s := %d to %d do %s[%s]%s := %s * 3 - 1" % (i, lo, hi, a, i, acc, i))
            P.do("%s := %s" % (b, a)); P.do("%s[%d]%s := 77" % (a, hi, acc))
            P.do("%s := 0" % x); P.do("for %s := %d to %d do %s := %s + trunc(%s[%s]%s) * (%s mod 7)" % (i, lo, hi, x, x, b, i, acc, i) if "real" in e else "for %s := %d to %d do if %s[%s]%s = %s * 3 - 1 then %s := %s + 1" % (i, lo, hi, b, i, acc, i, x, x))
            tm = lambda q: q - 7 * int(q / 7)
            P.say("%s:1, ' ', sizeof(%s):1, ' ', sizeof(%s):1" % (x, a, tn), "%d %d %d" % (sum((q * 3 - 1) * tm(q) for q in range(lo, hi + 1)) if "real" in e else hi - lo + 1, w * (hi - lo + 1), w * (hi - lo + 1)))
            f = P.uid("f")
            P.subs.append("procedure %s(var q: %s; k: integer); begin q[k]%s := k + 1000 end;" % (f, tn, acc))
            z = r.randint(lo, hi); P.do("%s(%s, %d)" % (f, a, z))
            P.say("trunc(%s[%d]%s):1" % (a, z, acc) if "real" in e else "%s[%d]%s:1" % (a, z, acc), str(z + 1000))
        elif k == "arr2":
            h1, h2 = r.randint(1, 9), r.randint(1, 9)
            P.type("array [1..d1, 0..d2] of integer", n + r.choice(["(d1, d2: integer)", "(d1: integer; d2: integer)"]))
            a = P.var(use([num(h1), num(h2)]))
            P.do("for %s := 1 to %d do for %s := 0 to %d do %s[%s, %s] := %s * 100 + %s" % (i, h1, j, h2, a, i, j, i, j))
            P.do("%s := 0" % x); P.do("for %s := 1 to %d do for %s := 0 to %d do if %s[%s][%s] = %s * 100 + %s then %s := %s + 1" % (i, h1, j, h2, a, i, j, i, j, x, x))
            P.say("%s:1, ' ', sizeof(%s):1" % (x, a), "%d %d" % (h1 * (h2 + 1), 4 * h1 * (h2 + 1)))
        elif k == "sub":
            lo = r.randint(-9, 9); hi = lo + r.randint(0, 12)
            P.type("d1..d2", n + "(d1, d2: integer)"); t = use([num(lo) if lo >= 0 else str(lo), num(hi) if hi >= 0 else str(hi)])
            tn = P.type(t) if r.random() < .5 else t
            a = P.var(tn); b = P.var("array [%s] of integer" % tn); 
            P.do("%s := %d" % (a, r.choice([lo, hi]))); P.do("for %s := %d to %d do %s[%s] := %s * 2" % (i, lo, hi, b, i, i))
            P.do("%s := 0" % x); P.do("for %s := %d to %d do %s := %s + %s[%s]" % (i, lo, hi, x, x, b, i))
            P.say("%s:1, ' ', sizeof(%s):1, ' ', %s[%d]:1, ' ', %s[%d]:1" % (x, b, b, lo, b, hi), "%d %d %d %d" % (sum(2 * q for q in range(lo, hi + 1)), 4 * (hi - lo + 1), 2 * lo, 2 * hi))
            a2 = r.randint(lo, hi); P.do("%s := %d" % (a, a2)); P.say("%s:1, ' ', %s + 1:1" % (a, a), "%d %d" % (a2, a2 + 1))
        elif k == "set":
            lo = r.choice([0, 1, 3]); hi = r.choice([5, 31, 32, 63, 64, 200])
            P.type("set of %d..d" % lo, n + "(d: integer)"); a = P.var(use([num(hi)]))
            m = {r.randint(lo, hi) for _ in range(r.randint(1, 7))} | {hi}
            P.do("%s := [%s]" % (a, ", ".join(map(str, sorted(m))))); y = r.randint(lo, hi)
            P.say("card(%s):1, ' ', %d in %s, ' ', %d in %s" % (a, hi, a, y, a), "%d TRUE %s" % (len(m), "TRUE" if y in m else "FALSE"))
            P.do("%s := %s - [%d]" % (a, a, hi)); P.do("%s := 0" % x); P.do("for %s in %s do %s := %s + %s" % (i, a, x, x, i)); P.say("%s:1" % x, str(sum(m - {hi})))
        elif k == "cidx":
            hi = r.choice("ckz"); P.type("array ['b'..d] of integer", n + "(d: char)"); a = P.var(use(["'%s'" % hi])); ch = P.var("char")
            P.do("for %s := 'b' to '%s' do %s[%s] := ord(%s)" % (ch, hi, a, ch, ch)); P.do("%s := 0" % x); P.do("for %s := 'b' to '%s' do %s := %s + %s[%s]" % (ch, hi, x, x, a, ch))
            P.say("%s:1, ' ', sizeof(%s):1" % (x, a), "%d %d" % (sum(range(98, ord(hi) + 1)), 4 * (ord(hi) - 97)))
        else:
            es = [P.uid("e") for _ in range(5)]; et = P.type("(" + ", ".join(es) + ")"); h = r.randint(1, 4)
            P.type("array [%s..d] of char" % es[0], n + "(d: %s)" % et); a = P.var(use([es[h]])); ev = P.var(et)
            P.do("for %s := %s to %s do %s[%s] := chr(65 + ord(%s))" % (ev, es[0], es[h], a, ev, ev))
            P.say("%s[%s], %s[%s], sizeof(%s):1" % (a, es[h], a, es[0], a), "%sA%d" % (chr(65 + h), h + 1))
        c.count("schema_" + k)
    if kits is None: return P.src(), P.want()
    expect(c, kits["plain"], P.src(), P.want(), random_opts(r), what="schema types")
    c.key = C.sha(P.src()); c.sample = clip(P.src(), 1200)

def bad(c, kits):
    """Initial values and schema arguments that do not fit are rejected."""
    r = c.rng
    D = r.choice([
        "var v: 1..5 value 6;", "var v: 1..5 value 0;", "var v: string[3] value 'four';", "var v: packed array [1..3] of char value 'four';", "var v: integer value 'x';",
        "var v: char value 12;", "var v: boolean value 1;", "var v: integer value 2.5;", "type e = (p1, p2); var v: e value 1;", "type e = (p1, p2); f = (q1, q2); var v: e value q1;",
        "var v: array [1..3] of integer value [4: 1];", "var v: array [1..3] of integer value [0..2: 1];", "var v: array [1..3] of integer value [1: 'x'];", "var v: array [1..3] of integer value [1..3: 1 otherwise 2 otherwise 3];",
        "var v: record a: integer end value [b: 1];", "var v: record a: integer end value [a: 'x'];", "var v: ^integer value 5;", "var v: set of 1..5 value ['a'];",
        "type s(n: integer) = array [1..n] of char; var v: s;", "type s(n: integer) = array [1..n] of char; var v: s(1, 2);", "type s(n: integer) = array [1..n] of char; var v: s(0);", "type s(n: integer) = array [1..n] of char; var v: s(2.5);",
        "type s(m, n: integer) = m..n; var v: s(3);", "type s(m, n: integer) = m..n; var v: s(4, 3);", "type s(n: integer) = set of 0..n; var v: s(100000);", "type s(n: integer) = 0..n; var v: array [s] of char;", "type s(n: integer) = array [1..n] of char; var v: ^s;"])
    s = "program p;\n%s\nbegin\n  writeln('ran')\nend.\n" % D
    o = random_opts(r)
    res = K.compile_pas(kits["plain"], s, c.dir, name="p", opts=o); c.count("compilations"); c.count("bad_declarations")
    if res.rc == 0: raise Violation("the ill-fitting declaration '%s' is accepted, options %s" % (D, " ".join(o)), {"p.pas": s})
    if res.rc != 1 or b"Error" not in res.out + res.err: raise Violation("the ill-fitting declaration '%s' gives status %d and no proper message, options %s" % (D, res.rc, " ".join(o)), {"p.pas": s, "out": res.out + res.err})
    c.key = D

def case(c):
    k = c.rng.random()
    (history if k < .75 else schema if k < .92 else bad)(c, c.kits)

if __name__ == "__main__":
    simple_check("C22", "initial values of generated types in all places, on every activation, and schema types, against the declared values; ill-fitting ones rejected",
                 ["only components given a value are examined"], case, 30, 780)
