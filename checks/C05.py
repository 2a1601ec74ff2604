import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
EN = ["sun", "mon", "tue", "wed", "thu", "fri", "sat", "hol", "xx", "yy"]

class Base:
    """A base type: its declaration, member range, and the text of a member."""
    def __init__(self, rng):
        k = rng.randrange(10)
        self.kind = "int"
        if k < 5:
            lo = rng.choice([0, 0, 1, 5, 31, 32, 63, 100, 200, 255, 1000, -1, -5, -64, -300])
            n = rng.choice([1, 2, 7, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512])
            self.lo, self.hi = lo, lo + n - 1
            self.decl = "%d..%d" % (lo, self.hi)
        elif k < 7:
            self.kind = "char"
            self.lo, self.hi = rng.choice([(0, 255), (32, 126), (97, 122), (48, 57)])
            self.decl = "char" if self.lo == 0 else "'%s'..'%s'" % (chr(self.lo), chr(self.hi))
        elif k < 9:
            self.kind = "en"
            self.lo, self.hi = rng.choice([(0, len(EN) - 1), (2, 7), (1, 3)])
            self.decl = "en" if self.lo == 0 else "%s..%s" % (EN[self.lo], EN[self.hi])
        else:
            self.kind = "bool"
            self.lo, self.hi, self.decl = 0, 1, "boolean"
        self.ot = {"int": "integer", "char": "char", "en": "en", "bool": "boolean"}[self.kind]
    def lit(self, v):
        if self.kind == "int": return str(v)
        if self.kind == "en": return EN[v]
        if self.kind == "bool": return "true" if v else "false"
        return "'%s'" % chr(v) if 32 <= v < 127 and v != 39 else "chr(%d)" % v
    def rand(self, rng):
        k = rng.randrange(6)
        w = [v for v in (self.lo, self.hi, self.lo // 32 * 32, self.lo // 32 * 32 + 31, self.lo // 32 * 32 + 32, self.lo + 31, self.lo + 32, self.lo + 63, self.lo + 64) if self.lo <= v <= self.hi]
        return rng.choice(w) if k < 2 else rng.randrange(self.lo, self.hi + 1)
    def subset(self, rng):
        k = rng.randrange(8)
        full = range(self.lo, self.hi + 1)
        if k == 0: return set()
        if k == 1: return set(full)
        if k == 2:
            a, b = sorted((self.rand(rng), self.rand(rng))); return set(range(a, b + 1))
        if k == 3: return {self.rand(rng)}
        p = rng.random()
        return {v for v in full if rng.random() < p}

def ctor(c, P, rng, B, m, dyn=True):
    """A set constructor with exactly the members m: singles, ranges, computed elements, empty ranges, duplicates."""
    items, left = [], sorted(m)
    runs = []
    for v in left:
        if runs and runs[-1][1] == v - 1 and rng.random() < 0.9: runs[-1][1] = v
        else: runs.append([v, v])
    def el(v):
        k = rng.randrange(5)
        if dyn and k == 0:
            x = P.var(B.ot if rng.random() < 0.6 or B.kind == "bool" else "bt"); P.do("%s := %s" % (x, B.lit(v))); return x
        if dyn and k == 1 and B.kind == "int":
            d = rng.randrange(1, 9); x = P.var("integer"); P.do("%s := %d" % (x, v - d)); return "%s + %d" % (x, d)
        return B.lit(v)
    for a, b in runs:
        if a == b and rng.random() < 0.8: items.append(el(a))
        elif b == a + 1 and rng.random() < 0.5: items += [el(a), el(b)]
        else: items.append("%s..%s" % (el(a), el(b)))
    if dyn and rng.random() < 0.15 and B.hi > B.lo:
        x, y = sorted(rng.sample(range(B.lo, B.hi + 1), 2))
        p, q = P.var(B.ot), P.var(B.ot)
        P.do("%s := %s" % (p, B.lit(y))); P.do("%s := %s" % (q, B.lit(x)))
        items.append("%s..%s" % (p, q))       # an empty range contributes nothing
    if m and rng.random() < 0.2: items.append(el(rng.choice(left)))
    rng.shuffle(items)
    return "[%s]" % ", ".join(items)

def table(c, P, rng, B):
    if B.kind == "en" or True: P.type("(%s)" % ", ".join(EN), "en")
    P.type(B.decl, "bt"); P.type("set of bt", "st"); P.type("record a: char; s: st; b: char end", "rt"); P.type("array [1..3] of st", "at")
    P.var("integer", "cnt")
    P.var(B.ot, "it")
    wr = {"int": "it", "char": "ord(it)", "en": "ord(it)", "bool": "ord(it)"}[B.kind]
    P.subs.append("procedure show(s: st);\nvar i: %s; n: integer;\nbegin n := 0;\n  for i in s do begin n := n + 1; write(%s, ' ') end;\n  writeln('#', n, ' ', card(s)) end;" % (B.ot, wr.replace("it", "i") if wr == "it" else "ord(i)"))
    P.subs.append("procedure probe(s: st);\nvar i: %s; n: integer;\nbegin n := 0;\n  for i := %s to %s do if i in s then n := (n * 31 + ord(i) + 1000) mod 65521;\n  writeln('h', n) end;" % (B.ot, B.lit(B.lo), B.lit(B.hi)))
    P.subs.append("function id(s: st): st;\nvar t: st;\nbegin t := s; s := []; id := t end;")
    P.subs.append("procedure setto(var s: st; v: st);\nbegin s := v; v := [%s] end;" % B.lit(B.lo))
    # variables: guarded by neighbours that must not change
    vars_ = {}
    order = []
    for k in range(3):
        P.var("integer", "ga%d" % k); P.var("st", "s%d" % k); vars_["s%d" % k] = set()
    P.var("integer", "ga3"); P.var("rt", "r"); P.var("at", "a"); P.var("^st", "ps")
    P.do("new(ps)")
    places = ["s0", "s1", "s2", "r.s", "a[1]", "a[2]", "a[3]", "ps^"]
    val = {}
    for k in range(4): P.do("ga%d := %d" % (k, 7000 + k))
    P.do("r.a := 'L'"); P.do("r.b := 'R'")
    for p in places:
        val[p] = B.subset(rng)
        P.do("%s := %s" % (p, ctor(c, P, rng, B, val[p])))
    def text(m):
        return "".join("%d " % v for v in sorted(m)) + "#%d %d" % (len(m), len(m))
    def h(m):
        n = 0
        for v in sorted(m): n = (n * 31 + v + 1000) % 65521
        return "h%d" % n
    def operand(d):
        k = rng.randrange(7)
        if d > 0 and k == 0:
            x, m = expr(d - 1); return "(%s)" % x, m
        if k == 1:
            m = B.subset(rng)
            if len(m) > 40: m = set(sorted(m)[:5])
            return ctor(c, P, rng, B, m), m
        p = rng.choice(places)
        if k == 2: return "id(%s)" % p, val[p]
        return p, val[p]
    def expr(d):
        op = rng.choice(["+", "-", "*", "><"])
        (x, a), (y, b) = operand(d), operand(d)
        if x[0] == "[" and y[0] == "[": x = rng.choice(places); a = val[x]
        c.count("op_" + op)
        return "%s %s %s" % (x, op, y), {"+": a | b, "-": a - b, "*": a & b, "><": a ^ b}[op]
    # sweeps: at every position in turn, sets that differ in exactly that member
    def sweep():
        p, q = rng.sample(places, 2)
        full = range(B.lo, B.hi + 1)
        b = rng.choice([set(full), set(), B.subset(rng), B.subset(rng)])
        rng.random() < 0.5 and P.do("%s := []" % q)
        P.do("%s := %s" % (p, ctor(c, P, rng, B, b))); val[p] = b
        P.do("cnt := 0"); h = 0
        x = rng.choice(["%s >< [it]" % p, "id(%s) >< [it]" % p, "(%s - [it]) + ([it] - %s)" % (p, p)])
        P.do("for it := %s to %s do begin %s := %s; cnt := (cnt * 3 + ord(%s = %s) * 64 + ord(%s <> %s) * 32 + ord(%s <= %s) * 16 + ord(%s >= %s) * 8 + ord(it in %s) * 4 + ord(%s * %s = %s) * 2 + card(%s)) mod 1000003 end"
             % (B.lit(B.lo), B.lit(B.hi), q, x, p, q, p, q, p, q, p, q, q, p, q, p, q))
        for v in full:
            t = b ^ {v}; val[q] = t
            h = (h * 3 + (b == t) * 64 + (b != t) * 32 + (b <= t) * 16 + (b >= t) * 8 + (v in t) * 4 + ((b & t) == b) * 2 + len(t)) % 1000003
        P.say("cnt", str(h)); c.count("sweep_positions", len(full))
    for _ in range(2): sweep()
    for _ in range(22):
        k = rng.randrange(10)
        if k < 4:
            p = rng.choice(places)
            x, m = expr(2)
            P.do("%s := %s" % (p, x)); val[p] = m
            P.do("show(%s)" % p); P.out.append(text(m).encode())
            q = rng.choice(places); P.do("show(%s)" % q); P.out.append(text(val[q]).encode())
        elif k == 4:
            x, m = expr(1)
            P.do("probe(%s)" % x); P.out.append(h(m).encode())
        elif k < 7:
            op = rng.choice(["=", "<>", "<=", ">="])
            (x, a), (y, b) = operand(1), operand(1)
            if rng.random() < 0.5:
                p = rng.choice(places); y, b = p, val[p]
                q = rng.choice(places); sub = {v for v in b if rng.random() < 0.9}
                if len(sub) < 60 and q != p: P.do("%s := %s" % (q, ctor(c, P, rng, B, sub))); val[q] = sub; x, a = q, sub
                else: P.do("%s := %s" % (q, p)); val[q] = set(b); x, a = q, b
            if x[0] == "[" and y[0] == "[": continue
            r = {"=": a == b, "<>": a != b, "<=": a <= b, ">=": a >= b}[op]
            P.say("%s %s %s" % (x, op, y), "TRUE" if r else "FALSE"); c.count("compare_" + op)
        elif k == 7:
            v = B.rand(rng); x, m = operand(1)
            if rng.random() < 0.5: P.do("it := %s" % B.lit(v)); e = "it"
            else: e = B.lit(v)
            P.say("%s in %s" % (e, x), "TRUE" if v in m else "FALSE"); c.count("in")
        elif k == 8:
            p = rng.choice(places)
            x, m = operand(1)
            P.do("setto(%s, %s)" % (p, x)); val[p] = m
            P.say("card(%s)" % p, str(len(m))); c.count("param")
        else:
            # whole aggregates copy their sets
            if rng.random() < 0.5:
                b = P.var("at"); P.do("%s := a" % b); P.do("a[2] := a[2] + [%s]" % B.lit(B.hi))
                P.do("show(%s[2])" % b); P.out.append(text(val["a[2]"]).encode()); val["a[2]"] = val["a[2]"] | {B.hi}
            else:
                # iteration visits members once, ascending, and the body may change the set
                p = rng.choice(places)
                P.do("for it in %s do begin write(%s, ' '); %s := %s - [it] end; writeln" % (p, wr, p, p))
                P.out.append("".join("%d " % v for v in sorted(val[p])).encode()); val[p] = set()
    for p in places: P.do("show(%s)" % p); P.out.append(text(val[p]).encode())
    P.say("ga0, ga1, ga2, ga3, r.a, r.b", "7000700170027003LR")
    c.state("base", B.kind, B.lo, B.hi - B.lo + 1)

def mixed(c, P, rng):
    """Sets of different subranges of one host type in one expression, assignment or comparison."""
    kind = rng.choice(["int", "char"])
    def rg():
        if kind == "char":
            a, b = sorted(rng.sample(range(33, 126), 2))
            a, b = [x if x != 39 else 40 for x in (a, b)]
            return (a, max(b, a + 1) if max(b, a + 1) != 39 else 40)
        a = rng.randrange(0, 300); return (a, a + rng.randrange(0, 200))
    L = (lambda v: str(v)) if kind == "int" else (lambda v: "'%s'" % chr(v) if v != 39 else "chr(39)")
    sets = []
    for k in range(4):
        lo, hi = rg()
        if lo == 39: lo = 40
        if hi < lo: hi = lo
        t = P.type("set of %s..%s" % (L(lo), L(hi)))
        v = P.var(t)
        m = {x for x in range(lo, hi + 1) if rng.random() < 0.3 and x != 39}
        P.do("%s := [%s]" % (v, ", ".join(L(x) for x in sorted(m)))); sets.append([v, lo, hi, m])
    P.var("integer" if kind == "int" else "char", "i")
    def show(v, m):
        P.do("for i in %s do write(ord(i), ' '); writeln('#')" % v); P.out.append(("".join("%d " % x for x in sorted(m)) + "#").encode())
    for _ in range(14):
        a, b, d = rng.choice(sets), rng.choice(sets), rng.choice(sets)
        op = rng.choice(["+", "-", "*", "><"])
        if max(a[2], b[2]) - min(a[1], b[1]) >= 500: continue
        m = {"+": a[3] | b[3], "-": a[3] - b[3], "*": a[3] & b[3], "><": a[3] ^ b[3]}[op]
        k = rng.randrange(3)
        if k == 0:
            cmpo = rng.choice(["=", "<>", "<=", ">="])
            r = {"=": a[3] == b[3], "<>": a[3] != b[3], "<=": a[3] <= b[3], ">=": a[3] >= b[3]}[cmpo]
            P.say("%s %s %s" % (a[0], cmpo, b[0]), "TRUE" if r else "FALSE")
        elif k == 1:
            v = rng.choice(sorted(a[3] | b[3] | {a[1]}))
            P.say("%s in (%s %s %s)" % (L(v), a[0], op, b[0]), "TRUE" if v in m else "FALSE")
        elif all(d[1] <= x <= d[2] for x in m):
            P.do("%s := %s %s %s" % (d[0], a[0], op, b[0])); d[3] = m; show(d[0], m)
        c.count("mixed_" + op)
    for s in sets: show(s[0], s[3])

PROF = dict(sets=4, setops=True, arrays=2, records=2, variants=0, ptrs=0, strings=0, reals=False, stmtw=dict(assign=6, forin=5, trace=4), routines=3)
def case(c):
    kit, rng = c.kits["plain"], c.rng
    if c.idx % 4 == 0:
        c.state("kind", "random"); gen_case(c, kit, PROF, nopts=2); return
    P = Prog()
    if c.idx % 4 == 1: mixed(c, P, rng)
    else: table(c, P, rng, Base(rng))
    src = P.src()
    for _ in range(2): expect(c, kit, src, P.want(), random_opts(rng), what="set table")
    c.count("lines_checked", len(P.out)); c.key = C.sha(src); c.sample = clip(src, 1500)

if __name__ == "__main__":
    simple_check("C05",
        "Each case is one program run under two random option sets whose every set value is mirrored by a Python set: tables of constructors, operators, "
        "comparisons, membership, parameters, results, aggregates and iteration over one base type (integers with any lower bound and 1 to 512 members, chars, "
        "enumerations, booleans), expressions mixing subranges of one host type, and random set programs. Non-trivial: distinct source, all lines checked.",
        ["members outside the base type of a target and the non-standard < and > are not exercised"], case)
