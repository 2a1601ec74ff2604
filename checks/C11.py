import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import math
from fractions import Fraction as F

class Bad(Exception): pass
M = 2**31 - 1
def lit(v):
    s = repr(float(v))
    if "e" in s:
        m, e = s.split("e"); s = (m if "." in m else m + ".0") + "E" + e
    return s
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def i32(v):
    if not -M <= v <= M: raise Bad
    return v
class RV(float):
    """A real value with a bound of the relative error a differently rounded evaluation may have."""
    e = 0.0
def ev(v, e, *ops):
    """v computed from the operand values ops, whose relative errors are amplified by e; too ill-conditioned ones are not used."""
    r = RV(v)
    r.e = 4e-16 + e * max([getattr(o, "e", 0.0) for o in ops])
    if r.e > 2e-12: raise Bad
    return r
RVE = RV(1); RVE.e = 4e-16
def rr(v):
    v = float(v)
    if v != v or abs(v) > 1e200 or v and abs(v) < 1e-200: raise Bad
    return v
ENUM = ["north", "east", "south", "west", "up", "down"]

class G:
    """Expressions that are constants, as (type, constant text, run-time text, value). Run-time text has variables for the leaves."""
    def __init__(s, P, r):
        s.P, s.r, s.named, s.vars, s.n = P, r, {}, [], 0
    def leafvar(s, t, text):
        """A variable of the program initialised to the leaf."""
        s.n += 1; v = "v%d" % s.n
        s.vars.append((v, {"int": "integer", "real": "real", "char": "char", "bool": "boolean", "str": "string", "enum": "dir"}[t], text))
        return v
    def leaf(s, t):
        r = s.r
        if s.named.get(t) and r.random() < .45: return (t,) + r.choice(s.named[t])
        if t == "int":
            v = r.choice([0, 1, 2, 3, 5, 7, 10, 16, 100, 255, 256, 1000, 32767, 65536, M, r.randrange(100), r.randrange(10**r.randrange(1, 10))])
            tx = str(v) if r.random() < .8 else "$%x" % v
            return (t, tx, s.leafvar(t, str(v)), v)
        if t == "real": v = r.choice([0.5, 1.0, 2.25, 3.14159, 1e10, 1.5e-7, 100.0, r.randrange(1, 10**6) / 64, r.random() * 10]); return (t, lit(v), s.leafvar(t, lit(v)), v)
        if t == "char":
            v = r.choice([32, 39, 48, 65, 90, 97, 122, 126, r.randrange(33, 126)]); tx = qs(chr(v))
            return (t, tx, s.leafvar(t, tx), v)
        if t == "bool": v = r.random() < .5; return (t, str(v).lower(), s.leafvar(t, str(v).lower()), v)
        if t == "enum": v = r.randrange(6); return (t, ENUM[v], s.leafvar(t, ENUM[v]), v)
        n = r.choice([2, 2, 3, 5, 10, 40]); v = "".join(r.choice("abcXYZ 019'.") for _ in range(n))
        return (t, qs(v), s.leafvar(t, qs(v)), v)
    def paren(s, e):
        return (e[0], "(%s)" % e[1], "(%s)" % e[2], e[3])
    def make(s, t, d):
        r = s.r
        for _ in range(30):
            try: return s._make(t, d)
            except (Bad, ZeroDivisionError, OverflowError, ValueError): continue
        return s.leaf(t)
    def operand(s, t, d):
        e = s.make(t, d)
        # an operator expression needs parentheses; so does a unary one
        return e if e[1].isalnum() or (e[1][0] == "'" ) and t != "str" or e[1].count("(") == 1 and e[1][-1] == ")" and e[1][0] != "(" and "-" not in e[1].split("(")[0] and " " not in e[1].split("(")[0] and s.r.random() < .9 else s.paren(e)
    def bin(s, t, op, a, b, v):
        return (t, "%s %s %s" % (a[1], op, b[1]), "%s %s %s" % (a[2], op, b[2]), v)
    def fn(s, t, f, a, v): return (t, "%s(%s)" % (f, ", ".join(x[1] for x in a)), "%s(%s)" % (f, ", ".join(x[2] for x in a)), v)
    def _make(s, t, d):
        r = s.r
        if d <= 0: return s.leaf(t)
        o = lambda q=t: s.operand(q, d - 1)
        k = r.randrange(12)
        if t == "int":
            if k < 5:
                op = r.choice(["+", "-", "*", "div", "mod", "+", "-", "*", "div", "mod", "and", "or", "xor", "shl", "shr", "pow"])
                a, b = o(), o(); x, y = a[3], b[3]
                if op == "+": v = x + y
                elif op == "-": v = x - y
                elif op == "*": v = x * y
                elif op == "div": v = tdiv(x, y)
                elif op == "mod": v = x - tdiv(x, y) * y
                elif op == "and": v = x & y
                elif op == "or": v = x | y
                elif op == "xor": v = x ^ y
                elif op in ("shl", "shr"):
                    if r.random() < .9: n = r.randrange(0, 12); b = ("int", str(n), s.leafvar("int", str(n)), n); y = n
                    if x < 0 or not 0 <= y < 31: raise Bad
                    v = x << y if op == "shl" else x >> y
                else:
                    n = r.randrange(0, 8); b = ("int", str(n), s.leafvar("int", str(n)), n)
                    if r.random() < .6:
                        # large powers of small numbers
                        x = r.choice([2, 2, 3, -2, -3, 1, -1, 0, 5, 7, 10, -7]); n = r.randrange(0, {0: 40, 1: 40, 2: 31, 3: 20, 5: 14, 7: 12, 10: 10}[abs(x)])
                        a = ("int", "%d" % x if x >= 0 else "(%d)" % x, s.leafvar("int", str(x)) if x >= 0 else "(%d)" % x, x); b = ("int", str(n), s.leafvar("int", str(n)), n)
                    if x == 0 and n == 0: raise Bad
                    v = x ** n
                return s.bin(t, op, a, b, i32(v))
            if k == 5:
                # a chain without parentheses: precedence and grouping
                a, b, e = s.leaf("int"), s.leaf("int"), s.leaf("int"); p, q = r.choice(["+", "-", "*", "div", "mod"]), r.choice(["+", "-", "*", "div", "mod"])
                f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "div": tdiv, "mod": lambda x, y: x - tdiv(x, y) * y}
                if p in "+-" and q not in "+-": v = f[p](a[3], i32(f[q](b[3], e[3])))
                else: v = f[q](i32(f[p](a[3], b[3])), e[3])
                return (t, "%s %s %s %s %s" % (a[1], p, b[1], q, e[1]), "%s %s %s %s %s" % (a[2], p, b[2], q, e[2]), i32(v))
            if k == 6:
                op = r.choice(["-", "-", "+", "not "]); a = o(); v = {"-": -a[3], "+": a[3], "not ": ~a[3]}[op]
                if a[1][0] in "-+": a = s.paren(a)
                return (t, op + a[1], op + a[2], i32(v))
            if k == 7:
                f = r.choice(["succ", "pred"]); a = o()
                if r.random() < .4: n = r.randrange(0, 100); return s.fn(t, f, [a, ("int", str(n), str(n), n)], i32(a[3] + n if f == "succ" else a[3] - n))
                return s.fn(t, f, [a], i32(a[3] + (1 if f == "succ" else -1)))
            if k == 8: q = r.choice(["char", "bool", "enum", "int"]); a = o(q); return s.fn(t, "ord", [a], int(a[3]))
            if k == 9:
                f = r.choice(["trunc", "round"]); a = o("real"); x = F(a[3])
                if getattr(a[3], "e", 0) and abs(2 * a[3] - round(2 * a[3])) < 1e-9 * max(1, abs(a[3])): raise Bad
                n = abs(x) + (F(1, 2) if f == "round" else 0); n = n.numerator // n.denominator
                return s.fn(t, f, [a], i32(n if x >= 0 else -n))
            if k == 10: tx, v = r.choice([("integer", 4), ("char", 1), ("real", 8), ("boolean", 1), ("longint", 8), ("arr5", 20), ("dir", 4)]); return (t, "sizeof(%s)" % tx, "sizeof(%s)" % tx, v)
            a = s.make("str", 1)
            return (t, "length(%s)" % a[1], "%d" % len(a[3]), len(a[3]))
        if t == "real":
            if k < 5:
                op = r.choice(["+", "-", "*", "/"]); a, b = o(r.choice(["real", "real", "int"])), o(r.choice(["real", "real", "int"]))
                if op != "/" and a[0] == b[0] == "int": raise Bad
                x, y = float(a[3]), float(b[3])
                v = rr({"+": x + y, "-": x - y, "*": x * y, "/": x / y if op == "/" else 0}[op])
                v = ev(v, 1 if op == "*" or op == "/" else max(abs(x), abs(y)) / abs(v) if v else 1e9, a[3], b[3])
                if op in "*/": v.e += min(getattr(a[3], "e", 0), getattr(b[3], "e", 0))
                return s.bin(t, op, a, b, v)
            if k == 5:
                a = o(); op = r.choice("-+")
                if a[1][0] in "-+": a = s.paren(a)
                return (t, op + a[1], op + a[2], ev(-a[3], 1, a[3]) if op == "-" else a[3])
            if k == 6: a = o(); n = r.randrange(-4, 7) if r.random() < .6 or not 1e-3 < abs(a[3]) < 1e3 else r.randrange(-25, 33); nt = str(n) if n >= 0 else "(%d)" % n; return (t, "%s pow %s" % (a[1], nt), "%s pow %s" % (a[2], nt), ev(rr(float(F(a[3]) ** n)), abs(n) + 1, RVE, a[3]))
            if k == 7:
                a, b = o(r.choice(["real", "int"])), s.leaf(r.choice(["real", "int"]))
                if a[3] <= 0 and (not isinstance(b[3], int) or a[3] == 0) or abs(b[3]) > 30 or abs(a[3]) > 1e6: raise Bad
                return s.bin(t, "**", a, b, ev(rr(float(a[3]) ** b[3]), (abs(b[3]) + 1) * max(1, abs(math.log(abs(a[3])))) if a[3] else 1, RVE, a[3], b[3]))
            f = r.choice(["sin", "cos", "ln", "exp", "frac", "int"]); a = o("real" if f == "int" else r.choice(["real", "real", "int"])); x = float(a[3])
            if f in ("sin", "cos") and abs(x) > 1e3 or f == "exp" and abs(x) > 100 or f == "ln" and (x <= 0 or abs(x - 1) < 1e-3): raise Bad
            v = rr({"sin": math.sin, "cos": math.cos, "ln": math.log, "exp": math.exp, "frac": lambda q: math.fmod(q, 1), "int": lambda q: float(math.trunc(q))}[f](x))
            v = ev(v, {"sin": lambda: abs(x / math.tan(x)), "cos": lambda: abs(x * math.tan(x)), "ln": lambda: 1 / abs(v), "exp": lambda: abs(x), "frac": lambda: abs(x / v), "int": lambda: 1}[f](), a[3], *([RVE] if f not in ("frac", "int") else []))
            if f == "frac" and abs(v) < 1e-3 or f in ("sin", "cos") and abs(v) < 1e-3: raise Bad
            if f in ("int", "frac") and (abs(x) > 1e9 or abs(x - round(x)) < 1e-6): raise Bad
            return s.fn(t, f, [a], v)
        if t == "char":
            if k < 6:
                n = r.choice([0, 1, 9, 10, 32, 65, 127, 128, 200, 255, r.randrange(256)]); e = ("int", str(n), s.leafvar("int", str(n)), n) if k < 4 else o("int")
                if not 0 <= e[3] <= 255: raise Bad
                return s.fn(t, "chr", [e], e[3])
            f = r.choice(["succ", "pred"]); a = o(); v = a[3] + (1 if f == "succ" else -1)
            if not 0 <= v <= 255: raise Bad
            return s.fn(t, f, [a], v)
        if t == "bool":
            if k < 5: a = o(); return (t, "not " + a[1], "not " + a[2], not a[3])
            if k < 9: a = o("int"); return s.fn(t, "odd", [a], bool(a[3] & 1))
            a = o(); f = "succ" if not a[3] else "pred"; return s.fn(t, f, [a], not a[3])
        if t == "enum":
            f = r.choice(["succ", "pred"]); a = o(); n = 1
            if r.random() < .3: n = r.randrange(0, 4)
            v = a[3] + (n if f == "succ" else -n)
            if not 0 <= v <= 5: raise Bad
            return s.fn(t, f, [a] + ([("int", str(n), str(n), n)] if n != 1 or r.random() < .3 else []), v)
        a, b = o(), s.operand(r.choice(["str", "str", "char"]), d - 1)
        bv = chr(b[3]) if b[0] == "char" else b[3]
        if len(a[3]) + len(bv) > 200 or min(bv + " ") < " " or max(bv + " ") > "~": raise Bad
        if r.random() < .5 or b[0] == "str": return s.bin(t, "+", a, b, a[3] + bv)
        return s.bin(t, "+", b, a, bv + a[3])
    def name(s, t, e):
        s.named.setdefault(t, [])
        return e

def show(t, v):
    return str(v) if t == "int" else ("TRUE" if v else "FALSE") if t == "bool" else ENUM[v] if t == "enum" else v if t == "str" else str(v)
class Num:
    def __init__(s, v): s.v = v

def case(c):
    kit, r = c.kits["plain"], c.rng
    P = Prog(); g = G(P, r); out = []
    P.types += []
    decl = []    # declarations in order, in one const section after the types
    T = ["int", "int", "int", "real", "char", "bool", "enum", "str"]
    consts = []
    for i in range(r.randrange(10, 26)):
        t = r.choice(T); e = g.make(t, r.choice([1, 1, 2, 2, 3])); n = "k%d" % i
        if t == "str" and not e[3]: continue
        decl.append("%s = %s" % (n, e[1])); consts.append((t, n, e)); c.count("constants"); c.state("type", t)
        # later expressions use the name; their run-time version uses the run-time value in a variable
        v = "w%d" % i; g.vars.append((v, {"int": "integer", "real": "real", "char": "char", "bool": "boolean", "str": "string", "enum": "dir"}[t], e[2]))
        g.named.setdefault(t, []).append((n, v, e[3]))
    body, checks = [], []
    def say(x, want, what): body.append("writeln(%s)" % x); checks.append((want, what))
    def pr(t, x): return "ord(%s)" % x if t == "char" else "%s:30" % x if t == "real" else x
    for t, n, e in consts:
        want = Num(e[3]) if t == "real" else show(t, e[3])
        say(pr(t, n), want, "constant %s = %s" % (n, clip(e[1], 200)))
        say(pr(t, "w" + n[1:]), want, "expression %s" % clip(e[2], 200)); c.count("values", 2)
        if t == "real": say("abs(%s - %s) <= abs(%s) * 1E-12" % (n, "w" + n[1:], n), "TRUE", "difference of %s" % clip(e[1], 200))
        else: say("%s = %s" % (n, "w" + n[1:]), "TRUE", "equality of %s" % clip(e[1], 200))
    types = ["dir = (%s)" % ", ".join(ENUM), "arr5 = array [1..5] of integer"]
    vars_ = []
    # constants and constant expressions as bounds, sizes, labels and initial values
    subs = []
    for j in range(r.randrange(4, 9)):
        k = r.randrange(9)
        if k == 0:
            a, b = g.make("int", 2), g.make("int", 2)
            lo, hi = (a, b) if a[3] <= b[3] else (b, a)
            if hi[3] - lo[3] > 5000: hi = ("int", "%s + %d" % (g.paren(lo)[1], r.randrange(0, 100)), "", 0); hi = (hi[0], hi[1], "", lo[3] + int(hi[1].split("+")[-1]))
            if hi[3] > M: continue
            vars_.append("a%d: array [%s..%s] of char" % (j, lo[1], hi[1]))
            say("sizeof(a%d)" % j, str(hi[3] - lo[3] + 1), "size of array [%s..%s]" % (lo[1], hi[1]))
            body.append("a%d[%s] := 'L'; a%d[%s] := 'H'" % (j, "(%d)" % lo[3], j, "(%d)" % hi[3])); say("a%d[%s], a%d[%s]" % (j, lo[1] , j, hi[1]), "HH" if lo[3] == hi[3] else "LH", "bounds"); c.count("array_bounds")
        elif k == 1:
            e = g.make("int", 2); v = e[3]
            if not 1 <= v <= 255: n = r.randrange(1, 256); e = ("int", "%s - %s + %d" % (g.paren(e)[1], g.paren(e)[1], n), "", n)
            vars_.append("s%d: string[%s]" % (j, e[1])); body.append("s%d := '%s'; for i := 1 to 26 do s%d := s%d + '%s'" % (j, "q" * 10, j, j, "r" * 10))
            say("length(s%d)" % j, str(min(255, min(e[3], 270))), "size of string[%s]" % e[1]); c.count("string_sizes")
        elif k == 2:
            e = g.make("int", 2); d = sorted({e[3], e[3] + 1 if e[3] < M else e[3], r.randrange(-100, 100), e[3] - 1 if e[3] > -M else e[3]})
            for q in d:
                body.append("i := %d; case i of %s: writeln('hit'); otherwise writeln('miss') end" % (q, e[1])); checks.append(("hit" if q == e[3] else "miss", "label %s" % e[1])); c.count("labels")
        elif k == 3:
            t = r.choice(["int", "real", "char", "bool", "enum"]); e = g.make(t, 2)
            if t == "str": continue
            tn = {"int": "integer", "real": "real", "char": "char", "bool": "boolean", "enum": "dir"}[t]
            vars_.append("x%d: %s value %s" % (j, tn, e[1])); say(pr(t, "x%d" % j), Num(e[3]) if t == "real" else show(t, e[3]), "initial value %s" % e[1]); c.count("initial_values")
        elif k == 4:
            els, mem = [], set()
            for _ in range(r.randrange(1, 5)):
                a = g.make("int", 1)
                if not 0 <= a[3] <= 60: n = r.randrange(0, 60); a = ("int", str(n), "", n)
                if r.random() < .4:
                    n = r.randrange(0, 10); els.append("%s..%s" % (a[1], "%d" % (a[3] + n))); mem |= set(range(a[3], a[3] + n + 1))
                else: els.append(a[1]); mem.add(a[3])
            decl.append("set%d = [%s]" % (j, ", ".join(els))); x = [q for q in sorted(r.sample(range(0, 72), 12) + list(mem)[:4])]
            vars_.append("y%d: set of 0..75" % j); body.append("y%d := set%d" % (j, j)); 
            for q in x[:10]: say("%d in y%d" % (q, j), "TRUE" if q in mem else "FALSE", "set constant [%s]" % ", ".join(els))
            say("card(y%d)" % j, str(len(mem)), "card"); c.count("set_constants")
        elif k == 5:
            # case over characters with constant labels and ranges
            a = g.make("char", 1); hi = min(255, a[3] + r.randrange(0, 6))
            body.append("for i := 0 to 255 do begin ch := chr(i); case ch of %s..chr(%d): write(i:1, ' '); otherwise end end; writeln" % (a[1], hi)); checks.append((" ".join(str(q) for q in range(a[3], hi + 1)) + " ", "character labels %s" % a[1])); c.count("labels")
        elif k == 6:
            # a scope of its own
            hide = r.sample(consts, min(len(consts), r.randrange(1, 4))); inner, uses = [], []
            olds = dict((t, list(v)) for t, v in g.named.items()); keep = len(g.vars)
            hidden = {n for t, n, e in hide}
            g.named = {t: [x for x in v if x[0] not in hidden] for t, v in olds.items()}
            for t, n, e in hide:
                m = r.randrange(4)
                if m < 2:
                    t2 = r.choice(["int", "char", "bool", "enum", "int"]); e2 = g.make(t2, 1)
                    inner.append("const %s = %s;" % (n, e2[1])); uses.append((t2, n, e2[3]))
                elif m == 2: q = r.randrange(1000); inner.append("var %s: integer;" % n); uses.append(("set", n, q))
                else: inner.append("type t%s = (%s, other%d_%s);" % (n, n, j, n)); uses.append(("ord", n, 0))
            g.named = olds
            st = []
            for t, n, v in uses:
                if t == "set": st.append("%s := %d; writeln(%s)" % (n, v, n)); checks.append((str(v), "variable hiding the constant " + n))
                elif t == "ord": st.append("writeln(ord(%s))" % n); checks.append(("0", "enumeration value hiding the constant " + n))
                else: st.append("writeln(%s)" % pr(t, n)); checks.append((show(t, v), "inner constant " + n))
            rest = [x for x in consts if x not in hide]
            for t, n, e in r.sample(rest, min(3, len(rest))):
                st.append("writeln(%s)" % pr(t, n)); checks.append((Num(e[3]) if t == "real" else show(t, e[3]), "outer constant %s seen inside" % n))
            subs.append("procedure scope%d;\n%s\nbegin %s end;" % (j, "\n".join(inner), "; ".join(st))); body.append("scope%d" % j); c.count("scopes")
            for t, n, e in hide: say(pr(t, n), Num(e[3]) if t == "real" else show(t, e[3]), "constant %s after the scope" % n)
        elif k == 7:
            a = g.make("int", 2); n = r.randrange(0, 6)
            if a[3] + n >= M: continue
            body.append("acc := 0; for i := %s to %s + %d do acc := acc + 1; writeln(acc, ' ', i)" % (a[1], g.paren(a)[1], n)) if False else body.append("acc := 0; for i := %s to %d do acc := acc + 1; writeln(acc)" % (a[1], a[3] + n)); checks.append((str(n + 1), "for from %s" % a[1])); c.count("for_bounds")
        else:
            lo = g.make("int", 2); n = r.randrange(1, 50)
            if lo[3] + n > M: continue
            types.append("sub%d = %s..%d" % (j, lo[1], lo[3] + n)) if "k" not in lo[1] and (lo[1][0].isdigit() or lo[1][0] == "-") else None
            if types[-1].startswith("sub%d " % j) and "sub%d" % j in types[-1]:
                vars_.append("z%d: array [sub%d] of boolean" % (j, j)); say("sizeof(z%d)" % j, str(n + 1), "subrange %s" % types[-1]); c.count("subranges")
    src = "program p(output);\ntype\n" + "".join("  %s;\n" % x for x in types)
    # some constants before the types they do not use
    src += "const\n" + "".join("  %s;\n" % x for x in decl)
    src += "var i, acc: integer; ch: char;\n" + "".join("  %s: %s;\n" % (v, t) for v, t, _ in g.vars) + "".join("  %s;\n" % x for x in vars_)
    src += "\n".join(subs) + "\nprocedure start;\nbegin\n" + ";\n".join("  %s := %s" % (v, x) for v, _, x in g.vars) + "\nend;\nbegin\n  start;\n" + ";\n".join("  " + x for x in body) + "\nend.\n"
    o = random_opts(r); c.state("opts", *o)
    compile_ok(c, kit, src, o)
    res = K.run(["./p"], c.dir, cpu=20); c.count("runs")
    fs = {"p.pas": src, "options": " ".join(o), "got": res.out}
    if res.timeout: raise Inconclusive("time limit")
    got = res.out.decode("latin-1").split("\n")
    if res.rc != 0 or len(got) != len(checks) + 1: raise Violation("status %d and %d lines of output, expected status 0 and %d lines; %s" % (res.rc, len(got) - 1, len(checks), clip(res.err)), fs)
    for ln, (want, what) in zip(got, checks):
        if isinstance(want, Num):
            try: ok = abs(float(ln) - want.v) <= 1e-11 * abs(want.v)
            except ValueError: ok = False
            w = want.v
        else: ok, w = ln == want, want
        if not ok: raise Violation("%s: prints %r, expected %r, options %s" % (what, clip(ln), w, " ".join(o)), fs)
        c.count("values_checked")
    c.key = C.sha(src); c.sample = clip(src, 1200)


if __name__ == "__main__":
    simple_check("C11",
        "Each case compiles and runs one program with ten to twenty-five constants defined by random expressions (all operators and constant functions, signs, parentheses, chains, named constants, characters, strings, booleans, "
        "enumeration values, sizeof). The same expressions with variables for the leaves are computed at run time. Monitors compare both with a reference value and with each other; further ones observe constant expressions used as array bounds, "
        "string sizes, case labels, set constants, subranges, loop bounds and initial values, and constants hidden by declarations of inner scopes. Non-trivial: distinct program.",
        ["integer subexpressions stay within 32 bits", "real values agree within 1e-11"], case)
