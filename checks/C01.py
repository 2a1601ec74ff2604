import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import math
IMIN, IMAX, LMIN, LMAX = -2**31, 2**31 - 1, -2**63, 2**63 - 1
BI = [0, 1, -1, 2, -2, 3, 5, 7, -7, 10, 13, 31, 32, 33, 100, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, 65535, 65536,
      10**6, 123456789, -987654321, 2**30, 2**30 - 1, -2**30, IMAX, IMAX - 1, IMIN, IMIN + 1, 46340, 46341, -46341]
BL = BI + [2**31, 2**31 + 1, 2**32, 2**32 - 1, -2**31 - 1, 2**33 + 5, 10**12, -10**12 - 7, 2**53, 2**62, -2**62, LMAX, LMIN + 1, LMIN,
           3037000499, -3037000499, 0x5555555555555555, 0x0123456789abcdef]
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def lit(t, v):
    """Literal text, and whether it is a constant expression safe to name."""
    if t == "char": return ("'%s'" % chr(v) if 32 < v < 127 and v != 39 else "chr(%d)" % v), 32 < v < 127 and v != 39
    if t == "boolean": return ("true" if v else "false"), True
    if t == "colour": return COL[v], True
    if t == "real":
        s = repr(float(v))
        return (s if "." in s or "e" in s else s + ".0"), True
    if v == IMIN: return "-2147483647 - 1", False
    if v == LMIN: return "-9223372036854775807 - 1", False
    if t == "longint" and 2**31 <= abs(v) < 2**32:
        b = v // 2 if v > 0 else -(-v // 2)
        # written as a sum of 64-bit quantities
        return "big0 + (%d) + (%d) + (%d)" % (b - 9, v - 2 * b + 9, b), False
    return str(v), True
COL = ["red", "green", "blue", "black", "white", "cyan"]
INTOPS = ["+", "-", "*", "div", "mod", "and", "or", "xor", "shl", "shr", "pow", "<", "<=", ">", ">=", "=", "<>"]
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "=": lambda a, b: a == b, "<>": lambda a, b: a != b}
def intop(op, a, b, w):
    if op in CMP: return CMP[op](a, b)
    if op == "+": return a + b
    if op == "-": return a - b
    if op == "*": return a * b
    if op in ("div", "mod"):
        if b == 0 or tdiv(a, b) >= 2**(w - 1): return None
        return tdiv(a, b) if op == "div" else a - tdiv(a, b) * b
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return a << b if a >= 0 and 0 <= b < w else None
    if op == "shr": return a >> b if a >= 0 and 0 <= b < w else None
    if op == "pow" and b < 0: return None if a == 0 else a ** (-b) if abs(a) == 1 else 0
    if op == "pow": return a ** b if 0 <= b < 64 and not (a == 0 and b == 0) else None
def show(v):
    return "TRUE" if v is True else "FALSE" if v is False else str(v)

def operand(P, rng, t, v):
    s, k = lit(t, v)
    return (t, s, k)

def matrix(c, P, rng):
    P.type("(%s)" % ", ".join(COL), "colour")
    P.const("4", "smallk")
    P.var("longint", "big0"); P.do("big0 := 0")
    n = 0
    while n < 45:
        k = rng.randrange(12)
        if k < 5:
            ta, tb = rng.choice([("integer", "integer"), ("integer", "integer"), ("longint", "longint"), ("integer", "longint"), ("longint", "integer")])
            op = rng.choice(INTOPS + ["pow"])
            w = 32 if (ta, tb) == ("integer", "integer") else 64
            a = rng.choice(BI if ta == "integer" else BL)
            b = rng.choice(BI if tb == "integer" else BL)
            if op in ("shl", "shr"): b = rng.randrange(w)
            if op == "pow": a, b = rng.choice([(rng.randrange(-6, 12), rng.randrange(0, 20)), (2, rng.randrange(31 if w == 32 else 62)), (-1, rng.randrange(50)), (a, 1), (a, 2), (rng.choice([-1, 1, -1, 2, -3, a]), -rng.randrange(1, 40))])
            if op == "pow" and w == 64 and (ta, tb) != ("longint", "longint"): continue
            r = intop(op, a, b, w)
            if r is None or (r is not True and r is not False and not -2**(w - 1) <= r < 2**(w - 1)): continue
            # an operand written as a literal or constant is 32 bits wide when it fits
            locs = None
            if w == 64: locs = [l for l in LOCS if l not in ("lit", "const")]
            pl = located(P, rng, [operand(P, rng, ta, a), operand(P, rng, tb, b)], lambda e: "writeln(%s %s %s)" % (e[0], op, e[1]), locs)
            P.out.append(show(r).encode())
            c.state(op, ta, tb, *pl)
            c.count("binary_" + op)
        elif k < 7:
            t = rng.choice(["char", "boolean", "colour"])
            hi = {"char": 255, "boolean": 1, "colour": 5}[t]
            a, b = rng.choice([rng.randrange(hi + 1), 0, hi]), rng.choice([rng.randrange(hi + 1), 0, hi])
            if t == "char" and rng.random() < 0.4: a = rng.choice([127, 128, 200, 255])
            op = rng.choice(list(CMP))
            pl = located(P, rng, [operand(P, rng, t, a), operand(P, rng, t, b)], lambda e: "writeln(%s %s %s)" % (e[0], op, e[1]))
            P.out.append(show(CMP[op](a, b)).encode()); c.state(op, t, *pl); c.count("compare_" + t)
        elif k == 7:
            f = rng.choice(["ord", "succ", "pred", "succ2", "pred2", "chr", "odd"])
            if f in ("ord", "succ", "pred", "succ2", "pred2"):
                t = rng.choice(["char", "colour", "integer", "boolean", "longint"])
                v = rng.choice({"char": [0, 65, 127, 128, 254, 255], "colour": range(6), "integer": BI, "boolean": [0, 1], "longint": BL}[t])
                d = {"ord": 0, "succ": 1, "pred": -1}.get(f, rng.randrange(0, 4) * (1 if f == "succ2" else -1))
                r = v + d
                lo, hi = {"char": (0, 255), "colour": (0, 5), "integer": (IMIN, IMAX), "boolean": (0, 1), "longint": (LMIN, LMAX)}[t]
                if not lo <= r <= hi or (t == "longint" and f == "ord"): continue
                args = "" if f in ("ord", "succ", "pred") else ", %d" % abs(d)
                core = f.rstrip("2")
                e = lambda x: "%s(%s%s)" % (core, x, args)
                if t in ("integer", "longint"):
                    pl = located(P, rng, [operand(P, rng, t, v)], lambda x: "writeln(%s)" % e(x[0]), [l for l in LOCS if l not in ("lit", "const")])
                    P.out.append(str(r).encode())
                else:
                    pl = located(P, rng, [operand(P, rng, t, v)], lambda x: "writeln(ord(%s))" % e(x[0]))
                    P.out.append(str(r).encode())
                c.state(f, t, *pl)
            elif f == "chr":
                v = rng.randrange(256)
                pl = located(P, rng, [("integer", str(v))], lambda x: "writeln(ord(chr(%s)))" % x[0])
                P.out.append(str(v).encode())
            else:
                t = rng.choice(["integer", "longint"])
                v = rng.choice(BI if t == "integer" else BL)
                pl = located(P, rng, [operand(P, rng, t, v)], lambda x: "writeln(odd(%s))" % x[0])
                P.out.append(show(bool(v & 1)).encode())
            c.count("fn_" + f)
        elif k == 8:
            f = rng.choice(["abs", "sqr", "sign", "popcnt", "min", "max", "neg", "not"])
            t = rng.choice(["integer", "longint"])
            w = 32 if t == "integer" else 64
            a, b = rng.choice(BI if w == 32 else BL), rng.choice(BI if w == 32 else BL)
            r = {"abs": abs(a), "sqr": a * a, "sign": (a > 0) - (a < 0), "popcnt": bin(a & (2**w - 1)).count("1"), "min": min(a, b),
                 "max": max(a, b), "neg": -a, "not": a != b}[f]
            if not -2**(w - 1) <= r < 2**(w - 1): continue
            ops = [operand(P, rng, t, a)] + ([operand(P, rng, t, b)] if f in ("min", "max", "not") else [])
            fmt = {"neg": lambda e: "-" + e[0], "not": lambda e: "not (%s = %s)" % tuple(e)}.get(f, lambda e: "%s(%s)" % (f, ", ".join(e)))
            pl = located(P, rng, ops, lambda e: "writeln(%s)" % fmt(e), [l for l in LOCS if l not in ("lit", "const")])
            P.out.append(show(r).encode()); c.state(f, t, *pl); c.count("fn_" + f)
        elif k == 9:
            # reals: exact dyadic values, so the result is the same on every target
            a = rng.choice([1, -1]) * rng.randrange(0, 4096) / rng.choice([1, 2, 8, 64])
            b = rng.choice([1, -1]) * rng.randrange(1, 512) / rng.choice([1, 2, 4])
            op = rng.choice(["+", "-", "*", "<", "<=", ">", ">=", "=", "<>", "/"])
            if op == "/": b = rng.choice([0.5, 2.0, 4.0, -8.0, 16.0])
            ta, tb = "real", "real"
            if rng.random() < 0.3: b = float(int(b)) or 1.0; tb = rng.choice(["integer", "longint"])
            if op == "/" and tb != "real": b = rng.choice([1.0, 2.0, 4.0, -16.0])
            r = CMP[op](a, b) if op in CMP else a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b
            oa, ob = operand(P, rng, "real", a), operand(P, rng, tb, b if tb == "real" else int(b))
            sw = op != "/" and rng.random() < 0.5
            if sw: oa, ob, r = ob, oa, (CMP[op](b, a) if op in CMP else b - a if op == "-" else r)
            if r == 0 and op not in CMP: continue
            if op in CMP: pl = located(P, rng, [oa, ob], lambda e: "writeln(%s %s %s)" % (e[0], op, e[1])); P.out.append(show(r).encode())
            else:
                pl = located(P, rng, [oa, ob], lambda e: "writeln((%s %s %s):1:12)" % (e[0], op, e[1])); P.out.append(("%.12f" % r).encode())
            c.state(op, "real", tb, *pl); c.count("real_" + op)
        elif k == 10:
            v = rng.choice([1, -1]) * (rng.randrange(0, 2**20) + rng.choice([0, 0.25, 0.5, 0.75, 0.125])) / rng.choice([1, 2, 16, 1024])
            f = rng.choice(["trunc", "round", "abs", "sqr", "frac", "sign", "int"])
            if f == "int": continue
            op = [operand(P, rng, "real", v)]
            if f in ("trunc", "round", "sign"):
                r = math.trunc(v) if f == "trunc" else (math.floor(abs(v) + 0.5) * (1 if v > 0 else -1)) if f == "round" else (v > 0) - (v < 0)
                pl = located(P, rng, op, lambda e: "writeln(%s(%s))" % (f, e[0])); P.out.append(str(r).encode())
            else:
                r = abs(v) if f == "abs" else v * v if f == "sqr" else v - math.trunc(v)
                if r == 0 or v * 2**20 % 1: continue
                pl = located(P, rng, op, lambda e: "writeln(%s(%s):1:40)" % (f, e[0])); P.out.append(("%.40f" % r).encode())
            c.state(f, "real", *pl); c.count("fn_" + f)
        else:
            # precedence and associativity: a flat chain of operators
            pri = {"+": 10, "-": 10, "or": 10, "xor": 10, "*": 20, "div": 20, "mod": 20, "and": 20, "shl": 20, "shr": 20}
            m = rng.randrange(3, 7)
            vals = [rng.randrange(1, 30) for _ in range(m)]
            ops = [rng.choice(list(pri)) for _ in range(m - 1)]
            vs, os_ = [vals[0]], []
            bad = False
            def red():
                o, y, x = os_.pop(), vs.pop(), vs.pop()
                r = intop(o, x, y, 32)
                if r is None or not IMIN <= r <= IMAX or (o == "mod" and y < 0): raise ValueError
                vs.append(r)
            try:
                for o, v in zip(ops, vals[1:]):
                    while os_ and pri[os_[-1]] >= pri[o]: red()
                    os_.append(o); vs.append(v)
                while os_: red()
            except ValueError:
                continue
            pl = located(P, rng, [("integer", str(v)) for v in vals],
                         lambda e: "writeln(%s)" % "".join("%s %s " % (x, o) for x, o in zip(e, ops + [""])))
            P.out.append(str(vs[0]).encode()); c.state("chain", *ops); c.count("chain")
        n += 1

def effects(c, P, rng):
    """Every operand of an operator or function is evaluated exactly once; short-circuit operators skip the right one."""
    P.var("integer", "cnt"); P.do("cnt := 0")
    P.subs.append("function fi(i: integer): integer; begin cnt := cnt + 1; fi := i end;\n"
                  "function fl(i: longint): longint; begin cnt := cnt + 1; fl := i end;\n"
                  "function fr(x: real): real; begin cnt := cnt + 1; fr := x end;\n"
                  "function fb(b: boolean): boolean; begin cnt := cnt + 1; fb := b end;\n"
                  "function fc(b: char): char; begin cnt := cnt + 1; fc := b end;")
    P.var("array [0..9] of integer", "ar"); P.var("longint", "lv"); P.var("real", "rv"); P.var("boolean", "bv"); P.var("char", "cv"); P.var("integer", "iv")
    for i in range(10): P.do("ar[%d] := %d" % (i, i * i))
    def t(n, s, show, val):
        P.do("cnt := 0"); P.do(s)
        P.say("%s, ' ', cnt" % show, "%s %d" % (val, n))
        c.count("side_effect_probes")
    R = rng.randrange
    for _ in range(40):
        a, b = R(1, 60), R(1, 9)
        k = R(22)
        if k == 0: o = rng.choice(["+", "-", "*", "div", "mod", "and", "or", "xor"]); t(2, "iv := fi(%d) %s fi(%d)" % (a, o, b), "iv", intop(o, a, b, 32))
        elif k == 1: o = rng.choice(["+", "-", "*", "div", "mod"]); t(2, "lv := fi(%d) %s fl(%d)" % (a, o, b), "lv", intop(o, a, b, 64))
        elif k == 2: o = rng.choice(list(CMP)); t(2, "bv := fi(%d) %s fi(%d)" % (a, o, b), "bv", show(CMP[o](a, b)))
        elif k == 3: o = rng.choice(list(CMP)); t(2, "bv := fr(%d) %s fi(%d)" % (a, o, b), "bv", show(CMP[o](a, b)))
        elif k == 4:
            x, y = R(2) == 1, R(2) == 1
            o = rng.choice(["and_then", "or_else"])
            n = 2 if (x if o == "and_then" else not x) else 1
            t(n, "bv := fb(%s) %s fb(%s)" % (show(x), o, show(y)), "bv", show((x and y) if o == "and_then" else (x or y)))
        elif k == 5:
            x, y = R(2) == 1, R(2) == 1
            t(3, "bv := (fb(%s) = fb(%s)) <> fb(true)" % (show(x), show(y)), "bv", show((x == y) != True))
        elif k == 6: t(1, "iv := sqr(fi(%d))" % a, "iv", a * a)
        elif k == 7: t(1, "rv := sqr(fr(%d))" % a, "rv:1:1", "%.1f" % (a * a))
        elif k == 8: f = rng.choice(["min", "max"]); t(2, "iv := %s(fi(%d), fi(%d))" % (f, a, b), "iv", min(a, b) if f == "min" else max(a, b))
        elif k == 9: f = rng.choice(["min", "max"]); t(2, "rv := %s(fr(%d), fr(%d))" % (f, a, b), "rv:1:1", "%.1f" % (min(a, b) if f == "min" else max(a, b)))
        elif k == 10: t(1, "iv := abs(fi(%d))" % -a, "iv", a)
        elif k == 11: t(1, "rv := abs(fr(%d))" % -a, "rv:1:1", "%.1f" % a)
        elif k == 12: f = rng.choice(["trunc", "round"]); t(1, "iv := %s(fr(%d.25))" % (f, a), "iv", a)
        elif k == 13: t(1, "bv := odd(fi(%d))" % a, "bv", show(a % 2 == 1))
        elif k == 14: f = rng.choice(["succ", "pred"]); t(2, "iv := %s(fi(%d), fi(%d))" % (f, a, b), "iv", a + b if f == "succ" else a - b)
        elif k == 15: t(2, "iv := fi(%d) pow fi(%d)" % (b, b % 5 + 1), "iv", b ** (b % 5 + 1))
        elif k == 16: t(1, "iv := ar[fi(%d)]" % b, "iv", b * b)
        elif k == 17: t(2, "ar[fi(%d)] := fi(%d)" % (b, b * b), "ar[%d]" % b, b * b)
        elif k == 18: t(1, "iv := popcnt(fi(%d))" % a, "iv", bin(a).count("1"))
        elif k == 19: f = rng.choice(["inc", "dec"]); t(1, "%s(ar[fi(%d)])" % (f, b), "ar[%d]" % b, b * b + (1 if f == "inc" else -1)); P.do("ar[%d] := %d" % (b, b * b))
        elif k == 20: t(1, "iv := -fi(%d)" % a, "iv", -a)
        else: t(1, "iv := ord(fc('%s'))" % chr(64 + b), "iv", 64 + b)

EXPR = dict(stmtw=dict(assign=8, trace=6), exprdepth=5, stmts=6, routines=2, procparams=False, gotos=False, variants=0, ptrs=0, enums=3, subs=4, main_stmts=22)
def case(c):
    kit, rng = c.kits["plain"], c.rng
    if c.idx % 3 == 0:
        c.state("kind", "random"); gen_case(c, kit, EXPR, nopts=2)
        return
    P = Prog()
    if c.idx % 3 == 1: matrix(c, P, rng)
    else: effects(c, P, rng); matrix(c, P, rng) if rng.random() < .3 else None
    src = P.src()
    for _ in range(2):
        expect(c, kit, src, P.want(), random_opts(rng), what="expression matrix")
    c.count("results_checked", len(P.out)); c.key = C.sha(src); c.sample = clip(src, 1500)

if __name__ == "__main__":
    simple_check("C01",
        "Each case is one program: a random expression-heavy program compared with a reference interpreter, a matrix of operators and "
        "functions on boundary values with every operand in a random kind of place, or a table of side-effect counts; run under two random "
        "option sets. Non-trivial: at least five checked output lines, distinct source text.",
        ["overflow, shifts of negative values, mod by a negative divisor in random programs and shift counts beyond the width are not exercised",
         "reals are exact binary fractions, so that both targets must agree exactly"], case)
