import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import math, struct
from fractions import Fraction as F

def lit(v):
    s = repr(float(v))
    if "e" in s:
        m, e = s.split("e"); s = (m if "." in m else m + ".0") + "E" + e
    return s
def num(r, t, lo, hi):
    """A value of type t in lo..hi (real bounds)."""
    if t in ("integer", "longint", "small"):
        L = {"integer": 2**31 - 1, "longint": 2**62, "small": 1000}[t]
        a, b = max(-L, math.ceil(max(lo, -2.0**62))), min(L, math.floor(min(hi, 2.0**62)))
        if a > b: return None
        k = r.randrange(4)
        if k == 0: return min(b, max(a, r.choice([0, 1, -1, 2, 3, 10])))
        if k == 1: return min(b, max(a, int((r.random() * 2 - 1) * 10 ** r.randrange(1, 19))))
        return r.randint(max(a, -1000), min(b, 1000)) if max(a, -1000) <= min(b, 1000) else r.randint(a, b)
    k = r.randrange(6)
    if k == 0: v = r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, math.pi, math.pi / 2, math.e, 1e-8, 0.1, 1e-300, 1e300, 10.0])
    elif k == 1: v = (r.random() * 2 - 1) * 10.0 ** r.randrange(-20, 20)
    elif k == 2: v = r.randrange(-10**5, 10**5) / 64
    elif k == 3: v = struct.unpack("<d", struct.pack("<Q", r.randrange(1 << 63) % (2046 << 52) | r.randrange(2) << 63))[0]
    else: v = (r.random() * 2 - 1) * r.choice([1, 3, 10, 100])
    if v < lo: v = lo + abs(v) % min(hi - lo, 1e3) if hi - lo > 0 else lo
    if v > hi: v = hi - abs(v) % min(hi - lo, 1e3)
    return min(hi, max(lo, v))
INF = 1e306
def fin(v):
    if isinstance(v, float) and (v != v or abs(v) > 1e306 or (v and abs(v) < 1e-300)): raise ValueError
    return v
# function, argument domains, reference, error allowed in units of the last place (None: exact)
UN = {
    "sqrt": (0, INF, math.sqrt, 1), "sin": (-1e15, 1e15, math.sin, 2), "cos": (-1e15, 1e15, math.cos, 2), "tan": (-1e15, 1e15, math.tan, 2),
    "arctan": (-INF, INF, math.atan, 2), "ln": (1e-305, INF, math.log, 2), "exp": (-690, 700, math.exp, 2),
}
TY = {"integer": "integer", "longint": "longint", "real": "real", "small": "small"}
def rhalf(v): f = F(v); k = abs(f) + F(1, 2); n = k.numerator // k.denominator; return n if f >= 0 else -n
def tr(v): f = abs(F(v)); n = f.numerator // f.denominator; return n if v >= 0 else -n
def third(v): a = abs(v) // 3; k = 1 if v > 0 else -1; return (k * a, k * a, v - 2 * k * a)     # literals from 2^31 to 2^32-1 are 32-bit masks
def slit(t, v):
    if t == "real": return lit(v)
    if t == "longint" and 2**31 <= abs(v) < 2**32: return "big0 + (%d) + (%d) + (%d)" % third(v)
    return str(v)

class Model:
    def __init__(s): s.seed = 8919118912341193
    def u(s): s.seed = (s.seed * 1103515245 + 12345) % 2**64; return s.seed % 2**32

def maths(c, P, r, checks, n):
    A = lambda t, v: (t, slit(t, v), not (t == "longint" and 2**31 <= abs(v) < 2**32))
    def add(ops, mk, ref, ulps, what):
        ls = None
        ch = located(P, r, ops, lambda N: "writeln(%s:32)" % mk(N), ls)
        c.state("operand", what, *[(o[0], l) for o, l in zip(ops, ch)])
        checks.append((mk([o[1] for o in ops]), ref, ulps)); c.count("fn_" + what)
    k0 = len(checks)
    while len(checks) - k0 < n:
        k = r.randrange(14)
        T = lambda: r.choice(["real", "real", "real", "integer", "longint", "small"])
        try:
            if k < 4:
                f = r.choice(list(UN)); lo, hi, fn, u = UN[f]; t = T(); v = num(r, t, lo, hi)
                if v is None: continue
                add([A(t, v)], lambda N: "%s(%s)" % (f, N[0]), fin(fn(v)), u, f)
            elif k == 4:
                a, b = (T(), num(r, "real", -INF, INF)), (T(), None)
                ta, tb = T(), T(); va, vb = num(r, ta, -INF, INF), num(r, tb, -INF, INF)
                if va == 0 and vb == 0: continue
                add([A(ta, va), A(tb, vb)], lambda N: "arctan2(%s, %s)" % tuple(N), fin(math.atan2(va, vb)), 2, "arctan2")
            elif k == 5:
                ta, tb = T(), T(); va, vb = num(r, ta, -1e15, 1e15), num(r, tb, -1e15, 1e15)
                if not vb or abs(vb) < 1e-200: continue
                add([A(ta, va), A(tb, vb)], lambda N: "fmod(%s, %s)" % tuple(N), fin(math.fmod(va, vb)), None, "fmod")
            elif k == 6:
                ta, tb = T(), T(); va, vb = abs(num(r, ta, 0, 1e10)), num(r, tb, -30, 30)
                if va == 0: continue
                add([A(ta, va), A(tb, vb)], lambda N: "%s ** %s" % tuple(N), fin(float(va) ** float(vb)), 2, "**")
            elif k == 7:
                va, vb = num(r, "real", -1e10, 1e10), r.randrange(-20, 21); tb = r.choice(["integer", "small", "longint"])
                if va == 0: continue
                add([A("real", va), A(tb, vb)], lambda N: "%s pow %s" % tuple(N), fin(float(F(va) ** vb)), 4 + abs(vb), "pow")
            elif k == 8:
                m = r.randrange(4)
                v = num(r, "real", -2147483647.0, 2147483646.5) if m else r.choice([0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 0.49999999999999994, 2147483646.5, -2147483647.5, 1e9 + .5, 0.9999999999999999, -0.9999999999999999])
                f = r.choice(["round", "trunc"])
                w = rhalf(v) if f == "round" else tr(v)
                if abs(w) > 2147483647: continue
                add([A("real", v)], lambda N: "%s(%s)" % (f, N[0]), w, None, f)
            elif k == 9:
                f = r.choice(["frac", "int", "abs", "sqr"]); t = "real" if f == "int" else T(); v = num(r, t, -INF, INF)
                if f == "sqr":
                    if abs(v) > 1e150: continue
                    if t != "real" and abs(v) > (40000 if t != "longint" else 2000000000): continue
                w = {"frac": lambda: math.fmod(v, 1.0), "int": lambda: math.trunc(F(v)), "abs": lambda: abs(v), "sqr": lambda: v * v}[f]()
                if f == "int":
                    if abs(v) > 2.0**1000: continue
                    w = float(w)
                if f == "frac": w = float(w)
                fin(w)
                add([A(t, v)], lambda N: "%s(%s)" % (f, N[0]), w, 0.5 if f == "sqr" and t == "real" else None, f)
            elif k == 10:
                f = r.choice(["min", "max"]); ta, tb = r.choice(["real", "integer", "longint", "small"]), r.choice(["real", "integer", "longint", "small"])
                va, vb = num(r, ta, -INF, INF), num(r, tb, -INF, INF)
                if "real" in (ta, tb): va, vb = float(va), float(vb)
                if r.random() < .2 and ta == tb: vb = va
                fin(va); fin(vb)
                A2 = lambda t, v: A(t, int(v) if t != "real" else v)
                if ta != "real" and float(int(va)) != va or tb != "real" and float(int(vb)) != vb: continue
                add([A2(ta, va), A2(tb, vb)], lambda N: "%s(%s, %s)" % (f, N[0], N[1]), (min if f == "min" else max)(va, vb), None, f)
            elif k == 11:
                t = T(); v = num(r, t, -INF, INF)
                add([A(t, v)], lambda N: "sign(%s)" % N[0], (v > 0) - (v < 0), None, "sign")
            elif k == 12:
                # compositions
                v = num(r, "real", -3, 3); w = fin(math.sin(v) ** 2 + math.cos(v) ** 2)
                add([A("real", v), A("real", v)], lambda N: "sqr(sin(%s)) + sqr(cos(%s))" % tuple(N), 1.0, 8, "identity")
                v = num(r, "real", 1e-3, 1e5)
                add([A("real", v)], lambda N: "exp(ln(%s))" % N[0], v, 64, "identity")
                add([A("real", v)], lambda N: "sqr(sqrt(%s))" % N[0], v, 8, "identity")
                v = num(r, "real", -1.5, 1.5)
                if abs(v) > 1e-290: add([A("real", v)], lambda N: "arctan(tan(%s))" % N[0], v, 4096, "identity")
            else:
                v = num(r, "real", -1e6, 1e6); q = num(r, "integer", -1000, 1000)
                add([A("real", v), A("integer", q)], lambda N: "trunc(%s) + round(%s) * %s" % (N[0], N[0], N[1]), tr(v) + rhalf(v) * q, None, "mixed") if abs(tr(v)) + abs(rhalf(v) * q) < 2**31 else None
        except (ValueError, OverflowError, ZeroDivisionError): continue

def randoms(c, P, r, checks, n):
    """Statements drawing random numbers; the model says which number each draws."""
    M = Model()
    P.var("real", "rx"); P.var("integer", "ri"); P.var("longint", "rl"); P.var("0..999", "rs"); P.var("integer", "lim"); P.var("longint", "liml"); P.var("1..100", "lims")
    P.var("array [1..5] of integer", "ra"); P.var("record f: real; i: integer end", "rr")
    P.subs.append("function dice(n: integer): integer; begin dice := random(n) + 1 end;")
    P.subs.append("procedure draw(var x: real; n: longint; var l: longint); begin x := random; l := random(n) end;")
    k0 = len(checks)
    def say(x, ref): P.do("writeln(%s:32)" % x); checks.append((x, ref, None)); c.count("random_draws")
    real = lambda: M.u() / 4294967295
    def li(w): return r.choice([1, 2, 3, 6, 7, 10, 52, 100, 365, 1000, 65536, 1000003, 2**31 - 1, 2**30, r.randrange(1, 2**31)]) if w == 32 else r.choice([1, 6, 2**31, 2**32, 2**32 - 1, 2**33, 10**12, r.randrange(1, 2**40)])
    while len(checks) - k0 < n:
        k = r.randrange(13)
        if k == 0: P.do("rx := random"); say("rx", real())
        elif k == 1: say("random", real())
        elif k == 2: m = li(32); P.do("ri := random(%d)" % m); say("ri", M.u() % m)
        elif k == 3: m = li(32); P.do("lim := %d" % m); say("random(lim)", M.u() % m)
        elif k == 4:
            m = li(64)
            if 2**31 <= m < 2**32: P.do("liml := %d; liml := liml + %d; liml := liml + %d" % third(m))
            else: P.do("liml := %d" % m)
            P.do("rl := random(liml)"); say("rl", M.u() % m)
        elif k == 5: m = r.randrange(1, 101); P.do("lims := %d" % m); say("random(lims)", M.u() % m)
        elif k == 6: m = r.choice([6, 20, 100]); say("dice(%d)" % m, M.u() % m + 1)
        elif k == 7: m = r.randrange(1, 10**6); P.do("draw(rx, %d, rl)" % m); a = real(); b = M.u() % m; say("rx", a); say("rl", b)
        elif k == 8:
            q = r.randrange(5, 2000); m = li(32) % 10007 + 1; h = 0
            for _ in range(q): h = (h * 31 + M.u() % m) % 1000003
            P.do("ri := 0; for lim := 1 to %d do ri := (ri * 31 + random(%d)) mod 1000003" % (q, m)); say("ri", h); c.count("random_draws", q)
        elif k == 9:
            q = r.randrange(5, 500); ok = 0
            for _ in range(q): ok += real() < .5
            P.do("ri := 0; for lim := 1 to %d do begin rx := random; if (rx < 0) or (rx > 1) then ri := ri + 100000; if rx < 0.5 then ri := ri + 1 end" % q); say("ri", ok); c.count("random_draws", q)
        elif k == 10 and r.random() < .5:
            sd = r.choice([0, 1, 42, 2**31 - 1, r.randrange(10**9)]); f = r.randrange(3)
            if f == 0: P.do("randomize(%d)" % sd)
            elif f == 1: P.do("lim := %d; randomize(lim)" % sd)
            else: P.do("liml := %d; randomize(liml)" % (sd)); 
            M.seed = sd % 2**64; c.count("reseeded")
            say("random(1000)", M.u() % 1000)
        elif k == 11: m = r.randrange(2, 1000); P.do("ra[3] := random(%d)" % m); say("ra[3]", M.u() % m)
        elif k == 12: P.do("rr.f := random * 2"); say("rr.f", real() * 2)

def case(c):
    kit, r = c.kits["plain"], c.rng
    P = Prog(); checks = []
    P.type("-1000..1000", "small"); P.var("longint", "big0"); P.do("big0 := 0")
    parts = r.choice([["m"], ["m"], ["r"], ["m", "r"], ["r", "m"]])
    for p in parts: (maths if p == "m" else randoms)(c, P, r, checks, 40)
    src = P.src(); opts = []
    for _ in range(2):
        o = random_opts(r); opts.append(o); c.state("opts", *o)
        compile_ok(c, kit, src, o)
        res = K.run(["./p"], c.dir, cpu=20); c.count("runs")
        fs = {"p.pas": src, "options": " ".join(o), "got": res.out}
        if res.timeout: raise Inconclusive("time limit")
        out = res.out.decode("latin-1").split("\n")
        if res.rc != 0 or len(out) != len(checks) + 1: raise Violation("status %d and %d lines of output, expected status 0 and %d lines; %s" % (res.rc, len(out) - 1, len(checks), clip(res.err)), fs)
        for ln, (x, ref, ulps) in zip(out, checks):
            try:
                if isinstance(ref, float):
                    v = float(ln); d = abs(v - ref)
                    # the reference is within one unit of the true value; x87 rounds twice
                    tol = (2 * math.ulp(ref) if "-m32" in o else 0.0) if ulps is None else (ulps + 3) * math.ulp(ref) * (1.0 if v == v else 1)
                    ok = d <= tol
                else:
                    ok = int(ln) == ref; tol = 0
            except ValueError: ok = False; tol = 0
            if not ok: raise Violation("%s gives %s, expected %r within %.1e, options %s" % (clip(x, 200), clip(ln), ref, tol, " ".join(o)), fs)
            c.count("values_checked")
    c.key = C.sha(src); c.sample = clip(src, 1200)

if __name__ == "__main__":
    simple_check("C18",
        "Each case compiles one program under two option sets and runs it. Its calls of the mathematical functions have real, integer, longint and subrange arguments drawn over the whole domain (special values, random bit patterns, "
        "half-way cases) in every kind of place. The monitor compares the printed values, which carry 23 digits, with correctly rounded or exact references to a few units in the last place; "
        "round, trunc, frac, int, fmod, min, max, sign and abs must be exact. Calls of random, random(n) and randomize(seed) in any mixture are compared exactly with a model of the documented generator. Non-trivial: distinct program.",
        ["arguments and results between 1e-306 and 1e306; trigonometric arguments up to 1e15", "randomize without argument (seeded by the clock) is not used"], case)
