import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import struct

# ---- reference formatting (independent of the C library: exact decimal arithmetic)
from decimal import Decimal, localcontext, ROUND_HALF_EVEN
def pad(s, w): return s.rjust(w) if w > len(s) else s
def fixed(v, w, d):
    with localcontext() as k:
        k.prec = 800
        q = Decimal(v).quantize(Decimal(1).scaleb(-d), rounding=ROUND_HALF_EVEN)
        s = format(q, "f")
    return pad(s, w)
def sci(v, w):
    """Exponent form: a sign or blank, one digit, point, digits, E, sign, at least two exponent digits."""
    if w == 0: w = 13
    p = w - 7 if w > 8 else 1
    neg = str(v).startswith("-")
    with localcontext() as k:
        k.prec = 800
        x = abs(Decimal(v))
        if x == 0: e, m = 0, Decimal(0).scaleb(-p)
        else:
            e = x.adjusted(); m = x.scaleb(-e)
            m = m.quantize(Decimal(1).scaleb(-p), rounding=ROUND_HALF_EVEN)
            if m >= 10: e += 1; m = (x.scaleb(-e)).quantize(Decimal(1).scaleb(-p), rounding=ROUND_HALF_EVEN)
        s = "%s%s%sE%s%02d" % ("-" if neg else " ", format(m, "f"), "", "-" if e < 0 else "+", abs(e))
    return pad(s, w)
def chars(s, w): return s if w <= 0 else pad(s[:w], w)

NAMES = ["red", "Green", "BLUE", "x", "enumerator_with_a_long_name", "q1"]
class Ctx:
    """Declarations shared by the items of one program."""
    def __init__(s, P, r):
        s.P, s.r = P, r
        k = r.randrange(1, 7)
        s.ids = [P.uid(n + "_") for n in r.sample(NAMES, k)]
        s.en = P.type("(" + ", ".join(s.ids) + ")", "en")
        lo = r.randrange(len(s.ids)); hi = r.randrange(lo, len(s.ids))
        s.sub = (lo, hi); P.type("%s..%s" % (s.ids[lo], s.ids[hi]), "ensub")
        P.type("-1000..1000", "isub"); P.type("'!'..'}'", "csub")
        s.alen = {}
def rint(r):
    k = r.randrange(5)
    return r.choice([0, 1, -1, 9, 10, -10, 99, 100, 2147483647, -2147483647]) if k == 0 else r.randrange(-10**r.randrange(1, 10), 10**r.randrange(1, 10))
def rreal(r, m32):
    k = r.randrange(8)
    if k == 0: return r.choice([0.0, 1.0, -1.0, 0.5, 9.5, 99.5, 0.25, -0.75, 999999.5, 1e10])
    if k == 1: return r.randrange(-10**6, 10**6) / 2 ** r.randrange(0, 12)
    if k == 2: return float("%s%d.%d" % (r.choice(["", "-"]), r.randrange(10**3), r.randrange(1, 10**4)))
    if k == 3: return (r.random() * 9 + 1) * 10.0 ** r.randrange(-30, 30) * r.choice([1, -1])
    if k == 4: return r.choice([9.9999999, 0.99999, 99.99996, 0.00009999996, 1e-5, 9.5e-7]) * r.choice([1, -1])
    if k == 5: return struct.unpack("<d", struct.pack("<Q", r.randrange(1 << 64) & ~(0x400 << 52) | (r.randrange(2) << 62)))[0] if False else (r.random() + .5) * 2.0 ** r.randrange(-900, 900)
    if k == 6: return r.randrange(1, 10**15) / 10.0 ** r.randrange(0, 16)
    return r.randrange(-1000, 1000) / 8
def lit(v):
    s = repr(v)
    if "e" in s or "E" in s:
        m, e = s.split("e")
        if "." not in m: m += ".0"
        s = m + "E" + e.replace("+", "")
    return s
def item(X):
    """(type name, literal, constable, fn(width, digits) -> text, kind)"""
    r, P = X.r, X.P
    k = r.choice(["int", "int", "long", "char", "bool", "enum", "ensub", "real", "real", "real", "str", "arr", "isub", "csub"])
    if k == "int": v = rint(r); return "integer", str(v), True, lambda w, d: pad(str(v), w), k
    if k == "isub": v = r.randrange(-1000, 1001); return "isub", str(v), True, lambda w, d: pad(str(v), w), k
    if k == "long":
        v = r.choice([r.randrange(-2**62, 2**62), r.randrange(2**32, 2**40), -r.randrange(2**32, 2**40), 2**63 - 1, rint(r)])
        return "longint", str(v), abs(v) > 2**32, lambda w, d: pad(str(v), w), k
    if k in ("char", "csub"):
        v = r.choice([c for c in map(chr, range(33, 126)) if c != "'"]); return ("char" if k == "char" else "csub"), "'%s'" % v, True, lambda w, d: pad(v, max(w, 1)), k
    if k == "bool":
        v = r.random() < .5; return "boolean", "true" if v else "false", True, lambda w, d: pad("TRUE" if v else "FALSE", w), k
    if k == "enum": v = r.randrange(len(X.ids)); return "en", X.ids[v], True, lambda w, d: chars(X.ids[v], w), k
    if k == "ensub": v = r.randrange(X.sub[0], X.sub[1] + 1); return "ensub", X.ids[v], True, lambda w, d: chars(X.ids[v], w), k
    if k == "real":
        v = rreal(r, False); return "real", lit(v), True, lambda w, d: sci(v, w) if d is None else fixed(v, w, d), k
    n = r.randrange(2, 13)
    t = "".join(r.choice("abcdef XYZ0123-+.,%\\\"{}") for _ in range(n))
    if k == "str": return P.type(r.choice(["string", "string[%d]" % r.randrange(n, 40)])), qs(t), False, lambda w, d: t, k
    tn = X.alen.setdefault(n, None) or P.type("%sarray [1..%d] of char" % ("packed " if r.random() < .6 else "", n)); X.alen[n] = tn
    return tn, qs(t), True, lambda w, d: chars(t, w), k
def widths(r, kind):
    """(source suffix, width, digits)"""
    if kind == "str": return (None, 0, None)
    k = r.randrange(6)
    if k < 2: return (None, 0, None)
    w = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 16, 20, 25, 31, 40]) if k < 5 else r.randrange(1, 80)
    if kind == "real" and r.random() < 0.6: return (w, w, r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20]))
    return (w, w, None)
LS = ["lit", "const", "glob", "local", "param", "vparam", "prot", "elem", "field", "ptr", "func", "elem2", "nested", "with"]
def writes(c, P, r):
    X = Ctx(P, r)
    P.subs.append("function wid(n: integer): integer; begin wid := n end;")
    wv = P.var("integer", "wv")
    for _ in range(16):
        its = [item(X) for _ in range(r.randrange(1, 6))]
        fm = [widths(r, it[4]) for it in its]
        def sfx(f, it):
            if f[0] is None: return ""
            def e(n):
                k = r.randrange(6)
                return "wid(%d)" % n if k == 0 else "wv - %d" % (50 - n) if k == 1 else "(%d + %d)" % (n // 2, n - n // 2) if k == 2 else str(n)
            return ":" + e(f[0]) + ("" if f[2] is None else ":" + e(f[2]))
        P.do("wv := 50")
        texts = [it[3](f[1], f[2]) for it, f in zip(its, fm)]
        style = r.choice(["ln", "single", "str", "file"] if sum(map(len, texts)) < 250 else ["ln", "single", "file"])
        sep = "'|'"
        def mk(names):
            args = [n + sfx(f, it) for n, f, it in zip(names, fm, its)]
            if style == "ln": return "writeln(%s)" % (", " + sep + ", ").join(args)
            if style == "single": return "; ".join("write(%s); write(%s)" % (a, sep) for a in args) + "; writeln"
            if style == "file": return "writeln(output, %s); " % ", ".join(args)
            return "writestr(ws, %s); writeln(length(ws):1, ':', ws)" % ", ".join(args)
        if style == "str" and "ws: string" not in P.vars: P.vars.append("ws: string")
        L = [l for l in LS if not (l in ("lit", "const") and any(it[4] in ("long", "str") for it in its))]
        ch = located(P, r, [(it[0], it[1], it[2]) for it in its], mk, L)
        t = {"ln": "|".join(texts), "single": "".join(x + "|" for x in texts), "file": "".join(texts), "str": "%d:%s" % (len("".join(texts)), "".join(texts))}[style]
        P.out.append(t.encode("latin-1"))
        for it, f, l in zip(its, fm, ch):
            c.count("item_" + it[4]); c.state(it[4], style, f[0] is not None, f[2] is not None, l)

def full(c, P, r):
    """writestr stops at the capacity of a full string and keeps its neighbours; text files on disk hold the same bytes."""
    P.vars += ["a: array [0..2] of string", "i: integer"]
    P.do("for i := 0 to 2 do a[i] := 'keep'")
    acc, args = "", []
    for _ in range(r.randrange(3, 9)):
        k = r.randrange(4); w = r.randrange(20, 400)
        if k == 0: args.append("%d:%d" % (len(acc), w)); acc += pad(str(len(acc)), w)
        elif k == 1: args.append("1.5:%d:2" % w); acc += pad("1.50", w)
        elif k == 2: args.append("'z':%d" % w); acc += pad("z", w)
        else: args.append("2.5E10:1:%d" % min(w, 240)); acc += "25000000000." + "0" * min(w, 240)
    # one item never exceeds the internal limit of 255 characters
    out, pos = "", 0
    for a in args:
        pass
    P.do("writestr(a[1], %s)" % ", ".join(args))
    P.say("a[0], ',', a[2]", "keep,keep")
    if all(len(x) <= 255 for x in [acc]): P.say("a[1]", acc)
    P.say("length(a[1]) <= 255", "TRUE")
    c.count("full")

def order(c, P, r):
    """The items are evaluated and written in order, as if each were written on its own."""
    P.subs.append("function tr(n: integer): integer; begin write('<', n:1, '>'); tr := n * 3 end;")
    P.type("string", "str255"); P.subs.append("function ts(n: integer): str255; begin write('[', n:1, ']'); writestr(s, 'r', n:1); ts := s end;")
    P.vars.append("s: string")
    for _ in range(8):
        a, t = [], ""
        for _ in range(r.randrange(2, 7)):
            n = r.randrange(-99, 99); k = r.randrange(4)
            if k == 0: w = r.randrange(0, 9); a.append("tr(%d):%d" % (n, w)); t += "<%d>" % n + pad(str(3 * n), w)
            elif k == 1: a.append("ts(%d)" % n); t += "[%d]r%d" % (n, n)
            elif k == 2: w = r.randrange(0, 5); a.append("%d:tr(%d)" % (n, w)); t += "<%d>" % w + pad(str(n), 3 * w)
            else: a.append("'lit'"); t += "lit"
        P.say(", ".join(a), t); c.count("ordered_items", len(a))

TEMPLATES = [writes, order]
def case(c):
    kit, rng = c.kits["plain"], c.rng
    P = Prog()
    f = [writes, writes, writes, order, writes, full][c.idx % 6]
    f(c, P, rng)
    src = P.src()
    for _ in range(2): expect(c, kit, src, P.want(), random_opts(rng), what=f.__name__)
    c.count("lines_checked", len(P.out)); c.key = C.sha(src); c.sample = clip(src, 1500); c.state("template", f.__name__)

def strpad(ck, kits):
    d = os.path.join(C.K.scratch(), "kf"); os.makedirs(d, exist_ok=True)
    def bad():
        r = K.compile_pas(kits["plain"], "program p; var s: string; begin s := 'ab'; writeln(s:5) end.", d, name="p")
        return r.rc == 0 and K.run(["./p"], d).out != b"   ab\n"
    ck.known("strpad", bad(), "a string variable written with a field width wider than the string is not padded")

if __name__ == "__main__":
    simple_check("C07",
        "Each case is one program whose every written line is predicted by an exact decimal reference formatter: items of every writable type in every kind of "
        "place, with literal or computed widths and digits, through one writeln, single writes, an explicit output file or writestr (with its length), items with "
        "side effects, and writestr beyond the capacity; run under two random option sets. Non-trivial: distinct source, all lines checked.",
        ["field widths of string variables (recorded finding strpad), negative widths and values outside the range of a real are not exercised"], case, pre=strpad)
