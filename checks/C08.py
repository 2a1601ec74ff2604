import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *

# ---- the text model: a byte string and a position
class Text:
    def __init__(s, b): s.b, s.p = b, 0
    def eof(s): return s.p >= len(s.b)
    def eoln(s): return s.b[s.p] == 10
    def cur(s): return s.b[s.p] if s.p < len(s.b) else -1
    def ch(s): s.p += 1; return s.b[s.p - 1]
    def ws(s):
        while not s.eof() and s.b[s.p] in b" \t\n\r\v\f": s.p += 1
    def sign(s):
        k = 1
        if s.cur() in b"+-" and s.cur() >= 0:
            if s.cur() == 45: k = -1
            s.p += 1
        return k
    def digits(s):
        t = b""
        while s.cur() >= 48 and s.cur() <= 57: t += bytes([s.ch()])
        return t
    def int(s): s.ws(); k = s.sign(); return k * int(s.digits() or b"0")
    def real(s):
        from fractions import Fraction as F
        s.ws(); k = s.sign(); a = s.digits(); b = b""; e = 0
        if s.cur() == 46: s.p += 1; b = s.digits()
        if s.cur() in (69, 101): s.p += 1; es = s.sign(); e = es * int(s.digits() or b"0")
        v = F(int((a + b) or b"0")) / 10 ** len(b) * F(10) ** e
        return k * float(v)
    def bool(s):
        s.ws(); t = b""
        while not s.eof() and s.cur() not in b" \t\n\r\v\f": t += bytes([s.ch()])
        return t.upper() == b"TRUE"
    def chars(s, n):
        t = b""
        while len(t) < n and not s.eof() and not s.eoln(): t += bytes([s.ch()])
        return t
    def ln(s):
        while not s.eof() and s.ch() != 10: pass

SAFE = b"xyz;:!?*ABCDFXYZ_/()"
def junk(r, n, hi): return bytes(r.choice(SAFE) if r.random() < .8 else (r.choice(b" \t,<>=") if not hi else r.randrange(128, 256)) for _ in range(n))
class Gen:
    """Chooses operations and builds a text for which all of them are defined."""
    def __init__(s, r, hi, size):
        s.r, s.hi, s.text, s.ops, s.need = r, hi, b"", [], None
        while len(s.text) < size: s.step()
    def white(s, must):
        r = s.r
        n = r.choice([0, 0, 1, 1, 2, 3, 7]) if not must else r.choice([1, 1, 2, 5])
        if r.random() < .02: n = r.randrange(200, 1200)
        return bytes(r.choice(b"      \t\n" if r.random() < .96 else b"\r\v\f") for _ in range(n))
    def step(s):
        r = s.r
        k = r.choice(["int"] * 5 + ["long", "real", "real", "bool", "char", "char", "char", "run", "ln", "ln", "str", "str", "arr", "eol", "peek", "get", "multi", "line"])
        if k in ("int", "long", "real"):
            t = s.white(s.need is not None) + r.choice([b"", b"", b"-", b"+"])
            if k == "int": t += b"0" * r.choice([0, 0, 0, 1, 3]) + str(r.randrange(10 ** r.randrange(1, 10))).encode()
            elif k == "long": t += str(r.randrange(10 ** r.randrange(1, 19))).encode()
            else:
                m = r.randrange(9)
                if m == 0: t += b"%d" % r.randrange(10**6)
                elif m == 6: t += b"%d." % r.randrange(100) + bytes(r.choice(b"0123456789") for _ in range(r.randrange(7, 20)))
                elif m == 7: t += bytes(r.choice(b"0123456789") for _ in range(r.randrange(8, 25))) + b".%d" % r.randrange(10)
                elif m == 8: t += b"%d.%d" % (r.randrange(1000), r.randrange(100)) + r.choice([b"e", b"E"]) + r.choice([b"", b"+", b"-"]) + b"%d" % r.randrange(0, 200)
                elif m == 1: t += b"%.6f" % (r.randrange(10**7) / 64)
                elif m == 2: t += b"%.3f" % (r.randrange(10**6) / 8) + r.choice([b"e", b"E"]) + r.choice([b"", b"+", b"-"]) + b"%d" % r.randrange(0, 12)
                elif m == 3: t += b"%d" % r.randrange(1000) + r.choice([b"e", b"E"]) + r.choice([b"", b"+", b"-", b"0"]) + b"%d" % r.randrange(0, 12)
                elif m == 4: t += b"0" * r.randrange(3) + b"%.2f" % (r.randrange(1000) / 4)
                else: t += b"%.1f" % (r.randrange(10**8) / 2)
            s.text += t; s.need = "num"; s.ops.append((k,))
        elif k == "bool":
            w = s.white(s.need is not None or s.text[-1:] not in (b" ", b"\n", b""))
            word = r.choice(["true", "false"]); word = "".join(ch.upper() if r.random() < .5 else ch for ch in word)
            s.text += w + word.encode(); s.need = "ws"; s.ops.append((k,))
        elif k in ("char", "run", "get", "peek", "eol"):
            if k in ("peek", "eol"):
                s.ops.append((k,)); return
            n = 1 if k != "run" else r.choice([2, 5, 40, 300, 1023, 1024, 1500])
            if s.need == "ws": t = r.choice([b" ", b"\n"]) + junk(r, n - 1, s.hi)
            else: t = junk(r, n, s.hi)
            if n > 3: t = bytes(10 if i > 0 and r.random() < .02 else x for i, x in enumerate(t))
            if s.need == "num": t = r.choice(SAFE[:9] + b" \n").to_bytes(1, "big") + t[1:]
            s.text += t; s.need = None; s.ops.append((k, n))
        elif k in ("ln", "line"):
            n = r.choice([0, 0, 1, 4, 30, 255, 256, 1000, 1023, 1025, 3000]) if r.random() < .3 else r.randrange(0, 20)
            t = junk(r, n, s.hi) if n else b""
            if s.need == "ws" and t: t = b" " + t
            if s.need == "num" and t: t = b";" + t
            s.text += t + b"\n"; s.need = None; s.ops.append((k,))
        elif k in ("str", "arr"):
            if s.need: s.ops.append(("ln",)); s.text += b"\n"; s.need = None
            n = r.choice([0, 1, 3, 5, 9, 10, 11, 20, 100, 254, 255, 256, 300, 1024]) if r.random() < .5 else r.randrange(0, 30)
            t = junk(r, n, s.hi)
            which = r.randrange(4) if k == "str" else r.randrange(2)
            s.text += t + b"\n"; s.ops.append((k, which, r.random() < .5)); s.need = None
        elif k == "multi":
            # one statement with several items
            n = r.randrange(2, 5); items = []
            for i in range(n):
                it = r.choice(["int", "real", "char"]) if i < n - 1 or True else "int"
                if it == "char":
                    t = junk(r, 1, False)
                    if s.need == "num": t = r.choice(SAFE[:9] + b" \n").to_bytes(1, "big")
                    if s.need == "ws": t = b" "
                    s.text += t; s.need = None
                else:
                    v = b"%d" % r.randrange(-9999, 9999) if it == "int" else b"%.2f" % (r.randrange(-4000, 4000) / 4)
                    s.text += s.white(s.need is not None) + v; s.need = "num"
                items.append(it)
            s.ops.append((k, tuple(items)))
CAPS = [5, 20, 255, 255]
ALEN = [4, 10]
def emit(c, P, r, G, f):
    """Program statements for the operations on file variable f ('' for input), with the model's answers."""
    T = Text(G.text)
    F = f + ", " if f else ""
    def readst(x, ln=False): return "read%s(%s%s)" % ("ln" if ln else "", F, x)
    def tail():
        pass
    for op in G.ops:
        k = op[0]; c.count("op_" + k); p0 = T.p
        if k == "int":
            l = r.choice(["i", "ai[2]", "rc.n", "sb"]); v = T.int()
            if l == "sb" and not 0 <= v <= 80: l = "i"
            P.do(readst(l)); P.say(l + ":1", str(v))
        elif k == "long": v = T.int(); P.do(readst("l")); P.say("l:1", str(v))
        elif k == "real":
            # the reading need not be correctly rounded, but it is accurate to 13 digits
            v = T.real(); l = r.choice(["x", "ax[1]"]); P.do(readst(l)); P.say("abs(%s - (%.17E)) <= %.4E" % (l, v, abs(v) * 1e-13), "TRUE")
        elif k == "bool":
            v = T.bool(); l = r.choice(["b", "ab[2]"]); P.do(readst(l)); P.say("%s, ab[1], ab[3]" % l, ("TRUE" if v else "FALSE") + "TRUEFALSE")
        elif k == "char": v = T.ch(); P.do(readst(r.choice(["c"]))); P.say("ord(c):1", str(v))
        elif k == "get":
            if T.eof(): continue
            if f: v = T.ch(); P.do("c := %s^; get(%s)" % (f, f)); P.say("ord(c):1", str(v))
            else: v = T.ch(); P.do("read(c)"); P.say("ord(c):1", str(v))
        elif k == "run":
            n = op[1]; h = 0; e = 0
            for _ in range(n):
                if T.eoln(): e += 1
                h = (h * 31 + T.ch()) % 1000003
            P.do("h := 0; e := 0; for j := 1 to %d do begin if eoln%s then e := e + 1; %s; h := (h * 31 + ord(c)) mod 1000003 end" % (n, "(%s)" % f if f else "", readst("c")))
            P.say("h:1, ' ', e:1", "%d %d" % (h, e))
        elif k == "ln": T.ln(); P.do("readln%s" % ("(%s)" % f if f else ""))
        elif k == "line":
            n = h = 0
            while not T.eoln(): n += 1; h = (h * 31 + T.ch()) % 1000003
            T.ln()
            P.do("n := 0; h := 0; while not eoln%s do begin %s; n := n + 1; h := (h * 31 + ord(c)) mod 1000003 end; readln%s" % (("(%s)" % f if f else "", readst("c"), "(%s)" % f if f else "")))
            P.say("n:1, ' ', h:1", "%d %d" % (n, h))
        elif k == "str":
            i = op[1]; t = T.chars(CAPS[i])
            if op[2]: T.ln(); P.do(readst("s%d" % i, True))
            else:
                P.do(readst("s%d" % i))
                if not T.eof(): P.say("eoln%s" % ("(%s)" % f if f else ""), "TRUE" if T.eoln() else "FALSE")
                T.ln(); P.do("readln%s" % ("(%s)" % f if f else ""))
            P.say("s%d, '|', length(s%d):1" % (i, i), t + b"|%d" % len(t))
        elif k == "arr":
            i = op[1]; t = T.chars(ALEN[i]); T.ln()
            P.do(readst("q[2].a%d" % i, True)); P.do("for j := 1 to %d do write(q[2].a%d[j])" % (len(t), i) if t else "i := 0"); P.say("'|', q[1].a%d, q[3].a%d" % (i, i), t + b"|" + b"Q" * (2 * ALEN[i]))
        elif k == "eol":
            P.say("eof%s" % ("(%s)" % f if f else ""), "TRUE" if T.eof() else "FALSE")
            if not T.eof(): P.say("eoln%s" % ("(%s)" % f if f else ""), "TRUE" if T.eoln() else "FALSE")
        elif k == "peek":
            if f and not T.eof(): P.say("ord(%s^):1" % f, str(T.cur()))
        elif k == "multi":
            ls, fm, out, ni, nx, nc = [], [], b"", 0, 0, 0
            for it in op[1]:
                if it == "int": ni += 1; ls.append("m%d" % ni); fm.append("m%d:1, ' '" % ni); out += b"%d " % T.int()
                elif it == "real": nx += 1; ls.append("y%d" % nx); fm.append("y%d:1:2, ' '" % nx); out += b"%.2f " % T.real()
                else: nc += 1; ls.append("c%d" % nc); fm.append("ord(c%d):1, ' '" % nc); out += b"%d " % T.ch()
            P.do(readst(", ".join(ls))); P.say(", ".join(fm), out)
        c.state(k, (p0 // 1024 != T.p // 1024), min(len(op), 3))
    # the rest: every remaining character and line end is there, and nothing after it
    n = h = 0
    while not T.eof(): n += 1; h = (h * 31 + T.ch()) % 1000003
    P.do("n := 0; h := 0; while not eof%s do begin %s; n := n + 1; h := (h * 31 + ord(c)) mod 1000003 end" % ("(%s)" % f if f else "", readst("c")))
    P.say("n:1, ' ', h:1, eof%s" % ("(%s)" % f if f else ""), "%d %dTRUE" % (n, h))

def decl(P):
    P.var("integer", "i"); P.var("integer", "j"); P.var("integer", "n"); P.var("integer", "h"); P.var("integer", "e"); P.var("longint", "l")
    P.var("real", "x"); P.var("boolean", "b"); P.var("char", "c"); P.var("array [1..3] of integer", "ai"); P.var("array [0..2] of real", "ax")
    P.var("array [1..3] of boolean", "ab"); P.var("record k: char; n: integer; m: char end", "rc"); P.var("0..80", "sb")
    for i, k in enumerate(CAPS): P.var("string[%d]" % k if k < 255 else "string", "s%d" % i)
    P.var("array [1..3] of record a0: packed array [1..4] of char; a1: packed array [1..10] of char end", "q")
    for k in range(1, 6): P.var("integer", "m%d" % k); P.var("real", "y%d" % k); P.var("char", "c%d" % k)
    P.do("ab[1] := true; ab[3] := false")
    P.do("for i := 1 to 3 do begin q[i].a0 := 'QQQQ'; q[i].a1 := 'QQQQQQQQQQ' end")

def text(c, kit, r):
    P = Prog(); decl(P)
    hi = r.random() < .4
    size = r.choice([0, 50, 200, 600, 1500, 4000, 9000])
    G = Gen(r, hi, size)
    if r.random() < .5 and G.need: pass
    elif r.random() < .5: G.text += b"\n"
    elif r.random() < .3: G.text += junk(r, r.randrange(1, 9), hi) if not G.need else b" "
    c.state("size", size, hi, G.text[-1:] == b"\n")
    c.count("bytes", len(G.text))
    stdin, files = b"", {}
    if r.random() < .35:
        emit(c, P, r, G, ""); stdin = G.text
    else:
        f = P.var("text", "f"); name = "in%d.txt" % r.randrange(99)
        open(os.path.join(c.dir, name), "wb").write(G.text); files[name] = G.text
        P.do("assign(f, '%s'); reset(f)" % name)
        how = r.randrange(3)
        if how == 0: emit(c, P, r, G, "f")
        elif how == 1:
            emit(c, P, r, G, "f"); P.do(r.choice(["reset(f)", "close(f); reset(f)"])); emit(c, P, r, G, "f")
        else:
            # through a var parameter
            Q = Prog(); Q.n = 500; emit(c, Q, r, G, "z")
            P.subs.append("procedure work(var z: text); begin\n%s end;" % ";\n".join("  " + x for x in Q.body)); P.out += Q.out; P.do("work(f)")
        P.do("close(f)")
    src = P.src()
    for o in [random_opts(r), random_opts(r)]:
        expect(c, kit, src, P.want(), o, stdin=stdin, files=files, what="text input")
    c.key = C.sha(src, G.text); c.sample = clip(src, 1200); c.count("lines_checked", len(P.out))

def rstr(c, kit, r):
    """readstr takes the same items from a string."""
    P = Prog(); decl(P); P.var("string", "src")
    for _ in range(14):
        t, ls, fm, out, num = "", [], [], b"", False
        counts = {}
        for _ in range(r.randrange(1, 6)):
            k = r.choice(["int", "int", "real", "char", "bool"])
            m = counts[k] = counts.get(k, 0) + 1
            w = " " * r.choice([0, 1, 2]) if not num else " " * r.choice([1, 3])
            if k == "int": v = r.randrange(-10**r.randrange(1, 10), 10**r.randrange(1, 10)); t += w + str(v); ls.append("m%d" % m); fm.append("m%d:1, ' '" % m); out += b"%d " % v; num = True
            elif k == "real": v = r.randrange(-10**6, 10**6) / 16; t += w + "%.4f" % v; ls.append("y%d" % m); fm.append("y%d:1:4, ' '" % m); out += b"%.4f " % v; num = True
            elif k == "char": ch = r.choice("xyz;:") if not num else " "; t += ch; ls.append("c%d" % m); fm.append("c%d, ' '" % m); out += ch.encode() + b" "; num = False
            else:
                if m > 3: continue
                v = r.random() < .5; t += (w or " ") + r.choice(["true", "TRUE", "True"] if v else ["false", "FALSE", "fAlse"]); ls.append("ab[%d]" % m); fm.append("ab[%d], ' '" % m); out += b"TRUE " if v else b"FALSE "; num = True
        k = r.randrange(4)
        if k == 0 and ls[-1][0] != "a" and not num: z = "".join(r.choice("abc xyz") for _ in range(r.randrange(1, 30))); t += z; ls.append("s1"); fm.append("s1, '|'"); out += z[:20].encode() + b"|"
        elif k == 1: t += " "
        elif k == 2: t += " trailing 99"
        # stale characters behind the string must not be seen
        P.do("src := %s" % qs("9" * r.choice([0, 5, 250]) or "8")); P.do("src := %s" % qs(t)); P.do("readstr(src, %s)" % ", ".join(ls)); P.say(", ".join(fm), out)
        P.say("src, '|'", t + "|"); c.count("rstr_items", len(ls))
    src = P.src()
    for _ in range(2): expect(c, kit, src, P.want(), random_opts(r), what="readstr")
    c.key = C.sha(src); c.count("lines_checked", len(P.out)); c.sample = clip(src, 1200)

def case(c):
    (rstr if c.idx % 6 == 5 else text)(c, c.kits["plain"], c.rng)

if __name__ == "__main__":
    simple_check("C08",
        "Each case is a random sequence of read, readln, get, file buffer, eof and eoln operations with a text built so that each is defined (numbers with any white "
        "space and notation, lines up to 3000 characters, texts up to 9000 bytes over the internal buffer size, characters up to 255, with and without a final "
        "newline), read from standard input, a named file (once or twice) or through a var parameter; a byte-position model predicts every value, eof and eoln and "
        "the checksum of the rest. Every sixth case does readstr. Two random option sets. Non-trivial: distinct source and text, all lines checked.",
        ["reading past the end of the file, numbers out of range and the file buffer of standard input before the first read are not exercised"], case)
