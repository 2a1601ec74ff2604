import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import corpus, spell

def literals(rng):
    """A program about literals: every character in string and char literals, numbers at the edges of their types."""
    P = Prog(); r = rng
    def lit(b, q="'"): return q + b.replace(q, q + q) + q
    chars = [chr(x) for x in range(1, 256) if x not in (10,)]
    r.shuffle(chars)
    P.types.append("s255 = string[255]"); P.var("s255", "s"); P.var("char", "c"); P.var("longint", "l"); P.var("integer", "i")
    P.subs.append("procedure sum(x: s255); var k, h: integer; begin h := 0; for k := 1 to length(x) do h := (h * 31 + ord(x[k])) mod 1000003; writeln(length(x):1, ' ', h:1) end;")
    def hash_(t):
        h = 0
        for ch in t: h = (h * 31 + ord(ch)) % 1000003
        return "%d %d" % (len(t), h)
    frags = ["{", "}", "(*", "*)", "//", "''", '"', "'", "begin", "END", "If", ":=", "(.", ".)", "\t", "  ", "\\n", "%d", "\\", "$", "#", "^", "@", "\x80", "\xff", "\x01"]
    for _ in range(14):
        k = r.randrange(6)
        if k == 0: t = "".join(chars[:r.randrange(2, 120)]); r.shuffle(chars)
        elif k in (1, 2): t = "".join(r.choice(frags) for _ in range(r.randrange(2, 14)))
        elif k == 3: t = "".join(r.choice(frags + chars) for _ in range(r.randrange(2, 60)))
        elif k == 4: t = r.choice(["''", "'a", "a'", "{x", "x}", "(*", "*)", "//x", " a", "a ", "\ta"])
        else:
            ch = r.choice(chars); f = r.randrange(3)
            if f == 0: P.say("ord(%s):1" % lit(ch), str(ord(ch)))
            elif f == 1: P.do("c := " + lit(ch)); P.say("ord(c):1, ' ', c", "%d %s" % (ord(ch), ch))
            else:
                P.do("i := %d" % ord(ch)); P.say("ord(chr(i) = %s):1, ord(%s in [%s]):1" % (lit(ch), lit(ch), lit(ch)), "11")
            continue
        if len(t) < 2: t += "xy"
        f = r.randrange(5)
        if f == 0: P.say(lit(t), t)
        elif f == 1: P.do("sum(%s)" % lit(t)); P.out.append(hash_(t).encode())
        elif f == 2: P.do("s := " + lit(t)); P.say("s", t); P.say("ord(s = %s):1" % lit(t), "1")
        elif f == 3: x = P.const(lit(t)); P.say(x, t); P.do("sum(%s)" % x); P.out.append(hash_(t).encode())
        else: P.say("'<' + %s + '>'" % lit(t), "<" + t + ">")
    for _ in range(8):
        n = r.choice([0, 1, 2**31 - 1, 255, 256, 65535, 65536, r.randrange(2**31), r.randrange(2**16), 10, 35, 36])
        P.do("i := %d" % n); P.say("i:1, ' ', i = %d" % n, "%d  TRUE" % n) if False else P.say("i:1, ' ', ord(i = %d):1" % n, "%d 1" % n)
        n = r.choice([2**32, 2**40 + 3, 2**63 - 1, 10**18, r.randrange(2**32, 2**63)])
        P.do("l := %d" % n); P.say("l:1", str(n))
        n = r.randrange(10**6) / r.choice([1, 2, 4, 8, 16, 64])
        P.say("%s:1:6" % repr(float(n)), "%.6f" % n)
    return P.src(), P.want()

def case(c):
    kit, rng = c.kits["plain"], c.rng
    if c.idx % 4 == 0: kind, (src, want) = "literals", literals(rng)
    else: kind, src, want = corpus.make(rng)
    c.state("kind", kind)
    try: spell.tokens(src)
    except ValueError as e: raise RuntimeError("tokenizer: %s" % e)
    base = None
    for i in range(4):
        s, kinds, style = spell.respell(rng, src, keep=want)
        for k in kinds: c.state("respelling", k)
        c.state("layout", style); c.state("kinds", *sorted(kinds))
        o = random_opts(rng)
        try:
            expect(c, kit, s, want, o, what="respelled program (%s; %s)" % (style, " ".join(sorted(kinds))))
        except Violation as v:
            # only a difference from the plainly spelled program is about the spelling; a program wrong in either is not
            try: expect(c, kit, src, want, o, name="q"); plain = True
            except Violation: plain = False
            if not plain: c.count("plain_program_fails_too"); return
            v.files["plain.pas"] = src if isinstance(src, (bytes, str)) else b""
            raise v
        c.count("respellings"); c.count("tokens", len(spell.tokens(src)))
    c.key = C.sha(src); c.sample = clip(s, 1500)

if __name__ == "__main__":
    simple_check("C14",
        "Each case is a random program (or a table of literals containing every character code, comment and quote delimiters, and numbers at the limits of their types) "
        "spelled in four random equivalent ways: letter case of keywords and names, layout (dense, one token per line, one line, random white space), the three comment forms with hostile contents "
        "in every gap, (. .) and @, other number bases and real notations, the other string quote, and consistent renaming to names resembling keywords, predefined names and C functions, or up to 200 "
        "characters long. Every spelling must compile and print what the reference predicts. Non-trivial: distinct program.",
        ["names that occur in the output keep their spelling, because enumeration values are printed as declared",
         "a name and a number are never written without anything between them"], case)
