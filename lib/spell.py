"""Tokenizer for Pascal source and equivalent respellings of token sequences."""
import re
KEYWORDS = set("""for to downto do function procedure if then else while repeat until begin end case otherwise with program unit module
write writeln writestr read readln readstr var array of packed record class object type file string set forward inline implementation
interface const nil and and_then or or_else not div mod xor shr shl pow in static virtual override private public protected restricted
constructor destructor label goto uses bindable default value import sizeof""".split())
PREDEF = set("""abs odd sqr round trunc random randomize chr ord succ pred new dispose halt length popcnt card assign panic clock cycles
paramcount paramstr copy substr trim index max min sign inc dec pack unpack val sqrt sin cos ln exp arctan tan arctan2 fmod reset page rewrite
append close get put eof eoln gettimestamp time date unbind binding bind seekwrite seekread seekupdate empty position lastposition eq ne le ge
lt gt cmplx re im arg polar frac int maxint maxchar pi maxreal minreal epsreal timestamp bindingtype complex text integer longint int64 real
boolean char true false input output self inherited capacity bound name dayvalid timevalid year month day hour minute second microsecond
result update random low high byte word shortint cardinal double single pointer result""".split())
TOK = re.compile(r"""
 (?P<ws>\s+) | (?P<com>\{[^}]*\} | \(\*.*?\*\) | //[^\n]*)
 | (?P<str>'(?:[^'\n]|'')*' | "(?:[^"\n]|"")*")
 | (?P<id>[A-Za-z_][A-Za-z_0-9]*)
 | (?P<num>\$[0-9a-fA-F]+ | \d+\#[0-9a-zA-Z]+ | \d+\.\d+(?:[eE][+-]?\d+)? | \d+[eE][+-]?\d+ | \d+)
 | (?P<sym>:=|<=|>=|<>|><|\.\.|\*\*|\(\.|\.\)|[-+*/=<>()\[\],;:.^@])
""", re.X | re.S)

def tokens(src):
    """[(kind, text)] without white space and comments."""
    out, p = [], 0
    while p < len(src):
        m = TOK.match(src, p)
        if not m: raise ValueError("no token at %r" % src[p:p + 20])
        p = m.end()
        k = m.lastgroup
        if k not in ("ws", "com"): out.append((k, m.group()))
    return out

def strval(t): q = t[0]; return t[1:-1].replace(q + q, q)
def needs_sep(a, b):
    """Must tokens a and b be kept apart?"""
    (k1, x), (k2, y) = a, b
    if k1 in ("id", "num") and k2 in ("id", "num"): return True
    if k1 == "num" and y[0] in ".#": return True
    if k1 == "str" and k2 == "str": return True
    try: return tokens(x + y) != [a, b]
    except ValueError: return True

DIG = "0123456789abcdefghijklmnopqrstuvwxyz"
def inbase(n, b):
    s = ""
    while True:
        s = DIG[n % b] + s; n //= b
        if n == 0: return s

def rcase(r, s): 
    k = r.randrange(4)
    return s.lower() if k == 0 else s.upper() if k == 1 else s.capitalize() if k == 2 else "".join(ch.upper() if r.random() < .5 else ch.lower() for ch in s)

def number(r, t):
    """Another spelling of the same number."""
    if t[0] == "$" or "#" in t: return t
    if "." in t or "e" in t.lower():
        m = re.match(r"^(\d+)(?:\.(\d+))?(?:[eE]([+-]?\d+))?$", t)
        d, e = m.group(1) + (m.group(2) or ""), int(m.group(3) or 0) - len(m.group(2) or "")
        k = r.randrange(6)
        if k == 0: return "%s%s%s%d" % (d, r.choice("eE"), r.choice(["+", ""]) if e >= 0 else "", e)
        if k == 1: return t + "0" * r.randrange(1, 5) if "e" not in t.lower() else t
        if k == 2: return "0" * r.randrange(1, 4) + t
        if k == 3:
            sh = r.randrange(0, len(d)); return "%s.%s%s%+d" % (d[:sh] or "0", d[sh:], r.choice("eE"), e + len(d) - sh)
        if k == 4: return "0.%s%s%d" % (d, r.choice("eE"), e + len(d))
        return t.replace("e", "E") if r.random() < .5 else t.replace("E", "e")
    n = int(t)
    k = r.randrange(5)
    if k == 0: return "$" + rcase(r, "%x" % n)
    if k == 1: b = r.choice([2, 3, 8, 10, 16, 36, r.randrange(2, 37)]); return "%d#%s" % (b, rcase(r, inbase(n, b)))
    if k == 2: return "0" * r.randrange(1, 9) + t
    if k == 3: return "16#" + rcase(r, inbase(n, 16))
    return t

def comment(r, line=True):
    junk = "".join(r.choice(["begin", "end", "'", '"', "''", "(", ")", "*", " ", "  ", "x := 1;", "(.", ".)", "{", "/", "**", "\t", "if", "\x80\xff\xe9", "1..2", "$", "#", "@", "\\", "(**", "var"])
                   for _ in range(r.randrange(0, 12)))
    k = r.randrange(3 if line else 2)
    if k == 0:
        j = junk.replace("}", ""); j += r.choice(["", "\n", "*)", "(*", "//"])
        return "{" + j + "}"
    if k == 1:
        j = junk + r.choice(["", "\n", "}", "{}", "//", "*"])
        while "*)" in j: j = j.replace("*)", "* )")
        return "(*" + j + (" " if j.endswith("*") and False else "") + "*)"
    return "//" + junk.replace("\n", "") + r.choice(["", "}", "*)", "(*", "{"]) + "\n"

def space(r, sep, style):
    """White space and comments between two tokens; non-empty when sep."""
    if style == "tight": return r.choice([" ", "\n", "\t"]) if sep else ""
    if style == "lines": return "\n"
    if style == "oneline": return " "
    out = ""
    n = r.choice([0, 0, 1, 1, 1, 2, 3, 5]) if style == "mixed" else r.choice([0, 1])
    for _ in range(n):
        x = r.random()
        if x < .55: out += r.choice([" ", "  ", "\n", "\t", "\n\n", "\r\n", "\f", "\v", " " * 40])
        elif style == "comments" or x > .7: out += comment(r)
        if x > .995: out += " " * 3000 if r.random() < .5 else "\n" * 500
    if style == "comments" and not out: out = comment(r)
    if sep and not out: out = r.choice([" ", "\n", "\t", comment(r, True)])
    return out

def nasty(r, n):
    """A fresh identifier."""
    k = r.randrange(9)
    b = "%s%d" % (r.choice(["x", "zq", "tt"]), n)
    if k == 0: return r.choice(sorted(KEYWORDS)) + "_" + b
    if k == 1: return "_" + b
    if k == 2: return b + "_" + r.choice(sorted(KEYWORDS))
    if k == 3: return "v" * r.choice([30, 63, 64, 200]) + b
    if k == 4: return r.choice(["e", "E", "E5_", "a", "b2_"]) + b
    if k == 5: return r.choice(sorted(PREDEF)) + b
    if k == 6: return "A__" + b + "__"
    if k == 7: return r.choice(["printf", "main", "malloc", "strlen", "write_int"]) + ("%d" % n)
    return b

def enums(ts):
    """Names of enumeration values: write prints them as they are declared."""
    out = set()
    for i in range(1, len(ts) - 2):
        if ts[i][1] == "(" and ts[i - 1][1].lower() in ("=", ":", "of", "["):
            j = i + 1; names = []
            while j + 1 < len(ts) and ts[j][0] == "id" and ts[j + 1][1] in ",)":
                names.append(ts[j][1].lower())
                if ts[j + 1][1] == ")": out.update(names); break
                j += 2
    return out

def respell(r, src, keep=b"", rename=True, what=None):
    """An equivalent spelling of src. Identifiers occurring in `keep` (the expected output) keep their spelling."""
    ts = tokens(src)
    keep = keep.lower().decode("latin-1")
    frozen = enums(ts)
    kinds = what or set(k for k in ("case", "space", "alt", "num", "quote", "rename") if r.random() < .7)
    style = r.choice(["mixed", "mixed", "comments", "tight", "lines", "oneline", "few"]) if "space" in kinds else "oneline"
    names = {}
    out = []
    for k, t in ts:
        if k == "id":
            l = t.lower()
            if l in frozen or l in keep or t.startswith("__"): pass
            elif l not in KEYWORDS and l not in PREDEF and "rename" in kinds and rename:
                if l not in names: names[l] = nasty(r, len(names))
                t = names[l]
                if "case" in kinds and not t.startswith("__"): t = rcase(r, t)
            elif "case" in kinds: t = rcase(r, t)
        elif k == "num" and "num" in kinds: t = number(r, t)
        elif k == "sym" and "alt" in kinds and r.random() < .6:
            t = {"[": "(.", "]": ".)", "^": "@"}.get(t, t)
        elif k == "str" and "quote" in kinds and r.random() < .6:
            v = strval(t); q = '"' if t[0] == "'" else "'"; t = q + v.replace(q, q + q) + q
        out.append((k, t))
    s = space(r, False, "few") if style != "tight" else ""
    for i, x in enumerate(out):
        s += x[1]
        if i + 1 < len(out):
            w = space(r, needs_sep(x, out[i + 1]), style)
            if x[1] == "/" and w[:1] == "/": w = " " + w
            s += w
    s += r.choice(["", "\n", " ", "\n\n{ end }", "// x"]) if style != "tight" else ""
    return s, kinds, style
