import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import struct
CH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 +-*/=<>.,;:!?"

# ---- component types: a declaration, random values, how to put a value in a variable, how to print one, bytes on disk
class Ty:
    direct = True           # a literal exists, so write(f, literal) and f^ := literal work
    def __init__(s, P, r): s.n = P.uid("t"); s.decl(P, r)
    def set(s, var, v): return ["%s := %s" % (var, s.lit(v))]
class Int(Ty):
    lo, hi, size = -2**31 + 1, 2**31 - 1, 4
    def decl(s, P, r): P.type("integer", s.n)
    def gen(s, r): return r.choice([r.randint(-99, 99), r.randint(s.lo, s.hi)]) if s.lo < -99 else r.randint(s.lo, s.hi)
    def lit(s, v): return str(v)
    def show(s, x, v): return [("%s:1" % x, "%d" % v)]
    def pack(s, v): return [b for b in v.to_bytes(s.size, "little", signed=True)]
class Long(Int):
    lo, hi, size = -2**62, 2**62, 8
    def decl(s, P, r): P.type("longint", s.n)
class Sub(Int):
    def decl(s, P, r):
        s.lo = r.randrange(-50, 50); s.hi = s.lo + r.randrange(1, 60); P.type("%d..%d" % (s.lo, s.hi), s.n)
class Real(Ty):
    size = 8
    def decl(s, P, r): P.type("real", s.n)
    def gen(s, r): return r.randint(-10**6, 10**6) / 16
    def lit(s, v): return repr(v)
    def show(s, x, v): return [("%s:1:4" % x, "%.4f" % v)]
    def pack(s, v): return list(struct.pack("<d", v))
class Chr(Ty):
    size = 1
    def decl(s, P, r): P.type("char", s.n)
    def gen(s, r): return r.choice(CH)
    def lit(s, v): return "'%s'" % v
    def show(s, x, v): return [(x, v)]
    def pack(s, v): return [ord(v)]
class Bool(Ty):
    size = 1
    def decl(s, P, r): P.type("boolean", s.n)
    def gen(s, r): return r.random() < .5
    def lit(s, v): return "true" if v else "false"
    def show(s, x, v): return [(x, "TRUE" if v else "FALSE")]
    def pack(s, v): return [int(v)]
class Enum(Ty):
    size = 4
    def decl(s, P, r): s.names = [P.uid("en") for _ in range(r.randint(2, 9))]; P.type("(%s)" % ", ".join(s.names), s.n)
    def gen(s, r): return r.randrange(len(s.names))
    def lit(s, v): return s.names[v]
    def show(s, x, v): return [("ord(%s):1" % x, str(v)), ("':', %s" % x, ":" + s.names[v])]
    def pack(s, v): return list(struct.pack("<i", v))
class Chars(Ty):
    def decl(s, P, r): s.size = r.randint(2, 40); P.type("packed array [1..%d] of char" % s.size, s.n)
    def gen(s, r): return "".join(r.choice(CH) for _ in range(s.size))
    def lit(s, v): return "'%s'" % v
    def show(s, x, v): return [(x, v)]
    def pack(s, v): return list(v.encode())
class Str(Ty):
    def decl(s, P, r): s.cap = r.choice([2, 5, 20, 80, 255]); s.size = s.cap + 2 if s.cap < 255 else 257; P.type("string[%d]" % s.cap, s.n); s.size = None
    def gen(s, r): return "".join(r.choice(CH) for _ in range(r.choice([0, 2, s.cap, r.randint(0, s.cap)])))
    def lit(s, v): return "'%s'" % v
    def set(s, x, v): return ["%s := %s" % (x, s.lit(v))]
    def show(s, x, v): return [("length(%s):1" % x, str(len(v))), (x, v)]
    def pack(s, v): return [len(v)] + list(v.encode())
class SetT(Ty):
    size = None
    def decl(s, P, r): s.lo = r.choice([0, 3]); s.m = r.choice([7, 31, 40, 63, 200]); P.type("set of %d..%d" % (s.lo, s.m), s.n)
    def gen(s, r): return frozenset(r.randint(s.lo, s.m) for _ in range(r.randrange(8)))
    def lit(s, v): return "[" + ", ".join(map(str, sorted(v))) + "]"
    def show(s, x, v): return [("card(%s):1" % x, str(len(v)))] + [("%d in %s" % (k, x), "TRUE" if k in v else "FALSE") for k in sorted({s.lo, s.m, (s.lo + s.m) // 2} | set(sorted(v)[:3]))]
    def pack(s, v): return None
class Arr(Ty):
    direct = False
    def decl(s, P, r):
        s.e = r.choice([Int, Real, Chr, Bool, Long])(P, r); s.k = r.randint(1, 9); s.lo = r.choice([0, 1, -3]); s.size = s.e.size * s.k
        P.type("array [%d..%d] of %s" % (s.lo, s.lo + s.k - 1, s.e.n), s.n)
    def gen(s, r): return [s.e.gen(r) for _ in range(s.k)]
    def set(s, x, v): return ["%s[%d] := %s" % (x, s.lo + i, s.e.lit(u)) for i, u in enumerate(v)]
    def show(s, x, v): return [z for i, u in enumerate(v) for z in s.e.show("%s[%d]" % (x, s.lo + i), u) + [("','", ",")]]
    def pack(s, v): return [b for u in v for b in s.e.pack(u)]
class Rec(Ty):
    direct = False; size = None
    def decl(s, P, r):
        s.f = [(P.uid("g"), r.choice([Int, Real, Chr, Bool, Long, Enum, Chars, Str, Arr, SetT])(P, r)) for _ in range(r.randint(1, 5))]
        P.type("%srecord %s end" % (r.choice(["", "packed "]), "; ".join("%s: %s" % (n, t.n) for n, t in s.f)), s.n)
    def gen(s, r): return [t.gen(r) for _, t in s.f]
    def set(s, x, v): return [z for (n, t), u in zip(s.f, v) for z in t.set("%s.%s" % (x, n), u)]
    def show(s, x, v): return [z for (n, t), u in zip(s.f, v) for z in t.show("%s.%s" % (x, n), u) + [("'|'", "|")]]
    def pack(s, v): return None
TYPES = [Int, Int, Long, Sub, Real, Chr, Bool, Enum, Chars, Str, Str, SetT, Arr, Rec, Rec]

class FV:
    """A file variable: its text, component type (None: text), mode, current component and the disk file it is assigned to."""
    def __init__(s, x, t, ftype): s.x, s.t, s.ftype, s.mode, s.pos, s.name, s.eofseen = x, t, ftype, None, 0, None, False

def items(show): return ", ".join(a for a, _ in show), "".join(b for _, b in show)

def history(c, kits):
    """A random history of operations on several file variables and disk files."""
    r, P = c.rng, Prog()
    kit = kits["plain"]
    types = [r.choice(TYPES)(P, r) for _ in range(r.randint(1, 4))]
    disk, made, pre = {}, {}, {}           # name -> components (list) or text (str); name -> type
    inproc = r.random() < .5
    locs, fvs, init = [], [], []
    val, hd = {}, {}
    vn = [0]
    for t in types + [None]:
        ft = "text"
        if t:
            val[t] = P.var(t.n); ft = P.type("file of " + t.n)
            w, rd, sk, ct = P.uid("wr"), P.uid("rd"), P.uid("sk"), P.uid("ct")
            P.subs.append("procedure %s(var f: %s; v: %s); begin write(f, v) end;" % (w, ft, t.n))
            P.subs.append("procedure %s(var f: %s; var v: %s); begin read(f, v) end;" % (rd, ft, t.n))
            P.subs.append("procedure %s(var f: %s; n: integer); var i: integer; begin for i := 1 to n do get(f) end;" % (sk, ft))
            P.subs.append("function %s(var f: %s): integer; var n: integer; begin n := 0; while not eof(f) do begin n := n + 1; get(f) end; %s := n end;" % (ct, ft, ct))
            hd[t] = (w, rd, sk, ct)
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice(["g", "g", "l", "e", "f", "h", "2"])
            x = P.uid("fv")
            decl, acc = {"g": (ft, x), "l": (ft, x), "e": ("array [1..3] of " + ft, "%s[%d]" % (x, r.randint(1, 3))),
                         "f": ("record a: char; f: %s; z: integer end" % ft, x + ".f"), "h": ("^" + ft, x + "^"),
                         "2": ("array [0..1] of record q: array ['a'..'b'] of %s end" % ft, "%s[%d].q['%s']" % (x, r.randint(0, 1), r.choice("ab")))}[k]
            if (k == "l" or (k in "ef2" and r.random() < .3)) and inproc: locs.append("%s: %s" % (x, decl)); c.count("file_local_" + k)
            else: P.var(decl, x); c.count("file_" + k)
            if k == "h": init.append("new(%s)" % x)
            fvs.append(FV(acc, t, ft))
    iv, nv, cv, sv, bv = P.var("integer"), P.var("integer"), P.var("char"), P.var("string[255]"), P.var("bindingtype")
    main = P.body; P.body = []
    for z in init: P.do(z)
    def newname(t):
        vn[0] += 1; n = r.choice(["d%d", "data_%d.dat", "./e%d.x", "F%d.TXT"]) % vn[0]
        made[n] = t; return n
    def busy(n, me): return any(f is not me and f.name == n and f.mode for f in fvs)
    def attach(f, n):
        k = r.randrange(5) if f.name else 2 + r.randrange(3) if r.random() < .7 else 0      # bind needs a file that has a name
        if k == 0: P.do("%s := '%s'" % (sv, n)); P.do("assign(%s, %s)" % (f.x, sv))
        elif k == 1: P.do("%s.name := '%s'" % (bv, n)); P.do("bind(%s, %s)" % (f.x, bv)); f.mode_keep = True
        else: P.do("assign(%s, '%s')" % (f.x, n))
        if k != 1: f.mode = None
        f.name = n
        if r.random() < .3:
            P.do("%s := binding(%s)" % (bv, f.x)); P.say("%s.bound, ' ', %s.name" % (bv, bv), "TRUE " + n)
    def data(f): return disk[f.name]
    def chk(f): P.say(*((lambda a, b: (a, b))(*items(f.t.show(val[f.t], data(f)[f.pos])))))
    def step():
        f = r.choice(fvs); t = f.t
        x = f.x
        if f.mode is None:
            if f.name is None or r.random() < .25 or busy(f.name, f):
                old = [n for n in disk if n[0] != '#' and made[n] is t and not busy(n, f)]
                if f.name is None and r.random() < .1:                 # never assigned: a temporary file of its own
                    vn[0] += 1; f.name = "#%d" % vn[0]; made[f.name] = t
                    f.mode, f.pos = "w", 0; disk[f.name] = [] if t else ""
                    P.do("rewrite(%s)" % x); c.count("op_unnamed"); return
                if old and r.random() < .5: attach(f, r.choice(old)); c.count("op_attach_existing")
                elif r.random() < .15 and t is not None and t.size and t.pack(t.gen(r)) is not None:      # made by someone else
                    n = newname(t); disk[n] = [t.gen(r) for _ in range(r.choice([0, 1, 3, 50, 700]))]
                    pre[n] = b"".join(bytes(t.pack(v)) for v in disk[n]); attach(f, n); c.count("op_attach_external")
                elif r.random() < .15 and t is None:
                    n = newname(t); disk[n] = "".join("".join(r.choice(CH) for _ in range(r.randrange(60))) + "\n" for _ in range(r.choice([0, 1, 40])))
                    pre[n] = disk[n].encode(); attach(f, n); c.count("op_attach_external_text")
                else: attach(f, newname(t)); c.count("op_attach_new")
            if f.name in disk and r.random() < .75: m = r.choice(["r", "r", "a"])
            else: m = r.choice(["w", "w", "w", "a"]) if f.name not in disk else "w"
            opens(f, m); return
        k = r.random()
        if k < .08: P.do("close(%s)" % x); f.mode = None; c.count("op_close"); return
        if k < .18 : opens(f, r.choice("rrrwa")); return
        if t is None: return textop(f)
        d = data(f); v = val[t]
        w, rd, sk, ct = hd[t]
        if f.mode in "wa":
            k = r.choice(["w", "w", "wl", "put", "hp", "loop", "info", "seek", "copy"])
            if k in ("w", "wl", "put", "hp"):
                u = t.gen(r)
                if t.direct and k != "w" and r.random() < .7: e = t.lit(u)
                else:
                    for z in t.set(v, u): P.do(z)
                    e = v
                if k in ("w", "wl"): P.do("write(%s, %s)" % (x, e))
                elif k == "hp": P.do("%s(%s, %s)" % (w, x, e))
                elif not t.direct and r.random() < .5:
                    for z in t.set(x + "^", u): P.do(z)
                    P.do("put(%s)" % x)
                else: P.do("%s^ := %s" % (x, e)); P.do("put(%s)" % x)
                store(f, u); c.count("op_write_" + k)
            elif k == "loop":
                u = t.gen(r); n = r.choice([2, 7, 50, 300, 1500]) if f.mode == "a" or f.pos == len(d) else 2
                if isinstance(t, (Int, Long)) and not isinstance(t, Sub):
                    P.do("for %s := 1 to %d do write(%s, %s * 3 - %d)" % (iv, n, x, iv, n)); us = [q * 3 - n for q in range(1, n + 1)]
                elif isinstance(t, Real):
                    P.do("for %s := 1 to %d do write(%s, %s / 4)" % (iv, n, x, iv)); us = [q / 4 for q in range(1, n + 1)]
                elif isinstance(t, Chr):
                    P.do("for %s := 1 to %d do write(%s, chr(32 + %s mod 90))" % (iv, n, x, iv)); us = [chr(32 + q % 90) for q in range(1, n + 1)]
                else:
                    for z in t.set(v, u): P.do(z)
                    P.do("for %s := 1 to %d do write(%s, %s)" % (iv, n, x, v)); us = [u] * n
                for u in us: store(f, u)
                c.count("op_write_loop"); c.count("components_written", n)
            elif k == "info":
                if f.mode == "w": P.say("position(%s):1, ' ', lastposition(%s):1, ' ', empty(%s)" % (x, x, x), "%d %d %s" % (f.pos, len(d), "FALSE" if d else "TRUE"))
                else: P.say("lastposition(%s):1, ' ', empty(%s)" % (x, x), "%d %s" % (len(d), "FALSE" if d else "TRUE"))
                c.count("op_info_write")
            elif k == "seek" and f.mode == "w":
                f.pos = r.randint(0, len(d)); P.do("seekwrite(%s, %d)" % (x, f.pos)); c.count("op_seekwrite")
            elif k == "copy":
                src = [g for g in fvs if g.t is t and g.mode == "r" and g.pos < len(data(g))]
                if src:
                    g = r.choice(src); n = min(r.choice([1, 2, 30]), len(data(g)) - g.pos)
                    m = r.randrange(3)
                    if m == 0: st = "begin write(%s, %s^); get(%s) end" % (x, g.x, g.x)
                    elif m == 1: st = "begin %s^ := %s^; put(%s); get(%s) end" % (x, g.x, x, g.x)
                    else: st = "begin read(%s, %s); write(%s, %s) end" % (g.x, v, x, v)
                    P.do("for %s := 1 to %d do %s" % (iv, n, st))
                    for q in range(n): store(f, data(g)[g.pos]); g.pos += 1
                    c.count("op_copy"); c.count("components_written", n)
        else:
            k = r.choice(["rd", "rd", "hrd", "peek", "get", "skip", "eof", "info", "seek", "all", "count", "run"])
            left = len(d) - f.pos
            if k in ("rd", "hrd") and left:
                P.do("read(%s, %s)" % (x, v) if k == "rd" else "%s(%s, %s)" % (rd, x, v)); chk(f); f.pos += 1; c.count("op_read_" + k)
            elif k == "peek" and left:
                P.say(*items(t.show(x + "^", d[f.pos]))); c.count("op_peek")
            elif k == "get" and left:
                P.do("%s := %s^" % (v, x)); P.do("get(%s)" % x); chk(f); f.pos += 1; c.count("op_get")
            elif k == "skip" and left:
                n = r.randint(1, min(left, 400)); P.do("%s(%s, %d)" % (sk, x, n)); f.pos += n; c.count("op_skip")
            elif k == "eof": P.say("eof(%s)" % x, "FALSE" if left else "TRUE"); c.count("op_eof_%s" % (not left))
            elif k == "info":
                P.say("position(%s):1, ' ', lastposition(%s):1, ' ', empty(%s)" % (x, x, x), "%d %d %s" % (f.pos, len(d), "FALSE" if d else "TRUE")); c.count("op_info_read")
            elif k == "seek":
                f.pos = r.randint(0, len(d)); P.do("seekread(%s, %d)" % (x, f.pos)); c.count("op_seekread")
            elif k == "count":
                P.do("%s := %s(%s)" % (nv, ct, x)); P.say(nv + ":1", str(left)); f.pos = len(d); c.count("op_count")
            elif k == "all" and left < 8:
                P.do("while not eof(%s) do begin read(%s, %s); write(%s, ' ') end" % (x, x, v, items(t.show(v, d[0]) if d else [("'?'", "")])[0]))  if not isinstance(t, SetT) and not has_set(t) else P.do("%s := %s(%s)" % (nv, ct, x))
                tx = "".join(items(t.show(v, u))[1] + " " for u in d[f.pos:]) if not isinstance(t, SetT) and not has_set(t) else ""
                P.say("';'", tx + ";"); f.pos = len(d); c.count("op_read_all")
            elif k == "run" and left and isinstance(t, (Int, Chr)):
                n = r.randint(1, left); e = "ord(%s)" % v if isinstance(t, Chr) else "(%s mod 1009)" % v
                P.do("%s := 0" % nv)
                P.do("for %s := 1 to %d do begin read(%s, %s); %s := (%s * 31 + %s) mod 65521 end" % (iv, n, x, v, nv, nv, "ord(%s)" % v if isinstance(t, Chr) else "ord(odd(%s))" % v))
                a = 0
                for u in d[f.pos:f.pos + n]: a = (a * 31 + (ord(u) if isinstance(t, Chr) else u & 1)) % 65521
                P.say(nv + ":1", str(a)); f.pos += n; c.count("op_run"); c.count("components_read", n)
    def has_set(t): return isinstance(t, SetT) or (isinstance(t, Rec) and any(has_set(q) for _, q in t.f))
    def store(f, u):
        d = data(f)
        if f.mode == "a": d.append(u)
        elif f.pos < len(d): d[f.pos] = u; f.pos += 1
        else: d.append(u); f.pos += 1
    def opens(f, m):
        if m in "r" and (f.name not in disk): m = "w"
        if m == "r": P.do("reset(%s)" % f.x); f.mode, f.pos = "r", 0
        elif m == "w": P.do("rewrite(%s)" % f.x); f.mode, f.pos = "w", 0; disk[f.name] = [] if f.t else ""
        else:
            P.do("append(%s)" % f.x); f.mode = "a"; disk.setdefault(f.name, [] if f.t else "")
        c.count("op_open_" + m)
    def textop(f):
        x = f.x; d = disk[f.name]
        if f.mode in "wa":
            k = r.choice(["w", "ln", "lines", "put", "num", "page"])
            if k == "w": s = "".join(r.choice(CH) for _ in range(r.randrange(1, 30))); P.do("write(%s, '%s')" % (x, s))
            elif k == "ln": s = "".join(r.choice(CH) for _ in range(r.randrange(0, 30))); P.do("writeln(%s, '%s')" % (x, s) if s else "writeln(%s)" % x); s += "\n"
            elif k == "num":
                a, b, q = r.randint(-999, 999), r.randint(1, 9), r.random() < .5
                P.do("writeln(%s, %d:%d, %s, ' ', %d / 4:1:2)" % (x, a, b, "true" if q else "false", b)); s = "%*d%s %.2f\n" % (b, a, "TRUE" if q else "FALSE", b / 4)
            elif k == "lines":
                n = r.choice([3, 40, 400]); P.do("for %s := 1 to %d do writeln(%s, %s:1, ' line')" % (iv, n, x, iv)); s = "".join("%d line\n" % q for q in range(1, n + 1))
            elif k == "page": P.do("page(%s)" % x); s = "\f"
            else: ch = r.choice(CH); P.do("%s^ := '%s'" % (x, ch)); P.do("put(%s)" % x); s = ch
            disk[f.name] += s; c.count("op_text_" + k)
        else:
            k = r.choice(["rl", "rl", "ch", "eof", "eoln", "get", "skipln", "count", "rest"])
            left = d[f.pos:]
            line = left.split("\n")[0]
            if k == "eof": P.say("eof(%s)" % x, "FALSE" if left else "TRUE"); c.count("op_text_eof_%s" % (not left)); return
            if k == "count":
                P.do("%s := 0" % nv); P.do("while not eof(%s) do begin if eoln(%s) then %s := %s + 1000; read(%s, %s); %s := %s + ord(%s) end" % (x, x, nv, nv, x, cv, nv, nv, cv))
                P.say(nv + ":1", str(sum(ord(q) for q in left) + 1000 * left.count("\n"))); f.pos = len(d)
            elif not left: return
            elif k == "rl":
                if len(line) > 250: return
                P.do("readln(%s, %s)" % (x, sv)); P.say("'<', %s, '>'" % sv, "<%s>" % line); f.pos += len(line) + (len(line) < len(left))
            elif k == "skipln": P.do("readln(%s)" % x); f.pos += len(line) + (len(line) < len(left))
            elif k == "eoln": P.say("eoln(%s)" % x, "TRUE" if left[0] == "\n" else "FALSE")
            elif k == "ch": P.do("read(%s, %s)" % (x, cv)); P.say("ord(%s):1" % cv, str(ord(left[0]))); f.pos += 1
            elif k == "get": P.say("ord(%s^):1" % x, str(ord(left[0]))); P.do("get(%s)" % x); f.pos += 1
            elif k == "rest":
                P.do("while not eof(%s) do begin %s := 0; while not eoln(%s) do begin read(%s, %s); %s := %s + 1 end; readln(%s); write(%s:1, ',') end" % (x, nv, x, x, cv, nv, nv, x, nv))
                if not left.endswith("\n"): P.body.pop(); return
                P.say("'.'", "".join("%d," % len(q) for q in left[:-1].split("\n")) + "."); f.pos = len(d)
            c.count("op_text_" + k)
    for _ in range(r.choice([15, 40, 80, 120])): step()
    if r.random() < .4:
        for f in fvs:
            if f.mode: P.do("close(%s)" % f.x); f.mode = None
    body, P.body = P.body, main
    if inproc:
        P.subs.append("procedure work;\n%sbegin\n  %s\nend;" % ("var " + "; ".join(locs) + ";\n" if locs else "", ";\n  ".join(body))); P.do("work")
    else: P.body += body
    halt = r.random() < .1
    if halt: P.do("halt(3)"); c.count("ended_by_halt")
    opts = random_opts(r)
    for n, b in pre.items(): open(os.path.join(c.dir, n), "wb").write(b)
    res = expect(c, kit, P.src(), P.want(), opts, rc=3 if halt else 0, what="history of %d file variables on %d files" % (len(fvs), len(disk)),
                 files={"pre-" + n.replace("/", "_"): b for n, b in pre.items()})
    fs = {"p.pas": P.src(), "options": " ".join(opts)}
    for n, d in disk.items():
        if n[0] == "#": continue
        b = open(os.path.join(c.dir, n), "rb").read() if os.path.exists(os.path.join(c.dir, n)) else None
        t = made[n]
        c.count("disk_files_checked")
        if b is None: raise Violation("the file '%s' written by the program does not exist afterwards, options %s" % (n, " ".join(opts)), fs)
        if t is None:
            if b != d.encode(): raise Violation("text file '%s' holds %d bytes %r, expected %d bytes %r, options %s" % (n, len(b), clip(b, 100), len(d), clip(d, 100), " ".join(opts)), fs)
            continue
        size = t.size or (len(b) // len(d) if d else 0)
        if len(b) != size * len(d): raise Violation("file '%s' of %d components holds %d bytes, options %s" % (n, len(d), len(b), " ".join(opts)), fs)
        for k, u in enumerate(d):
            w = t.pack(u)
            if w is not None and list(b[k * size:k * size + len(w)]) != w:
                raise Violation("component %d of file '%s' is %r on disk, expected %r, options %s" % (k, n, b[k * size:k * size + len(w)], bytes(w), " ".join(opts)), fs)
        c.count("disk_components_checked", len(d))
    for t in types: c.state("type", type(t).__name__)
    c.key = C.sha(P.src()); c.sample = clip(P.src(), 1500)

def many(c, kits):
    """Many files open at the same time, written and read in turns."""
    r, P = c.rng, Prog()
    n, m = r.choice([5, 20, 60]), r.randint(3, 40)
    unnamed = r.random() < .4
    ft = r.choice(["integer", "real", "char", "string[9]"]) if r.random() < .7 else None
    f = P.var("array [1..%d] of %s" % (n, "file of " + ft if ft else "text")) if ft != "string[9]" else None
    if ft == "string[9]":
        t = P.type(ft); f = P.var("array [1..%d] of file of %s" % (n, t)); v = P.var(t)
    elif ft: v = P.var(ft)
    else: v = P.var("string[40]")
    i, j, s = P.var("integer"), P.var("integer"), P.var("string[30]")
    nm = r.choice(["m", "file-", "./q"])
    P.do("for %s := 1 to %d do begin writestr(%s, '%s', %s:1); %srewrite(%s[%s]) end" % (i, n, s, nm, i, "" if unnamed else "assign(%s[%s], %s); " % (f, i, s), f, i))
    a, b = r.randint(1, 50), r.randint(1, 50)
    e = lambda i, j: i * a + j * b
    x = "(%s * %d + %s * %d)" % (i, a, j, b)
    if ft == "integer": w, out = "write(%s[%s], %s)" % (f, i, x), lambda q: "%d" % q; sh = v + ":1"
    elif ft == "real": w, out = "write(%s[%s], %s / 8)" % (f, i, x), lambda q: "%.3f" % (q / 8); sh = v + ":1:3"
    elif ft == "char": w, out = "write(%s[%s], chr(33 + %s mod 90))" % (f, i, x), lambda q: chr(33 + q % 90); sh = v
    elif ft: w, out = "begin writestr(%s, 'x', %s:1); write(%s[%s], %s) end" % (v, x, f, i, v), lambda q: "x%d" % q; sh = v
    else: w, out = "writeln(%s[%s], 'l', %s:1)" % (f, i, x), lambda q: "l%d" % q; sh = v
    rdx = "%s(%s[%s], %s)" % ("read" if ft else "readln", f, i, v)
    P.do("for %s := 1 to %d do for %s := 1 to %d do %s" % (j, m, i, n, w))
    order = [(k * r.choice([1, 1])) for k in range(1, n + 1)]
    P.do("for %s := %d downto 1 do reset(%s[%s])" % (i, n, f, i))
    P.do("for %s := 1 to %d do begin for %s := 1 to %d do begin %s; write(%s, ' ') end; writeln end" % (j, m, i, n, rdx, sh))
    for y in range(1, m + 1): P.out.append("".join(out(e(z, y)) + " " for z in range(1, n + 1)).encode())
    P.do("for %s := 1 to %d do if not eof(%s[%s]) then writeln('not at end')" % (i, n, f, i)); P.say("'done'", "done")
    expect(c, kits["plain"], P.src(), P.want(), random_opts(r), what="%d files open at once" % n)
    c.count("files_open_at_once", n); c.key = C.sha(P.src())

def missing(c, kits):
    """Opening for reading a file that does not exist, and closing a file that is not open, end the program with a message and status 1."""
    r, P = c.rng, Prog()
    f = P.var(r.choice(["text", "file of integer", "file of char"]))
    P.say("'before'", "before")
    k = r.choice(["reset", "reset", "dir", "close2", "append"])
    if k == "reset": P.do("assign(%s, 'no_such_file')" % f); P.do("reset(%s)" % f)
    elif k == "dir": P.do("assign(%s, '%s')" % (f, r.choice(["nodir/x", "./none/../y/z"]))); P.do(r.choice(["rewrite", "append", "reset"]) + "(%s)" % f)
    elif k == "append": P.do("assign(%s, 'nodir/x')" % f); P.do("append(%s)" % f)
    else: P.do("assign(%s, 'y')" % f); P.do("rewrite(%s)" % f); P.do("close(%s)" % f); P.do("close(%s)" % f)
    P.do("writeln('after')")
    res = expect(c, kits["plain"], P.src(), P.want(), random_opts(r), rc=1, what="file error (%s)" % k)
    if not res.err.strip(): raise Violation("a file error (%s) ends the program without a message" % k, {"p.pas": P.src()})
    c.count("file_errors_" + k); c.key = k

def conv(c, kits):
    """What is written to a typed file is converted as in an assignment."""
    r, P = c.rng, Prog()
    i, s, ch = P.var("integer"), P.var("string[30]"), P.var("char")
    iv = r.randint(-10**5, 10**5)
    P.do("%s := %d" % (i, iv)); P.do("%s := 'abc'" % s); P.do("%s := 'Q'" % ch)
    st, ca, se, sb = P.type("string[%d]" % r.randint(5, 40)), P.type("packed array [1..5] of char"), P.type("set of char"), P.type("1..9")
    def f(t): return P.var("file of " + t)
    def seq(t, vals, show):
        x, v = f(t), P.var(t)
        P.do("assign(%s, '%s')" % (x, x)); P.do("rewrite(%s)" % x)
        picks = [r.choice(vals) for _ in range(r.randint(2, 6))]
        for e, _ in picks: P.do(r.choice(["write(%s, %s)", "begin %s^ := %s; put(" + x + ") end"]) % (x, e))
        P.do("reset(%s)" % x); 
        for _, w in picks: P.do("read(%s, %s)" % (x, v)); P.say(show % v, w)
        P.say("eof(%s)" % x, "TRUE")
    seq("real", [(i, "%.2f" % iv), ("7", "7.00"), ("2.25", "2.25"), ("%s / 4" % i, "%.2f" % (iv / 4)), ("%s + 1" % i, "%.2f" % (iv + 1))], "%s:1:2")
    seq("longint", [(i, str(iv)), ("10000000000", "10000000000"), ("%s * 2" % i, str(iv * 2)), ("ord(%s)" % ch, "81")], "%s:1")
    seq("integer", [(i, str(iv)), ("ord('a')", "97"), ("trunc(2.9)", "2")], "%s:1")
    seq(st, [(s, "abc"), ("'x'", "x"), ("'lit'", "lit"), (ch, "Q"), (s + " + 'd'", "abcd"), ("''", ""), ("copy(%s, 2, 2)" % s, "bc")], "%s")
    seq(ca, [("'vwxyz'", "vwxyz"), ("'12345'", "12345")], "%s")
    seq("char", [(ch, "Q"), (s + "[2]", "b"), ("succ(%s)" % ch, "R"), ("chr(65)", "A")], "%s")
    seq("boolean", [("true", "TRUE"), ("%s > 0" % i, "TRUE" if iv > 0 else "FALSE"), ("not odd(%s)" % i, "FALSE" if iv % 2 else "TRUE"), ("%s = 'Q'" % ch, "TRUE")], "%s")
    expect(c, kits["plain"], P.src(), P.want(), random_opts(r), what="converted components")
    c.count("conversion_programs"); c.key = C.sha(P.src())

def case(c):
    kits = c.kits
    k = c.rng.random()
    (history if k < .8 else many if k < .88 else conv if k < .95 else missing)(c, kits)

simple_check("C09", "files: operation histories over typed and text files against a model of their contents and positions, output and bytes on disk compared",
             ["the file system of the sandbox stores what is written", "a disk file is open through one file variable at a time"], case, 32, 780)
