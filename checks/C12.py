import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import corpus

COL = ["red", "green", "blue", "pink", "grey", "gold"]
class Idx:
    """An index type: declared text, ordinals lo..hi, and expressions for an ordinal given by an integer expression."""
    def __init__(s, P, r):
        k = r.choice(["int", "int", "int", "int", "char", "enum", "bool", "sub", "byte"])
        s.kind, s.bad = k, True
        if k == "int":
            s.lo = r.choice([0, 1, 1, 1, -1, -7, 5, 100, -1000, 65530, 2147483600, -2147483600]); s.hi = s.lo + r.choice([0, 1, 2, 4, 9])
            s.text = "%d..%d" % (s.lo, s.hi)
        elif k == "sub":
            s.lo = r.choice([0, -3, 2]); s.hi = s.lo + r.randrange(1, 8)
            s.text = P.type("%d..%d" % (s.lo, s.hi))
        elif k == "byte":
            s.lo = r.choice([250, 200, 0]); s.hi = min(255, s.lo + r.randrange(1, 9)); s.text = "%d..%d" % (s.lo, s.hi)
        elif k == "char":
            s.lo = r.choice([ord("a"), ord("A"), ord("0")]); s.hi = s.lo + r.randrange(0, 9)
            s.text = "'%s'..'%s'" % (chr(s.lo), chr(s.hi))
        elif k == "enum":
            s.lo = r.randrange(0, 4); s.hi = r.randrange(s.lo, 6)
            s.text = "%s..%s" % (COL[s.lo], COL[s.hi]) if (s.lo, s.hi) != (0, 5) else "col"
            s.bad = (s.lo, s.hi) != (0, 5)
        else:
            s.lo, s.hi, s.text, s.bad = 0, 1, "boolean", False
    def good(s, r): return r.choice([s.lo, s.hi, r.randrange(s.lo, s.hi + 1)])
    def wrong(s, r):
        if s.kind == "enum":
            c = [x for x in range(6) if not s.lo <= x <= s.hi]
        elif s.kind == "char":
            c = [s.lo - 1, s.hi + 1, 0, 255, 128 + s.lo % 64, r.randrange(1, 256)]
        else:
            n = s.hi - s.lo + 1
            c = [s.lo - 1, s.hi + 1, s.lo - 1, s.hi + 1, s.lo - n, s.hi + n, s.lo - r.randrange(1, 100), s.hi + r.randrange(1, 100), -s.hi, s.lo + 65536, s.lo - 65536, s.lo + 256, s.lo - 256,
                 2**31 - 1, -2**31 + 1, 0, -1]
        c = [x for x in c if not s.lo <= x <= s.hi and -2**31 < x < 2**31]
        return r.choice(c)
    def expr(s, P, r, v, sites):
        """An index expression with ordinal v, computed at run time in various ways; prepares variables in sites."""
        x = P.uid("ix")
        if s.kind == "enum":
            P.var("col", x); sites.append("%s := %s" % (x, COL[v])); return r.choice([x, x, "idcol(%s)" % x])
        if s.kind == "bool":
            P.var("boolean", x); sites.append("%s := %s" % (x, ["false", "true"][v])); return r.choice([x, "not not %s" % x, "%s = true" % x])
        if s.kind == "char":
            P.var("char", x); P.var("integer", x + "n")
            sites.append("%sn := %d" % (x, v)); sites.append("%s := chr(%sn)" % (x, x)); return r.choice([x, "chr(%sn)" % x, "chr(ord(%s))" % x])
        P.var("integer", x); sites.append("%s := %d" % (x, v))
        k = r.randrange(9)
        if k == 0 and -2**30 < v < 2**30: sites.append("%s := %d" % (x, v - 7)); return "%s + 7" % x
        if k == 1 and -2**30 < v < 2**30: sites.append("%s := %d" % (x, 2 * v)); return "%s div 2" % x
        if k == 2: return "idint(%s)" % x
        if k == 3: P.var("array [0..2] of integer", x + "a"); sites.append("%sa[1] := %s" % (x, x)); return "%sa[1]" % x
        if k == 4: P.var("record q: char; w: integer end", x + "r"); sites.append("%sr.w := %s" % (x, x)); return "%sr.w" % x
        if k == 5 and v >= 0: return "abs(%s)" % x
        if k == 6 and v >= 0: return "%d" % v if v < 2**31 else x
        if k == 7 and -2**30 < v < 2**30: sites.append("%s := %d" % (x, -v)); return "-%s" % x if False else "0 - %s" % x
        return x

class Arr:
    def __init__(s, P, r):
        s.dims = [Idx(P, r) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        s.rec = r.random() < .2
        el = "record c: char; n: integer; b: boolean end" if s.rec else r.choice(["integer", "integer", "integer", "longint"])
        sep = len(s.dims) > 1 and r.random() < .4
        s.text = ("array [%s] of " * len(s.dims) % tuple(d.text for d in s.dims) if sep else "array [%s] of " % ", ".join(d.text for d in s.dims)) + el
        s.t = P.type(s.text); s.sfx = ".n" if s.rec else ""
        s.join = r.choice([", ", "]["])
        s.v = {}
    def pick(s, r, bad):
        k = [d.good(r) for d in s.dims]
        if bad:
            c = [i for i, d in enumerate(s.dims) if d.bad]
            if not c: return None
            i = r.choice(c); k[i] = s.dims[i].wrong(r)
        return tuple(k)

def checked(c, P, rng, bad):
    """Arrays in all kinds of storage, accessed at run-time indices; when bad, one access is out of range. Returns the file of that access."""
    P.type("(%s)" % ", ".join(COL), "col")
    P.subs.append("function idint(x: integer): integer; begin idint := x end;\nfunction idcol(x: col): col; begin idcol := x end;\n"
                  "procedure vp(var x: integer); begin x := x + 1 end;\nprocedure vl(var x: longint); begin x := x + 1 end;\nfunction fv(x: longint): longint; begin fv := x * 2 end;")
    P.var("longint", "zz")
    arrs = []
    while len(arrs) < 3:
        a = Arr(P, rng)
        arrs.append(a)
        a.place = rng.choice(["glob", "glob", "ptr", "field", "local", "vparam", "param", "nested", "conf", "elem"])
        if a.place == "conf" and (len(a.dims) != 1 or a.dims[0].kind != "int" or a.rec): a.place = "glob"
        a.n = P.uid("a"); a.acc = a.n
        if a.place == "ptr": P.var("^" + a.t, a.n); P.do("new(%s)" % a.n); a.acc = a.n + "^"
        elif a.place == "field": P.var("record x: integer; y: %s; z: integer end" % a.t, a.n); a.acc = a.n + ".y"
        elif a.place == "elem": P.var("array [2..3] of " + a.t, a.n); a.acc = a.n + "[3]"
        elif a.place not in ("local",): P.var(a.t, a.n)
    nsites = rng.randrange(3, 9)
    badsite = rng.randrange(nsites) if bad else -1
    seq = 0
    where = None
    for si in range(nsites):
        # a routine (or the main program) with some accesses to one array
        a = rng.choice(arrs)
        stmts, out = [], []
        nm = {"vparam": "pa", "param": "pa", "conf": "pa"}.get(a.place, a.acc)
        v = dict(a.v) if a.place in ("glob", "ptr", "field", "vparam", "nested", "conf", "elem") else {}
        nacc = rng.randrange(2, 7); badacc = rng.randrange(nacc) if si == badsite else -1
        stopped = False
        for ai in range(nacc):
            isbad = ai == badacc
            k = a.pick(rng, isbad)
            if k is None: isbad = False; k = a.pick(rng, False)
            key = tuple(k)
            st = []
            A = "%s[%s]%s" % (nm, a.join.join(d.expr(P, rng, x, st) for d, x in zip(a.dims, k)), a.sfx)
            mark = " {@BAD}" if isbad else ""
            stmts += st
            c.count("accesses")
            for d, x in zip(a.dims, k): c.state("index", d.kind, "in" if d.lo <= x <= d.hi else "below" if x < d.lo else "above", a.place)
            seq += 1
            stmts.append("writeln('s%d')" % seq); out.append("s%d" % seq)
            f = rng.choice(["write", "write", "read", "expr", "vp", "inc", "fv", "if", "upd", "loop", "while"])
            if key not in v and not isbad and f not in ("write", "loop"): f = "write"
            big = "longint" in a.text
            val = rng.randrange(-1000, 1000)
            c.state("form", f, isbad)
            cur = v.get(key, 0); n0 = len(out)
            if f == "write": stmts.append("%s := %d%s" % (A, val, mark)); v[key] = val
            elif f == "read": stmts.append("writeln(%s)%s" % (A, mark)); out.append(str(cur))
            elif f == "expr": stmts.append("zz := 3 * %s + 1%s" % (A, mark)); stmts.append("writeln(zz)"); out.append(str(3 * cur + 1))
            elif f == "vp": stmts.append("%s(%s)%s" % ("vl" if big else "vp", A, mark)); v[key] = cur + 1
            elif f == "inc" : stmts.append("inc(%s)%s" % (A, mark)); v[key] = cur + 1
            elif f == "fv": stmts.append("writeln(fv(%s))%s" % (A, mark)); out.append(str(cur * 2))
            elif f == "if": stmts.append("if %s = %d then writeln('eq') else writeln('ne')%s" % (A, cur, mark)); out.append("eq")
            elif f == "upd": stmts.append("%s := %s - 5%s" % (A, A, mark)); v[key] = cur - 5
            elif f == "while": stmts.append("while %s > %d do writeln('loop')%s" % (A, cur, mark))
            else:
                # a loop over one dimension; a bad one runs over the end
                d = a.dims[0]
                if d.kind in ("int", "sub", "byte") and -2**30 < d.lo < 2**30:
                    i = P.var("integer"); over = rng.randrange(1, 4) if isbad else 0
                    st2 = []; rest = [e.expr(P, rng, x, st2) for e, x in zip(a.dims[1:], k[1:])]
                    stmts += st2
                    if isbad and any(not e.lo <= x <= e.hi for e, x in zip(a.dims[1:], k[1:])): first = True
                    else: first = False
                    down = rng.random() < .3
                    rg = list(range(d.lo, d.hi + 1 + over)) if not down else list(range(d.hi, d.lo - 1 - over, -1))
                    stmts.append("for %s := %d %s %d do begin writeln('i', %s:1); %s[%s]%s := %s * 2; writeln('w') end%s" % (
                        i, rg[0], "downto" if down else "to", rg[-1], i, nm, a.join.join([i] + rest), a.sfx, i, mark))
                    for x in rg:
                        out.append("i%d" % x)
                        if first or not d.lo <= x <= d.hi: break
                        v[(x,) + key[1:]] = x * 2; out.append("w")
                else: stmts.append("%s := %d%s" % (A, val, mark)); v[key] = val
            if isbad:
                if f != "loop" or not out[-1].startswith("i"): del out[n0:]
                stopped = True; stmts.append("writeln('not reached')"); break
        body = ";\n  ".join(stmts)
        cond = rng.random()
        q = P.uid("q")
        if a.place == "local": P.subs.append("procedure %s;\nvar %s: %s;\nbegin\n  %s\nend;" % (q, a.n, a.t, body)); P.do(q)
        elif a.place in ("vparam", "param"):
            P.subs.append("procedure %s(%s pa: %s);\nbegin\n  %s\nend;" % (q, "var" if a.place == "vparam" else "", a.t, body)); P.do("%s(%s)" % (q, a.n))
        elif a.place == "conf":
            el = "longint" if "longint" in a.text else "integer"
            if rng.random() < .5: P.subs.append("procedure %s(var pa: array [lo..hi: integer] of %s);\nbegin\n  %s\nend;" % (q, el, body))
            else: P.subs.append("procedure %s(var pa: array [lo..hi: integer] of %s);\nprocedure inner;\nbegin\n  %s\nend;\nbegin inner end;" % (q, el, body))
            P.do("%s(%s)" % (q, a.n))
        elif a.place == "nested": P.subs.append("procedure %s;\nprocedure inner;\nbegin\n  %s\nend;\nbegin inner end;" % (q, body)); P.do(q)
        elif cond < .4: P.subs.append("procedure %s;\nbegin\n  %s\nend;" % (q, body)); P.do(q)
        else: P.body.append(body)
        P.out += [o.encode() for o in out]
        if a.place not in ("param", "local"): a.v = v
        if stopped: P.do("writeln('not reached')"); return True
    return False

def case(c):
    kit, rng = c.kits["plain"], c.rng
    k = c.idx % 4
    if k == 3:
        # a program without index errors must not notice -Cr
        kind, src, want = corpus.make(rng)
        c.state("kind", kind)
        expect(c, kit, src, want, random_opts(rng) + ["-Cr"], what="program without index errors, with -Cr")
        c.count("programs_in_range")
        if want.count(b"\n") >= 5: c.key = C.sha(src)
        return
    P = Prog()
    bad = checked(c, P, rng, k != 2)
    src, want = P.src(), P.want()
    for _ in range(2):
        o = random_opts(rng) + ["-Cr"]
        if not bad:
            expect(c, kit, src, want, o, what="program without index errors, with -Cr"); c.count("programs_in_range")
            continue
        line = next(i for i, l in enumerate(src.split("\n")) if "{@BAD}" in l) + 1
        compile_ok(c, kit, src, o)
        r = K.run(["./p"], c.dir, cpu=20)
        c.count("runs")
        fs = {"p.pas": src, "expected": want, "got": r.out, "stderr": r.err, "options": " ".join(o)}
        if r.timeout == "wall": raise Inconclusive("time limit")
        if r.out != want:
            n, g, w = firstdiff(r.out, want)
            raise Violation("index error at line %d, options %s: status %s, output line %d is %r, expected %r; stderr %r" % (line, " ".join(o), r.rc, n, clip(g), clip(w), clip(r.err, 200)), fs)
        if r.rc <= 0 or r.timeout: raise Violation("index error at line %d, options %s: exit status %s%s" % (line, " ".join(o), r.rc, " (time limit)" if r.timeout else ""), fs)
        if b"p.pas:%d:" % line not in r.err: raise Violation("index error at line %d, options %s: the message does not name the position: %r" % (line, " ".join(o), clip(r.err, 200)), fs)
        c.count("stops_observed")
    c.key = C.sha(src); c.sample = clip(src, 1500)

if __name__ == "__main__":
    simple_check("C12",
        "Each case is one program compiled with -Cr under random other options. Half of them make exactly one out-of-range access, at an index just or far outside the bounds of one dimension of "
        "a random array (integer, char, enumeration, boolean, subrange indices; global, local, parameter, conformant, heap, field storage): the monitor demands exactly the "
        "output written before that access, a positive exit status and a message naming the file and line. The others are in range throughout and must print what the reference model predicts. "
        "Non-trivial: distinct source.",
        ["strings are not arrays: their index is only checked against their storage", "the out-of-range access is written on one line"], case)
