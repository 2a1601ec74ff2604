import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import random, re, shutil, importlib

ASAN, MSAN = {}, {}
OPTS_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=0",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:halt_on_error=1", "MSAN_OPTIONS": "exitcode=99"}
ENV = dict(K._clean_env(), **OPTS_ENV)

def make(c, src, mode, opts=()):
    """Builds the program with every function of it and of the runtime instrumented; returns the executable's name."""
    with open(os.path.join(c.dir, "p.pas"), "wb") as f: f.write(src if isinstance(src, bytes) else src.encode("latin-1"))
    k = c.kits["plain"]
    attr, flags, lib = ("sanitize_address", K.SAN, os.path.join(k.dir, "runtime-asan", "libruntime.a")) if mode == "asan" else \
                       ("sanitize_memory", K.MSAN, os.path.join(k.dir, "runtime-msan", "libruntime.a"))
    r, l, ir = K.instrument(k, c.dir, "p", attr, flags, lib, opts)
    if r.timeout: raise Inconclusive("compile time limit")
    if l is None: raise Violation("the compiler rejects or fails on a well-formed program: %s" % clip(r.out + r.err), {"p.pas": src})
    if l.rc: raise Violation("the IR of a well-formed program cannot be compiled and linked: %s" % clip(l.err), {"p.pas": src, "p.ll": ir})
    c.count("instrumented_programs_" + mode)
    for fn in set(re.findall(r"call [^@\n]*@(__\w+)\(", ir)): c.state("runtime_function", mode, fn)
    return "p." + attr

STOPS = re.compile(rb"Attempt to \w+ file failed|No free files|Assertion `|Out of range|^[\x20-\x7e]+$", re.M)
def judge(c, exe, src, stdin=b"", args=(), extra=None, what="", want=None, done=True, **kw):
    r = K.run(["./" + exe] + list(args), c.dir, env=ENV, stdin=stdin, cpu=25, mem=None, **kw)
    c.count("instrumented_runs")
    fs = {"p.pas": src, "stdin": stdin, "stderr": r.err, "stdout": r.out, "mode": exe,
          "args": "\n".join(repr(a) for a in args)}
    fs.update(extra or {})
    if r.timeout == "wall": raise Inconclusive("wall-clock limit")
    m = re.search(rb"(ERROR: \w+Sanitizer: [^\n]{0,90}|WARNING: MemorySanitizer: [^\n]{0,60}|[\w.]+:\d+:\d+: runtime error: [^\n]{0,120})", r.err)
    if m or r.rc == 99:
        fr = re.search(rb"#\d+ 0x\w+ in (__\w+|\w+) [^\n]*?([\w.]+\.c:\d+)", r.err)
        raise Violation("%s: %s%s" % (what, clip(m.group(1) if m else r.err), " at " + clip(b" ".join(fr.groups())) if fr else ""), fs)
    if r.timeout: raise Violation("%s: the program neither works nor stops (time limit)" % what, fs)
    c.state("exit", what.split(":")[0], r.rc)
    if r.rc == 0:
        if want is not None and r.out != want:
            k, g, w = firstdiff(r.out, want)
            raise Violation("%s: output line %d is %r, expected %r" % (what, k, clip(g), clip(w)), fs)
        if done and want is None and not r.out.rstrip(b"\n").endswith(b"done"):
            raise Violation("%s: the program ends with status 0 before its last statement" % what, fs)
    elif r.rc == -6:
        if b"Assertion `" not in r.err: raise Violation("%s: aborted without a message: %s" % (what, clip(r.err)), fs)
    elif r.rc < 0: raise Violation("%s: killed by signal %d; stderr %r" % (what, -r.rc, clip(r.err)), fs)
    elif not r.err.strip(): raise Violation("%s: status %d without any message" % (what, r.rc), fs)
    return r

# ------------------------------------------------------------------ hostile data
LENS = [0, 1, 2, 9, 10, 11, 63, 64, 98, 99, 100, 101, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 512, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 5000]
def seg(r):
    k = r.randrange(16); n = r.choice(LENS)
    if k == 0: return b"9" * n
    if k == 1: return bytes(r.choice(b"0123456789") for _ in range(n))
    if k == 2: return b"-" * r.choice([1, 2, n])
    if k == 3: return b" " * n
    if k == 4: return bytes(r.choice(b"abcXYZ") for _ in range(n))
    if k == 5: return b"\0" * r.choice([1, 3, n])
    if k == 6: return bytes(r.randrange(256) for _ in range(n))
    if k == 7: return b"1" + r.choice([b"e", b"E"]) + r.choice([b"", b"+", b"-"]) + b"9" * r.choice([1, 3, 5, 6, 9, 10, 11, 20, n])
    if k == 8: return b"0." + b"1" * n
    if k == 9: return r.choice([b"TRUE", b"false", b"tru", b"TRUEX" * 30, b"FALSE" + b"x" * n])
    if k == 10: return b"\n" * r.choice([1, 2, n])
    if k == 11: return b"\r\n"
    if k == 12: return b"\t\v\f " * r.choice([1, 3])
    if k == 13: return str(r.choice([2**31, 2**31 - 1, -2**31, -2**31 - 1, 2**63, 2**63 - 1, -2**63, -2**63 - 1, 2**64, 10**30])).encode()
    if k == 14: return bytes(r.choice(b"\x80\xff\xa0\x85\xfe") for _ in range(r.choice([1, 3, n])))
    return r.choice([b".", b"e", b"+", b"'", b"\x1a", b"\x04", b"%s%n%d", b"%" * 9])
def hostile(r):
    k = r.random()
    if k < .05: return b""
    if k < .10: return b"\n"
    t = b""
    for _ in range(r.choice([1, 2, 4, 8, 16, 30])):
        t += seg(r) + r.choice([b"", b" ", b"\n", b"\n", b"\n"])
    return t[:30000] if r.random() < .5 else t[:30000] + b"\n"

# ------------------------------------------------------------------ text readers
def reader(c):
    r = c.rng; caps = [r.choice([1, 2, 10, 79, 80, 100, 127, 128, 200, 254, 255]) for _ in range(3)]
    al = [r.choice([1, 2, 10, 100, 255, 256, 1023, 1024, 1025, 3000]) for _ in range(2)]
    F = r.choice(["input", "f", "f"]); ops = []
    dump = ["writeln(i, ' ', l, ' ', ii)", "writeln(x)", "writeln(ord(ch))", "if b then writeln('T') else writeln('F')", "writeln(s1)", "writeln(length(s2))", "writeln(s3)", "writeln(ord(a1[1]), ord(a1[%d]))" % al[0], "cnt[b] := cnt[b] + 1", "hist[ch] := hist[ch] + 1"]
    rd = ["read(F, i)", "read(F, l)", "read(F, x)", "read(F, ch)", "read(F, b)", "read(F, s1)", "read(F, s2)", "read(F, s3)", "read(F, a1)", "read(F, a2)", "readln(F)", "readln(F, i)", "readln(F, s1)", "readln(F, s2, i)", "readln(F, a1)", "readln(F, x, i)", "readln(F, b)", "get(F)", "ch := F^", "read(F, i, x, ch, s1)", "if eoln(F) then readln(F)", "readln(F, ch, a2)", "read(F, ii)", "readln(F, ch, ii, ch)",
          "begin read(F, s1); readstr(s1, i, ch, s2) end", "begin readln(F, s2); readstr(s2, x, l) end", "begin readln(F, s3); readstr(s3, b, s1) end", "begin readln(F, s3); readstr(s3, a1) end", "begin read(F, s2); readstr(s2, ch, i, x) end", "begin readln(F, s1); val(s1, i); val(s1, x); val(s1, l) end", "begin read(F, s3); val(s3, i) end"]
    n = r.randrange(3, 12)
    for k in range(n):
        o = r.choice(rd)
        c.state("op", o)
        ops.append("      %d: begin %s; %s end" % (k, o, r.choice(dump)))
    opn = "" if F == "input" else "  assign(f, 'in.dat'); reset(f);\n"
    again = "" if F == "input" or r.random() < .5 else "  reset(f); if not eof(f) then read(f, ch); close(f); reset(f); if not eof(f) then readln(f, s1);\n"
    tail = "; ".join(r.sample([x for x in rd if "get" not in x], 3))
    src = """program p(input, output);
var f: text; i, n: integer; ii: 0..100; l: longint; x: real; ch: char; b: boolean;
  s1: string[%d]; s2: string[%d]; s3: string[%d]; a1: packed array [1..%d] of char; a2: array [0..%d] of char;
  cnt: array [boolean] of integer; hist: array [char] of integer;
begin
  i := 0; ii := 0; l := 0; x := 0; ch := 'x'; b := false; s1 := ''; s2 := ''; s3 := '';
  for n := 1 to %d do a1[n] := '.'; for n := 0 to %d do a2[n] := '.';
  cnt[false] := 0; cnt[true] := 0; for ch := chr(0) to chr(255) do hist[ch] := 0; ch := 'x';
%s  n := 0;
  while not eof(F) and (n < 4000) do begin
    case n mod %d of
%s
    end;
    n := n + 1
  end;
%s  %s;
  writeln('done')
end.
""".replace("(F", "(" + F).replace("F^", F + "^") % (*caps, al[0], al[1], al[0], al[1], opn, n, ";\n".join(ops).replace("(F", "(" + F).replace("F^", F + "^"), again, tail.replace("(F", "(" + F).replace("F^", F + "^"))
    mode = "asan" if r.random() < .6 else "msan"
    exe = make(c, src, mode, [r.choice(O)])
    for _ in range(15):
        d = hostile(r)
        with open(os.path.join(c.dir, "in.dat"), "wb") as f: f.write(d)
        judge(c, exe, src, d if F == "input" else b"", extra={"in.dat": d}, what="reading text")
        c.count("hostile_bytes", len(d))
    c.key = C.sha(src); c.sample = clip(src, 1200)

# ------------------------------------------------------------------ strings
def strings(c):
    r = c.rng; caps = [r.choice([1, 2, 5, 10, 100, 128, 254, 255]) for _ in range(4)]
    al = r.choice([1, 3, 10, 255, 300])
    S = ["s1", "s2", "s3", "s4"]; s = lambda: r.choice(S + ["'abc'", "'x'", "ch", "trim(s1)", "copy(s2, k1, k2)", "(s3 + s4)", "''"])
    t = lambda: r.choice(S)
    stm = [lambda: "%s := %s" % (t(), s()), lambda: "%s := %s + %s" % (t(), s(), s()), lambda: "%s := copy(%s, k1, k2)" % (t(), t()),
           lambda: "%s := substr(%s, k1, k2)" % (t(), t()), lambda: "%s := trim(%s)" % (t(), t()), lambda: "i := index(%s, %s)" % (t(), r.choice(S + ["'ab'", "'a'"])),
           lambda: "i := length(%s)" % t(), lambda: "val(%s, i)" % t(), lambda: "val(%s, x)" % t(), lambda: "val(%s, l)" % t(),
           lambda: "writestr(%s, %s)" % (t(), r.choice(S + ["i:w", "x:w:3", "x:w:d", "x", "x:w", "ch:w", "b:w", "l", "e:w", "'lit':w", "i:w, ' ', x:2:d, s1", "s1, s2, s3, s4", "a:w", "a", "w:3:d" if 0 else "x:3:d"])),
           lambda: "readstr(%s, i)" % t(), lambda: "readstr(%s, s4, s3)" % t(), lambda: "readstr(%s, ch, i, x)" % t(), lambda: "readstr(%s, a)" % t(), lambda: "readstr(%s, b, s2)" % t(),
           lambda: "b := %s %s %s" % (t(), r.choice(["=", "<>", "<", ">", "<=", ">="]), s()), lambda: "b := %s(%s, %s)" % (r.choice(["eq", "ne", "lt", "le", "gt", "ge"]), t(), t()),
           lambda: "%s := pass(%s)" % (t(), s()), lambda: "chg(%s, %s)" % (t(), t()), lambda: "if length(%s) > 0 then ch := s1[1]" % "s1", lambda: "if i mod 300 in [1..%d] then s1[i mod 300] := ch" % caps[0],
           lambda: "rec.s := %s" % t(), lambda: "%s := rec.s" % t(), lambda: "arr[k1 mod 3] := %s" % t(), lambda: "%s := arr[k1 mod 3] + rec.s" % t(), lambda: "%s := '%s'" % (t(), "y" * r.choice([1, 50, 127, 128, 200, 254]))]
    body = []
    for _ in range(r.randrange(4, 14)):
        q = r.choice(stm)(); body.append("    " + q); c.state("op", re.sub(r"s\d", "s", q)[:40])
    src = """program p(input, output);
type en = (alpha, beta, gamma);
  st = string[%d];
var i, k1, k2, w, d, rounds: integer; l: longint; x: real; ch: char; b: boolean; e: en; n: integer;
  s1: string[%d]; s2: string[%d]; s3: string[%d]; s4: string[255]; a: packed array [1..%d] of char;
  rec: record before: integer; s: string[%d]; after: integer end; arr: array [0..2] of string[%d];
function pass(s: st): st; begin pass := s + '!' end;
procedure chg(var q: string; t: string); begin if length(q) > 0 then begin q[1] := 'Q' end end;
begin
  i := 0; l := 0; x := 0; ch := 'c'; b := false; e := beta; s1 := ''; s2 := ''; s3 := ''; s4 := ''; rec.s := ''; rec.before := 1; rec.after := 2;
  for n := 0 to 2 do arr[n] := ''; for n := 1 to %d do a[n] := 'z';
  rounds := 0;
  while not eof and (rounds < 60) do begin
    rounds := rounds + 1;
    readln(k1, k2, w, d); if not eof then readln(s1); if not eof then readln(s2); if not eof then readln(s3); if not eof then readln(s4);
    if not eof then readln(x);
    if k1 < 1 then k1 := 1; if k2 < 0 then k2 := 0; if d < 0 then d := 0;
%s;
    writeln(i, ' ', length(s1), ' ', length(s2), ' ', length(s3), ' ', s4, rec.before, rec.after, ord(ch))
  end;
  writeln('done')
end.
""" % (r.choice(caps), caps[0], caps[1], caps[2], al, caps[3], r.choice(caps), al, ";\n".join(body))
    # the procedure variant needs a named string type for its parameters
    src = src.replace("var q: string; t: string", "var q: st; t: st")
    mode = "asan" if r.random() < .6 else "msan"
    exe = make(c, src, mode, [r.choice(O)])
    for _ in range(12):
        d = b""
        for _ in range(r.choice([1, 3, 20])):
            N = [0, 1, 2, 3, 10, 100, 127, 128, 254, 255, 256, 257, 1000, 2**31 - 1]
            W = [0, 1, 5, 10, 100, 253, 254, 255, 256, 257, 300, 1000, -1, -10, -255, -256, -300, 5000]
            d += b"%d %d %d %d\n" % (r.choice(N), r.choice(N), r.choice(W), r.choice([0, 1, 2, 10, 100, 254, 255, 256, 300, 1000, 20000]))
            for _ in range(4):
                d += (seg(r).replace(b"\n", b" ").replace(b"\r", b" ") if r.random() < .7 else b"ab" * r.randrange(130)) + b"\n"
            d += r.choice([b"0", b"1.5", b"-2.25e3", b"1e300", b"-1e-300", b"12345678901234567890", b"1e999", b"0.1e-400"]) + b"\n"
        if r.random() < .3: d = d[:r.randrange(len(d))]
        judge(c, exe, src, d, what="strings")
        c.count("hostile_bytes", len(d))
    c.key = C.sha(src); c.sample = clip(src, 1200)

# ------------------------------------------------------------------ files driven by a script
FILEPROG = """program p(input, output);
type rec = record a: integer; b: array [1..%(K)d] of char; x: real end;
  name = string[255];
  node = record f: text; n: integer; g: file of integer end;
  pnode = ^node;
var t: array [1..4] of text; tm: array [1..4] of integer; tn: array [1..4] of boolean;
  g: array [1..3] of file of rec; gm: array [1..3] of integer; gn: array [1..3] of boolean;
  h: file of char; hm: integer;
  op, i, n, v: integer; z: rec; s: string[%(CAP)d]; nm: name; x: real; ch: char; a: packed array [1..%(AL)d] of char; bt: bindingtype; q: pnode; l: longint;
procedure tops(op, i, v: integer);
begin
  case op of
    0: begin assign(t[i], nm); tm[i] := 0; tn[i] := true end;
    1: begin rewrite(t[i]); tm[i] := 2 end;
    2: if tn[i] or (tm[i] <> 0) then begin reset(t[i]); tm[i] := 1 end;
    3: if tn[i] then begin append(t[i]); tm[i] := 2 end;
    4: if tm[i] <> 0 then begin close(t[i]); tm[i] := 0; if not tn[i] then tn[i] := true end;
    5: if tm[i] = 2 then write(t[i], v);
    6: if tm[i] = 2 then writeln(t[i], v:v mod 300, ' ', nm, ' ', x:10:3, ch, a);
    7: if tm[i] = 1 then if not eof(t[i]) then readln(t[i], s);
    8: if tm[i] = 1 then if not eof(t[i]) then read(t[i], n);
    9: if tm[i] = 1 then if not eof(t[i]) then read(t[i], x);
    10: if tm[i] = 1 then if not eof(t[i]) then read(t[i], ch, a);
    11: if tm[i] = 1 then if not eof(t[i]) then get(t[i]);
    12: if tm[i] = 1 then if not eof(t[i]) then writeln(ord(t[i]^));
    13: if tm[i] = 2 then begin t[i]^ := ch; put(t[i]) end;
    14: if tm[i] = 1 then if not eof(t[i]) then writeln(eoln(t[i]));
    15: if tm[i] = 2 then page(t[i]);
    16: begin bt := binding(t[i]); if bt.bound then writeln(length(bt.name)) end;
    17: if tm[i] = 1 then while not eof(t[i]) do readln(t[i], ch);
    18, 19: begin bt.name := nm; bt.bound := false; bind(t[i], bt); if op = 19 then begin reset(t[i]); tm[i] := 1 end end;
    20: unbind(t[i]);
    21: begin bt := binding(t[i]); if bt.bound then bind(t[abs(v mod 4) + 1], bt) end;
    otherwise n := n
  end
end;
procedure gops(op, i, v: integer);
var k: integer;
begin
  case op of
    0: begin assign(g[i], nm); gm[i] := 0; gn[i] := true end;
    1: begin rewrite(g[i]); gm[i] := 2 end;
    2: if gn[i] or (gm[i] <> 0) then begin reset(g[i]); gm[i] := 1 end;
    3: if gm[i] <> 0 then begin close(g[i]); gm[i] := 0; gn[i] := true end;
    4: if gm[i] = 2 then begin z.a := v; z.x := v; write(g[i], z) end;
    5: if gm[i] = 2 then begin g[i]^ := z; put(g[i]) end;
    6: if gm[i] = 1 then if not eof(g[i]) then read(g[i], z);
    7: if gm[i] = 1 then if not eof(g[i]) then begin writeln(g[i]^.a); get(g[i]) end;
    8: if gm[i] = 1 then seekread(g[i], abs(v));
    9: if gm[i] = 2 then seekwrite(g[i], abs(v) mod 50);
    10: if gm[i] <> 0 then writeln(position(g[i]));
    11: if gm[i] <> 0 then writeln(lastposition(g[i]));
    12: if gm[i] <> 0 then writeln(empty(g[i]));
    13: if gm[i] = 1 then begin k := 0; while not eof(g[i]) and (k < 1000) do begin z := g[i]^; get(g[i]); k := k + 1 end end;
    14: if gm[i] = 2 then for k := 1 to abs(v) mod 40 do begin z.a := k; write(g[i], z) end;
    15: begin bt := binding(g[i]); if bt.bound then writeln(length(bt.name)) end;
    otherwise n := n
  end
end;
procedure local(d: integer; keep: boolean);
var f: text; r: file of rec; w: string[20];
begin
  rewrite(f); writeln(f, d); reset(f); readln(f, w); writeln(w);
  rewrite(r); z.a := d; write(r, z); reset(r); z.a := 0; if not eof(r) then read(r, z); writeln(z.a);
  if d > 0 then local(d - 1, keep);
  close(f); close(r)
end;
begin
  z.a := 0; z.x := 0; for n := 1 to %(K)d do z.b[n] := 'k'; for n := 1 to %(AL)d do a[n] := 'w';
  for n := 1 to 4 do begin tm[n] := 0; tn[n] := false end; for n := 1 to 3 do begin gm[n] := 0; gn[n] := false end;
  hm := 0; x := 1.5; ch := '-'; s := ''; n := 0; l := 0;
  while not eof do begin
    readln(op, i, v); readln(nm);
    if op < 100 then tops(op, i, v)
    else if op < 200 then gops(op - 100, i, v)
    else case op of
      200: local(i, true);
      201: begin new(q); rewrite(q^.f); writeln(q^.f, v); reset(q^.f); readln(q^.f, s); close(q^.f); rewrite(q^.g); write(q^.g, v); close(q^.g); dispose(q) end;
      202: begin assign(h, nm); rewrite(h); for n := 0 to abs(v) mod 100 do begin ch := chr(n); write(h, ch) end; hm := 1 end;
      203: if hm = 1 then begin reset(h); while not eof(h) do read(h, ch); close(h); hm := 0 end;
      otherwise n := n
    end
  end;
  writeln('done')
end.
"""
def files(c):
    r = c.rng
    src = FILEPROG % {"K": r.choice([1, 3, 8, 100, 500, 2000]), "CAP": r.choice([1, 5, 80, 255]), "AL": r.choice([1, 10, 200, 300])}
    mode = "asan" if r.random() < .6 else "msan"
    exe = make(c, src, mode, [r.choice(O)])
    def script(n):
        t = b""; rare = r.random() < .3
        for _ in range(n):
            k = r.random()
            nm = r.choice([b"fa", b"fb", b"fc", b"fd", b"garb"])
            if rare and r.random() < .06: nm = r.choice([b"", b"no/such/file", b".", b"x" * 255, b"x" * 254, b"y" * 300, b"a b", b"/dev/null", b"%s%n", b"\xff\x80"])
            if k < .55: o, i = r.choice([r.randrange(18), r.randrange(22)]), r.randrange(1, 5)
            elif k < .95: o, i = 100 + r.randrange(16), r.randrange(1, 4)
            else:
                o = r.choice([200, 201, 202, 203]); i = r.choice([0, 1, 3, 10]) if r.random() < .9 else 600
            if o in (0, 100) and r.random() < .2: nm = b"garb"
            t += b"%d %d %d\n%s\n" % (o, i, r.choice([0, 1, 2, 3, 7, 20, 100, 299, 1000, 2**31 - 1, -5, 12345]), nm)
        return t
    # most scripts first open things, so that the other operations apply
    pre = b"0 1 0\nfa\n1 1 0\n\n100 1 0\nga\n101 1 0\n\n0 2 0\ngarb\n2 2 0\n\n100 2 0\ngarb\n102 2 0\n\n"
    for _ in range(8):
        for f in os.listdir(c.dir):
            if not f.startswith("p."): os.remove(os.path.join(c.dir, f))
        gb = hostile(r)
        with open(os.path.join(c.dir, "garb"), "wb") as f: f.write(gb)
        d = (pre if r.random() < .8 else b"") + script(r.choice([5, 20, 60, 150]))
        kw, what = {}, "files"
        k = r.random()
        if k < .12: kw["fsize"] = r.choice([1000, 20000]); what = "files, file size limit"
        j = judge(c, exe, src, d, extra={"garb": gb}, what=what, done="fsize" not in kw, **kw) if "fsize" not in kw else None
        if "fsize" in kw:
            # a shell sets the limits and ignores the signal, so that writes fail
            judge_sh(c, exe, src, d, "trap '' XFSZ; ulimit -f %d" % r.choice([0, 1, 8]), {"garb": gb}, "files, writes fail")
        elif k < .22: judge_sh(c, exe, src, d, "ulimit -n %d" % r.choice([3, 4, 5, 7]), {"garb": gb}, "files, no descriptors left")
        elif k < .28: judge_sh(c, exe, src, d, "exec >&-", {"garb": gb}, "files, standard output closed")
        elif k < .34: judge_sh(c, exe, src, d, "exec >/dev/full", {"garb": gb}, "files, standard output full")
        elif k < .40: judge_sh(c, exe, src, d, "exec <&-", {"garb": gb}, "files, standard input closed")
        elif k < .44: judge_sh(c, exe, src, d, "exec <.", {"garb": gb}, "files, standard input a directory")
        c.count("script_operations", d.count(b"\n") // 2)
    c.key = c.rng.random(); c.sample = clip(d.decode("latin-1"), 600)

def judge_sh(c, exe, src, stdin, setup, extra, what):
    c.state("fault", setup)
    r = K.run(["/bin/bash", "-c", setup + "; exec ./" + exe], c.dir, env=ENV, stdin=stdin, cpu=25, mem=None)
    c.count("fault_runs")
    fs = dict(extra, **{"p.pas": src, "stdin": stdin, "stderr": r.err, "setup": setup})
    if r.timeout == "wall": raise Inconclusive("wall-clock limit")
    m = re.search(rb"(ERROR: \w+Sanitizer: [^\n]{0,90}|WARNING: MemorySanitizer: [^\n]{0,60}|[\w.]+:\d+:\d+: runtime error: [^\n]{0,120})", r.err)
    if m: raise Violation("%s: %s" % (what, clip(m.group(1))), fs)
    if r.timeout: raise Violation("%s: the program neither works nor stops" % what, fs)
    if r.rc < 0 and not (r.rc == -6 and b"Assertion" in r.err): raise Violation("%s: killed by signal %d" % (what, -r.rc), fs)

# ------------------------------------------------------------------ arguments
def arguments(c):
    r = c.rng; caps = [r.choice([1, 10, 127, 128, 254, 255]) for _ in range(2)]
    src = """program p(input, output);
type st = string[%d];
var i, n: integer; s: string[%d]; t: string[255]; u: st; x: real;
procedure show(q: st); begin writeln(length(q), ' ', q) end;
begin
  for i := -3 to paramcount + 3 do begin
    s := paramstr(i); t := paramstr(i); u := paramstr(i) + paramstr(i); show(paramstr(i));
    val(t, n); val(t, x); if length(t) > 0 then writeln(ord(t[1]), ord(t[length(t)]));
    writeln(s, length(s), length(t), length(u), index(t, s))
  end;
  readln(n); t := paramstr(n); writeln(length(t));
  writeln('done')
end.
""" % tuple(caps)
    mode = r.choice(["asan", "msan"])
    exe = make(c, src, mode, [r.choice(O)])
    for _ in range(12):
        args = [seg(r).replace(b"\0", b"@") for _ in range(r.choice([0, 1, 2, 5, 30]))]
        if r.random() < .2: args.append(b"z" * 100000)
        judge(c, exe, src, b"%d\n" % r.choice([0, 1, -1, 2**31 - 1, -2**31, 1000]), args, what="arguments")
        c.count("arguments", len(args))
    c.key = C.sha(src)

# ------------------------------------------------------------------ dates and numbers given to the runtime
def values(c):
    r = c.rng
    src = """program p(input, output);
var ts: timestamp; i, w, d: integer; l: longint; x: real; s: string[%d]; b: boolean; ch: char; e: (red, green, blue); f: text; z: complex; a: packed array [1..%d] of char;
begin
  assign(f, 'out.txt'); rewrite(f); gettimestamp(ts); writeln(date(ts), time(ts)); s := ''; for i := 1 to %d do a[i] := 'q';
  e := green; b := true; ch := '#';
  while not eof do begin
    readln(i, l, w, d, x); ts.year := i; z := cmplx(x, l);
    writeln(f, date(ts), ' ', time(ts));
    writeln(f, i:w, l:w, ch:w, b:w, e:w, a:w, 'abc':w);
    writeln(f, i, l, x, x:w, x:w:d, re(z), im(z), s);
    writestr(s, %s); writestr(s, %s);
    writeln(round(x - x), trunc(x - x), popcnt(i), card([1..w]), sqr(w), odd(l), abs(w))
  end;
  close(f); writeln('done')
end.
"""
    it = ["i:w", "l:w", "ch:w", "b:w", "e:w", "a:w", "'abc':w", "x", "x:w", "x:w:d", "x:0:d", "s", "date(ts)", "i:w, x:w:d", "a, a, a", "l, i:w, ch:w"]
    src = src % (r.choice([1, 10, 128, 255]), (k := r.choice([1, 10, 255, 300])), k, r.choice(it), r.choice(it))
    src = src.replace("round(x - x), trunc(x - x), ", "").replace(", card([1..w])", "")
    mode = r.choice(["asan", "asan", "msan"])
    exe = make(c, src, mode, [r.choice(O)])
    for _ in range(10):
        d = b""
        for _ in range(r.choice([1, 5, 20])):
            d += b"%d %d %d %d %s\n" % (r.choice([0, 1, -1, 2024, 9999, 10000, 99999, 2**31 - 1, -2**31, r.randrange(-2**31, 2**31)]), r.choice([0, 2**63 - 1, -2**63, r.randrange(2**60)]),
                r.choice([0, 1, 5, 20, 200, 254, 255, 256, 300, 2000, -1, -5, -300]), r.choice([0, 1, 5, 17, 100, 250, 255, 256, 1000, 30000]), r.choice([b"0", b"1.5", b"-1e300", b"1e308", b"1e999", b"-1e999", b"2.5e-310"]))
        judge(c, exe, src, d, what="values")
    if r.random() < .1:
        big = b"1 1 2147483647 2147483647 1.5\n"
        c.state("fault", "huge width")
        small = "program p(input, output); var i, w, d: integer; l: longint; x: real; s: string[255]; begin readln(i, l, w, d, x); writestr(s, x:3:d); writeln(length(s)); writestr(s, 'a', i:w); writeln(length(s)); writeln('done') end.\n"
        exe = make(c, small, "asan", [r.choice(O)])
        judge(c, exe, small, big, what="values, huge width")
    c.key = C.sha(src)

# ------------------------------------------------------------------ generated programs under the instrumentation
PROFILES = [dict(strings=1), dict(sets=1), dict(), dict(subs=1)]
def generated(c):
    r = c.rng
    try: src, want, cover, feats = gen.program(r, 8000)
    except TypeError: raise
    mode = r.choice(["asan", "asan", "msan"])
    exe = make(c, src, mode, [r.choice(O)] + (["-no-memcpy"] if r.random() < .2 else []))
    judge(c, exe, src, want=want, what="generated program")
    c.key = C.sha(src)
KINDS = [(reader, 5), (strings, 5), (files, 5), (arguments, 1), (values, 2), (generated, 3)]
def case(c):
    f = c.rng.choice([k for k, w in KINDS for _ in range(w)])
    c.state("kind", f.__name__)
    f(c)

def pre(ck, kits):
    """Builds the instrumented runtimes and makes sure that both monitors see a planted fault."""
    k = kits["plain"]
    K.add_runtime(k, "asan", K.SAN); K.add_runtime(k, "msan", K.MSAN)
    d = os.path.join(k.dir, "canary"); os.makedirs(d)
    src = "program p(input, output); var i: integer; a: array [1..4] of integer; b: array [1..4] of integer; procedure q; var u: integer; begin if i > 0 then u := 1; if u > 5 then writeln('x') end; begin i := 0; a[1] := 1; b[1] := 1; readln(i); if i = 0 then q else begin a[i] := 7; writeln(a[i], b[1]) end end.\n"
    open(os.path.join(d, "p.pas"), "w").write(src)
    for mode, attr, flags, inp in (("asan", "sanitize_address", K.SAN, b"5\n"), ("msan", "sanitize_memory", K.MSAN, b"0\n")):
        r, l, ir = K.instrument(k, d, "p", attr, flags, os.path.join(k.dir, "runtime-" + mode, "libruntime.a"), ["-O0"])
        if l is None or l.rc: raise K.InfraError("canary: cannot build the instrumented program: " + clip(r.out + r.err + (l.err if l else b"")))
        x = K.run(["./p." + attr], d, env=ENV, stdin=inp, mem=None)
        if b"Sanitizer" not in x.err: raise K.InfraError("canary: %s does not report a planted fault" % mode)

if __name__ == "__main__":
    simple_check("C19",
        "programs instrumented in every function and linked with an instrumented runtime (AddressSanitizer + UBSan, or "
        "MemorySanitizer) run on hostile input text, strings, arguments, file contents, file-operation scripts and I/O "
        "faults: no sanitizer report, no signal, no hang, and a non-zero status only with a message",
        ["the programs themselves only perform operations that are correct for the state their files are in",
         "copy/substr positions are at least 1 and lengths at least 0 (the runtime asserts this)",
         "glibc is not instrumented beyond the sanitizers' interceptors"], case, pre=pre, budget_quick=30)
