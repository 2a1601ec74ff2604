import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import subprocess, pty, termios, select, time, random, signal

def run_to(sink, cmd, cwd, stdin=b""):
    """Runs a program with its standard output connected to a file, a pipe or a terminal. Returns (status, output, stderr)."""
    if sink == "file":
        r = K.run(cmd, cwd, stdin=stdin, cpu=20)
        if r.timeout: raise Inconclusive("time limit")
        return r.rc, r.out, r.err
    err = open(os.path.join(cwd, "stderr.txt"), "wb+")
    fi = open(os.path.join(cwd, "stdin.txt"), "wb+"); fi.write(stdin); fi.flush(); fi.seek(0)
    if sink == "pipe":
        p = subprocess.Popen(cmd, cwd=cwd, stdin=fi, stdout=subprocess.PIPE, stderr=err)
        fd = p.stdout.fileno()
    else:
        fd, slave = pty.openpty()
        a = termios.tcgetattr(slave); a[1] &= ~termios.OPOST; termios.tcsetattr(slave, termios.TCSANOW, a)
        p = subprocess.Popen(cmd, cwd=cwd, stdin=fi, stdout=slave, stderr=err)
        os.close(slave)
    out, t = b"", time.time()
    while True:
        if time.time() - t > 60:
            p.kill(); p.wait(); raise Inconclusive("time limit")
        r, _, _ = select.select([fd], [], [], 1)
        if not r: continue
        try: b = os.read(fd, 65536)
        except OSError: break
        if not b: break
        out += b
    rc = p.wait()
    if sink == "pipe": p.stdout.close()
    else: os.close(fd)
    err.seek(0); e = err.read(); err.close(); fi.close()
    return rc, out, e

SAFE = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .,;:-+*/()[]"
def text(r, n): return "".join(r.choice(SAFE) for _ in range(n))

def ending(c, P, r):
    """Adds the way the program ends; returns (statement, status, predicate on stderr, stops)."""
    k = r.choice(["halt", "halt", "halt", "halt0", "panic", "panic", "openerr", "closeerr", "normal", "normal"])
    c.state("ending", k)
    if k == "halt":
        n = r.choice([0, 1, 2, 3, 11, 12, 42, 127, 128, 200, 254, 255, r.randrange(256)])
        f = r.randrange(7); c.state("haltarg", f, n)
        if f == 0: return "halt(%d)" % n, n, None
        if f == 1: P.var("integer", "hn"); P.do("hn := %d" % n); return "halt(hn)", n, None
        if f == 2: P.var("0..255", "hn"); P.do("hn := %d" % n); return "halt(hn)", n, None
        if f == 3: P.var("longint", "hn"); P.do("hn := %d" % n); return "halt(hn)", n, None
        if f == 4: P.subs.append("function hf(x: integer): integer; begin hf := x - 5 end;"); return "halt(hf(%d))" % (n + 5), n, None
        if f == 5: P.var("integer", "hn"); P.do("hn := %d" % (n - 3)); return "halt(hn + 3)", n, None
        P.consts.append("hc = %d" % n); return "halt(hc)", n, None
    if k == "halt0": return "halt", 0, None
    if k == "panic":
        m = text(r, r.choice([2, 3, 5, 20, 80, 200])); f = r.randrange(5); c.state("panicarg", f)
        if f == 0: t = qs(m)
        elif f == 1: P.consts.append("pm = " + qs(m)); t = "pm"
        elif f == 2: P.var("string[255]", "pm"); P.do("pm := " + qs(m)); t = "pm"
        elif f == 3: P.var("string[200]", "pm"); P.do("pm := " + qs(m[:-1])); t = "pm + %s" % qs(m[-1])
        else: m = m[:5].ljust(5); P.var("packed array [1..5] of char", "pm"); P.do("pm := " + qs(m)); t = "pm"
        return "panic(%s)" % t, None, m.encode()
    if k == "openerr":
        P.var(r.choice(["text", "file of integer"]), "mf"); P.do("assign(mf, 'nosuchdir/missing%d')" % r.randrange(100))
        return r.choice(["reset(mf)", "rewrite(mf)", "append(mf)"]), None, b""
    if k == "closeerr":
        P.var("text", "mf"); P.do("assign(mf, 'cf.txt'); rewrite(mf); close(mf)")
        return "close(mf)", None, b""
    return None, 0, None

def ends(c, rng):
    P = Prog(); r = rng
    files = {}
    nf = r.randrange(0, 4)
    for i in range(nf):
        f = "tf%d" % i; P.var("text", f); P.do("assign(%s, 'out%d.txt')" % (f, i)); P.do("rewrite(%s)" % f); files[f] = b""
    P.var("integer", "cnt"); P.var("integer", "dummy"); P.var("set of 1..9", "st"); P.do("st := [4, 7]")
    out = [b""]
    stmt, rc, msg = ending(c, P, r)
    def writes(n):
        s = []
        for _ in range(n):
            t = text(r, r.choice([1, 5, 30, 70]))
            rep = r.choice([1, 1, 1, 2, 50, 400]) if r.random() < .3 else 1
            tgt = r.choice([None, None] + list(files)) if files else None
            ln = r.random() < .7
            w = "write%s(%s%s)" % ("ln" if ln else "", tgt + ", " if tgt else r.choice(["", "", "output, "]), qs(t))
            b = (t + ("\n" if ln else "")).encode() * rep
            if rep > 1: w = "for dummy := 1 to %d do %s" % (rep, w)
            if r.random() < .1: w = "begin %s end" % w
            s.append(w)
            if tgt: files[tgt] += b
            else: out[0] += b
            c.count("chunks_written", rep)
        return s
    P.body += writes(r.randrange(0, 8))
    if stmt is None:
        P.body += writes(r.randrange(0, 6))
        if r.random() < .3 and files: P.do("close(tf0)")
    else:
        site = r.choice(["main", "proc", "nested", "func", "loop", "while", "with", "forin", "case", "rec", "ifelse", "repeat", "method", "unit", "unitinit", "procparam"])
        c.state("site", site)
        pre = writes(r.randrange(0, 5)); post = ["writeln('not reached')"] + ["writeln(%s, 'not reached')" % f for f in files]
        body = "; ".join(pre + [stmt] + post)
        if site in ("unit", "unitinit") and (nf or "hf(" in stmt or "hn" in stmt or "hc" in stmt or "pm" in stmt or "mf" in stmt): site = "proc"
        if "dummy" in body and site in ("unit", "unitinit"): site = "proc"
        if site == "main": P.body += pre + [stmt] + post
        elif site == "proc": P.subs.append("procedure q; begin %s end;" % body); P.body += ["q"] + post
        elif site == "nested": P.subs.append("procedure q; var z: integer; procedure w; procedure v; begin z := z + 1; %s end; begin v; writeln('no') end; begin z := 1; w end;" % body); P.body += ["q"] + post
        elif site == "func": P.subs.append("function q: integer; begin %s; q := 1 end;" % body); P.body += ["cnt := q"] + post
        elif site == "loop": P.body += ["for cnt := 1 to 5 do begin if cnt = 3 then begin %s end end" % body] + post
        elif site == "while": P.body += ["cnt := 0; while true do begin cnt := cnt + 1; if cnt > 4 then begin %s end end" % body]
        elif site == "repeat": P.body += ["repeat %s until false" % body]
        elif site == "with": P.var("record x, y: integer end", "rv"); P.body += ["with rv do begin x := 1; %s end" % body] + post
        elif site == "forin": P.body += ["for cnt in st do begin if cnt = 7 then begin %s end end" % body] + post
        elif site == "case": P.body += ["cnt := 4; case cnt of 1: writeln('one'); 4: begin %s end end" % body] + post
        elif site == "rec": P.subs.append("procedure q(n: integer); begin if n = 0 then begin %s end else q(n - 1); writeln('no') end;" % body); P.body += ["q(%d)" % r.choice([1, 10, 1000])] + post
        elif site == "ifelse": P.body += ["cnt := 1; if cnt = 2 then writeln('no') else begin %s end" % body] + post
        elif site == "procparam": P.subs.append("procedure call(procedure x); begin x; writeln('no') end;\nprocedure q; begin %s end;" % body); P.body += ["call(q)"] + post
        elif site == "method":
            P.types.append("cls = class v: integer; procedure m; end"); P.subs.append("procedure cls.m; begin v := 3; %s end;" % body)
            P.var("cls", "ob"); P.body += ["ob.m"] + post
        else:
            P.uses.append("stopper")
            b = "unit stopper;\ninterface\nprocedure q;\nimplementation\nprocedure q; begin %s end;\nbegin\n" % (body if site == "unit" else "writeln('no')")
            if site == "unitinit":
                # the unit is initialised before anything the program writes
                out[0] = b""; b += body
                for t in pre: pass
                out[0] = UNITOUT(pre)
            else: b += "dummyu"
            b = b.replace("begin\ndummyu", "begin\nwrite('')")
            return finish(P, ["q"] + post if site == "unit" else post, {"stopper": b + "\nend.\n"}), out[0], files, rc, msg, stmt
    return finish(P, [], None), out[0], files, rc, msg, stmt

def UNITOUT(pre):
    o = b""
    for s in pre:
        m = re.match(r"^(?:begin )?write(ln)?\((?:output, )?'(.*)'\)(?: end)?$", s)
        o += m.group(2).replace("''", "'").encode() + (b"\n" if m.group(1) else b"")
    return o
def finish(P, more, units):
    P.body += more
    return P.src(), units

def arguments(c, rng):
    r = rng
    P = Prog()
    n = r.choice([0, 1, 1, 2, 3, 5, 20, 300])
    args = []
    for _ in range(n):
        k = r.randrange(6)
        if k == 0: a = b""
        elif k == 1: a = text(r, r.randrange(1, 20)).encode()
        elif k == 2: a = bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 60)))
        elif k == 3: a = text(r, r.choice([254, 255, 128, 127, 200, 256, 257, 300, 511, 512, 513, 3000])).encode()
        elif k == 4: a = r.choice([b"-x", b"--help", b"*", b"$HOME", b"'q'", b'"', b"a\nb", b"\xc3\xa9", b"%s%n", b"\\"])
        else: a = b"%d" % r.randrange(10**6)
        args.append(a)
    P.types.append("s255 = string[255]"); P.var("s255", "s"); P.var("integer", "i"); P.var("longint", "l"); P.var("0..400", "b"); P.var("string[20]", "t")
    P.subs.append("procedure show(x: s255); begin writeln('<', x, '>', length(x):1) end;\nfunction arg(k: integer): s255; begin arg := paramstr(k) end;")
    P.say("paramcount:1", str(n))
    all_ = [b"./p"] + [a[:255] for a in args] # a string holds no more
    P.do("for i := 0 to paramcount do show(paramstr(i))")
    P.out += [b"<" + a + b">%d" % len(a) for a in all_]
    for _ in range(8):
        k = r.choice([0, 1, n, n + 1, -1, 1000000, r.randrange(0, n + 1)]); a = all_[k] if 0 <= k <= n else b""
        f = r.randrange(8); c.state("paramstr", f, "in" if 0 <= k <= n else "out")
        if f == 0: P.do("s := paramstr(%d)" % k); P.say("'[', s, ']'", b"[" + a + b"]")
        elif f == 1: P.do("i := %d" % k); P.say("'[', paramstr(i), ']'", b"[" + a + b"]")
        elif f == 2: P.do("l := %d" % k); P.do("show(paramstr(l))"); P.out.append(b"<" + a + b">%d" % len(a))
        elif f == 3: P.do("show(arg(%d))" % k); P.out.append(b"<" + a + b">%d" % len(a))
        elif f == 4: P.say("length(paramstr(%d)):1" % k, str(len(a)))
        elif f == 5 and len(a) < 250: P.do("s := 'p' + paramstr(%d) + 'q'" % k); P.say("s", b"p" + a + b"q")
        elif f == 6: P.say("paramstr(%d) = ''" % k, " TRUE" if not a else "FALSE") if False else P.say("ord(paramstr(%d) = ''):1" % k, "1" if not a else "0")
        elif f == 7 and 0 <= k <= 300: P.do("b := %d" % k); P.say("'[', paramstr(b), ']'", b"[" + a + b"]")
        c.count("paramstr_calls")
    P.say("paramcount:1", str(n))
    src, want = P.src(), P.want()
    for _ in range(2):
        o = random_opts(rng)
        expect(c, c.kits["plain"], src, want, o, args=[b"" + a for a in args], what="program arguments")
    c.state("nargs", n)
    c.key = C.sha(src, repr(args)); c.sample = clip(src, 1200)

def case(c):
    rng, kit = c.rng, c.kits["plain"]
    if c.idx % 4 == 3: arguments(c, rng); return
    (src, units), want, files, rc, msg, stmt = ends(c, rng)
    for _ in range(2):
        o = random_opts(rng); sink = rng.choice(["file", "pipe", "tty"])
        compile_ok(c, kit, src, o, units)
        for i in range(4):
            p = os.path.join(c.dir, "out%d.txt" % i)
            if os.path.exists(p): os.unlink(p)
        got, out, err = run_to(sink, ["./p"], c.dir)
        c.count("runs"); c.count("runs_to_" + sink); c.state("sink", sink, stmt is not None)
        fs = {"p.pas": src, "expected": want, "got": out, "stderr": err, "options": " ".join(o), "ending": str(stmt)}
        for u, s in (units or {}).items(): fs[u + ".pas"] = s
        d = "ending %s, options %s, output to a %s" % (stmt, " ".join(o), sink)
        if out != want:
            n, g, w = firstdiff(out, want)
            raise Violation("%s: output line %d is %r, expected %r; status %d; stderr %r" % (d, n, clip(g), clip(w), got, clip(err, 200)), fs)
        for f, b in files.items():
            p = os.path.join(c.dir, "out%s.txt" % f[2:])
            try: g = open(p, "rb").read()
            except OSError: g = b"<no file>"
            if g != b: raise Violation("%s: file %s holds %r, expected %r" % (d, f, clip(g), clip(b)), fs)
            c.count("files_checked")
        if rc is not None and got != rc: raise Violation("%s: status %d, expected %d" % (d, got, rc), fs)
        if rc is None and got <= 0: raise Violation("%s: status %d, expected a positive one" % (d, got), fs)
        if msg is not None and (msg not in err or not err.strip(b"\n ") and msg.strip()): raise Violation("%s: message is %r, expected %r" % (d, clip(err), clip(msg)), fs)
        if msg is not None and not err: raise Violation("%s: no message" % d, fs)
        if msg is None and err: raise Violation("%s: unexpected message %r" % (d, clip(err)), fs)
    c.key = C.sha(src); c.sample = clip(src, 1200)

if __name__ == "__main__":
    simple_check("C24",
        "Each case is one program run under two random option sets. Three quarters write random chunks to standard output (connected to a file, a pipe or a terminal) and to up to three text files "
        "that stay open, then end by halt (argument in every form), panic, a file error or normally, from a random kind of place (nested and recursive routines, loops, methods, procedural "
        "parameters, units and their initialisation); the monitor compares all bytes delivered, the files left behind, the status and the message. The rest report random argument vectors "
        "through paramcount and paramstr. Non-trivial: distinct source or argument vector.",
        ["arguments are at most 255 characters long", "halt statuses are 0..255"], case)
