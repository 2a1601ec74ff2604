import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *

class Null:
    """Stands in for a case where only the program is wanted."""
    def __init__(self, rng): self.rng = rng
    def count(self, *a): pass
    def state(self, *a): pass

M = 9973
class Sym:
    def __init__(self, name, kind, **kw): self.name, self.kind, self.__dict__["d"] = name, kind, kw
    def __getattr__(self, k):
        if k == "d": raise AttributeError(k)
        return self.d[k]

class Unit:
    def __init__(self, name):
        self.name, self.iuses, self.muses, self.pub, self.priv = name, [], [], [], []
        self.itext, self.mtext, self.init = [], [], []
        self.heads = []
        self.methods = []

class Gen:
    def __init__(self, c, rng):
        self.c, self.rng, self.n, self.steps = c, rng, 0, 0
        self.env, self.out = {}, []
    def uid(self, p): self.n += 1; return "%s%d" % (p, self.n)
    # ---- expressions: (text, function of the locals); always 0 <= value < M
    def term(self, S, L):
        r = self.rng
        c = [s for s in S if s.kind in ("kint", "vint", "varr", "vrec", "venum", "vstr", "kstr", "pure", "lit", "vobj", "vptr", "vset", "kchar")]
        q = r.random()
        if L and q < .3:
            n = r.choice(L); return n, lambda l, n=n: l[n]
        if not c or q < .42: k = r.randrange(100); return str(k), lambda l: k
        s = r.choice(c); env = self.env
        cnt = self.c
        cnt.count("use_" + s.kind)
        if s.kind == "kint": return s.name, lambda l: s.value
        if s.kind == "kchar": return "ord(%s)" % s.name, lambda l: ord(s.value)
        if s.kind == "kstr":
            w = s.value if r.random() < .5 else s.value[:-1] + "z"; return "ord(%s = '%s')" % (s.name, w), lambda l: int(w == s.value)
        if s.kind == "vint": return s.name, lambda l: env[s]
        if s.kind == "vstr": return "length(%s)" % s.name, lambda l: len(env[s])
        if s.kind == "venum": return "ord(%s)" % s.name, lambda l: env[s]
        if s.kind == "vset":
            k = r.randrange(len(s.lits)); return "ord(%s in %s)" % (s.lits[k], s.name), lambda l: int(k in env[s])
        if s.kind == "lit": return "ord(%s)" % s.name, lambda l: s.value
        if s.kind == "vptr": return s.name + "^", lambda l: env[s]
        if s.kind == "vrec":
            f = r.randrange(2); return "%s.%s" % (s.name, s.fields[f]), lambda l: env[s][f]
        if s.kind == "varr":
            if r.random() < .5:
                k = r.randrange(s.size); return "%s[%d]" % (s.name, s.lo + k), lambda l: env[s][k]
            t, f = self.expr(S, L, 1); return "%s[%d + (%s) mod %d]" % (s.name, s.lo, t, s.size), lambda l: env[s][f(l) % s.size]
        if s.kind == "vobj": return "%s.calc" % s.name, lambda l: s.value(env[s])
        t, f = self.expr(S, L, 2); return "%s(%s)" % (s.name, t), lambda l: s.run(f(l))
    def expr(self, S, L, d=0):
        r = self.rng
        t, f = self.term(S, L)
        for _ in range(r.choice([0, 1, 1, 2]) if d < 2 else 0):
            u, g = self.term(S, L)
            if r.random() < .6: t, f = "%s + %s" % (t, u), (lambda l, f=f, g=g: f(l) + g(l))
            else: t, f = "%s + %s * %d" % (t, u, 3), (lambda l, f=f, g=g: f(l) + g(l) * 3)
        return "(%s) mod %d" % (t, M), lambda l, f=f: f(l) % M
    # ---- statements
    def stmt(self, S, L, d=0, locs=()):
        r, env, out = self.rng, self.env, self.out
        c = [s for s in S if s.kind in ("vint", "varr", "vrec", "venum", "vstr", "proc", "vproc", "impure", "vobj", "vptr", "vset", "hof", "byrec")]
        q = r.random()
        if d < 2 and q < .1:
            t, f = self.expr(S, L); a, fa = self.stmt(S, L, d + 1, locs); b, fb = self.stmt(S, L, d + 1, locs)
            return "if odd(%s) then begin %s end else begin %s end" % (t, a, b), lambda l: fa(l) if f(l) & 1 else fb(l)
        if d < 2 and q < .18 and locs:
            v = locs[0]; n = r.randrange(1, 4); a, fa = self.stmt(S, L, 2, ())
            def go(l):
                for k in range(n): l[v] = k; fa(l)
            return "for %s := 0 to %d do begin %s end" % (v, n - 1, a), go
        if q < .3 or not c:
            t, f = self.expr(S, L); k = r.randrange(100)
            return "writeln('w%d ', %s:1)" % (k, t), lambda l: out.append("w%d %d" % (k, f(l)))
        s = r.choice(c); self.c.count("do_" + s.kind)
        if s.kind in ("vint", "vptr"):
            t, f = self.expr(S, L)
            def go(l): env[s] = f(l)
            return "%s%s := %s" % (s.name, "^" if s.kind == "vptr" else "", t), go
        if s.kind == "venum":
            if r.random() < .4:
                return "writeln(%s)" % s.name, lambda l: out.append(s.lits[env[s]])
            k = r.randrange(len(s.lits))
            def go(l): env[s] = k
            return "%s := %s" % (s.name, s.lits[k]), go
        if s.kind == "vset":
            k = r.randrange(len(s.lits))
            if r.random() < .6:
                def go(l): env[s] = env[s] | {k}
                return "%s := %s + [%s]" % (s.name, s.name, s.lits[k]), go
            def go(l): env[s] = env[s] - {k}
            return "%s := %s - [%s]" % (s.name, s.name, s.lits[k]), go
        if s.kind == "vstr":
            if r.random() < .4:
                return "writeln('<', %s, '>')" % s.name, lambda l: out.append("<" + env[s] + ">")
            w = "".join(r.choice("abcXYZ") for _ in range(r.randrange(1, s.cap)))
            def go(l): env[s] = w
            return "%s := %s" % (s.name, qs(w)) if len(w) > 1 else "%s := '' + %s" % (s.name, qs(w)), go
        if s.kind == "varr":
            k = r.randrange(s.size); t, f = self.expr(S, L)
            def go(l): env[s][k] = f(l)
            return "%s[%d] := %s" % (s.name, s.lo + k, t), go
        if s.kind == "vrec":
            k = r.randrange(2); t, f = self.expr(S, L)
            o = [x for x in c if x.kind == "vrec" and x.type is s.type and x is not s]
            if o and r.random() < .4:
                o = r.choice(o)
                def go(l): env[s] = list(env[o])
                return "%s := %s" % (s.name, o.name), go
            def go(l): env[s][k] = f(l)
            if r.random() < .3: return "with %s do %s := %s" % (s.name, s.fields[k], t), go
            return "%s.%s := %s" % (s.name, s.fields[k], t), go
        if s.kind == "vobj":
            t, f = self.expr(S, L)
            def go(l): env[s] = f(l)
            return "%s.put(%s)" % (s.name, t), go
        if s.kind == "proc":
            t, f = self.expr(S, L)
            return "%s(%s)" % (s.name, t), lambda l: s.run(f(l))
        if s.kind == "vproc":
            v = [x for x in S if x.kind in ("vint", "vptr", "varr", "vrec")]
            if v:
                v = r.choice(v)
                if v.kind == "vint": nm, get = v.name, (lambda: env[v])
                elif v.kind == "vptr": nm, get = v.name + "^", (lambda: env[v])
                else: nm, get = ("%s[%d]" % (v.name, v.lo) if v.kind == "varr" else "%s.%s" % (v.name, v.fields[0])), (lambda: env[v][0])
                def put(x):
                    if v.kind in ("vint", "vptr"): env[v] = x
                    else: env[v][0] = x
                return "%s(%s)" % (s.name, nm), lambda l: put(s.run(get, put))
        if s.kind == "byrec":
            v = [x for x in S if x.kind == "vrec" and x.type is s.rec]
            if v:
                v = r.choice(v)
                return "%s(%s)" % (s.name, v.name), lambda l: s.run(env[v])
        if s.kind == "hof":
            p = [x for x in S if x.kind == "proc"]
            if p:
                p = r.choice(p); t, f = self.expr(S, L)
                return "%s(%s, %s)" % (s.name, p.name, t), lambda l: s.run(p.run, f(l))
        if s.kind == "impure":
            v = [x for x in S if x.kind == "vint"]
            if v:
                v = r.choice(v); t, f = self.expr(S, L)
                def go(l): env[v] = s.run(f(l))
                return "%s := %s(%s)" % (v.name, s.name, t), go
        t, f = self.expr(S, L)
        return "writeln(%s:7)" % t, lambda l: out.append("%7d" % f(l))
    def stmts(self, S, L, n, locs=()):
        ss = [self.stmt(S, L, 0, locs) for _ in range(n)]
        def go(l):
            self.steps += 1
            if self.steps > 20000: raise Inconclusive("the generated program runs too long")
            for _, f in ss: f(l)
        return "; ".join(t for t, _ in ss), go
    # ---- declarations; returns list of (section text, new symbols), routine bodies separately
    def decl(self, S, nm, unit, public):
        """One new item; nm() gives a name for it. Adds text to the unit and returns the new symbols."""
        r, env = self.rng, self.env
        T = unit.itext if public else unit.mtext
        kinds = ["kint", "kchar", "kstr", "enum", "rec", "arrt", "vint", "vint", "vint", "varr", "vstr", "pure", "pure", "impure", "proc", "proc", "vproc", "ptr",
                 "class", "hof"]
        types = [s for s in S if s.kind in ("tenum", "trec", "tarr", "tclass", "tstr")]
        if types: kinds += ["vtype"] * 6
        if any(s.kind == "trec" for s in S): kinds += ["byrec"] * 2
        k = r.choice(kinds)
        self.c.count("decl_" + k)
        n = nm()
        V = lambda t: "var\n  %s: %s;" % (n, t)
        # a value for a constant may use earlier constants
        if k == "kint":
            v = r.randrange(0, 200); e = [s for s in S if s.kind == "kint"]; t = str(v)
            if e and r.random() < .6: x = r.choice(e); t, v = "%s + %d" % (x.name, v), (x.value + v)
            if v >= M: t, v = "7", 7
            T.append("const\n  %s = %s;" % (n, t)); return [Sym(n, k, value=v)]
        if k == "kchar": v = r.choice("aZ09+"); T.append("const\n  %s = '%s';" % (n, v)); return [Sym(n, k, value=v)]
        if k == "kstr":
            v = "".join(r.choice("pqrs") for _ in range(r.randrange(2, 9))); T.append("const\n  %s = '%s';" % (n, v)); return [Sym(n, k, value=v)]
        if k == "enum":
            lits = [nm("L") for _ in range(r.randrange(2, 6))]
            T.append("type\n  %s = (%s);" % (n, ", ".join(lits)))
            return [Sym(n, "tenum", lits=lits)] + [Sym(x, "lit", value=i, t=n) for i, x in enumerate(lits)]
        if k == "rec":
            fs = [r.choice(["a", "b", "f1"]), r.choice(["c", "d", "g"])]
            pad = r.choice(["", "padc: char; ", "padb: boolean; "])
            T.append("type\n  %s = record %s%s: integer; %s: integer end;" % (n, pad, fs[0], fs[1])); return [Sym(n, "trec", fields=fs)]
        if k == "arrt":
            lo = r.choice([0, 1, -3, 10]); size = r.randrange(2, 7)
            ks = [s for s in S if s.kind == "kint" and 2 <= s.value <= 300]
            hi = str(lo + size - 1)
            if ks and r.random() < .5: x = r.choice(ks); lo, size, hi = 1, x.value, x.name
            T.append("type\n  %s = array [%d..%s] of integer;" % (n, lo, hi)); return [Sym(n, "tarr", lo=lo, size=size)]
        if k == "vint": T.append(V("integer")); s = Sym(n, "vint"); env[s] = 0; unit.zero.append("%s := 0" % n); return [s]
        if k == "ptr":
            T.append(V("^integer")); s = Sym(n, "vptr"); env[s] = 0; unit.zero.append("new(%s); %s^ := 0" % (n, n)); return [s]
        if k == "vstr":
            cap = r.randrange(4, 20); T.append(V("string[%d]" % cap)); s = Sym(n, "vstr", cap=cap); env[s] = ""; unit.zero.append("%s := ''" % n); return [s]
        if k == "varr":
            lo = r.choice([0, 1, -2]); size = r.randrange(2, 6); T.append(V("array [%d..%d] of integer" % (lo, lo + size - 1)))
            s = Sym(n, "varr", lo=lo, size=size); env[s] = [0] * size
            unit.zero += ["%s[%d] := 0" % (n, lo + i) for i in range(size)]; return [s]
        if k == "vtype":
            t = r.choice(types)
            if t.kind == "tenum":
                if r.random() < .35:
                    T.append(V("set of " + t.name)); s = Sym(n, "vset", lits=t.lits); env[s] = frozenset(); unit.zero.append("%s := []" % n); return [s]
                T.append(V(t.name)); s = Sym(n, "venum", lits=t.lits); env[s] = 0; unit.zero.append("%s := %s" % (n, t.lits[0])); return [s]
            T.append(V(t.name))
            if t.kind == "trec":
                s = Sym(n, "vrec", fields=t.fields, type=t); env[s] = [0, 0]; unit.zero += ["%s.%s := 0" % (n, f) for f in t.fields]; return [s]
            if t.kind == "tarr":
                s = Sym(n, "varr", lo=t.lo, size=t.size); env[s] = [0] * t.size
                lv = "%s[%d]" % (n, t.lo)
                unit.zero += ["%s[%d] := 0" % (n, t.lo + i) for i in range(t.size)] if t.size < 20 else []
                if t.size >= 20: unit.big.append((n, t.lo, t.lo + t.size - 1))
                return [s]
            s = Sym(n, "vobj", value=t.value); env[s] = 0; unit.zero.append("%s.put(0)" % n); return [s]
        if k == "class":
            base = [s for s in S if s.kind == "tclass"]
            mul, add = r.randrange(1, 9), r.randrange(50)
            if base and r.random() < .6:
                b = r.choice(base)
                T.append("type\n  %s = object(%s)\n    function calc: integer; override;\n  end;" % (n, b.name))
            else:
                T.append("type\n  %s = object\n    n: integer;\n    procedure put(x: integer);\n    function calc: integer; virtual;\n  end;" % n)
                unit.methods.append("procedure %s.put(x: integer); begin n := x end;" % n)
            unit.methods.append("function %s.calc: integer; begin calc := (n * %d + %d) mod %d end;" % (n, mul, add, M))
            return [Sym(n, "tclass", value=lambda v: (v * mul + add) % M)]
        # routines
        x = r.choice(["x", "n", "q"])
        loc = r.choice(["i", "k", "loc"])
        S2 = S
        if k == "hof": head = "procedure %s(procedure pp(y: integer); x: integer)" % n
        elif k == "byrec":
            t = r.choice([s for s in S if s.kind == "trec"]); v = Sym("rr", "vrec", fields=t.fields, type=t); head = "procedure %s(var rr: %s)" % (n, t.name)
        elif k == "vproc": head = "procedure %s(var v: integer)" % n
        elif k == "proc": head = "procedure %s(%s: integer)" % (n, x)
        else: head = "function %s(%s: integer): integer" % (n, x)
        pre = ""
        if k == "hof":
            m = r.randrange(1, 4)
            body = "pp(x); " * m + "pp((x * 2) mod %d)" % M
            def run(p, v):
                for _ in range(m): p(v)
                p(v * 2 % M)
            s = Sym(n, k, run=run)
        elif k == "byrec":
            t1, f1 = self.expr(S + [v], []); g = t.fields
            body = "rr.%s := %s; rr.%s := rr.%s" % (g[0], t1, g[1], g[0])
            def run(rec):
                old = env.get(v); env[v] = rec; z = f1({}); rec[0] = z; rec[1] = z; env[v] = old
            s = Sym(n, k, run=run, rec=t)
        elif k == "vproc":
            t1, f1 = self.expr([s for s in S if s.kind in ("kint", "lit", "kchar")], ["v"])
            body = "v := %s" % t1
            s = Sym(n, k, run=lambda get, put: f1({"v": get()}))
        elif k == "pure":
            t1, f1 = self.expr(S, [x])
            if r.random() < .3:
                pre = "  function inner: integer; begin inner := %s end;\n" % t1; t1 = "inner"
            body = "%s := %s" % (n, t1)
            def run(v):
                self.steps += 1
                if self.steps > 20000: raise Inconclusive("the generated program runs too long")
                return f1({x: v})
            s = Sym(n, k, run=run)
        else:
            locs = (loc,) if loc != x else ()
            t1, f1 = self.stmts(S, [x], r.randrange(1, 5), locs)
            decls = "var %s: integer;\n" % loc if locs else ""
            if k == "impure":
                t2, f2 = self.expr(S, [x]); t1 += "; %s := %s" % (n, t2)
                def run(v): l = {x: v}; f1(l); return f2(l)
            else:
                def run(v): f1({x: v})
                if r.random() < .25:
                    pre = "  procedure inner; %s begin %s end;\n" % (decls, t1); t1 = "inner"; decls = ""
            pre = decls + pre
            body = t1; s = Sym(n, k, run=run)
        if public:
            T.append(head + ";")
            h = head if r.random() < .5 or k == "byrec" else ("function " if head[0] == "f" else "procedure ") + n
            self.c.state("heading", h == head, k)
            unit.bodies.append("%s;\n%sbegin %s end;" % (h, pre, body))
        else:
            if r.random() < .2: T.append("%s; forward;" % head); unit.bodies.append("%s;\n%sbegin %s end;" % (head, pre, body))
            else: T.append("%s;\n%sbegin %s end;" % (head, pre, body))
        return [s]

POOL = ["cnt", "tmp", "state", "aux", "buf", "total", "step", "go", "calx", "zero", "one", "item", "last", "first", "work", "prim", "sec", "ter"]
def split(c, rng, maxunits=6):
    for _ in range(20):
        try: return split1(c, rng, maxunits)
        except Inconclusive: pass
    raise Inconclusive("the generated programs run too long")

def split1(c, rng, maxunits):
    G = Gen(c, rng)
    nu = rng.randrange(1, maxunits + 1)
    units, exported = [], {}
    names = rng.sample(["alpha", "beta", "gamma", "delta", "util", "lists", "store", "base", "core", "extra", "u1", "u2"], nu)
    for i, un in enumerate(names):
        u = Unit(un); u.zero, u.big, u.bodies = [], [], []
        for v in units:
            if rng.random() < .55: (u.iuses if rng.random() < .6 else u.muses).append(v)
        rng.shuffle(u.iuses); rng.shuffle(u.muses)
        vis = []
        def add(ss):
            for s in ss:
                if s not in vis: vis.append(s)
        for v in u.iuses: add(exported[v.name])
        taken = set(s.name for s in vis)
        iscope = list(vis)
        for _ in range(rng.randrange(1, 8)):
            new = G.decl(iscope, lambda p="g": G.uid(p + un[0]), u, True)
            iscope += new; u.pub += new
        mscope = list(iscope)
        for v in u.muses:
            for s in exported[v.name]:
                if s not in mscope: mscope.append(s)
        exported[un] = list(iscope)
        used = set()
        def priv(p=None):
            """A private name: from the common pool unless it is visible here already."""
            k = [x for x in POOL if x not in used]
            if p == "L" or not k or rng.random() < .2: return G.uid("z")
            x = rng.choice(k); used.add(x); return x
        for _ in range(rng.randrange(0, 7)):
            new = G.decl(mscope, priv, u, False)
            mscope += new; u.priv += new
        u.scope = mscope
        units.append(u)
        big = list(u.big)
        has_init = rng.random() < .75 or u.zero or big
        def init(u=u):
            t, f = G.stmts(u.scope, [], rng.randrange(0, 4)) if True else ("", None)
            return t, f
        u.initt, u.initf = init() if has_init else (None, None)
    # public routines with bodies that also use private things
    main = Unit("p"); main.zero, main.big, main.bodies = [], [], []
    k = rng.randrange(1, nu + 1)
    direct = [units[-1]] + rng.sample(units[:-1], k - 1) if k > 1 else [units[-1]]
    rng.shuffle(direct)
    scope = []
    for v in direct:
        for s in exported[v.name]:
            if s not in scope: scope.append(s)
    used = set()
    def priv(p=None):
        k = [x for x in POOL if x not in used]
        if p == "L" or not k: return G.uid("z")
        x = rng.choice(k); used.add(x); return x
    mscope = list(scope)
    for _ in range(rng.randrange(0, 5)):
        mscope += G.decl(mscope, priv, main, False)
    # ---- text
    def blocks(u): return [b for b in u.bodies] + []
    out = {}
    def zero(u): return list(u.zero) + ["for zi := %d to %d do %s[zi] := 0" % (lo, hi, n) for n, lo, hi in u.big]
    for u in units:
        t = "unit %s;\ninterface\n" % u.name
        t += "".join("uses %s;\n" % v.name for v in u.iuses)
        t += "\n".join(u.itext) + "\nimplementation\n"
        t += "".join("uses %s;\n" % v.name for v in u.muses)
        if u.big: t += "var zi: integer;\n"
        t += "\n".join(u.mtext) + "\n" + "\n".join(u.methods + u.bodies) + "\n"
        if u.initt is not None:
            z = zero(u) + ["writeln('init %s')" % u.name] + ([u.initt] if u.initt else [])
            t += "begin\n  " + ";\n  ".join(z) + "\nend.\n"
        else: t += "end.\n"
        out[u.name] = t
    done = set()
    order = []
    def init(u):
        if u.name in done: return
        done.add(u.name)
        for v in u.iuses + u.muses: init(v)
        if u.initt is not None:
            order.append(u.name); G.out.append("init " + u.name); u.initf({})
    for v in direct: init(v)
    # a unit that nothing uses does not run
    unused = [u.name for u in units if u.name not in done]
    for n in unused: del out[n]
    t, f = G.stmts(mscope, [], rng.randrange(8, 25))
    # everything visible, at the end
    end = []
    for s in mscope:
        for _ in range(1):
            if s.kind in ("vint", "varr", "vrec", "venum", "vstr", "vobj", "vset", "vptr", "kint", "kstr", "kchar", "pure", "lit"):
                G2 = [s]
                for _ in range(3):
                    tt, ff = G.term(G2, []) if s.kind != "vstr" else (s.name, None)
                    if s.name in tt: break
                else: continue
                if ff is None: end.append(("writeln(%s)" % s.name, lambda l, s=s: G.out.append(G.env[s])))
                else: end.append(("writeln(%s:1)" % tt, lambda l, ff=ff: G.out.append(str(ff(l)))))
    src = "program p(output);\n" + "".join("uses %s;\n" % v.name for v in direct)
    if main.big: src += "var zi: integer;\n"
    src += "\n".join(main.mtext) + "\n" + "\n".join(main.methods + main.bodies) + "\n"
    z = zero(main) + ["writeln('main')"] + ([t] if t else [])
    src += "begin\n  " + ";\n  ".join(z + [e for e, _ in end]) + "\nend.\n"
    G.out.append("main"); f({})
    for _, ff in end: ff({})
    c.info = dict(units=units, direct=direct, exported=exported, scope=scope, used=used, order=order, done=done)
    return src, out, "".join(x + "\n" for x in G.out).encode()

USE = {"vint": "writeln(%s)", "varr": "writeln(%s[%d])", "kint": "writeln(%s)", "proc": "%s(1)", "pure": "writeln(%s(1))", "impure": "writeln(%s(1))", "vstr": "writeln(%s)",
       "kstr": "writeln(%s)", "kchar": "writeln(%s)", "vrec": "writeln(sizeof(%s))", "vptr": "writeln(%s^)", "lit": "writeln(ord(%s))", "venum": "writeln(ord(%s))"}
def case(c):
    kit, rng = c.kits["plain"], c.rng
    src, units, want = split(c, rng)
    I = c.info
    c.state("shape", len(units), len(I["direct"]), tuple(len(u.iuses) * 10 + len(u.muses) for u in I["units"]))
    c.count("units", len(units)); c.count("init_blocks_run", len(I["order"]))
    for _ in range(1):
        o = random_opts(rng)
        expect(c, kit, src, want, o, units=units, what="program with units " + " ".join(units))
    # the same program read again with other names for the private items, and with the uses clauses of the program in another order if nothing is initialised
    hidden = []
    vis = set(s.name for s in I["scope"]) | I["used"]
    for u in I["units"]:
        if u.name in I["done"]:
            hidden += [(s, "implementation of " + u.name) for s in u.priv if s.name not in vis]
            hidden += [(s, "interface of %s, which the program does not see" % u.name) for s in u.pub if s.name not in vis]
    hidden = [h for h in hidden if h[0].kind in USE]
    for s, where in rng.sample(hidden, min(2, len(hidden))):
        use = USE[s.kind] % ((s.name, s.lo) if s.kind == "varr" else s.name)
        bad = src[:src.rindex("\nend.")] + ";\n  %s\nend.\n" % use
        c.count("hidden_names_probed"); c.state("hidden", s.kind, where.split()[0])
        for f in ("p", "p.o"):
            if os.path.exists(os.path.join(c.dir, f)): os.unlink(os.path.join(c.dir, f))
        r = K.compile_pas(kit, bad, c.dir, opts=["-O0"], units=units)
        if r.timeout: raise Inconclusive("time limit")
        fs = {"p.pas": bad}; fs.update({n + ".pas": x for n, x in units.items()})
        if r.rc == 0 or os.path.exists(os.path.join(c.dir, "p")):
            raise Violation("the program uses %s, a name declared only in the %s, and compiles (status %d)" % (s.name, where, r.rc), fs)
        if s.name.encode() not in r.out + r.err or b"rror" not in r.out + r.err:
            raise Violation("the program uses %s, a name declared only in the %s; the message does not say so: %r" % (s.name, where, clip(r.out + r.err)), fs)
    c.count("output_lines_checked", want.count(b"\n"))
    c.key = C.sha(src, *sorted(units.values())); c.sample = clip("\n".join([src] + list(units.values())), 2500)

if __name__ == "__main__":
    simple_check("C21",
        "Each case builds a program of declarations that use each other (constants, enumerations, records, arrays, sets, classes with virtual methods, strings, pointers, variables, pure and impure routines, nested, "
        "forward, with var and procedural parameters) spread over one to six units and the main program; units use each other from interface or implementation (chains and diamonds), private names are deliberately "
        "the same in several units and the program; initialisation blocks print and change the state. A Python model executes the declarations once, initialising every used unit once, used units first; the output of the "
        "compiled program must equal the model's. Then the program is changed to use names of implementation parts or of units it does not see, and the compiler must reject it naming them. Non-trivial: distinct program.",
        ["names exported by a unit used in an interface part are visible to the users of that unit (what the compiler does and its tests use)"], case)
