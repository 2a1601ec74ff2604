import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
M = 9973

class Cls:
    def __init__(self, name, base):
        self.name, self.base = name, base
        self.fields = list(base.fields) if base else []   # (name, kind, owner)
        self.own, self.ownm = [], {}
        self.subs = []
        if base: base.subs.append(self)
        self.stat = dict(base.stat) if base else {}      # name -> owner class
    def mro(self):
        k = self
        while k: yield k; k = k.base
    def find(self, m):
        for k in self.mro():
            if m in k.ownm: return k.ownm[m]
        return None
    def methods(self):
        r = {}
        for k in reversed(list(self.mro())): r.update(k.ownm)
        return r
    def derives(self, k): return k in self.mro()
    def below(self):
        r = [self]
        for s in self.subs: r += s.below()
        return r

class Meth:
    def __init__(self, name, cls, kind, fn): self.name, self.cls, self.kind, self.fn = name, cls, kind, fn

class Obj:
    def __init__(self, cls): self.cls, self.f = cls, {n: Z[k] for n, k, o in cls.fields}
    def copy(self):
        o = Obj(self.cls); o.f = dict(self.f); return o

Z = {"integer": 0, "char": "a", "boolean": False, "real": 0.0, "string[9]": "", "longint": 0}
def lit(r, k):
    if k == "integer": v = r.randrange(1000); return str(v), v
    if k == "char": v = r.choice("bcxyz9"); return "'%s'" % v, v
    if k == "boolean": v = r.random() < .5; return str(v).lower(), v
    if k == "real": v = r.randrange(-40, 40) / 4.0; return "%.2f" % v, v
    if k == "longint": v = r.randrange(1000); return str(v), v
    v = "".join(r.choice("pqrst") for _ in range(r.randrange(2, 9))); return "'%s'" % v, v
def asint(n, k):
    if k in ("integer",): return n
    if k == "char": return "ord(%s)" % n
    if k == "boolean": return "ord(%s)" % n
    if k == "real": return "trunc(%s * 4.0)" % n
    if k == "longint": return "ord(%s = 77)" % n
    return "length(%s)" % n
def val(v, k):
    if k == "integer": return v
    if k == "char": return ord(v)
    if k == "boolean": return int(v)
    if k == "real": return int(v * 4.0)
    if k == "longint": return int(v == 77)
    return len(v)

class Steps(Exception): pass
class World:
    def __init__(self, c, P, r): self.c, self.P, self.r, self.out, self.stat, self.steps = c, P, r, [], {}, 0
    def say(self, s):
        self.out.append(s); self.steps += 1
        if self.steps > 3000: raise Steps()

def hierarchy(W, nroots=None):
    c, P, r = W.c, W.P, W.r
    classes = []
    order = []
    up = lambda s: "".join(ch.upper() if r.random() < .2 else ch for ch in s)
    for _ in range(nroots or r.choice([1, 1, 2])):
        virt = r.random() < .85
        root = None
        tree = []
        for _ in range(r.randrange(2, 8)):
            base = r.choice(tree) if tree and r.random() < .95 else (None if not tree else tree[0])
            k = Cls(P.uid("cl"), base); k.virt = virt
            tree.append(k); classes.append(k)
            decl = []
            nf = r.randrange(0, 4) if base or True else 0
            if not base and nf == 0: nf = 1
            for _ in range(nf):
                n, kind = P.uid("f"), r.choice(list(Z))
                if r.random() < .18:
                    k.stat[n] = k; W.stat[(k, n)] = 0; decl.append("%s: integer; static" % n); c.count("static_fields")
                else:
                    k.fields.append((n, kind, k)); decl.append("%s: %s" % (n, kind))
            names = []
            known = base.methods() if base else {}
            todo = []
            for m in known.values():
                if m.kind[0] == "v" and r.random() < .45: todo.append((m.name, m.kind, True))
                elif m.kind[0] == "n" and r.random() < .2: todo.append((m.name, m.kind, False)); c.count("hidden_methods")
            for _ in range(r.randrange(1 if not base else 0, 4)):
                kind = r.choice(["vf", "vp", "vv"] * 2 + ["nf", "np"] if virt else ["nf", "np", "nv"])
                todo.append((P.uid("m"), kind, False))
            if not base and virt and not any(x[1][0] == "v" for x in todo): todo.append((P.uid("m"), "vf", False))
            if r.random() < .25: todo.append((P.uid("m"), "sp", False))
            r.shuffle(todo)
            for n, kind, over in todo:
                head = {"f": "function %s(x: integer): integer", "p": "procedure %s(x: integer)", "v": "procedure %s(var x: integer)"}[kind[1]]
                mods = "override" if over else "virtual" if kind[0] == "v" else "static" if kind[0] == "s" else ""
                decl.append(head % up(n) + (("; " + mods) if mods else "") + ("; inline" if r.random() < .05 else ""))
                k.ownm[n] = Meth(n, k, kind, None)
                if over: c.count("overrides")
            # fields and methods in any order, as the methods only name types
            r.shuffle(decl)
            P.types.append("%s = %s%s\n    %s\n  end" % (k.name, r.choice(["object", "class"]), "(%s)" % base.name if base else "", ";\n    ".join(decl) + (";" if decl else "")))
            order.append(k)
    # bodies: a method may call methods declared earlier in its class's rank
    rank = {}
    allm = []
    for k in order:
        for m in k.ownm:
            if m not in rank: rank[m] = len(rank)
    for k in order:
        for n, m in list(k.ownm.items()): body(W, k, m, rank, up)
    subs = W.subs
    r.shuffle(subs)
    P.subs.extend(subs)
    return order

def intexpr(W, k, loc, n=2):
    """Integer expression from fields of self, statics and locals; evaluated with (obj, locals)."""
    r = W.r
    ts = []
    for _ in range(r.randrange(1, n + 1)):
        q = r.random()
        fs = [f for f in k.fields] if k else []
        if fs and q < .55:
            f = r.choice(fs); nm = ("self." if r.random() < .3 else "") + f[0]
            ts.append((asint(nm, f[1]), lambda o, l, f=f: val(o.f[f[0]], f[1])))
        elif k and k.stat and q < .7:
            n_, own = r.choice(list(k.stat.items()))
            how = r.choice([n_, "self." + n_, k.name + "." + n_, own.name + "." + n_])
            ts.append((how, lambda o, l, n_=n_, own=own: W.stat[(own, n_)]))
        elif loc and q < .85:
            v = r.choice(loc); ts.append((v, lambda o, l, v=v: l[v]))
        else:
            z = r.randrange(100); ts.append((str(z), lambda o, l, z=z: z))
    return "abs(%s) mod %d" % (" + ".join(t for t, _ in ts), M), lambda o, l: abs(sum(f(o, l) for _, f in ts)) % M

def body(W, k, m, rank, up):
    r = W.r
    if m.kind[0] == "s":
        st = list(k.stat.items())
        stm, acts = ["writeln('%s.%s ', x:1)" % (k.name, m.name)], []
        if st:
            n, own = r.choice(st); stm.append("%s.%s := (%s.%s + x) mod %d" % (own.name, n, k.name, n, M))
            acts.append(lambda l, n=n, own=own: W.stat.__setitem__((own, n), (W.stat[(own, n)] + l) % M))
        def fn(o, x, put=None):
            W.say("%s.%s %d" % (k.name, m.name, x))
            for a in acts: a(x)
        m.fn = fn
        W.subs.append("procedure %s.%s(x: integer);\nbegin %s end;" % (k.name, m.name, "; ".join(stm))); return
    stm, acts = [], []
    loc = ["x"]
    stm.append("writeln('%s.%s ', x:1)" % (k.name, m.name)); acts.append(lambda o, l: W.say("%s.%s %d" % (k.name, m.name, l["x"])))
    callable_ = [q for n, q in k.methods().items() if rank[n] < rank[m.name]]
    for _ in range(r.randrange(0, 4)):
        q = r.random()
        fs = k.fields
        if fs and q < .4:
            f = r.choice(fs)
            if f[1] == "integer" and r.random() < .7:
                t, e = intexpr(W, k, loc); stm.append("%s := %s" % (("self." if r.random() < .3 else "") + f[0], t)); acts.append(lambda o, l, f=f, e=e: o.f.__setitem__(f[0], e(o, l)))
            else:
                t, v = lit(r, f[1]); stm.append("%s := %s" % (f[0], t)); acts.append(lambda o, l, f=f, v=v: o.f.__setitem__(f[0], v))
        elif k.stat and q < .5:
            n, own = r.choice(list(k.stat.items())); t, e = intexpr(W, k, loc)
            stm.append("%s := %s" % (r.choice([n, "self." + n, own.name + "." + n]), t)); acts.append(lambda o, l, n=n, own=own, e=e: W.stat.__setitem__((own, n), e(o, l)))
        elif callable_ and q < .9:
            q = r.choice(callable_); t, e = intexpr(W, k, loc)
            pre = "self." if r.random() < .4 else ""
            nm = up(q.name)
            W.c.count("calls_in_methods")
            if q.kind[1] == "f":
                stm.append("writeln(%s%s(%s):1)" % (pre, nm, t))
                acts.append(lambda o, l, q=q, e=e: W.say("%d" % call(W, o, q, e(o, l))))
            elif q.kind[1] == "p":
                stm.append("%s%s(%s)" % (pre, nm, t)); acts.append(lambda o, l, q=q, e=e: call(W, o, q, e(o, l)))
            else:
                stm.append("loc := %s; %s%s(loc); writeln(loc:1)" % (t, pre, nm))
                def a(o, l, q=q, e=e):
                    b = [e(o, l)]; call(W, o, q, b[0], b); W.say("%d" % b[0])
                acts.append(a)
        else:
            t, e = intexpr(W, k, loc); stm.append("writeln(%s:1)" % t); acts.append(lambda o, l, e=e: W.say("%d" % e(o, l)))
    t, e = intexpr(W, k, loc, 3)
    if m.kind[1] == "f": stm.append("%s := %s" % (m.name, t))
    elif m.kind[1] == "v": stm.append("x := %s" % t)
    def fn(o, x, put=None):
        l = {"x": x}
        for a in acts: a(o, l)
        if m.kind[1] == "f": return e(o, l)
        if m.kind[1] == "v": put[0] = e(o, l)
    m.fn = fn
    head = {"f": "function %s.%s(x: integer): integer", "p": "procedure %s.%s(x: integer)", "v": "procedure %s.%s(var x: integer)"}[m.kind[1]]
    W.subs.append((head % (k.name, m.name)) + ";\nvar loc: integer;\nbegin %s end;" % "; ".join(stm))

def call(W, o, m, x, put=None):
    """Calls m (the method visible from the static type) on o."""
    if m.kind[0] == "v": m2 = o.cls.find(m.name)
    else: m2 = m
    W.c.count("virtual_calls" if m.kind[0] == "v" else "other_calls")
    if m.kind[0] == "v": W.c.state("dispatch", "same" if m2 is m else "override", len(list(o.cls.mro())) - len(list(m.cls.mro())))
    return m2.fn(o, x, put)

def objects(c, P, rng):
    W = World(c, P, rng); W.subs = []
    r = rng
    ks = hierarchy(W)
    for s in list(W.stat):
        P.do("%s.%s := 0" % (s[0].name, s[1]))
    places = []   # (text, static class, object)
    def reset(t, o):
        for n, k, own in o.cls.fields:
            P.do("%s.%s := %s" % (t, n, "'a'" if k == "char" else "false" if k == "boolean" else "0.0" if k == "real" else "''" if k[0] == "s" else "0"))
    for k in ks:
        if not k.fields and not k.ownm and not k.base: continue
        for how in r.sample(["var", "arr", "rec", "ptr", "ptrrec", "deep"], r.randrange(1, 4)):
            o = Obj(k); c.count("objects")
            if how == "var": t = P.var(k.name)
            elif how == "arr": i = r.randrange(1, 4); t = "%s[%d]" % (P.var("array [1..3] of %s" % k.name), i)
            elif how == "rec": t = P.var("record a: char; o: %s; b: char end" % k.name) + ".o"
            elif how == "ptr":
                v = P.var("^" + k.name); P.do("new(%s)" % v); t = v + "^"
            elif how == "ptrrec":
                v = P.var("^" + P.type("record a: boolean; o: array [0..1] of %s end" % k.name)); P.do("new(%s)" % v); t = v + "^.o[1]"
            else:
                t = P.var("array [boolean] of record i: integer; z: array [char] of record q: %s end end" % k.name) + "[true].z['c'].q"
            reset(t, o); places.append((t, k, o)); c.state("place", how)
    # pointers of a base type to derived objects
    roots = [k for k in ks if k.virt]
    for k in roots:
        b = r.choice(list(k.mro()))
        if b is not k and r.random() < .7:
            pd, pb = P.var("^" + k.name), P.var("^" + b.name)
            P.do("new(%s)" % pd); o = Obj(k); reset(pd + "^", o); P.do("%s := %s" % (pb, pd))
            places.append((pd + "^", k, o)); places.append((pb + "^", b, o)); c.count("base_pointers")
    # routines that take any object of a class
    takers = {}
    for k in r.sample(ks, min(len(ks), 3)):
        ms = [m for m in k.methods().values() if m.kind[0] != "s"]
        if not ms: continue
        n = P.uid("vp")
        calls, acts = [], []
        for m in r.sample(ms, min(len(ms), 3)):
            x = r.randrange(50)
            if m.kind[1] == "f": calls.append("writeln(o.%s(%d):1)" % (m.name, x)); acts.append(lambda o, m=m, x=x: W.say("%d" % call(W, o, m, x)))
            elif m.kind[1] == "p": calls.append("o.%s(%d)" % (m.name, x)); acts.append(lambda o, m=m, x=x: call(W, o, m, x))
        byval = r.random() < .3
        nest = r.random() < .3
        P.subs.append("procedure %s(%so: %s);\n%sbegin %s end;" % (n, "" if byval else "var ", k.name, "procedure inner; begin %s end;\n" % "; ".join(calls) if nest and not byval else "", "inner" if nest and not byval else "; ".join(calls)))
        takers[k] = (n, acts, byval)
    def do(t, k, o):
        ms = [m for m in k.methods().values()]
        q = r.random()
        tk = [z for z in takers if k.derives(z)]
        if tk and q < .3:
            z = r.choice(tk); n, acts, byval = takers[z]
            P.do("%s(%s)" % (n, t)); c.count("passed_by_value" if byval else "passed_by_reference")
            oo = o
            if byval:
                oo = Obj(z)
                for f in oo.f: oo.f[f] = o.f[f]
            for a in acts: a(oo)
            return
        others = [p for p in places if p[2] is not o and p[1].derives(k)]
        if others and q < .4 and o.cls.derives(k):
            t2, k2, o2 = r.choice(others)
            P.do("%s := %s" % (t, t2)); c.count("assignments")
            for n, kk, own in k.fields: o.f[n] = o2.f[n]
            return
        if o.cls is k and q < .5 and k.fields:
            f = r.choice(k.fields); tx, v = lit(r, f[1]); P.do("%s.%s := %s" % (t, f[0], tx)); o.f[f[0]] = v; return
        if k.stat and q < .55:
            n, own = r.choice(list(k.stat.items())); v = r.randrange(1000)
            P.do("%s.%s := %d" % (r.choice([t, k.name, own.name]), n, v)); W.stat[(own, n)] = v; return
        if not ms: return
        m = r.choice(ms); x = r.randrange(100)
        if m.kind[1] == "f": P.do("writeln(%s.%s(%d):1)" % (t, m.name, x)); W.say("%d" % call(W, o, m, x))
        elif m.kind[1] == "p": P.do("%s.%s(%d)" % (t, m.name, x)); call(W, o, m, x)
        else:
            g = P.var("integer"); P.do("%s := %d; %s.%s(%s); writeln(%s:1)" % (g, x, t, m.name, g, g)); b = [x]; call(W, o, m, x, b); W.say("%d" % b[0])
    for _ in range(r.randrange(6, 25)):
        if places: do(*r.choice(places))
    # all fields of all objects at the end: no call changed what it should not
    for t, k, o in places:
        for n, kind, own in k.fields:
            P.do("writeln(%s:1)" % asint("%s.%s" % (t, n), kind)); W.say("%d" % val(o.f[n], kind))
    for (k, n), v in W.stat.items():
        P.do("writeln(%s.%s:1)" % (r.choice(k.below()).name, n)); W.say("%d" % v)
    P.out.extend(x.encode() for x in W.out)

TEMPLATES = [objects]

def build(c, rng):
    for _ in range(30):
        P = Prog("p")
        try: objects(c, P, rng); return P
        except Steps: pass
    raise Inconclusive("generated programs run too long")

def case(c):
    P = build(c, c.rng)
    o = random_opts(c.rng, g=True)
    expect(c, c.kits["plain"], P.src(), P.want(), o, what="class hierarchy")
    c.count("output_lines_checked", len(P.out)); c.key = C.sha(P.src()); c.sample = clip(P.src(), 2500)

PROBE = """program p(output);
type a = class x: integer; procedure q; end;
  b = class(a) y: integer; procedure r; virtual; end;
procedure a.q; begin write('q', x) end;
procedure b.r; begin write('r', x, y) end;
var v: b;
begin v.x := 1; v.y := 2; v.q; v.r; writeln end.
"""
def pre(ck, kits):
    d = os.path.join(K.scratch(), "kf"); os.makedirs(d, exist_ok=True)
    r = K.compile_pas(kits["plain"], PROBE, d, name="p")
    ok = r.rc == 0 and K.run(["./p"], d, cpu=10).out == b"q1r12\n"
    ck.known("base-without-virtuals", not ok, "a class with virtual methods whose base class has none crashes the compiler")

if __name__ == "__main__":
    simple_check("C16",
        "Each case builds one or two random class hierarchies of up to seven classes (any shape and depth) with fields of six types, static fields and methods, virtual methods with random overrides, non-virtual methods hidden by "
        "derived classes, members in random order, names in mixed case and bodies after or before their first use; bodies write a trace, change fields and call other methods of self, virtual or not. Objects live in variables, "
        "arrays, records, on the heap and nested within these; they are reached directly, through pointers of base classes, var and value parameters and inherited methods, and assigned to each other. A Python object model "
        "predicts the trace and all final field values; the output must be equal. Non-trivial: distinct program.",
        ["the root of a hierarchy with virtual methods declares one; an object keeps its class when a value is assigned to it; a parameter passed by value has the class of the parameter"], case, pre=pre)
