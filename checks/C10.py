import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *

# A storage model: a type is a nested description, a value a nested list; every scalar cell has an access path and a text.
SC = {
    "integer": (lambda r: r.randrange(-10**9, 10**9), str, lambda n: "write(%s, ' ')" % n, lambda v: "%d " % v),
    "char": (lambda r: r.choice("abcdefXYZ0189+-*"), lambda v: "'%s'" % v, lambda n: "write(%s, ' ')" % n, lambda v: v + " "),
    "boolean": (lambda r: r.random() < 0.5, lambda v: "true" if v else "false", lambda n: "write(ord(%s):1, ' ')" % n, lambda v: "%d " % v),
    "real": (lambda r: r.randrange(-8000, 8000) / 16, lambda v: "%.4f" % v, lambda n: "write(%s:1:4, ' ')" % n, lambda v: "%.4f " % v),
    "longint": (lambda r: r.randrange(-2**30, 2**30), str, lambda n: "write(%s, ' ')" % n, lambda v: "%d " % v),
    "small": (lambda r: r.randrange(-5, 100), str, lambda n: "write(%s, ' ')" % n, lambda v: "%d " % v),
    "byte": (lambda r: r.randrange(0, 256), str, lambda n: "write(%s, ' ')" % n, lambda v: "%d " % v),
    "col": (lambda r: r.randrange(4), lambda v: ["red", "green", "blue", "pink"][v], lambda n: "write(ord(%s):1, ' ')" % n, lambda v: "%d " % v),
}
class Ty: pass
class TyS(Ty):
    def __init__(s, k): s.k = k; s.name = k
    def cells(s, p, v, at): yield p, s.k, v, at
    def size(s): return 1
    def new(s, r): return SC[s.k][0](r)
class TyA(Ty):
    IDX = [("0..%d", None), ("1..%d", None), ("-3..%d", None), ("boolean", ["false", "true"]), ("col", ["red", "green", "blue", "pink"]),
           ("'a'..'d'", ["'a'", "'b'", "'c'", "'d'"]), ("green..pink", ["green", "blue", "pink"]), ("100..%d", None), ("small", None)]
    def __init__(s, P, r, elem, dims):
        s.elem, s.dims = elem, []
        ds = []
        for _ in range(dims):
            t, ks = r.choice(TyA.IDX[:-1])
            if ks is None:
                lo = int(t.split("..")[0]); n = r.randrange(1, 5)
                ks = [str(lo + i) for i in range(n)]; t = "%d..%d" % (lo, lo + n - 1)
            s.dims.append(ks); ds.append(t)
        s.packed = r.random() < 0.25
        if r.random() < 0.35 and dims > 1:
            s.sep = "]["; d = (("packed " if s.packed else "") + "array [%s] of ") * dims % tuple(ds) + elem.name
        else:
            s.sep = ", "; d = ("packed " if s.packed else "") + "array [%s] of %s" % (", ".join(ds), elem.name)
        if r.random() < 0.3: s.sep = "]["
        s.name = P.type(d)
    def keys(s):
        import itertools
        return list(itertools.product(*s.dims))
    def size(s):
        n = s.elem.size()
        for d in s.dims: n *= len(d)
        return n
    def new(s, r): return [s.elem.new(r) for _ in s.keys()]
    def cells(s, p, v, at):
        for i, k in enumerate(s.keys()):
            yield from s.elem.cells("%s[%s]" % (p, s.sep.join(k)), v[i], at + (i,))
    def subs(s, p, at):
        for i, k in enumerate(s.keys()): yield "%s[%s]" % (p, s.sep.join(k)), s.elem, at + (i,)
class TyR(Ty):
    def __init__(s, P, r, fields, variant=None):
        s.fields = [(P.uid("f"), t) for t in fields]
        s.variant = None
        d = "; ".join("%s: %s" % (n, t.name) for n, t in s.fields)
        if variant:
            # tagged variant: one list of fields per tag value; only the fields of the active one are used
            s.tag = P.uid("tag")
            s.variant = [[(P.uid("g"), t) for t in fs] for fs in variant]
            d += "; case %s: integer of " % s.tag + "; ".join("%d: (%s)" % (i, "; ".join("%s: %s" % (n, t.name) for n, t in fs)) for i, fs in enumerate(s.variant))
        s.name = P.type("%srecord %s end" % ("packed " if r.random() < .2 else "", d))
    def active(s, v):
        fs = list(s.fields)
        if s.variant is not None: fs = fs + [(s.tag, TyS("integer"))] + s.variant[v[len(s.fields)]]
        return fs
    def size(s): return sum(t.size() for _, t in s.fields) + (1 + max(sum(t.size() for _, t in fs) for fs in s.variant) if s.variant else 0)
    def new(s, r):
        v = [t.new(r) for _, t in s.fields]
        if s.variant is not None:
            k = r.randrange(len(s.variant)); v.append(k); v += [t.new(r) for _, t in s.variant[k]]
        return v
    def cells(s, p, v, at):
        for i, (n, t) in enumerate(s.active(v)):
            yield from t.cells("%s.%s" % (p, n), v[i], at + (i,))
    def subs(s, p, at, v=None):
        for i, (n, t) in enumerate(s.fields): yield "%s.%s" % (p, n), t, at + (i,)
import copy
def setin(v, at, x):
    for k in at[:-1]: v = v[k]
    v[at[-1]] = x
def getin(v, at):
    for k in at: v = v[k]
    return v

def storage(c, P, rng):
    P.type("(red, green, blue, pink)", "col"); P.type("-5..99", "small"); P.type("0..255", "byte")
    pool = [TyS(k) for k in SC]
    comp = []
    while len(comp) < 5:
        base = pool + comp * 2
        k = rng.randrange(5)
        if k < 2: t = TyA(P, rng, rng.choice(base), rng.choice([1, 1, 2, 2, 3]))
        elif k < 4: t = TyR(P, rng, [rng.choice(base) for _ in range(rng.randrange(1, 5))])
        else: t = TyR(P, rng, [rng.choice(base) for _ in range(rng.randrange(1, 3))], [[rng.choice(pool + [x for x in comp if x.size() < 8]) for _ in range(rng.randrange(0, 3))] for _ in range(rng.randrange(2, 4))])
        if t.size() <= 40: comp.append(t)
        else: P.types.pop()
    # every type has three holders: global variables, and one heap object
    hold = []
    for t in comp[-4:]:
        a, b = P.var(t.name), P.var(t.name)
        pn = P.var("^" + t.name); P.do("new(%s)" % pn)
        for n in (a, b, pn + "^"): hold.append([n, t, t.new(rng)])
        d = P.uid("d")
        hold[-1].append(d)
        # a dump routine per type for a var parameter; variants dispatch on the tag at the model's direction, so dump inline
    def writeall(n, t, v):
        for p, k, x, at in t.cells(n, v, ()): P.do("%s := %s" % (p, SC[k][1](x)))
    for h in hold:
        # the tag goes first so that its variant is active
        writeall(h[0], h[1], h[2])
    def dump(h):
        cs = list(h[1].cells(h[0], h[2], ()))
        q = P.uid("q")
        P.subs.append("procedure %s;\nbegin %s; writeln end;" % (q, "; ".join(SC[k][2](p) for p, k, x, at in cs)))
        P.do(q); P.out.append("".join(SC[k][3](x) for p, k, x, at in cs).encode())
        c.count("cells_checked", len(cs))
    for _ in range(26):
        h = rng.choice(hold)
        n, t, v = h[:3]
        k = rng.randrange(5)
        if k < 3:
            cs = [x for x in t.cells(n, v, ()) if not (isinstance(t, TyR) and ".tag" in x[0])]
            cs = [x for x in cs if ".tag" not in x[0].replace("^", "")]
            if not cs: continue
            p, kk, x, at = rng.choice(cs)
            nv = SC[kk][0](rng)
            P.do("%s := %s" % (p, SC[kk][1](nv))); setin(v, at, nv); c.count("component_writes")
        elif k == 3:
            o = rng.choice([g for g in hold if g[1] is t])
            P.do("%s := %s" % (n, o[0])); h[2] = copy.deepcopy(o[2]); c.count("whole_copies")
        else:
            # copy a composite or scalar component to a component of the same type elsewhere
            def comps(h):
                if isinstance(h[1], (TyA, TyR)): return [(p, tt, h, at) for p, tt, at in h[1].subs(h[0], ())]
                return []
            src = [x for g in hold for x in comps(g)]
            s = rng.choice(src)
            ds = [x for x in src if x[1] is s[1] and x[0] != s[0]]
            if not ds: continue
            d = rng.choice(ds)
            P.do("%s := %s" % (d[0], s[0])); setin(d[2][2], d[3], copy.deepcopy(getin(s[2][2], s[3]))); c.count("component_copies")
        if rng.random() < .3: dump(rng.choice(hold))
    for h in hold: dump(h)
    c.state("types", *sorted(type(t).__name__ + str(t.size()) for t in comp))

def heap(c, P, rng):
    """Linked structures: identity of pointers, integrity of many objects under new and dispose."""
    P.type("^node", "ptr"); P.type("record key: integer; next: ptr; pad: array [1..%d] of integer; left, right: ptr end" % rng.choice([1, 3, 17]), "node")
    P.var("array [0..39] of ptr", "slot"); P.var("integer", "i"); P.var("integer", "j"); P.var("ptr", "root"); P.var("ptr", "t")
    P.subs.append("procedure insert(var r: ptr; k: integer);\nbegin if r = nil then begin new(r); r^.key := k; r^.left := nil; r^.right := nil; r^.next := nil; r^.pad[1] := -k end\n"
                  "  else if k < r^.key then insert(r^.left, k) else if k > r^.key then insert(r^.right, k) else r^.pad[1] := r^.pad[1] - 1 end;\n"
                  "procedure walk(r: ptr);\nbegin if r <> nil then begin walk(r^.left); write(r^.key, ':', r^.pad[1], ' '); walk(r^.right) end end;")
    keys = [rng.randrange(-50, 50) for _ in range(rng.randrange(5, 40))]
    P.do("root := nil")
    for k in keys: P.do("insert(root, %d)" % k)
    P.do("walk(root)")
    P.say("'.'", "".join("%d:%d " % (k, -k - (keys.count(k) - 1)) for k in sorted(set(keys))) + ".")
    live = {}
    for i in range(40): P.do("slot[%d] := nil" % i)
    for step in range(60):
        i = rng.randrange(40)
        if i not in live:
            P.do("new(slot[%d])" % i); v = rng.randrange(10**6); P.do("slot[%d]^.key := %d" % (i, v)); P.do("slot[%d]^.next := slot[%d]" % (i, i)); live[i] = v
        elif rng.random() < 0.5:
            P.do("dispose(slot[%d])" % i); P.do("slot[%d] := nil" % i); del live[i]
        else:
            live[i] += 1; P.do("slot[%d]^.next^.key := slot[%d]^.key + 1" % (i, i))
    P.do("for i := 0 to 39 do if slot[i] <> nil then write(i, '=', slot[i]^.key, ' ')"); P.say("'.'", "".join("%d=%d " % (i, live[i]) for i in sorted(live)) + ".")
    P.do("j := 0; for i := 0 to 39 do if slot[i] <> nil then if slot[i]^.next = slot[i] then j := j + 1"); P.say("j", str(len(live)))
    if len(live) >= 2:
        a, b = rng.sample(sorted(live), 2)
        P.do("t := slot[%d]" % a)
        P.say("t = slot[%d], t = slot[%d], t <> nil, t <> slot[%d]" % (a, b, a), "TRUEFALSETRUEFALSE")
        P.do("j := 0; for i := 0 to 39 do if (slot[i] <> nil) and (t <> nil) then if slot[i] = t then j := j + 1"); P.say("j", "1")
    c.count("heap_operations", 60 + len(keys)); c.state("heap", len(live))

def pack(c, P, rng):
    """pack and unpack move exactly the prescribed elements; block copies through slices of indices."""
    lo, n = rng.choice([0, 1, -4, 10]), rng.randrange(3, 12)
    chars = rng.random() < .25                     # indexed by characters, above chr(127) as well
    if chars: lo = rng.choice([0, 65, 120, 126, 128, 200, 256 - n])
    ix = (lambda x: "chr(%d)" % x) if chars else str
    m = rng.randrange(1, n + 1)
    t = rng.choice(["integer", "char", "real", "boolean", "longint"])
    zlo = rng.choice([0, 1, 5])
    P.var("array [%s] of %s" % ("char" if chars and rng.random() < .5 else "%s..%s" % (ix(lo), ix(lo + n - 1)), t), "a"); P.var("integer", "g1"); P.var("packed array [%d..%d] of %s" % (zlo, zlo + m - 1, t), "z"); P.var("integer", "g2")
    A = [SC[t][0](rng) for _ in range(n)]; Z = [SC[t][0](rng) for _ in range(m)]
    P.do("g1 := 11; g2 := 22"); P.var("char" if chars else "integer", "k")
    for i, v in enumerate(A): P.do("a[%s] := %s" % (ix(lo + i), SC[t][1](v)))
    for i, v in enumerate(Z): P.do("z[%d] := %s" % (zlo + i, SC[t][1](v)))
    for _ in range(5):
        s = rng.randrange(0, n - m + 1)
        P.do("k := %s" % ix(lo + s))
        idx = rng.choice(["k", ix(lo + s)])
        if rng.random() < .5: P.do("pack(a, %s, z)" % idx); Z = A[s:s + m]
        else: P.do("unpack(z, a, %s)" % idx); A[s:s + m] = Z
        j = rng.randrange(n); v = SC[t][0](rng); P.do("a[%s] := %s" % (ix(lo + j), SC[t][1](v))); A[j] = v
        for i in range(n): P.do(SC[t][2]("a[%s]" % ix(lo + i)))
        for i in range(m): P.do(SC[t][2]("z[%d]" % (zlo + i)))
        P.say("g1, g2", "".join(SC[t][3](x) for x in A + Z) + "1122"); c.count("pack_unpack")
    c.state("pack", t, m == n, chars)

TEMPLATES = [storage, heap, pack]
PROF = dict(arrays=5, records=4, variants=2, ptrs=2, bigcopy=True, stmtw=dict(assign=9, ptr=4, trace=4, **{"with": 3}), routines=3)
def case(c):
    kit, rng = c.kits["plain"], c.rng
    k = c.idx % 5
    if k < 2:
        c.state("kind", "random"); gen_case(c, kit, PROF, nopts=2); return
    P = Prog()
    (storage if k < 4 else heap if rng.random() < .6 else pack)(c, P, rng)
    src = P.src()
    for _ in range(2): expect(c, kit, src, P.want(), random_opts(rng), what="storage table")
    c.count("lines_checked", len(P.out)); c.key = C.sha(src); c.sample = clip(src, 1500)

if __name__ == "__main__":
    simple_check("C10",
        "Each case is one program run under two random option sets: random nestings of arrays (all index types, several dimensions, packed), records, tagged "
        "variants and heap objects under component writes, whole and partial copies, all cells dumped and compared with a storage model; trees and slot tables under "
        "new and dispose; pack and unpack; random composite-heavy programs against the reference interpreter. Non-trivial: distinct source, all cells checked.",
        ["only fields of the active variant are read", "disposed objects are not used"], case)
