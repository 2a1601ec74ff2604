"""Random well-defined Pascal programs over the model in pas.py."""
import random
from pas import *

DEFAULT = dict(
    enums=2, subs=3, arrays=3, records=2, variants=1, sets=1, strings=1, ptrs=1, reals=True, longs=True,
    routines=3, nest=1, depth=3, stmts=8, gvars=10, procparams=True, strvars=True, floor_bits=True, fors=True,
    gotos=True, withs=True, cases=True, forins=True, dump=True, recursion=True, functions=True, consts=2,
    setops=True, bigcopy=False, main_stmts=14, exprdepth=3, morefns=True, stmtw=None, andthen=True, forward=True, protected=True)

class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(prof)
        self.n = 0
        self.prog = Program()
        self.enums, self.subs, self.arrs, self.recs, self.sets, self.strs, self.ptrs = [], [], [], [], [], [], []
        self.cur = self.prog.main
        self.chain = [self.prog.main]          # lexically enclosing routines, outermost first
        self.loops = {}                        # (routine, type) -> [vars]; active ones in self.active
        self.active = set()
        self.consts = []
        self.pure_only = False
        self.labeln = 0
        self.nogoto = 0
        self.idxdepth = 0
        self.tags = 0
        self.callable = []                     # routines callable here, per level
        self.features = {}

    def feat(self, k):
        self.features[k] = self.features.get(k, 0) + 1
    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)
    def chance(self, p):
        return self.r.random() < p
    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    # ---- types
    def mk_types(self):
        r, p = self.r, self.p
        out = self.prog.types
        for _ in range(p["enums"]):
            n = r.choice([2, 3, 4, 5, 7, 9])
            t = TEnum(self.uid("en"), [self.uid("v") for _ in range(n)])
            self.enums.append(t); out.append(t)
        for _ in range(p["subs"]):
            k = r.randrange(5)
            if k <= 2:
                lo = r.choice([0, 1, -3, 5, -10, 100, 1])
                t = TSub(self.uid("sr"), INT, lo, lo + r.choice([2, 3, 6, 9, 20]))
            elif k == 3:
                lo = r.choice([65, 97, 48])
                t = TSub(self.uid("sc"), CHAR, lo, lo + r.choice([2, 5, 9]))
            elif self.enums:
                e = self.pick(self.enums)
                lo = r.randrange(len(e.names) - 1)
                t = TSub(self.uid("se"), e, lo, r.randrange(lo + 1, len(e.names)))
            else:
                continue
            self.subs.append(t); out.append(t)
        for _ in range(p["strings"]):
            t = TStr(self.uid("st"), r.choice([8, 20, 40, 100, 255]))
            self.strs.append(t); out.append(t)
        for _ in range(p["sets"]):
            self.sets.append(self.mk_set()); out.append(self.sets[-1])
        comps = []
        for i in range(p["arrays"] + p["records"] + p["variants"]):
            comps.append("a" if i < p["arrays"] else "r" if i < p["arrays"] + p["records"] else "v")
        r.shuffle(comps)
        for k in comps:
            if k == "a":
                t = self.mk_array(); self.arrs.append(t)
            else:
                t = self.mk_record(k == "v"); self.recs.append(t)
            out.append(t)
        for _ in range(p["ptrs"]):
            # list-like record reached through a pointer declared before it
            pt = TPtr(self.uid("pt"), None)
            fs = [(self.uid("f"), self.elem_type(False)) for _ in range(r.randrange(1, 3))]
            fs.insert(r.randrange(len(fs) + 1), (self.uid("nx"), pt))
            rt = TRec(self.uid("rp"), fs)
            pt.to, pt.toname = rt, rt.name
            self.ptrs.append(pt)
            out.append(pt); out.append(rt)
    def mk_set(self, of=None):
        r = self.r
        if of is None:
            cands = [t for t in self.subs if t.hi - t.lo < 250] + self.enums + [CHAR]
            of = self.pick(cands)
        return TSet(self.uid("se"), of)
    def index_type(self):
        r = self.r
        k = r.randrange(8)
        if k < 4:
            lo = r.choice([0, 1, -2, 3, 10])
            return TSub("$", INT, lo, lo + r.choice([1, 2, 3, 5]))
        if k == 4: return BOOL
        if k == 5 and self.enums: return self.pick(self.enums)
        if k == 6 and self.subs:
            t = self.pick(self.subs)
            if t.hi - t.lo < 12: return t
        if k == 7: return TSub("$", CHAR, 97, 97 + r.randrange(1, 4))
        return TSub("$", INT, 0, 3)
    def scalar_types(self):
        ts = [INT, INT, CHAR, BOOL] + self.enums + self.subs
        if self.p["longs"]: ts.append(LONG)
        if self.p["reals"]: ts.append(REAL)
        return ts
    def elem_type(self, deep=True):
        r = self.r
        pool = self.scalar_types()
        if deep:
            pool = pool + self.arrs * 2 + self.recs * 2 + self.sets + (self.strs if self.p["strvars"] else [])
        t = self.pick(pool)
        if t.kind in ("arr", "rec") and self.size(t) > 60:
            return INT
        return t
    def size(self, t):
        if t.kind == "arr":
            n = 1
            for i in t.idx: n *= i.hi - i.lo + 1
            return n * self.size(t.elem)
        if t.kind == "rec":
            return sum(self.size(x) for x in t.ft.values())
        return 1
    def mk_array(self):
        r = self.r
        idx = [self.index_type() for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        if len(idx) == 3: idx = [t if t.hi - t.lo < 4 else BOOL for t in idx]
        t = TArr(self.uid("ar"), idx, self.elem_type(), self.chance(0.15))
        if self.p["bigcopy"] and self.chance(0.5):
            t = TArr(t.name, [TSub("$", INT, r.choice([0, 1, -5]), r.choice([20, 33, 64]))], self.pick(self.scalar_types()))
        if self.size(t) > 150:
            t = TArr(t.name, t.idx[:1], INT)
        return t
    def mk_record(self, variant):
        r = self.r
        fs = [(self.uid("f"), self.elem_type()) for _ in range(r.randrange(1, 5))]
        v = None
        if variant:
            tag = self.pick([BOOL] + self.enums)
            vals = list(range(tag.lo, tag.hi + 1))
            r.shuffle(vals)
            arms = []
            while vals:
                k = r.randrange(1, len(vals) + 1)
                ls, vals = sorted(vals[:k]), vals[k:]
                # component types of variant arms stay scalar: their initialisation order is then trivial
                arms.append((ls, [(self.uid("f"), self.pick([INT, CHAR, BOOL, INT] + self.enums + ([LONG, REAL] if self.p["longs"] and self.p["reals"] else [])))
                                  for _ in range(r.randrange(1, 4))]))
            v = (self.uid("tg"), tag, arms)
        return TRec(self.uid("rc"), fs, v)

    # ---- variables in scope
    def visible(self):
        vs = []
        for rt in self.chain:
            vs += [v for v in rt.params if v.mode != "proc"] + [v for v in rt.locals if v.mode != "hidden"]
        return vs
    def lv_of(self, pred, assign=False, tries=12, vars=None, depth=2):
        """A random variable access whose type satisfies pred."""
        vs = vars if vars is not None else self.visible()
        if assign:
            vs = [v for v in vs if v.mode in ("var", "val", "ref")]
            if self.pure_only:
                vs = [v for v in vs if v.owner is self.cur and v.mode in ("var", "val")]
        else:
            vs = [v for v in vs if v.mode != "loop" or v in self.active]
        if not vs: return None
        for _ in range(tries):
            # prefer near scopes a little
            v = self.pick(vs)
            x = self.path(VarLV(v), pred, depth)
            if x is not None: return x
        return None
    def path(self, lv, pred, depth):
        t = lv.t
        ok = pred(t)
        if ok and (depth == 0 or t.kind not in ("rec", "arr", "ptr") or self.chance(0.6)):
            return lv
        if depth <= 0:
            return lv if ok else None
        if t.kind == "arr" and t.name is not None:
            idx = [self.index_expr(i) for i in t.idx]
            nx = IndexLV(lv, idx)
            nx.style = self.r.randrange(2)
            return self.path(nx, pred, depth - 1) or (lv if ok else None)
        if t.kind == "rec":
            names = list(t.ft)
            self.r.shuffle(names)
            for n in names[:3]:
                x = self.path(FieldLV(lv, n), pred, depth - 1)
                if x is not None: return x
        if t.kind == "ptr" and depth > 0:
            return self.path(DerefLV(lv), pred, depth - 1) or (lv if ok else None)
        return lv if ok else None
    def index_expr(self, t):
        if self.idxdepth < 2:
            self.idxdepth += 1
            e = self.ord_expr(t.base(), 1)
            self.idxdepth -= 1
            e = self.want(e, t.lo, t.hi)
        if self.idxdepth >= 2 or self.chance(0.35):
            e = Lit(t.base(), self.r.randrange(t.lo, t.hi + 1))
            self.want(e, t.lo, t.hi)
        return e
    def want(self, e, lo, hi):
        e.want = (lo, hi)
        # constants are checked at compile time, also where they are never evaluated
        if isinstance(e, (Lit, ConstRef)) and not lo <= e.val <= hi:
            e.repl = Lit(e.t.base(), self.r.randrange(max(lo, -50), min(hi, max(lo, -50) + 60) + 1) if e.t.kind != "char" else max(lo, 65) if hi >= 65 else lo)
        return e

    # ---- expressions
    def int_lit(self, t):
        r = self.r
        k = r.randrange(12)
        if k < 7: v = r.randrange(-3, 12)
        elif k < 10: v = r.randrange(-300, 1000)
        elif k == 10: v = r.choice([INT_MAX, INT_MIN + 1, 65535, 65536, -32768, 255, 256, 1 << 30])
        else: v = r.randrange(-10**6, 10**6)
        if t is LONG and self.chance(0.25):
            v = r.choice([1, -1]) * r.choice([5 * 10**9, 2**40 + 7, 2**33 - 1, 123456789012, 2**62])
        return Lit(t, v)
    def lit(self, t):
        r = self.r
        if t is REAL:
            return Lit(REAL, r.choice([1, -1, 1]) * r.randrange(0, 800) / r.choice([1, 2, 4, 8]) + 0.0 or 0.0)
        if t.kind == "str":
            n = r.choice([0, 2, 3, 5, 7]) if t.cap >= 7 else 2
            return Lit(t, bytes(r.choice(b"abcdxyzABC 0189+-") for _ in range(n)) if n != 1 else b"qq")
        if t.kind in ("int", "long"): return self.int_lit(t.base())
        return Lit(t.base(), r.randrange(t.lo, t.hi + 1) if t is not CHAR else r.choice(list(range(32, 127)) + [0, 9, 200, 255]))
    def expr(self, t, d=None):
        """An expression assignable to type t."""
        if d is None: d = self.r.randrange(self.p["exprdepth"] + 1)
        if t is REAL:
            if self.chance(0.08): return Conv(self.int_expr(INT, d), REAL)
            return self.real_expr(d)
        if t.ordinal:
            e = self.ord_expr(t.base(), d)
            if t.lo > t.base().lo or t.hi < t.base().hi:
                self.want(e, t.lo, t.hi)
            return e
        if t.kind == "str":
            e = self.str_expr(d)
            e.want = t.cap
            return e
        if t.kind == "set":
            return self.set_expr(t, d)
        if t.kind == "ptr":
            if self.chance(0.3): return Nil(t)
            x = self.lv_of(lambda u: u is t)
            return x or Nil(t)
        x = self.lv_of(lambda u: u is t, tries=20)
        return x
    def ord_expr(self, t, d):
        if t.kind == "int": return self.int_expr(t, d)
        if t.kind == "long": return self.int_expr(t, d)
        if t.kind == "bool": return self.bool_expr(d)
        return self.sym_expr(t, d)
    def leaf(self, t):
        if self.consts and self.chance(0.15):
            cs = [c for c in self.consts if c.t is t]
            if cs:
                c = self.pick(cs)
                return ConstRef(c.t, c.name, c.val)
        if self.chance(0.25):
            return self.lit(t)
        x = self.lv_of(lambda u: u is t or (u.ordinal and u.base() is t))
        return x if x is not None else self.lit(t)
    def call_expr(self, t, d):
        fs = [q for q in self.avail() if q.result is not None and not q.impure and
              (q.result is t or (q.result.ordinal and q.result.base() is t))]
        if not fs or d <= 0: return None
        q = self.pick(fs)
        a = self.args(q, d - 1)
        if a is None: return None
        self.feat("callexpr")
        return CallE(Call(q, a), q.result.base() if q.result.ordinal else q.result)
    def int_expr(self, t, d):
        r = self.r
        if d <= 0: return self.wide(t, self.leaf(t) if t is INT or self.chance(0.6) else self.leaf(INT))
        k = r.randrange(27)
        sub = lambda: self.wide(t, self.int_expr(t if t is INT or self.chance(0.7) else INT, d - 1 - (r.random() < 0.3)))
        if k < 9:
            op = r.choice(["+", "-", "+", "-", "*", "div", "mod"])
            a, b = sub(), sub()
            if op in ("div", "mod") and self.chance(0.7):
                b = Lit(t, r.choice([1, 2, 3, 7, 10, 16, 100] if op == "mod" else [1, 2, 3, 7, 10, -2, -5, 100]))
            return Bin(op, a, b, t)
        if k == 9: return Un("-", sub(), t)
        if k == 10 and self.p["floor_bits"]: return Bin(r.choice(["and", "or", "xor"]), sub(), sub(), t)
        if k == 11 and self.p["floor_bits"]:
            return Bin(r.choice(["shl", "shr"]), sub(), Lit(t, r.randrange(0, 12)), t)
        if k == 12:
            return Fn("abs", [self.int_expr(INT, d - 1)], INT, lambda a: abs(a)) if t is INT else sub()
        if k == 13: return Fn("sqr", [sub()], t, lambda a: a * a)
        if k == 14 and t is INT: return Fn(r.choice(["succ"]), [sub()], t, lambda a: a + 1)
        if k == 15 and t is INT: return Fn("pred", [sub()], t, lambda a: a - 1)
        if k == 16:
            st = self.pick([CHAR, BOOL] + self.enums)
            return self.wide(t, Fn("ord", [self.ord_expr(st, d - 1)], INT, lambda a: a))
        if k == 17 and self.p["reals"] and t is INT:
            import math
            if self.chance(0.5):
                return Fn("trunc", [self.real_expr(d - 1)], INT, lambda a: math.trunc(a))
            return Fn("round", [self.real_expr(d - 1)], INT, rnd)
        if k == 18 and t is INT:
            f = r.choice(["min", "max"])
            return Fn(f, [sub(), sub()], t, min if f == "min" else max)
        if k == 19 and t is INT and self.p["strvars"] and self.strs:
            x = self.lv_of(lambda u: u.kind == "str")
            if x is not None: return Fn("length", [x], INT, len)
        if k == 20:
            c = self.call_expr(t, d)
            if c is not None: return c
        if k == 21 and self.p["morefns"]:
            return Bin("pow", sub(), Lit(INT, r.randrange(0, 5)), t)
        if k == 22 and self.p["morefns"]:
            e = self.int_expr(r.choice([INT, INT, LONG] if self.p["longs"] else [INT]), d - 1)
            m = 64 if e.t is LONG else 32
            return self.wide(t, Fn("popcnt", [ForceW(e)], INT, lambda a: bin(a & (2 ** m - 1)).count("1")))
        if k == 23 and self.p["morefns"]:
            a = self.real_expr(d - 1) if self.p["reals"] and self.chance(0.4) else self.int_expr(LONG if self.p["longs"] and self.chance(0.3) else INT, d - 1)
            return self.wide(t, Fn("sign", [a], INT, lambda a: (a > 0) - (a < 0)))
        if k == 24 and self.p["morefns"]:
            f = r.choice(["succ", "pred"])
            n = r.randrange(0, 9)
            return Fn(f, [sub(), Lit(INT, n)], t, (lambda a, b: a + b) if f == "succ" else (lambda a, b: a - b))
        if k == 25 and self.p["morefns"] and t is LONG:
            f = r.choice(["min", "max", "abs"])
            if f == "abs": return Fn("abs", [sub()], LONG, abs)
            return Fn(f, [sub(), sub()], LONG, min if f == "min" else max)
        if k == 26 and self.sets and self.p["setops"]:
            st = self.pick(self.sets)
            x = self.lv_of(lambda u: u is st)
            if x is not None: return self.wide(t, Fn("card", [x], INT, len))
        return self.wide(t, self.leaf(t))
    def wide(self, t, e):
        if e.t.ordinal and e.t.base() is INT and t is LONG: return Conv(e, LONG)
        return e
    def real_expr(self, d):
        r = self.r
        if d <= 0:
            return self.leaf(REAL)
        k = r.randrange(15)
        if k >= 10 and self.p["morefns"]:
            if k == 10: return Fn("sqr", [self.real_expr(d - 1)], REAL, lambda a: a * a)
            if k == 11:
                f = r.choice(["min", "max"])
                return Fn(f, [self.real_expr(d - 1), self.real_expr(d - 1)], REAL, min if f == "min" else max)
            if k == 12: return Bin(r.choice(["pow", "**"]), self.real_expr(d - 1), Lit(INT, r.randrange(1, 5)), REAL)
            if k == 13: return Bin("/", Conv(self.int_expr(INT, d - 1), REAL), Conv(Lit(INT, r.choice([1, 2, 4, 8])), REAL), REAL)
        if k < 6:
            op = r.choice(["+", "-", "*", "+", "-", "/"])
            a = self.real_expr(d - 1)
            b = self.real_expr(d - 1)
            if op == "/": b = Lit(REAL, r.choice([2.0, 4.0, 0.5, 8.0, -2.0]))
            if op != "/" and self.chance(0.2): b = Conv(self.int_expr(INT, d - 1), REAL)
            if op != "/" and not isinstance(b, Conv) and self.chance(0.1): a = Conv(self.int_expr(INT, d - 1), REAL)
            return Bin(op, a, b, REAL)
        if k == 6: return Un("-", self.real_expr(d - 1), REAL)
        if k == 7: return Fn("abs", [self.real_expr(d - 1)], REAL, abs)
        if k == 8:
            c = self.call_expr(REAL, d)
            if c is not None: return c
        return self.leaf(REAL)
    def bool_expr(self, d):
        r = self.r
        if d <= 0: return self.leaf(BOOL)
        k = r.randrange(14)
        if k < 7:
            ts = [INT, INT, CHAR, BOOL] + self.enums
            if self.p["longs"]: ts.append(LONG)
            if self.p["reals"]: ts.append(REAL)
            t = self.pick(ts)
            a = self.real_expr(d - 1) if t is REAL else self.ord_expr(t, d - 1)
            b = self.real_expr(d - 1) if t is REAL else self.ord_expr(t, d - 1)
            return Bin(r.choice(["=", "<>", "<", "<=", ">", ">="]), a, b, BOOL)
        if k < 10:
            ops = ["and", "or", "xor", "and", "or"] + (["and_then", "or_else"] if self.p["andthen"] else [])
            return Bin(r.choice(ops), self.bool_expr(d - 1), self.bool_expr(d - 1), BOOL)
        if k == 10: return Un("not", self.bool_expr(d - 1), BOOL)
        if k == 11: return Fn("odd", [self.int_expr(INT, d - 1)], BOOL, lambda a: a & 1)
        if k == 12 and self.sets and self.p["setops"]:
            st = self.pick(self.sets)
            e = self.ord_expr(st.of.base(), d - 1)
            self.want(e, st.of.lo, st.of.hi)
            x = self.lv_of(lambda u: u is st)
            if x is not None: return InChk(e, x)
        if k == 13:
            c = self.call_expr(BOOL, d)
            if c is not None: return c
        return self.leaf(BOOL)
    def sym_expr(self, t, d):
        r = self.r
        if d <= 0: return self.leaf(t)
        k = r.randrange(6)
        if k == 0: return Fn("succ", [self.sym_expr(t, d - 1)], t, lambda a: a + 1)
        if k == 1: return Fn("pred", [self.sym_expr(t, d - 1)], t, lambda a: a - 1)
        if k == 2 and t is CHAR:
            e = self.int_expr(INT, d - 1)
            self.want(e, 0, 255)
            return Fn("chr", [e], CHAR, lambda a: a)
        if k == 3:
            c = self.call_expr(t, d)
            if c is not None: return c
        return self.leaf(t)
    def str_expr(self, d):
        r = self.r
        if d <= 0 or self.chance(0.3):
            if self.chance(0.5):
                x = self.lv_of(lambda u: u.kind == "str")
                if x is not None: return x
            return self.lit(STRING)
        k = r.randrange(4)
        if k <= 1:
            a = self.lv_of(lambda u: u.kind == "str")
            if a is not None:
                return Bin("+", a, self.str_expr(d - 1), STRING)
        return self.lit(STRING)
    def set_expr(self, t, d):
        r = self.r
        if d <= 0 or self.chance(0.3):
            x = self.lv_of(lambda u: u is t)
            if x is not None and self.chance(0.6): return x
            parts = []
            for _ in range(r.randrange(1, 4)):
                a = self.r.randrange(t.of.lo, t.of.hi + 1)
                if self.chance(0.3):
                    b = self.r.randrange(a, t.of.hi + 1)
                    parts.append((Lit(t.of.base(), a), Lit(t.of.base(), b)))
                elif self.chance(0.4):
                    e = self.ord_expr(t.of.base(), 1)
                    parts.append((self.want(e, t.of.lo, t.of.hi), None))
                else:
                    parts.append((Lit(t.of.base(), a), None))
            return SetCtor(t, parts)
        x = self.lv_of(lambda u: u is t)
        if x is None: return self.set_expr(t, 0)
        return Bin(r.choice(["+", "-", "*"]), x, self.set_expr(t, d - 1), t)

    # ---- statements
    def block(self, n, d):
        out = []
        for _ in range(n):
            s = self.stmt(d)
            if s is None: continue
            out += s if isinstance(s, list) else [s]
        if not out: out = [self.trace()]
        return out
    def loop_var(self, t):
        key = (id(self.cur), t.name if not t.name.startswith("$") else (t.kind, t.lo, t.hi))
        base = t.base() if t.name.startswith("$") else t
        for v in self.loops.setdefault(key, []):
            if v not in self.active:
                break
        else:
            v = Var(self.uid("lv"), base, self.cur, "loop")
            self.loops[key].append(v)
            self.cur.locals.append(v)
        return v
    def trace(self):
        self.tags += 1
        es = []
        for _ in range(self.r.randrange(1, 4)):
            t = self.pick(self.scalar_types() + (self.strs if self.p["strvars"] else []))
            d = self.r.randrange(0, 3)
            es.append(self.real_expr(d) if t is REAL else self.expr(t if not t.ordinal else t.base(), d))
        return Write("t%d" % self.tags, es)
    def stmt(self, d):
        r = self.r
        ks = ["assign"] * 7 + ["if"] * 3 + ["call"] * 3
        if not self.pure_only: ks += ["trace"] * 3
        if d > 0:
            ks += ["while", "repeat", "for", "for", "compound"]
            if self.p["cases"]: ks += ["case"] * 2
            if self.p["forins"] and (self.sets or self.arrs): ks += ["forin"]
            if self.p["withs"] and self.recs: ks += ["with"]
            if self.p["gotos"] and not self.nogoto: ks += ["goto"]
        if self.ptrs and not self.pure_only: ks += ["ptr"]
        if self.p["stmtw"]:
            w = self.p["stmtw"]
            ks = [k for k in ks for _ in range(w.get(k, 1))] or ["assign"]
        k = self.pick(ks)
        if d <= 0 and k == "if" : k = "assign"
        self.feat(k)
        return getattr(self, "s_" + k)(d)
    def s_trace(self, d):
        return self.trace()
    def s_compound(self, d):
        return Compound(self.block(self.r.randrange(1, 4), d - 1))
    def s_assign(self, d):
        r = self.r
        agg = self.chance(0.2)
        pool = (lambda u: u.kind in ("arr", "rec") and u.name is not None) if agg else (lambda u: u.ordinal or u is REAL or u.kind in ("str", "set"))
        lv = self.lv_of(pool, assign=True)
        if lv is None or lv.t.kind == "ptr": return None
        if not self.pure_only and self.chance(0.15) and isinstance(lv, VarLV):
            c = self.impure_call(lv.t)
            if c is not None: return Assign(lv, c)
        e = self.expr(lv.t)
        if e is None: return None
        return Assign(lv, e)
    def impure_call(self, t):
        fs = [q for q in self.avail() if q.result is not None and q.impure and q.result is t]
        if not fs: return None
        q = self.pick(fs)
        a = self.args(q, 1)
        if a is None: return None
        self.feat("impurecall")
        return CallE(Call(q, a), t)
    def s_if(self, d):
        a = self.block(self.r.randrange(1, 3), d - 1)
        b = self.block(self.r.randrange(1, 3), d - 1) if self.chance(0.6) else None
        return If(self.bool_expr(self.r.randrange(1, 3)), a, b)
    def hidden(self, t=INT):
        v = Var(self.uid("w"), t, self.cur, "hidden")
        self.cur.locals.append(v)
        return v
    def s_while(self, d):
        w = self.hidden()
        lw = VarLV(w)
        k = self.r.randrange(0, 5)
        body = self.block(self.r.randrange(1, 3), d - 1)
        inc = Assign(lw, Bin("+", VarLV(w), Lit(INT, 1), INT))
        body.insert(self.r.randrange(len(body) + 1) if not any(isinstance(s, (Label,)) for s in body) else 0, inc)
        c = Bin("<", VarLV(w), Lit(INT, k), BOOL)
        if self.chance(0.5): c = Bin(self.r.choice(["and", "and_then"] if self.p["andthen"] else ["and"]), c, self.bool_expr(1), BOOL)
        return [Assign(lw, Lit(INT, 0)), While(c, body)]
    def s_repeat(self, d):
        w = self.hidden()
        lw = VarLV(w)
        k = self.r.randrange(0, 4)
        self.nogoto += 1
        body = self.block(self.r.randrange(1, 3), d - 1)
        self.nogoto -= 1
        body.insert(0, Assign(lw, Bin("+", VarLV(w), Lit(INT, 1), INT)))
        c = Bin(">", VarLV(w), Lit(INT, k), BOOL)
        if self.chance(0.5): c = Bin("or", c, self.bool_expr(1), BOOL)
        return [Assign(lw, Lit(INT, 0)), Repeat(body, c)]
    def s_for(self, d):
        r = self.r
        t = self.pick([INT, INT, INT, CHAR, BOOL] + self.enums + self.subs + ([LONG] if self.p["longs"] else []))
        v = self.loop_var(t)
        down = self.chance(0.35)
        k = r.randrange(10)
        if k == 0 and t.hi - t.lo <= 20:
            a, b = Lit(t.base(), t.lo), Lit(t.base(), t.hi)
        elif k == 1:
            if t is CHAR: a, b = Lit(CHAR, 253), Lit(CHAR, 255)
            elif t is INT: a, b = Lit(INT, INT_MAX - 2), Lit(INT, INT_MAX)
            else: a, b = Lit(t.base(), max(t.lo, t.hi - 2)), Lit(t.base(), t.hi)
        elif k == 2:
            if t is INT: a, b = Lit(INT, INT_MIN + 1), Lit(INT, INT_MIN + 3)
            else: a, b = Lit(t.base(), t.lo), Lit(t.base(), min(t.hi, t.lo + 2))
        elif k == 3:
            lo = r.randrange(max(t.lo, -5), min(t.hi, 20) + 1) if t.kind in ("int", "long") and t.lo <= 20 and t.hi >= -5 else t.lo
            a, b = Lit(t.base(), min(t.hi, lo + 1)), Lit(t.base(), lo)   # usually empty
        else:
            if t.kind in ("int", "long"):
                lo = r.randrange(max(t.lo, -4), max(t.lo, -4) + 6) if t in (INT, LONG) else t.lo
                a, b = Lit(t.base(), lo), Lit(t.base(), min(t.hi, lo + r.randrange(0, 4)))
            else:
                lo = r.randrange(t.lo, t.hi + 1)
                a, b = Lit(t.base(), lo), Lit(t.base(), min(t.hi, lo + r.randrange(0, 3)))
        if down and k != 3: a, b = b, a
        if k >= 5 and self.chance(0.5):
            # a computed bound, clamped near the literal one
            if t in (INT, LONG):
                e = self.leaf(INT)
                base = a
                m = Bin("mod", Fn("abs", [e], INT, abs), Lit(INT, 4), INT)
                b = self.wide(t, Bin("-" if down else "+", Lit(INT, base.val), m, INT))
        self.active.add(v)
        body = self.block(r.randrange(1, 3), d - 1)
        self.active.discard(v)
        return For(v, a, b, down, body)
    def s_forin(self, d):
        if self.sets and (not self.arrs or self.chance(0.5)):
            st = self.pick(self.sets)
            x = self.lv_of(lambda u: u is st)
            et = st.of
        else:
            x = self.lv_of(lambda u: u.kind == "arr" and u.name is not None and len(u.idx) == 1 and u.elem.ordinal)
            if x is None: return None
            et = x.t.elem
        if x is None: return None
        v = self.loop_var(et)
        self.active.add(v)
        body = self.block(self.r.randrange(1, 3), 0)
        self.active.discard(v)
        return ForIn(v, x, body)
    def s_case(self, d):
        r = self.r
        t = self.pick([INT, INT, CHAR, BOOL] + self.enums)
        e = self.ord_expr(t, r.randrange(0, 2))
        if t is INT and self.chance(0.6):
            e = Bin("mod", Fn("abs", [e], INT, abs), Lit(INT, r.choice([5, 9, 20])), INT)
        used, arms = set(), []
        if t is INT: space = list(range(-3, 21)) + [100, 1000, -50]
        elif t is CHAR: space = list(range(60, 125))
        else: space = list(range(t.lo, t.hi + 1))
        for _ in range(r.randrange(1, 6)):
            labels = []
            for _ in range(r.randrange(1, 4)):
                a = self.pick(space)
                b = a
                if self.chance(0.25):
                    b = a + r.choice([1, 2, 4, 40] if t is INT else [1, 2])
                    if b > t.hi: b = a
                if any(x in used for x in range(a, b + 1)): continue
                used |= set(range(a, b + 1))
                labels.append((a, b))
            if labels:
                arms.append((labels, self.block(r.randrange(1, 3), d - 1)))
        if not arms: return None
        full = t.kind in ("bool", "enum") and len(used) == t.hi - t.lo + 1
        other = None if full and self.chance(0.5) else self.block(1, d - 1)
        c = Case(e, arms, other)
        c.otext = self.pick(["otherwise", "else"])
        return c
    def s_with(self, d):
        x = self.lv_of(lambda u: u.kind == "rec", assign=True)
        if x is None or x.t.kind != "rec" : return None
        slot = self.uid("$w")
        body = []
        self.nogoto += 1
        for _ in range(self.r.randrange(1, 4)):
            fs = [(n, t) for n, t in x.t.fields if t.ordinal or t is REAL]
            if not fs: break
            n, t = self.pick(fs)
            if self.chance(0.5):
                body.append(Assign(WithLV(n, t, slot), self.expr(t)))
            else:
                n2, t2 = self.pick(fs)
                if not self.pure_only:
                    self.tags += 1
                    body.append(Write("t%d" % self.tags, [WithLV(n2, t2, slot)]))
        if d > 0: body += self.block(1, d - 1)
        self.nogoto -= 1
        if not body: return None
        return With([x], [slot], body)
    def s_goto(self, d):
        self.labeln += 1
        n = self.labeln
        self.cur.labels.append(n)
        skipped = self.block(self.r.randrange(1, 3), d - 1)
        if self.chance(0.6):
            return [Compound([If(self.bool_expr(1), [Goto(n)], None)] + skipped + [Label(n), self.trace() if not self.pure_only else Compound([])])]
        w = self.hidden()
        inc = Assign(VarLV(w), Bin("+", VarLV(w), Lit(INT, 1), INT))
        back = If(Bin("<", VarLV(w), Lit(INT, self.r.randrange(1, 4)), BOOL), [Goto(n)], None)
        return [Compound([Assign(VarLV(w), Lit(INT, 0)), Label(n), inc] + skipped + [back])]
    def s_ptr(self, d):
        pt = self.pick(self.ptrs)
        lv = self.lv_of(lambda u: u is pt, assign=True)
        if lv is None: return None
        k = self.r.randrange(6)
        if k < 3:
            # allocate and initialise
            v = lv
            out = [New(lv)]
            if isinstance(lv, VarLV):
                for n, t in pt.to.fields:
                    if t.kind == "ptr":
                        out.append(Assign(FieldLV(DerefLV(VarLV(lv.var)), n), Nil(t)))
                    else:
                        out += self.init(lambda n=n: FieldLV(DerefLV(VarLV(lv.var)), n), t)
                return out
            return None
        e = self.expr(pt)
        return Assign(lv, e)
    def s_call(self, d):
        ps = [q for q in self.avail() if q.result is None]
        if self.pure_only: ps = [q for q in ps if not q.impure]
        fp = [] if self.pure_only else [p for rt in self.chain for p in rt.params if p.mode == "proc" and p.t.result is None]
        if fp and self.chance(0.5):
            p = self.pick(fp)
            a = self.args(p.t, 1)
            if a is None: return None
            self.feat("procvarcall")
            return CallS(ProcVarCall(p, a))
        if not ps: return None
        q = self.pick(ps)
        a = self.args(q, 1)
        if a is None: return None
        return CallS(Call(q, a))
    def avail(self):
        return [q for lvl in self.callable for q in lvl]
    def args(self, q, d):
        out = []
        for p in q.params:
            if getattr(p, "rec", False):
                out.append(Lit(INT, self.r.randrange(1, 4)))
                continue
            if p.mode in ("ref", "protref"):
                x = self.lv_of(lambda u: u is p.t, assign=(p.mode == "ref"))
                if x is None: return None
                out.append(x)
            elif p.mode == "proc":
                c = [ProcArg(r=q2) for q2 in self.avail() if q2.result is p.t.result and same_sig(q2.params, p.t.params)]
                c += [ProcArg(var=v) for rt in self.chain for v in rt.params if v.mode == "proc" and v.t.result is p.t.result and same_sig(v.t.params, p.t.params)]
                if not c: return None
                self.feat("procarg")
                out.append(self.pick(c))
            else:
                e = self.expr(p.t, d)
                if e is None: return None
                out.append(e)
        return out

    # ---- initialisation and dumps
    def init(self, mk, t, d=0):
        """Statements giving every component of mk() a value."""
        r = self.r
        if t.kind == "arr":
            if len(t.idx) > 3: raise AssertionError
            vs = []
            for i in t.idx:
                v = self.loop_var(i)
                self.active.add(v)
                vs.append(v)
            inner = self.init(lambda: IndexLV(mk(), [VarLV(v) for v in vs]), t.elem, d + 1)
            if t.elem.kind in ("int",) and t.elem is INT and self.chance(0.7):
                e = Lit(INT, r.randrange(-5, 50))
                for v in vs:
                    o = VarLV(v)
                    if v.t.kind == "long": continue
                    o = o if v.t.base() is INT else Fn("ord", [o], INT, lambda a: a)
                    e = Bin(r.choice(["+", "-"]), e, Bin("*", o, Lit(INT, r.randrange(1, 9)), INT), INT)
                inner = [Assign(IndexLV(mk(), [VarLV(v) for v in vs]), e)]
            for v, i in reversed(list(zip(vs, t.idx))):
                inner = [For(v, Lit(i.base(), i.lo), Lit(i.base(), i.hi), False, inner)]
            for v in vs: self.active.discard(v)
            return inner
        if t.kind == "rec":
            out = []
            for n, ft in t.fields:
                out += self.init(lambda n=n: FieldLV(mk(), n), ft, d + 1)
            if t.variant:
                tag, tt, arms = t.variant
                v = r.randrange(tt.lo, tt.hi + 1)
                out.append(Assign(FieldLV(mk(), tag), Lit(tt, v)))
                for ls, fs in arms:
                    if v in ls:
                        for n, ft in fs:
                            out += self.init(lambda n=n: FieldLV(mk(), n), ft, d + 1)
            return out
        if t.kind == "ptr":
            return [Assign(mk(), Nil(t))]
        if t.kind == "set":
            a = r.randrange(t.of.lo, t.of.hi + 1)
            return [Assign(mk(), SetCtor(t, [(Lit(t.of.base(), a), Lit(t.of.base(), r.randrange(a, min(t.of.hi, a + 40) + 1)))]))]
        if t.ordinal:
            if t.kind in ("int", "long") and t.base() is t: return [Assign(mk(), self.int_lit(t))]
            return [Assign(mk(), Lit(t.base(), r.randrange(t.lo, t.hi + 1)))]
        return [Assign(mk(), self.lit(t))]
    def dump(self, mk, t, tag):
        if t.kind == "arr":
            vs = []
            for i in t.idx:
                v = self.loop_var(i)
                self.active.add(v)
                vs.append(v)
            inner = self.dump(lambda: IndexLV(mk(), [VarLV(v) for v in vs]), t.elem, tag)
            for v, i in reversed(list(zip(vs, t.idx))):
                inner = [For(v, Lit(i.base(), i.lo), Lit(i.base(), i.hi), False, inner)]
            for v in vs: self.active.discard(v)
            return inner
        if t.kind == "rec":
            out = []
            for n, ft in t.fields:
                out += self.dump(lambda n=n: FieldLV(mk(), n), ft, tag + n)
            if t.variant:
                tg, tt, arms = t.variant
                out.append(Write(tag + tg, [FieldLV(mk(), tg)]))
                ca = []
                for ls, fs in arms:
                    body = []
                    for n, ft in fs:
                        body += self.dump(lambda n=n: FieldLV(mk(), n), ft, tag + n)
                    ca.append(([(l, l) for l in ls], body))
                out.append(Case(FieldLV(mk(), tg), ca, None))
            return out
        if t.kind == "ptr":
            return [If(Bin("=", mk(), Nil(t), BOOL), [Write(tag + " nil", [])],
                       self.dump_obj(lambda: DerefLV(mk()), t.to, tag))]
        if t.kind == "set":
            v = self.loop_var(t.of)
            self.active.add(v)
            b = [For(v, Lit(t.of.base(), t.of.lo), Lit(t.of.base(), t.of.hi), False,
                     [If(Bin("in", VarLV(v), mk(), BOOL), [Write(None, [VarLV(v)], newline=False)], None)]),
                 Write(tag, [])]
            self.active.discard(v)
            return b
        return [Write(tag, [mk()])]
    def dump_obj(self, mk, t, tag):
        out = []
        for n, ft in t.fields:
            if ft.kind == "ptr":
                out.append(If(Bin("=", FieldLV(mk(), n), Nil(ft), BOOL), [Write(tag + n + "nil", [])], [Write(tag + n + "set", [])]))
            else:
                out += self.dump(lambda n=n: FieldLV(mk(), n), ft, tag + n)
        return out

    # ---- routines
    def mk_routine(self, parent, lvl):
        r = self.r
        isf = self.p["functions"] and self.chance(0.45)
        res = self.pick(self.scalar_types() + self.ret_types()) if isf else None
        q = Routine(self.uid("fn" if isf else "pr"), [], res, parent)
        q.impure = not isf or self.chance(0.5)
        rec = self.p["recursion"] and self.chance(0.35)
        if isf and self.chance(0.15): q.resname = self.uid("res")
        for _ in range(r.randrange(0, 4)):
            pool = self.scalar_types() + self.arrs + self.recs + self.sets + (self.strs if self.p["strvars"] else []) + self.ptrs
            t = self.pick(pool)
            m = self.pick(["val", "val", "ref", "val", "ref"] + (["prot"] if self.p["protected"] else []))
            if not q.impure and m == "ref": m = "val"
            q.params.append(Var(self.uid("a"), t, q, m))
        if self.p["procparams"] and q.impure and self.chance(0.3):
            sigs = [z for z in self.avail() if all(x.mode in ("val", "ref") and not getattr(x, "rec", False) for x in z.params) and z.result is None and len(z.params) <= 2]
            if sigs:
                z = self.pick(sigs)
                ps = [Var(self.uid("b"), x.t, None, x.mode) for x in z.params]
                q.params.append(Var(self.uid("pp"), TProc(ps, z.result), q, "proc"))
        depthp = None
        if rec:
            depthp = Var(self.uid("d"), INT, q, "prot2")
            depthp.mode = "val"
            depthp.rec = True
            q.params.insert(r.randrange(len(q.params) + 1), depthp)
        saved = self.cur, self.pure_only, self.nogoto
        self.cur = q
        self.chain.append(q)
        self.nogoto = 0
        self.callable.append([])
        if depthp is not None: depthp.mode = "frozen"
        for _ in range(r.randrange(1, 5)):
            t = self.pick(self.scalar_types() + self.arrs[:2] + self.recs[:1])
            q.locals.append(Var(self.uid("l"), t, q))
        decl = list(q.locals)
        if lvl < self.p["nest"] :
            for _ in range(r.randrange(0, 3)):
                sub = self.mk_routine(q, lvl + 1)
                q.routines.append(sub)
                self.callable[-1].append(sub)
        self.pure_only = not q.impure
        body = []
        for v in decl:
            body += self.init(lambda v=v: VarLV(v), v.t)
        body += self.block(r.randrange(1, self.p["stmts"] // 2 + 2), min(2, self.p["depth"]) )
        if rec:
            # structured recursion on the depth parameter; placed anywhere in the body
            a = []
            ok = True
            for p in q.params:
                if p is depthp:
                    a.append(Bin("-", VarLV(depthp), Lit(INT, 1), INT))
                elif p.mode == "proc":
                    a.append(ProcArg(var=p))
                elif p.mode in ("ref", "protref"):
                    x = self.lv_of(lambda u: u is p.t, assign=True)
                    a.append(x if x is not None else VarLV(p))
                else:
                    e = self.expr(p.t, 1)
                    a.append(e if e is not None else VarLV(p))
            call = Call(q, a)
            if isf:
                w = Var(self.uid("rr"), res, q, "hidden")
                q.locals.append(w)
                cs = [Assign(VarLV(w), CallE(call, res))]
                if res.ordinal or res is REAL:
                    if not self.pure_only: cs.append(Write("rr%d" % self.n, [VarLV(w)]))
            else:
                cs = [CallS(call)]
            body.insert(r.randrange(len(decl), len(body) + 1) if not any(isinstance(s, Label) for s in body) else len(body),
                        If(Bin(">", VarLV(depthp), Lit(INT, 0), BOOL), cs, None))
            # everything before the insertion point that initialises locals must stay before it
            self.fix_init(body, decl)
        if isf:
            e = self.expr(res)
            if e is None:
                v = Var(self.uid("rv"), res, q)
                q.locals.append(v)
                body += self.init(lambda: VarLV(v), res)
                e = VarLV(v)
            body.append(SetResult(q, e))
            if self.chance(0.3) and not self.pure_only:
                body.append(self.trace())
        if not self.pure_only and self.chance(0.6):
            body.append(self.trace())
        q.body = body
        self.callable.pop()
        self.chain.pop()
        self.cur, self.pure_only, self.nogoto = saved
        if depthp is not None: depthp.mode = "val"
        return q
    def ret_types(self):
        return []
    def fix_init(self, body, decl):
        pass
    def build(self):
        r, p = self.r, self.p
        m = self.prog.main
        self.mk_types()
        for _ in range(p["consts"]):
            t = self.pick([INT, CHAR, BOOL, REAL] if p["reals"] else [INT, CHAR, BOOL])
            v = self.lit(t).val
            if t is INT and v < 0: v = -v
            if t is CHAR and not 32 <= v < 127: v = 65
            c = ConstRef(t, self.uid("k"), v)
            self.consts.append(c)
            m.consts.append((c.name, t.lit(v).strip("()") if t in (INT, REAL) else t.lit(v)))
        allt = self.scalar_types() + self.arrs * 2 + self.recs * 2 + self.sets + (self.strs if p["strvars"] else []) + self.ptrs
        must = self.arrs + self.recs + self.sets + self.ptrs + (self.strs if p["strvars"] else []) + [INT, BOOL]
        for t in must + [self.pick(allt) for _ in range(p["gvars"])]:
            m.locals.append(Var(self.uid("g"), t, m))
        decl = list(m.locals)
        self.callable.append([])
        for _ in range(p["routines"]):
            q = self.mk_routine(m, 0)
            m.routines.append(q)
            self.callable[0].append(q)
            if p["forward"] and self.chance(0.2): q.forward = self.pick([True, "short"])
        self.pure_only = False
        body = []
        for v in decl:
            body += self.init(lambda v=v: VarLV(v), v.t)
        body += self.block(p["main_stmts"], p["depth"])
        if p["dump"]:
            for v in decl:
                body += self.dump(lambda v=v: VarLV(v), v.t, v.name)
        m.body = body
        return self.prog

class ForceW(E):
    """An operand whose width matters (popcnt): defined only when its effective width is its type's."""
    def __init__(self, e):
        self.a, self.t, self.prec = e, e.t, e.prec
    def src(self):
        return self.a.s(0)
    def s(self, need=0):
        return self.repl.s(need) if self.repl is not None else self.a.s(need)
    def ev(self, it, f):
        v = self.a.v(it, f)
        if self.t is LONG and self.a.eff() != "long": 
            if v < 0: raise UB(self, "width")
        return v

class InChk(E):
    """Membership with the element inside the set's base range."""
    prec = P_REL
    def __init__(self, a, b):
        self.a, self.b, self.t = a, b, BOOL
    def src(self):
        return "%s in %s" % (self.a.s(P_REL + 1), self.b.s(P_REL + 1))
    def ev(self, it, f):
        a, b = self.a.v(it, f), self.b.v(it, f)
        t = self.b.t.of
        if not t.lo <= a <= t.hi: raise UB(self.a, "in range")
        return int(a in b)

def rnd(a):
    """Pascal round: halves away from zero."""
    import math
    return int(math.floor(a + 0.5)) if a >= 0 else -int(math.floor(-a + 0.5))

def same_sig(a, b):
    return len(a) == len(b) and all(x.t is y.t and x.mode == y.mode and not getattr(x, "rec", False) for x, y in zip(a, b))

def literal_for(rng, node):
    """A harmless replacement for an expression that reached undefined behaviour, or None."""
    t = node.t
    w = getattr(node, "want", None)
    if t.ordinal:
        b = t.base()
        if isinstance(w, tuple):
            v = rng.randrange(w[0], w[1] + 1) if w[1] - w[0] < 10**6 else max(w[0], min(w[1], rng.randrange(0, 9)))
        elif b.kind in ("int", "long"): v = rng.randrange(1, 9)
        elif b is CHAR: v = rng.randrange(65, 90)
        else: v = rng.randrange(b.lo, b.hi + 1)
        return Lit(b, v)
    if t is REAL:
        return Lit(REAL, rng.randrange(1, 9) / 2)
    if t.kind == "str":
        return Lit(STRING, b"zz")
    if t.kind == "ptr" and not getattr(node, "deref", False):
        return Nil(t)
    return None

def repair(rng, prog, limit=40000, tries=60):
    """Runs prog, replacing every subexpression that reaches undefined behaviour by a harmless literal and deleting
    statements that cannot be mended so; repeats until a strict run completes.  -> Interp of that run or None."""
    for _ in range(tries):
        def fix(node):
            if not isinstance(node, E) or node.repl is not None: return False
            n = literal_for(rng, node)
            if n is None: return False
            node.repl = n
            return True
        try:
            it = prog.run(limit, fix)
            if it.fixes == 0: return it
        except (TooLong, GotoEx):
            return None
        except (KeyError, RecursionError):
            return None
        except UB:
            return None
    return None

def program(rng, limit=20000, attempts=30, **prof):
    """-> (source text, expected output bytes, coverage, features) of a random well-defined program."""
    for _ in range(attempts):
        g = Gen(rng, **prof)
        try:
            p = g.build()
        except RecursionError:
            continue
        it = repair(rng, p, limit)
        if it is None: continue
        import random
        if rng.random() < 0.6: p.shadow = random.Random(rng.random())
        t = p.source()
        if getattr(p, "hidden", 0): it.cover["hidden_names"] = p.hidden
        return t, b"".join(it.out), it.cover, g.features
    raise RuntimeError("no program")
