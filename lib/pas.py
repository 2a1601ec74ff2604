"""A typed model of a Pascal subset: types, expressions, statements, a printer and a reference interpreter.

The interpreter is the oracle of the behavioural checks.  It is written from the language definition, not from the
compiler, and refuses (raises UB) everything whose result the language leaves open: overflow, division by zero,
values outside a subrange, bad indices, undefined variables, dangling pointers, inexact real results.  Generators
repair or discard programs that reach such a point, so every emitted program has exactly one defined behaviour.
"""
import re
from fractions import Fraction

INT_MAX, INT_MIN = 2**31 - 1, -2**31
L_MAX, L_MIN = 2**63 - 1, -2**63

class UB(Exception):
    def __init__(self, node, why=""):
        Exception.__init__(self, why)
        self.node, self.why = node, why

class TooLong(Exception):
    pass

# ---------------------------------------------------------------- types
class T:
    name = None
    ordinal = False
    def decl(self):
        return self.name
    def base(self):
        return self
    def copy(self, v):
        return v
    def __repr__(self):
        return "<%s>" % (self.name or self.decl())

class TOrd(T):
    ordinal = True
    def __init__(self, name, lo, hi, kind):
        self.name, self.lo, self.hi, self.kind = name, lo, hi, kind
    def default(self):
        return max(self.lo, min(self.hi, 0))
    def lit(self, v):
        k = self.kind
        if k in ("int", "long"):
            if v < 0:
                if v == INT_MIN and k == "int":
                    return "(-2147483647 - 1)"
                if v == L_MIN:
                    return "(-9223372036854775807 - 1)"
                return "(-%d)" % -v
            return str(v)
        if k == "char":
            if 32 <= v < 127:
                return "''''" if v == 39 else "'%c'" % v
            return "chr(%d)" % v
        if k == "bool":
            return "true" if v else "false"
        raise AssertionError(k)

INT = TOrd("integer", INT_MIN, INT_MAX, "int")
LONG = TOrd("longint", L_MIN, L_MAX, "long")
CHAR = TOrd("char", 0, 255, "char")
BOOL = TOrd("boolean", 0, 1, "bool")

class TEnum(TOrd):
    def __init__(self, name, names):
        TOrd.__init__(self, name, 0, len(names) - 1, "enum")
        self.names = names
    def decl(self):
        return "(" + ", ".join(self.names) + ")"
    def lit(self, v):
        return self.names[v]

class TSub(TOrd):
    def __init__(self, name, of, lo, hi):
        TOrd.__init__(self, name, lo, hi, of.kind)
        self.of = of
    def base(self):
        return self.of
    def decl(self):
        f = lambda v: self.of.lit(v).strip("()") if self.of.kind in ("int", "long") else self.of.lit(v)
        return "%s..%s" % (f(self.lo), f(self.hi))
    def lit(self, v):
        return self.of.lit(v)

class TReal(T):
    name = "real"
    kind = "real"
    def default(self):
        return 0.0
    def lit(self, v):
        if v < 0 or (v == 0 and str(v)[0] == "-"):
            return "(-%s)" % self.lit(-v)
        s = "%.10f" % v
        s = s.rstrip("0")
        if s.endswith("."):
            s += "0"
        return s
REAL = TReal()

class TStr(T):
    kind = "str"
    def __init__(self, name, cap):
        self.name, self.cap = name, cap
    def decl(self):
        return "string[%d]" % self.cap
    def default(self):
        return b""
    def lit(self, v):
        return strlit(v)
STRING = TStr("string", 255)

def strlit(v):
    """A Pascal string literal for bytes v (printable, no newline); length-1 literals are char literals."""
    return "'" + v.decode("latin-1").replace("'", "''") + "'"

class TArr(T):
    kind = "arr"
    def __init__(self, name, idx, elem, packed=False):
        self.name, self.idx, self.elem, self.packed = name, idx, elem, packed
    def decl(self):
        def r(t):
            if t.name and not t.name.startswith("$"):
                return t.name
            return t.decl()
        return "%sarray [%s] of %s" % ("packed " if self.packed else "", ", ".join(r(t) for t in self.idx), self.elem.name)
    def default(self):
        def mk(d):
            if d == len(self.idx):
                return self.elem.default()
            t = self.idx[d]
            return [mk(d + 1) for _ in range(t.hi - t.lo + 1)]
        return mk(0)
    def copy(self, v):
        def cp(x, d):
            if d == len(self.idx):
                return self.elem.copy(x)
            return [cp(y, d + 1) for y in x]
        return cp(v, 0)

class TRec(T):
    kind = "rec"
    def __init__(self, name, fields, variant=None, packed=False):
        # variant: (tagname, tagtype, [([labels], [(name, type)])])
        self.name, self.fields, self.variant, self.packed = name, fields, variant, packed
        self.ft = dict(fields)
        self.arm = {}
        if variant:
            self.ft[variant[0]] = variant[1]
            for i, (labels, fs) in enumerate(variant[2]):
                for n, t in fs:
                    self.ft[n] = t
                    self.arm[n] = i
    def decl(self):
        s = ("packed " if self.packed else "") + "record "
        s += "; ".join("%s: %s" % (n, t.name) for n, t in self.fields)
        if self.variant:
            if self.fields:
                s += "; "
            s += "case %s: %s of " % (self.variant[0], self.variant[1].name)
            s += "; ".join("%s: (%s)" % (", ".join(self.variant[1].lit(l).strip("()") for l in ls),
                                         "; ".join("%s: %s" % (n, t.name) for n, t in fs))
                           for ls, fs in self.variant[2])
        return s + " end"
    def default(self):
        d = {n: t.default() for n, t in self.fields}
        if self.variant:
            d[self.variant[0]] = self.variant[1].default()
        return d
    def copy(self, v):
        return {n: (self.ft[n].copy(x) if n in self.ft else x) for n, x in v.items()}

class TSet(T):
    kind = "set"
    def __init__(self, name, of):
        self.name, self.of = name, of
    def decl(self):
        return "set of " + (self.of.name if self.of.name and not self.of.name.startswith("$") else self.of.decl())
    def default(self):
        return frozenset()

class TPtr(T):
    kind = "ptr"
    def __init__(self, name, to):
        self.name, self.to = name, to   # to may be set later; toname used in declaration
        self.toname = None
    def decl(self):
        return "^" + (self.toname or self.to.name)
    def default(self):
        return None

class Obj:
    """A dynamically allocated variable."""
    __slots__ = ("v", "live", "id")
    n = 0
    def __init__(self, v):
        self.v, self.live = v, True
        Obj.n += 1
        self.id = Obj.n

class Undef:
    def __repr__(self):
        return "undef"
UNDEF = Undef()

# ---------------------------------------------------------------- run-time structures
class Frame:
    __slots__ = ("vars", "routine", "link", "result")
    def __init__(self, routine, link):
        self.vars, self.routine, self.link, self.result = {}, routine, link, UNDEF

class Var:
    """A declared variable or parameter.  mode: var|val|ref|prot|loop"""
    def __init__(self, name, t, owner, mode="var"):
        self.name, self.t, self.owner, self.mode = name, t, owner, mode

class Interp:
    def __init__(self, limit=60000, fix=None):
        self.fix, self.fixes = fix, 0
        self.out = []
        self.steps = 0
        self.limit = limit
        self.cover = {}
        self.depth = 0
    def tick(self, what=None):
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()
        if what is not None:
            self.cover[what] = self.cover.get(what, 0) + 1
    def write(self, b):
        self.out.append(b)

def frame_of(f, owner):
    while f.routine is not owner:
        f = f.link
    return f

# ---------------------------------------------------------------- expressions
P_REL, P_ADD, P_MUL, P_POW, P_ATOM = 5, 10, 40, 50, 100

class E:
    def eff(self):
        """The type the compiler gives an integer expression: a small literal is an integer, also where the model wants a longint."""
        return self.eff0() if self.repl is None else self.repl.eff0()
    def eff0(self):
        return self.t.base().kind if self.t.ordinal else self.t.kind
    def chkeff(self, r):
        return chk(self, INT if self.t is LONG and self.eff() == "int" else self.t, r)
    prec = P_ATOM
    repl = None
    def s(self, need=0):
        if self.repl is not None:
            return self.repl.s(need)
        x = self.src()
        return "(" + x + ")" if self.prec < need else x
    def v(self, it, f):
        if self.repl is not None:
            return self.repl.v(it, f)
        try:
            return self.ev(it, f)
        except UB as u:
            # repair mode: mend the offending expression in place and go on; a strict run follows
            if it.fix is None or u.node is not self or not it.fix(self):
                raise
            it.fixes += 1
            return self.repl.v(it, f)
    def const_repl(self):
        return None

class Lit(E):
    def eff0(self):
        return self.t.kind if self.t is not LONG else "long" if abs(self.val) > INT_MAX else "int"
    def __init__(self, t, val):
        self.t, self.val = t, val
    def src(self):
        return self.t.lit(self.val)
    def ev(self, it, f):
        return self.val

class Raw(E):
    """An expression given by its text and a Python function for its value."""
    def __init__(self, t, text, fn, prec=P_ATOM):
        self.t, self.text, self.fn, self.prec = t, text, fn, prec
    def src(self):
        return self.text
    def ev(self, it, f):
        return self.fn(it, f)

class Nil(E):
    def __init__(self, t):
        self.t = t
    def src(self):
        return "nil"
    def ev(self, it, f):
        return None

class ConstRef(E):
    def __init__(self, t, name, val):
        self.t, self.name, self.val = t, name, val
    def src(self):
        return self.name
    def ev(self, it, f):
        return self.val

class LV(E):
    """Variable access; ref() gives (container, key)."""
    def ev(self, it, f):
        try:
            c, k = self.ref(it, f)
        except UB as u:
            # a broken access path: as a value the whole access can be replaced, as a destination it cannot
            if u.node is None: u.node = self
            raise
        try:
            v = c[k]
        except KeyError:
            raise UB(self, "inactive variant field")
        if v is UNDEF:
            raise UB(self, "undefined")
        return v
    def lref(self, it, f):
        return self.ref(it, f)

class VarLV(LV):
    def __init__(self, var):
        self.var, self.t = var, var.t
        self.written = var.name
    def src(self):
        return self.var.name
    def ref(self, it, f):
        fr = frame_of(f, self.var.owner)
        if self.var.mode == "ref":
            return fr.vars[self.var.name]
        return fr.vars, self.var.name

class WithLV(LV):
    """A field named directly inside a with statement; target is the with-record's LV, evaluated at entry."""
    def __init__(self, field, t, slot):
        self.field, self.t, self.slot = field, t, slot
    def src(self):
        return self.field
    def ref(self, it, f):
        c, k = f.vars[self.slot]
        return c[k], self.field

class IndexLV(LV):
    def __init__(self, b, idx):
        self.b, self.idx = b, idx
        n = len(b.t.idx) - len(idx)
        self.t = b.t.elem if n == 0 else TArr(None, b.t.idx[len(idx):], b.t.elem)
        self.style = 0
    def src(self):
        if self.style and len(self.idx) > 1:
            return self.b.s(P_ATOM) + "".join("[%s]" % i.s() for i in self.idx)
        return "%s[%s]" % (self.b.s(P_ATOM), ", ".join(i.s() for i in self.idx))
    def ref(self, it, f):
        c, k = self.b.ref(it, f)
        for n, i in enumerate(self.idx):
            t = self.b.t.idx[n]
            x = i.v(it, f)
            if not t.lo <= x <= t.hi:
                raise UB(i, "index")
            c = c[k]
            k = x - t.lo
        return c, k

class FieldLV(LV):
    def __init__(self, b, field):
        self.b, self.field, self.t = b, field, b.t.ft[field]
    def src(self):
        return self.b.s(P_ATOM) + "." + self.field
    def ref(self, it, f):
        c, k = self.b.ref(it, f)
        rec = c[k]
        t = self.b.t
        if self.field in t.arm and self.field not in rec:
            raise UB(None, "inactive variant")
        return rec, self.field

class DerefLV(LV):
    def __init__(self, b):
        self.b, self.t = b, b.t.to
    def src(self):
        return self.b.s(P_ATOM) + "^"
    def ref(self, it, f):
        o = self.b.v(it, f)
        if o is None or not o.live:
            raise UB(None, "nil or dead pointer")
        return ObjCell(o), 0

class ObjCell:
    __slots__ = ("o",)
    def __init__(self, o):
        self.o = o
    def __getitem__(self, k):
        if not self.o.live:
            raise UB(None, "dead object")
        return self.o.v
    def __setitem__(self, k, v):
        self.o.v = v
    def __eq__(self, other):
        return isinstance(other, ObjCell) and self.o is other.o

def chk(node, t, v):
    if t is REAL:
        if v != v or v in (float("inf"), float("-inf")) or abs(v) > 1e12:
            raise UB(node, "real range")
        if v == 0 and str(v)[0] == "-":
            raise UB(node, "negative zero")
        return v
    if t.kind == "int" and not INT_MIN <= v <= INT_MAX:
        raise UB(node, "overflow")
    if t.kind == "long" and not L_MIN <= v <= L_MAX:
        raise UB(node, "overflow")
    return v

def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q

def exact(node, fr):
    x = float(fr)
    if Fraction(x) != fr:
        raise UB(node, "inexact real")
    # leave headroom so that neither extended nor double evaluation rounds
    if fr.denominator > 2**20 or abs(fr) > 2**30:
        raise UB(node, "real size")
    return x

BINPREC = {"+": P_ADD, "-": P_ADD, "or": P_ADD, "xor": P_ADD, "or_else": P_ADD,
           "*": P_MUL, "/": P_MUL, "div": P_MUL, "mod": P_MUL, "and": P_MUL, "and_then": P_MUL, "shl": P_MUL, "shr": P_MUL,
           "**": P_POW, "pow": P_POW,
           "=": P_REL, "<>": P_REL, "<": P_REL, "<=": P_REL, ">": P_REL, ">=": P_REL, "in": P_REL}

class Bin(E):
    def eff0(self):
        if self.t is LONG:
            return "long" if "long" in (self.a.eff(), self.b.eff()) else "int"
        return self.t.kind
    def __init__(self, op, a, b, t):
        self.op, self.a, self.b, self.t = op, a, b, t
        self.prec = BINPREC[op]
    def src(self):
        p = self.prec
        if p in (P_REL, P_POW):
            return "%s %s %s" % (self.a.s(p + 1), self.op, self.b.s(p + 1))
        return "%s %s %s" % (self.a.s(p), self.op, self.b.s(p + 1))
    def ev(self, it, f):
        op = self.op
        if op == "and_then":
            return 1 if self.a.v(it, f) and self.b.v(it, f) else 0
        if op == "or_else":
            return 1 if self.a.v(it, f) or self.b.v(it, f) else 0
        a, b = self.a.v(it, f), self.b.v(it, f)
        t = self.t
        if op in ("=", "<>", "<", "<=", ">", ">="):
            ta = self.a.t
            if ta.kind == "set":
                if op == "=": return int(a == b)
                if op == "<>": return int(a != b)
                if op == "<=": return int(a <= b)
                if op == ">=": return int(a >= b)
                raise AssertionError
            if ta.kind == "ptr":
                return int((a is b) if op == "=" else (a is not b))
            if op == "=": return int(a == b)
            if op == "<>": return int(a != b)
            if op == "<": return int(a < b)
            if op == "<=": return int(a <= b)
            if op == ">": return int(a > b)
            return int(a >= b)
        if op == "in":
            return int(a in b)
        if t.kind == "set":
            if op == "+": return a | b
            if op == "-": return a - b
            if op == "*": return a & b
            raise AssertionError(op)
        if t.kind == "str":
            r = tobytes(a) + tobytes(b)
            if len(r) > 255:
                raise UB(self, "string too long")
            return r
        if t is REAL:
            fa, fb = Fraction(a), Fraction(b)
            if op == "+": r = fa + fb
            elif op == "-": r = fa - fb
            elif op == "*": r = fa * fb
            elif op == "/":
                if fb == 0: raise UB(self, "div0")
                r = fa / fb
            elif op in ("**", "pow"):
                if fb.denominator != 1 or fb < 0 or fb > 8 or (fa == 0): raise UB(self, "power")
                r = fa ** int(fb)
            else:
                raise AssertionError(op)
            if r == 0 and (fa < 0 or fb < 0) and op in ("*", "/", "**", "pow"):
                raise UB(self, "negative zero")
            return chk(self, t, exact(self, r))
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        elif op in ("div", "mod"):
            if b == 0: raise UB(self, "div0")
            q = tdiv(a, b)
            self.chkeff(q)
            r = q if op == "div" else a - q * b
            if op == "mod" and b < 0: raise UB(self, "mod by negative")
        elif op in ("and", "or", "xor"):
            r = a & b if op == "and" else a | b if op == "or" else a ^ b
        elif op == "shl":
            n = 64 if self.eff() == "long" else 32
            if not 0 <= b < n or a < 0: raise UB(self, "shift")
            r = a << b
        elif op == "shr":
            n = 64 if self.eff() == "long" else 32
            if not 0 <= b < n or a < 0: raise UB(self, "shift")
            r = a >> b
        elif op == "pow":
            if b < 0 or (a == 0 and b == 0) or b > 62: raise UB(self, "pow")
            r = a ** b
        else:
            raise AssertionError(op)
        return self.chkeff(r)

def tobytes(x):
    return bytes([x]) if isinstance(x, int) else x

class Un(E):
    def eff0(self):
        return self.a.eff()
    def __init__(self, op, a, t):
        self.op, self.a, self.t = op, a, t
        self.prec = P_ADD if op in ("-", "+") else P_ATOM
    def src(self):
        if self.op in ("-", "+"):
            return self.op + self.a.s(P_ATOM)
        return "not " + self.a.s(P_ATOM)
    def s(self, need=0):
        if self.repl is not None:
            return self.repl.s(need)
        x = self.src()
        if self.op in ("-", "+"):
            return "(" + x + ")" if need > 0 else x
        return x
    def ev(self, it, f):
        a = self.a.v(it, f)
        if self.op == "+": return a
        if self.op == "-":
            return self.chkeff(-a)
        if self.t.kind == "bool":
            return 1 - a
        return ~a

class Conv(E):
    def eff0(self):
        return self.a.eff()
    """Implicit widening integer->longint, integer->real, char->string."""
    def __init__(self, a, t):
        self.a, self.t = a, t
        self.prec = a.prec
    def s(self, need=0):
        if self.repl is not None:
            return self.repl.s(need)
        return self.a.s(need)
    def src(self):
        return self.a.src()
    def ev(self, it, f):
        v = self.a.v(it, f)
        if self.t is REAL: return float(v)
        if self.t.kind == "str": return tobytes(v)
        return v

class Fn(E):
    """A builtin function: fn(values) -> value, raising ValueError where undefined."""
    def __init__(self, name, args, t, fn):
        self.name, self.args, self.t, self.fn = name, args, t, fn
    def src(self):
        return "%s(%s)" % (self.name, ", ".join(a.s() for a in self.args))
    def ev(self, it, f):
        vs = [a.v(it, f) for a in self.args]
        try:
            r = self.fn(*vs)
        except ValueError as e:
            raise UB(self, str(e))
        if self.t.ordinal or self.t is REAL:
            if self.t.ordinal and not self.t.lo <= r <= self.t.hi:
                raise UB(self, "range")
            return self.chkeff(r)
        return r
    def eff0(self):
        if self.t is LONG:
            return "long" if any(a.eff() == "long" for a in self.args if a.t.kind == "long") else "int"
        return self.t.kind

class SetCtor(E):
    def __init__(self, t, parts):
        self.t, self.parts = t, parts
    def src(self):
        return "[" + ", ".join(p[0].s() if p[1] is None else "%s..%s" % (p[0].s(), p[1].s()) for p in self.parts) + "]"
    def ev(self, it, f):
        r = set()
        for a, b in self.parts:
            x = a.v(it, f)
            y = x if b is None else b.v(it, f)
            if not self.t.of.lo <= x <= self.t.of.hi: raise UB(a, "set element")
            if not self.t.of.lo <= y <= self.t.of.hi: raise UB(b, "set element")
            if y < x: raise UB(b, "empty range")
            r |= set(range(x, y + 1))
        return frozenset(r)

# ---------------------------------------------------------------- routines
class Routine:
    def __init__(self, name, params, result, parent):
        self.name, self.params, self.result, self.parent = name, params, result, parent
        self.locals, self.types, self.consts, self.routines, self.body = [], [], [], [], []
        self.labels = []
        self.forward = False
        self.level = 0 if parent is None else parent.level + 1
        self.resname = None
        self.impure = True
    def sig(self):
        ps = []
        for p in self.params:
            if p.mode == "proc":
                ps.append(p.t.header(p.name))
            else:
                m = {"ref": "var ", "prot": "protected ", "protref": "protected var "}.get(p.mode, "")
                ps.append("%s%s: %s" % (m, p.name, p.ptext if getattr(p, "ptext", None) else p.t.name))
        s = ("procedure " if self.result is None else "function ") + self.name
        if ps:
            s += "(" + "; ".join(ps) + ")"
        if self.result is not None:
            if self.resname:
                s += " = " + self.resname
            s += ": " + self.result.name
        return s

class Call:
    """Shared by call expressions and statements."""
    def __init__(self, r, args):
        self.r, self.args = r, args
    def text(self):
        if not self.args:
            return self.callee_name()
        return "%s(%s)" % (self.callee_name(), ", ".join(a.s() if isinstance(a, E) else a.name_text() for a in self.args))
    def callee_name(self):
        return self.r.name
    def target(self, it, f):
        """-> (routine, static link frame)"""
        r = self.r
        link = f
        while link is not None and link.routine is not r.parent:
            link = link.link
        return r, link
    def invoke(self, it, f):
        it.tick()
        r, link = self.target(it, f)
        it.depth += 1
        if it.depth > 60:
            raise TooLong()
        fr = Frame(r, link)
        for p, a in zip(r.params, self.args):
            if p.mode in ("ref", "protref"):
                fr.vars[p.name] = a.lref(it, f)
            elif p.mode == "proc":
                fr.vars[p.name] = a.closure(it, f)
            else:
                v = a.v(it, f)
                fr.vars[p.name] = assign_conv(a, p.t, p.t.copy(v))
        for v in r.locals:
            fr.vars[v.name] = undef_of(v.t)
        try:
            run_block(r.body, it, fr)
        finally:
            it.depth -= 1
        if r.result is not None:
            if fr.result is UNDEF:
                raise UB(self, "no result")
            return fr.result
        return None

class ProcArg:
    """An actual procedural parameter: a routine or a procedural formal."""
    def __init__(self, r=None, var=None):
        self.r, self.var = r, var
    def name_text(self):
        return self.r.name if self.r else self.var.name
    def closure(self, it, f):
        if self.var is not None:
            return frame_of(f, self.var.owner).vars[self.var.name]
        link = f
        while link is not None and link.routine is not self.r.parent:
            link = link.link
        return (self.r, link)

class TProc(T):
    kind = "proc"
    def __init__(self, params, result):
        self.params, self.result = params, result
        self.name = None
    def header(self, name):
        r = Routine(name, self.params, self.result, None)
        return r.sig()

class ProcVarCall(Call):
    def __init__(self, var, args):
        self.var, self.args = var, args
    def callee_name(self):
        return self.var.name
    def target(self, it, f):
        return frame_of(f, self.var.owner).vars[self.var.name]

class CallE(E):
    def __init__(self, call, t):
        self.call, self.t = call, t
    def src(self):
        return self.call.text()
    def ev(self, it, f):
        try:
            return self.call.invoke(it, f)
        except UB as u:
            if u.node is self.call:
                u.node = self
            raise

def undef_of(t):
    """Storage of an uninitialised variable: structure present, scalars undefined."""
    if t.kind == "arr":
        def mk(d):
            if d == len(t.idx):
                return undef_of(t.elem)
            return [mk(d + 1) for _ in range(t.idx[d].hi - t.idx[d].lo + 1)]
        return mk(0)
    if t.kind == "rec":
        d = {n: undef_of(x) for n, x in t.fields}
        if t.variant:
            d[t.variant[0]] = UNDEF
        return d
    return UNDEF

def has_undef(v):
    if v is UNDEF:
        return True
    if isinstance(v, list):
        return any(has_undef(x) for x in v)
    if isinstance(v, dict):
        return any(has_undef(x) for x in v.values())
    return False

def assign_conv(node, t, v):
    if t.ordinal:
        if not t.lo <= v <= t.hi:
            raise UB(node, "range")
        return v
    if t.kind == "str":
        v = tobytes(v)
        if len(v) > t.cap:
            raise UB(node, "capacity")
        return v
    if t.kind == "set":
        if v and not (t.of.lo <= min(v) and max(v) <= t.of.hi):
            raise UB(node, "set range")
        return v
    if t is REAL:
        return float(v)
    if t.kind in ("arr", "rec") and has_undef(v):
        raise UB(node, "undefined component")
    return v

# ---------------------------------------------------------------- statements
class S:
    dead = False
    def lines(self, ind):
        if self.dead:
            return [ind + "{ }"]
        return self.text(ind)
    def run(self, it, f):
        if self.dead:
            return
        it.tick()
        try:
            self.ex(it, f)
        except UB as u:
            if it.fix is None:
                raise
            # the expression at fault may be mended on the next pass; otherwise the statement goes
            if not (isinstance(u.node, E) and u.node.repl is None and it.fix(u.node)):
                self.dead = True
            it.fixes += 1

class GotoEx(Exception):
    def __init__(self, label):
        self.label = label

def run_block(stmts, it, f):
    labels = None
    i = 0
    n = len(stmts)
    while i < n:
        try:
            stmts[i].run(it, f)
        except GotoEx as g:
            if labels is None:
                labels = {s.n: k for k, s in enumerate(stmts) if isinstance(s, Label)}
            if g.label not in labels:
                raise
            i = labels[g.label]
            continue
        i += 1

def body_lines(stmts, ind, trailing=""):
    out = [ind + "begin"]
    for s in stmts:
        ls = s.lines(ind + "  ")
        if isinstance(s, Label):
            out += ls
        else:
            ls[-1] += ";"
            out += ls
    out.append(ind + "end" + trailing)
    return out

def nested(stmts, ind, solo_ok=True):
    """A statement list as one statement."""
    if len(stmts) == 1 and solo_ok and not isinstance(stmts[0], Label) and not stmts[0].dead:
        return stmts[0].lines(ind + "  ")
    return body_lines(stmts, ind)

def store(c, k, v):
    """Assigns in place: references to parts of a composite variable stay references to them."""
    try:
        o = c[k]
    except (KeyError, IndexError):
        o = None
    if isinstance(v, dict) and isinstance(o, dict):
        for n in list(o):
            if n not in v:
                del o[n]
        for n in v:
            store(o, n, v[n])
    elif isinstance(v, list) and isinstance(o, list) and len(v) == len(o):
        for i in range(len(v)):
            store(o, i, v[i])
    else:
        c[k] = v

class Assign(S):
    def __init__(self, lv, e):
        self.lv, self.e = lv, e
    def text(self, ind):
        return [ind + "%s := %s" % (self.lv.s(), self.e.s())]
    def ex(self, it, f):
        v = self.e.v(it, f)
        c, k = self.lv.lref(it, f)
        t = self.lv.t
        if t.kind == "arr" and t.name is None:
            raise AssertionError("unnamed array assign")
        v = assign_conv(self.e, t, t.copy(v))
        if isinstance(self.lv, FieldLV) and self.lv.b.t.variant and self.lv.field == self.lv.b.t.variant[0]:
            # setting the tag activates the selected arm, its fields become undefined
            rt = self.lv.b.t
            if c.get(self.lv.field, UNDEF) != v:
                sel = None
                for i, (ls, fs) in enumerate(rt.variant[2]):
                    if v in ls: sel = i
                for n in list(c):
                    if n in rt.arm: del c[n]
                if sel is not None:
                    for n, ft in rt.variant[2][sel][1]:
                        c[n] = undef_of(ft)
        store(c, k, v)
        it.cover["assign"] = it.cover.get("assign", 0) + 1

class SetResult(S):
    def __init__(self, r, e):
        self.r, self.e = r, e
    def text(self, ind):
        return [ind + "%s := %s" % (self.r.resname or self.r.name, self.e.s())]
    def ex(self, it, f):
        fr = frame_of(f, self.r)
        v = self.e.v(it, f)
        fr.result = assign_conv(self.e, self.r.result, self.r.result.copy(v))

class CallS(S):
    def __init__(self, call):
        self.call = call
    def text(self, ind):
        return [ind + self.call.text()]
    def ex(self, it, f):
        it.cover["call"] = it.cover.get("call", 0) + 1
        self.call.invoke(it, f)

class If(S):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
    def text(self, ind):
        out = [ind + "if %s then" % self.c.s()]
        # an unbraced then-part ending in an if without else would capture our else: keep it braced
        solo = self.b is None or not (len(self.a) == 1 and opens_else(self.a[0]))
        out += nested(self.a, ind, solo)
        if self.b is not None:
            out += [ind + "else"]
            out += nested(self.b, ind)
        return out
    def ex(self, it, f):
        if self.c.v(it, f):
            it.cover["then"] = it.cover.get("then", 0) + 1
            run_block(self.a, it, f)
        elif self.b is not None:
            it.cover["else"] = it.cover.get("else", 0) + 1
            run_block(self.b, it, f)

def opens_else(s):
    if isinstance(s, If):
        if s.b is None: return True
        return len(s.b) == 1 and opens_else(s.b[0])
    if isinstance(s, (While, For, ForIn, With)):
        return len(s.body) == 1 and opens_else(s.body[0])
    return False

class While(S):
    def __init__(self, c, body):
        self.c, self.body = c, body
    def text(self, ind):
        return [ind + "while %s do" % self.c.s()] + nested(self.body, ind)
    def ex(self, it, f):
        while self.c.v(it, f):
            it.tick("while")
            run_block(self.body, it, f)

class Repeat(S):
    def __init__(self, body, c):
        self.body, self.c = body, c
    def text(self, ind):
        out = [ind + "repeat"]
        for i, s in enumerate(self.body):
            ls = s.lines(ind + "  ")
            ls[-1] += ";"
            out += ls
        return out + [ind + "until %s" % self.c.s()]
    def ex(self, it, f):
        while True:
            it.tick("repeat")
            for s in self.body:
                s.run(it, f)
            if self.c.v(it, f):
                break

class For(S):
    def __init__(self, var, a, b, down, body):
        self.var, self.a, self.b, self.down, self.body = var, a, b, down, body
    def text(self, ind):
        return [ind + "for %s := %s %s %s do" % (self.var.name, self.a.s(), "downto" if self.down else "to", self.b.s())] \
            + nested(self.body, ind)
    def ex(self, it, f):
        a, b = self.a.v(it, f), self.b.v(it, f)
        fr = frame_of(f, self.var.owner)
        t = self.var.t
        rng = range(a, b - 1, -1) if self.down else range(a, b + 1)
        if len(rng):
            if not (t.lo <= a <= t.hi): raise UB(self.a, "for bound")
            if not (t.lo <= b <= t.hi): raise UB(self.b, "for bound")
        else:
            it.cover["for-empty"] = it.cover.get("for-empty", 0) + 1
        for i in rng:
            it.tick("for")
            fr.vars[self.var.name] = i
            run_block(self.body, it, f)
        fr.vars[self.var.name] = UNDEF

class ForIn(S):
    def __init__(self, var, e, body):
        self.var, self.e, self.body = var, e, body
    def text(self, ind):
        return [ind + "for %s in %s do" % (self.var.name, self.e.s())] + nested(self.body, ind)
    def ex(self, it, f):
        v = self.e.v(it, f)
        fr = frame_of(f, self.var.owner)
        xs = sorted(v) if isinstance(v, frozenset) else list(v)
        for i, x in enumerate(xs):
            it.tick("forin")
            # whether an array changed by the body is seen by the iteration is left open
            if isinstance(v, list) and v[i] != x: raise UB(self.e, "array changed in for-in")
            if x is UNDEF: raise UB(self.e, "undefined")
            fr.vars[self.var.name] = x
            run_block(self.body, it, f)
        fr.vars[self.var.name] = UNDEF

class Case(S):
    def __init__(self, e, arms, other):
        # arms: [([(lo,hi)], stmts)]
        self.e, self.arms, self.other = e, arms, other
        self.otext = "otherwise"
    def text(self, ind):
        out = [ind + "case %s of" % self.e.s()]
        t = self.e.t
        l = lambda x: t.lit(x).strip("()") if t.kind in ("int", "long") else t.lit(x)
        for labels, st in self.arms:
            out.append(ind + "  " + ", ".join(l(a) if a == b else "%s..%s" % (l(a), l(b)) for a, b in labels) + ":")
            ls = nested(st, ind + "  ")
            ls[-1] += ";"
            out += ls
        if self.other is not None:
            out.append(ind + "  " + self.otext)
            ls = nested(self.other, ind + "  ")
            ls[-1] += ";"
            out += ls
        out.append(ind + "end")
        return out
    def ex(self, it, f):
        v = self.e.v(it, f)
        for i, (labels, st) in enumerate(self.arms):
            if any(a <= v <= b for a, b in labels):
                it.tick("case")
                run_block(st, it, f)
                return
        if self.other is None:
            raise UB(self.e, "no case label")
        it.tick("case-other")
        run_block(self.other, it, f)

class With(S):
    def __init__(self, lvs, slots, body):
        self.lvs, self.slots, self.body = lvs, slots, body
    def text(self, ind):
        return [ind + "with %s do" % ", ".join(x.s() for x in self.lvs)] + nested(self.body, ind)
    def ex(self, it, f):
        for lv, sl in zip(self.lvs, self.slots):
            f.vars[sl] = lv.lref(it, f)
        it.tick("with")
        run_block(self.body, it, f)

class Compound(S):
    def __init__(self, body):
        self.body = body
    def text(self, ind):
        return body_lines(self.body, ind)
    def ex(self, it, f):
        run_block(self.body, it, f)

class Label(S):
    def __init__(self, n):
        self.n = n
    def text(self, ind):
        return [ind + "%d:" % self.n]
    def ex(self, it, f):
        pass

class Goto(S):
    def __init__(self, n):
        self.n = n
    def text(self, ind):
        return [ind + "goto %d" % self.n]
    def ex(self, it, f):
        it.tick("goto")
        raise GotoEx(self.n)

class New(S):
    def __init__(self, lv):
        self.lv = lv
    def text(self, ind):
        return [ind + "new(%s)" % self.lv.s()]
    def ex(self, it, f):
        it.tick("new")
        c, k = self.lv.lref(it, f)
        c[k] = Obj(undef_of(self.lv.t.to))

class Dispose(S):
    def __init__(self, lv):
        self.lv = lv
    def text(self, ind):
        return [ind + "dispose(%s)" % self.lv.s()]
    def ex(self, it, f):
        it.tick("dispose")
        c, k = self.lv.lref(it, f)
        o = c[k]
        if o is None or o is UNDEF or not o.live:
            raise UB(self, "dispose")
        o.live = False
        c[k] = UNDEF

class Write(S):
    """writeln of a tag and values."""
    def __init__(self, tag, es, newline=True):
        self.tag, self.es, self.newline = tag, es, newline
    def text(self, ind):
        items = ["'%s'" % self.tag] if self.tag is not None else []
        for e in self.es:
            items.append("' '")
            items.append(show_text(e))
        return [ind + "%s(%s)" % ("writeln" if self.newline else "write", ", ".join(items))]
    def ex(self, it, f):
        it.tick("write")
        # each item is evaluated and written before the next: a function called by one may write too
        if self.tag is not None:
            it.write(self.tag.encode("latin-1"))
        for e in self.es:
            it.write(b" ")
            it.write(show_val(e.t, e.v(it, f)))
        if self.newline:
            it.write(b"\n")

def show_text(e):
    k = e.t.kind
    if k in ("int", "long"):
        return e.s() + ": 1" if e.prec == P_ATOM or e.repl is not None else "(%s): 1" % e.s()
    if k in ("char", "enum"): return "ord(%s): 1" % e.s()
    if k == "bool": return "ord(%s): 1" % e.s()
    if k == "real": return "%s: 1: 8" % e.s(P_ATOM)
    if k == "str": return e.s()
    raise AssertionError(k)

def show_val(t, v):
    if t.kind == "real":
        return ("%.8f" % v).encode()
    if t.kind == "str":
        return tobytes(v)
    return b"%d" % v

class RawS(S):
    """A statement given by its text and a Python function."""
    def __init__(self, text, fn):
        self.t_, self.fn = text, fn
    def text(self, ind):
        return [ind + l for l in self.t_.split("\n")]
    def ex(self, it, f):
        self.fn(it, f)

# ---------------------------------------------------------------- programs
TOKEN = re.compile(r"'(?:[^']|'')*'|\{[^}]*\}|[A-Za-z_]\w*")
class Program:
    def __init__(self, name="p"):
        self.name = name
        self.main = Routine("$main", [], None, None)
        self.types, self.consts, self.pre = [], [], []
        self.shadow = None      # a random source: names of local variables may hide names declared further out
    def type_lines(self, types):
        # pointer types first so that they may refer forward
        out = []
        for t in types:
            out.append("  %s = %s;" % (t.name, t.decl()))
        return out
    def source(self):
        m = self.main
        out = ["program %s;" % self.name]
        out += self.decls(m, "", self.types)
        b = body_lines(m.body, "", ".")
        return "\n".join(out + b) + "\n"
    def decls(self, r, ind, types):
        out = []
        if r.labels:
            out.append(ind + "label %s;" % ", ".join(str(x) for x in r.labels))
        if r.consts:
            out.append(ind + "const")
            out += [ind + "  %s = %s;" % c for c in r.consts]
        if types:
            out.append(ind + "type")
            out += [ind + l for l in self.type_lines(types)]
        if r.locals:
            out.append(ind + "var")
            seen = [v for v in r.params if v.mode in ("val", "ref")]
            for v in r.locals:
                like = [w.name for w in seen if w.t is v.t]
                tn = v.t.name
                if self.shadow and like and self.shadow.random() < 0.25: tn = "type of " + self.shadow.choice(like)
                out.append(ind + "  %s: %s;" % (v.name, tn))
                seen.append(v)
        for q in r.routines:
            if q.forward:
                out.append(ind + q.sig() + "; forward;")
        for q in r.routines:
            out += self.routine(q, ind)
        return out
    def routine(self, r, ind):
        if r.forward == "short":
            out = [ind + ("procedure " if r.result is None else "function ") + r.name + ";"]
        else:
            out = [ind + r.sig() + ";"]
        out += self.decls(r, ind + "  ", r.types)
        out += body_lines(r.body, ind, ";")
        return self.hide(r, out) if self.shadow else out
    def hide(self, r, out):
        """Renames parameters and variables of r to names of outer things that r and its routines do not use."""
        rng, text = self.shadow, "\n".join(out)
        mine = [v.name for v in r.locals] + ([] if r.forward else [v.name for v in r.params if v.mode != "proc"])
        rng.shuffle(mine)
        q, outer, far = r.parent, [], []
        while q is not None:
            outer += [v.name for v in q.params + q.locals]
            far += [x.name for x in q.routines] + [c[0] for c in q.consts]
            q = q.parent
        used = {m.group() for m in TOKEN.finditer(text) if m.group()[0] not in "'{"}
        outer = [n for n in outer if n not in used]; far = [n for n in far if n not in used]
        new = {}
        for n in mine:
            if rng.random() < 0.5: continue
            c = outer if outer and (rng.random() < 0.85 or not far) else far
            if c: new[n] = c.pop(rng.randrange(len(c)))
        if not new: return out
        self.hidden = getattr(self, "hidden", 0) + len(new)
        return TOKEN.sub(lambda m: new.get(m.group(), m.group()), text).split("\n")
    def run(self, limit=60000, fix=None):
        it = Interp(limit, fix)
        f = Frame(self.main, None)
        for v in self.main.locals:
            f.vars[v.name] = undef_of(v.t)
        run_block(self.main.body, it, f)
        return it
