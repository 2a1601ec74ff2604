import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from progcheck import *
import corpus, spell, glob
import wrongdecl as W

# ---------------------------------------------------------------- the declarations the injected statements use
T = {"int": "integer", "i64": "longint", "real": "real", "bool": "boolean", "char": "char", "enA": "zzea", "enB": "zzeb", "sub": "zzsub", "subE": "zzse",
     "subC": "zzsc", "str": "zzstr", "arrc": "zzac", "setI": "zzsi", "setC": "zzsch", "setE": "zzsen", "rec": "zzr1", "rec2": "zzr2", "pI": "zzpi", "pR": "zzpr",
     "arrI": "zzai", "arrR": "zzar", "fileI": "zzfi", "text": "text", "cplx": "complex", "obj": "zzoc", "obj2": "zzoc2"}
TYPES = ["zzea = (zza1, zza2, zza3)", "zzeb = (zzb1, zzb2, zzb3)", "zzse = zza1..zza2", "zzsub = 1..9", "zzsc = 'a'..'f'", "zzstr = string[10]",
         "zzac = packed array [1..5] of char", "zzsi = set of 1..9", "zzsch = set of char", "zzsen = set of zzea",
         "zzr1 = record x: integer; y: char end", "zzr2 = record x: integer; y: char; z: real end", "zzpi = ^integer", "zzpr = ^zzr1",
         "zzai = array [1..4] of integer", "zzar = array [1..4] of real", "zzfi = file of integer", "zza2d = array [1..3, 'a'..'c'] of integer", "zzea1 = array [zzea] of integer",
         "zzca = array [char] of integer",
         "zzoc = class q: integer; function m(k: integer): integer; procedure n; end", "zzoc2 = class w: real end"]
CONSTS = ["zzk = 5", "zzks = 'text'", "zzkr = 2.5"]
FUNCS = ["int", "i64", "real", "bool", "char", "enA", "enB", "sub", "subE", "str", "setI", "rec", "pI", "pR", "cplx"]
ELEMS = [k for k in T if k not in ("fileI", "text", "obj", "obj2")]
def decls():
    s = "const\n" + "".join(x + ";\n" for x in CONSTS) + "type\n" + "".join(x + ";\n" for x in TYPES)
    s += "var\n" + "".join("zzv%s: %s;\n" % (k.lower(), t) for k, t in T.items())
    s += "".join("zze%s: array [1..2] of %s;\n" % (k.lower(), T[k]) for k in ELEMS)
    s += "zzbig: record " + "; ".join("f%s: %s" % (k.lower(), T[k]) for k in ELEMS) + " end;\n"
    s += "zzm: zza2d; zzea1v: zzea1; zzcav: zzca; zziv: integer;\n"
    s += "function zzoc.m(k: integer): integer; begin m := k end;\nprocedure zzoc.n; begin end;\n"
    s += "procedure zzp0; begin end;\nprocedure zzp1(a: integer); begin end;\nprocedure zzp2(a: integer; b: char); begin end;\n"
    s += "function zzf1(a: integer): integer; begin zzf1 := a end;\n"
    s += "procedure zzpp(procedure q(a: integer)); begin end;\nprocedure zzpf(function q(a: integer): integer); begin end;\nprocedure zzca1(var a: array [lo..hi: integer] of integer); begin end;\n"
    for k, t in T.items():
        if k not in ("fileI", "text"): s += "procedure zzval%s(a: %s); begin end;\n" % (k.lower(), t)
        s += "procedure zzvar%s(var a: %s); begin end;\n" % (k.lower(), t)
    for k in FUNCS: s += "function zzfn%s: %s; begin zzfn%s := zzv%s end;\n" % (k.lower(), T[k], k.lower(), k.lower())
    return s
DECLS = decls()
LITS = {"int": ["5", "(3 + 4)", "zzk", "-2", "ord('a')", "zzvint * 2"], "sub": ["7"], "real": ["2.5", "zzkr", "1e3", "(1 / 3)", "sqrt(2.0)"], "char": ["'x'", "chr(65)"], "bool": ["true", "(1 < 2)", "not zzvbool", "odd(3)"],
        "enA": ["zza1", "succ(zza1)"], "enB": ["zzb3", "pred(zzb2)"], "setI": ["[3]", "[1..4]", "(zzvseti + [2])"], "setC": ["['a']"], "setE": ["[zza1]"], "str": ["zzvstr + 'x'", "'abcd'", "zzks", "copy(zzvstr, 1, 2)"],
        "cplx": ["cmplx(1.0, 2.0)", "zzvcplx * 2.0"], "arrc": ["'abcde'"], "i64": ["99999999999", "(zzvi64 + 1)"]}
def value(r, k, variable=False):
    o = ["zzv" + k.lower()]
    if k in ELEMS: o += ["zze%s[%s]" % (k.lower(), r.choice(["1", "2", "zzvint"])), "zzbig.f%s" % k.lower()]
    if k == "int": o += ["zzvrec.x", "zzvpi^", "zzvpr^.x", "zzvarri[2]", "zzm[2, 'b']", "zzvobj.q", "zzvrec2.x"]
    if k == "char": o += ["zzvrec.y", "zzvarrc[3]", "zzvstr[2]"]
    if k == "real": o += ["zzvarrr[1]", "zzvobj2.w", "zzvrec2.z"]
    if k == "rec": o += ["zzvpr^"]
    if not variable:
        if k in FUNCS: o += ["zzfn" + k.lower()]
        o += LITS.get(k, [])
        if k == "int": o += ["zzf1(3)", "zzvobj.m(1)"]
    return r.choice(o)
ALL = list(T)
INTS, NUM, REALS = {"int", "sub"}, {"int", "sub", "i64", "real", "cplx"}, {"int", "sub", "i64", "real"}
STRL = {"str", "arrc", "char", "subC"}
SETS = {"setI", "setC", "setE"}
ORDS = {"int", "i64", "sub", "bool", "char", "subC", "enA", "subE", "enB"}
def assignable(t):
    """Kinds whose values may be assigned to t; `maybe` are left open by the dialects and not used."""
    ok = {"int": INTS, "sub": INTS, "i64": INTS | {"i64"}, "real": REALS, "cplx": NUM, "char": {"char", "subC"}, "subC": {"char", "subC"}, "enA": {"enA", "subE"},
          "subE": {"enA", "subE"}, "str": STRL, "arrc": {"arrc"}}.get(t, {t})
    maybe = {"int": {"i64"}, "sub": {"i64"}, "char": {"str", "arrc"}, "subC": {"str", "arrc"}, "arrc": {"str", "char", "subC"}, "fileI": {"fileI", "text"}, "text": {"fileI", "text"}}.get(t, set())
    return ok, maybe
def bad_for(r, t):
    ok, maybe = assignable(t)
    return r.choice([k for k in ALL if k not in ok | maybe])
def good_for(r, t):
    ok, _ = assignable(t)
    if t in ("sub", "subC", "subE"): return "zzv" + t.lower()
    if t == "arrc": return "zzvarrc"
    return value(r, r.choice(sorted(ok)))

# ---------------------------------------------------------------- statements with one error, and a correct relative
KINDS = []
def kind(f): KINDS.append((f.__name__, f)); return f

@kind
def assign_type(r):
    t = r.choice([k for k in ALL if k not in ("fileI", "text")]); b = bad_for(r, t)
    return "%s := %s" % (value(r, t, True), value(r, b)), "zzv%s := %s" % (t.lower(), good_for(r, t)), (t, b)
@kind
def value_param_type(r):
    t = r.choice([k for k in ALL if k not in ("fileI", "text")]); b = bad_for(r, t)
    return "zzval%s(%s)" % (t.lower(), value(r, b)), "zzval%s(%s)" % (t.lower(), good_for(r, t)), (t, b)
@kind
def var_param_type(r):
    t = r.choice(ALL)
    same = {"int": {"sub"}, "sub": {"int"}, "char": {"subC"}, "subC": {"char"}, "enA": {"subE"}, "subE": {"enA"}}.get(t, set()) | {t}
    b = r.choice([k for k in ALL if k not in same])
    if {t, b} <= {"str", "arrc"}: b = "real"
    return "zzvar%s(%s)" % (t.lower(), value(r, b, True)), "zzvar%s(%s)" % (t.lower(), value(r, t, True)), (t, b)
@kind
def var_param_value(r):
    t = r.choice(["int", "real", "char", "str", "bool", "enA", "setI", "cplx", "i64"])
    v = r.choice([x for x in LITS[t] if not x.startswith("'") or t != "char"] + (["zzfn" + t.lower()] if t in FUNCS else []))
    return "zzvar%s(%s)" % (t.lower(), v), "zzvar%s(%s)" % (t.lower(), value(r, t, True)), (t,)
def opok(op, a, b):
    """True allowed, False not allowed by Pascal, None left open."""
    if op == "+": return {a, b} <= NUM or {a, b} <= STRL or (a == b and a in SETS)
    if op in "-*": return {a, b} <= NUM or (a == b and a in SETS)
    if op == "/": return {a, b} <= NUM
    if op in ("div", "mod"): return {a, b} <= INTS | {"i64"}
    if op in ("and", "or", "xor"): return {a, b} <= {"bool"} or {a, b} <= INTS | {"i64"}
    if op in ("and_then", "or_else"): return {a, b} <= {"bool"}
    if op in ("shl", "shr"): return {a, b} <= INTS | {"i64"}
    if op == "><": return a == b and a in SETS
    if op == "**": return True if {a, b} <= REALS else (None if "cplx" in (a, b) else False)
    if op == "pow": return True if a in NUM and b in INTS else (None if a in NUM and b in NUM else False)
    if op == "in": return (b, a) in {("setI", "int"), ("setI", "sub"), ("setC", "char"), ("setC", "subC"), ("setE", "enA"), ("setE", "subE")} or (None if (b, a) == ("setI", "i64") else False)
    # comparisons
    if {a, b} <= STRL: return True if "arrc" not in (a, b) or a == b else None
    if {a, b} <= {"enA", "subE"}: return True
    if a == b and a in SETS: return True if op in ("=", "<>", "<=", ">=") else None
    if op in ("=", "<>"): return {a, b} <= NUM or a == b in ("bool", "enB", "pI", "pR")
    return {a, b} <= REALS or a == b in ("bool", "enB")
OPS = ["+", "-", "*", "/", "div", "mod", "and", "or", "xor", "and_then", "or_else", "shl", "shr", "><", "**", "pow", "in", "=", "<>", "<", "<=", ">", ">="]
@kind
def operands(r):
    while True:
        op, a, b = r.choice(OPS), r.choice(ALL), r.choice(ALL)
        if r.random() < .3: b = a
        if opok(op, a, b) is False: break
    while True:
        a2, b2 = r.choice(ALL), r.choice(ALL)
        if opok(op, a2, b2): break
    ctx = r.choice(["if (%s) = (%s) then zziv := 3", "if (%s) <> (%s) then"])
    e, g = "%s %s %s" % (value(r, a), op, value(r, b)), "zzv%s %s zzv%s" % (a2.lower(), op, b2.lower())
    if op in ("in", "=", "<>", "<", "<=", ">", ">=", "and_then", "or_else"):
        return "zzvbool := " + e, "zzvbool := " + g, (op, a, b)
    return ctx % (e, e), (ctx % (g, g)) if not (a2 in ("arrc",)) else "zziv := 1", (op, a, b)
@kind
def unary(r):
    if r.random() < .5:
        a = r.choice([k for k in ALL if k not in NUM])
        return "if (-%s) = (-%s) then zziv := 1" % ((value(r, a),) * 2), "zzvreal := -zzvreal", ("-", a)
    a = r.choice([k for k in ALL if k not in INTS | {"i64", "bool"}])
    return "if not (%s) then zziv := 1" % value(r, a), "zzvbool := not zzvbool", ("not", a)
@kind
def condition(r):
    a = r.choice([k for k in ALL if k != "bool"]); v = value(r, a)
    f = r.choice(["if %s then zziv := 1", "while %s do zziv := 1", "repeat zziv := 1 until %s", "if %s then zziv := 1 else zziv := 2"])
    return f % v, f % value(r, "bool"), (f[:2], a)
@kind
def index_type(r):
    arr, ok = r.choice([("zzvarri[%s]", INTS | {"i64"}), ("zzvstr[%s]", INTS | {"i64"}), ("zzvarrc[%s]", INTS | {"i64"}), ("zzea1v[%s]", {"enA", "subE"}), ("zzcav[%s]", {"char", "subC"}),
                        ("zzm[%s, 'a']", INTS | {"i64"}), ("zzm[2, %s]", {"char", "subC"}), ("zzm[2][%s]", {"char", "subC"})])
    b = r.choice([k for k in ALL if k not in ok and not (arr.startswith("zzcav") and k in ("str", "arrc")) and not ("'" not in arr and k in ("str", "arrc") and "zzm" in arr)])
    g = {"int": "2", "enA": "zza1", "char": "'b'"}[sorted(ok & {"int", "enA", "char"})[0]]
    if r.random() < .5 and "str" not in arr and "arrc" not in arr: return (arr + " := 3") % value(r, b), (arr + " := 3") % g, (arr, b)
    f = "if %s = %s then zziv := 1"
    return f % ((arr % value(r, b),) * 2), f % ((arr % g,) * 2), (arr, b)
@kind
def not_an_array(r):
    a = r.choice([k for k in ALL if k not in ("str", "arrc", "arrI", "arrR")])
    s = r.choice(["zzv%s[1] := 3", "if zzv%s[1] = 3 then", "zzv%s[1, 2] := 3"])
    return s % a.lower(), "zzvarri[1] := 3", (a,)
@kind
def index_count(r):
    return r.choice(["zzvarri[1, 2] := 3", "zzm[1, 'a', 2] := 3", "zzvarri[] := 3", "zzm[1, 'a'][2] := 3", "zzvarrr[1][1] := 2.0"]), "zzm[1, 'a'] := 3", ()
@kind
def fields(r):
    a = r.choice([k for k in ALL if k not in ("rec", "rec2", "obj", "obj2")])
    return r.choice(["zzv%s.x := 3" % a.lower(), "zziv := zzv%s.x" % a.lower(), "zzvrec.nofield := 3", "zziv := zzvrec2.nofield", "zziv := zzvrec.z", "zziv := zzvpr^.nofield", "zziv := zzvpr.x",
                     "zziv := zzvobj.nofield", "zzvobj.w := 3", "zziv := zzvobj2.m(1)", "zzvobj.nometh", "zzeb.zzb1 := 3"]), "zzvrec.x := zzvrec2.x", (a,)
@kind
def deref(r):
    a = r.choice([k for k in ALL if k not in ("pI", "pR", "fileI", "text")])
    return r.choice(["zzv%s^ := 3", "zziv := zzv%s^", "zzv%s^.x := 1"]) % a.lower(), "zzvpi^ := 3", (a,)
@kind
def with_type(r):
    a = r.choice([k for k in ALL if k not in ("rec", "rec2", "obj", "obj2")])
    return "with zzv%s do zziv := 1" % a.lower(), "with zzvrec do x := 1", (a,)
@kind
def for_variable(r):
    a = r.choice([k for k in ALL if k not in ORDS])
    b = r.choice(["for zzv%s := 1 to 2 do zziv := 1" % a.lower(), "for zzv%s := zzv%s downto zzv%s do" % ((a.lower(),) * 3), "for 3 := 1 to 2 do", "for zzk := 1 to 2 do", "for zzundecl := 1 to 2 do", "for zzp0 := 1 to 2 do"])
    return b, "for zziv := 1 to 2 do zzvint := zziv", (a,)
@kind
def for_bounds(r):
    t = r.choice(["int", "char", "bool", "enA", "enB", "subE"]); b = bad_for(r, t)
    if t in ("char",) and b in ("str", "arrc"): b = "real"
    g = {"int": "3", "char": "'d'", "bool": "true", "enA": "zza2", "enB": "zzb2", "subE": "zza2"}[t]; d = r.choice(["to", "downto"])
    v = value(r, b)
    return "for zzv%s := %s %s %s do" % ((t.lower(), v, d, g) if r.random() < .5 else (t.lower(), g, d, v)), "for zzv%s := %s %s %s do" % (t.lower(), g, d, g), (t, b)
@kind
def for_in(r):
    a = r.choice([k for k in ALL if k not in SETS | {"arrI", "arrR", "str", "arrc"}])
    return r.choice(["for zziv in zzv%s do" % a.lower(), "for zzvchar in zzvseti do", "for zziv in zzvsetc do", "for zzvena in zzvsetc do", "for zzvenb in zzvsete do", "for zzvreal in zzvseti do", "for zzvint in zzvarrr do", "for zzvreal in zzvarri do", "for zzvchar in zzvarri do"]), "for zziv in zzvseti do", (a,)
@kind
def case_selector(r):
    a = r.choice([k for k in ALL if k not in ORDS])
    return "case %s of 1: zziv := 1; 2: zziv := 2 end" % value(r, a), "case zziv of 1: zziv := 1; 2: zziv := 2 end", (a,)
LAB = {"int": ["1", "2", "-3", "14..16", "zzk"], "char": ["'a'", "'b'..'d'", "'z'"], "bool": ["true", "false"], "enA": ["zza1", "zza2", "zza3"], "enB": ["zzb1", "zzb2"]}
@kind
def case_labels(r):
    t = r.choice(list(LAB)); u = r.choice([k for k in LAB if k != t])
    x, y = r.sample(LAB[t], 2); f = "case zzv%s of %%s: zziv := 1; %%s: zziv := 2 end" % t.lower()
    k = r.randrange(6)
    if k == 0: b = f % (x, r.choice(LAB[u]))
    elif k == 1: b = f % tuple(r.sample(LAB[u], 2))
    elif k == 2: b = f % (x, x)
    elif k == 3: b = f % (x + ", " + y, y)
    elif k == 4: b = "case zziv of 3..7: zziv := 1; %s: zziv := 2 end" % r.choice(["5", "7", "3", "1..3", "6..9", "4..5", "1..20", "zzk"])
    else: b = "case zziv of 1: ; %s: zziv := 1 end" % r.choice(["zzvint", "2.5", "'ab'", "zzf1(3)", "7..3", "zzundecl", "[3]", ""])
    return b, f % (x, y), (t, k)
@kind
def arguments(r):
    b = r.choice(["zzp0(1)", "zzp1", "zzp1()", "zzp1(1, 2)", "zzp2(1)", "zzp2('a', 1)", "zzp2(1, 'a', 2)", "zziv := zzf1", "zziv := zzf1(1, 2)", "zziv := zzf1('a')", "zziv := zzvobj.m", "zziv := zzvobj.m(1, 2)",
                  "zziv := zzvobj.m('x')", "zzvobj.n(3)", "zzpp(zzp0)", "zzpp(zzp2)", "zzpp(zzf1)", "zzpf(zzp1)", "zzpp(zzundecl)", "zzca1(zzvarrr)", "zzca1(zziv)", "zzvarint(zzk)", "zzvarint(zziv + 1)", "zzp1(zzp0)",
                  "zziv(3)", "zzvrec(1)", "zzea(1, 2)"])
    return b, r.choice(["zzp0", "zzp1(1)", "zzp2(1, 'a')", "zziv := zzf1(1)", "zzpp(zzp1)", "zzca1(zzvarri)", "zzpf(zzf1)"]), (b,)
@kind
def statement(r):
    b = r.choice(["zziv := zzp0", "zziv := zzp1(3)", "zzk := 3", "zzks := 'x'", "5 := zziv", "zzf1(3) := 4", "zzp0 := 3", "zziv + 1", "zziv", "'abc'", "zzvarri[2]", "zzea := zza1", "zziv := integer", "zza1 := zza2", "nil := zzvpi",
                  "zziv := zzundecl", "zzundecl := 3", "zzundecl", "zzundecl(3)", "goto 77", "zziv := zziv + zzundecl * 2", "if zzundecl then", "zziv := zzvarri[zzundecl]", "zzvint := zzf1(zzundecl)", "new(zzundecl)",
                  "writeln(zzundecl)", "with zzundecl do", "case zzundecl of 1: end", "zzvseti := [zzundecl]", "zzvpi^ := zzundecl", "zzvrec.x := zzundecl", "for zziv := 1 to zzundecl do"])
    return b, "zziv := zziv + 1", (b,)
@kind
def write_params(r):
    a = r.choice([k for k in ALL if k not in ("int", "sub", "i64")]); v = value(r, a)
    nr = value(r, r.choice([k for k in ("int", "bool", "char", "str", "enA", "arrc")]))
    ns = value(r, r.choice(["setI", "setC", "rec", "pI", "cplx", "arrI", "obj", "arrR"]))
    b = r.choice(["writeln(zziv: %s)" % v, "write(zzvreal: 3: %s)" % v, "writeln('x', %s: 3: 2)" % nr, "writeln(%s)" % ns, "write('a', %s, 'b')" % ns, "writestr(zzvstr, %s)" % ns, "writestr(zziv, 'x')",
                  "write(zzvfilei, 'x')", "write(zzvfilei, zzvreal)", "writeln(zzvfilei, 3)", "write(zzvfilei, zzvrec)"])
    return b, r.choice(["writeln(zzvreal: 3: 2)", "write(zzvfilei, 3)", "writestr(zzvstr, zziv: 5)"]), (a, b[:12])
@kind
def read_params(r):
    ns = value(r, r.choice(["setI", "setC", "rec", "pI", "cplx", "arrI", "obj", "enA"]), True)
    b = r.choice(["read(%s)" % ns, "readln(zziv, %s)" % ns, "read(3)", "read(zziv + 1)", "readln('x')", "read(zzk)", "read(zzvfilei, zzvreal)", "readln(zzvfilei, zziv)", "readstr(zziv, zzvint)", "readstr(zzvstr, 3)", "read(zzf1(1))",
                  "read(zzvfilei, zzvchar)"])
    return b, r.choice(["read(zziv)", "read(zzvfilei, zziv)", "readstr(zzvstr, zziv)"]), (b[:16],)
@kind
def builtins(r):
    bad = lambda ok: value(r, r.choice([k for k in ALL if k not in ok]))
    n = r.choice(["abs", "sqr", "sqrt", "odd", "ord", "chr", "succ", "pred", "trunc", "round", "length", "new", "dispose", "reset", "eof", "re", "count", "inc", "card", "get", "argc"])
    f = {"abs": ("zzvreal := abs(%s)", NUM), "sqr": ("zzvreal := sqr(%s)", NUM), "sqrt": ("zzvreal := sqrt(%s)", NUM | ORDS), "odd": ("zzvbool := odd(%s)", ORDS), "ord": ("zziv := ord(%s)", ORDS),
         "chr": ("zzvchar := chr(%s)", ORDS), "succ": ("if succ(%s) = 3 then", ORDS), "pred": ("if pred(%s) = 3 then", ORDS), "trunc": ("zziv := trunc(%s)", {"real"} | NUM), "round": ("zziv := round(%s)", {"real"} | NUM),
         "length": ("zziv := length(%s)", STRL), "new": ("new(%s)", {"pI", "pR"}), "dispose": ("dispose(%s)", {"pI", "pR"}), "reset": ("reset(%s)", {"fileI", "text"}), "eof": ("zzvbool := eof(%s)", {"fileI", "text"}),
         "re": ("zzvreal := re(%s)", NUM), "inc": ("inc(%s)", ORDS), "card": ("zziv := card(%s)", SETS | ORDS), "get": ("get(%s)", {"fileI", "text"})}
    if n in f: b = f[n][0] % bad(f[n][1])
    else: b = r.choice(["zzvreal := sin", "zzvreal := sin(1.0, 2.0)", "zzvreal := sin()", "zziv := ord", "zziv := ord('a', 'b')", "zzvreal := arctan2(1.0)", "inc(zzk)", "inc(zziv, 2.5)", "inc", "new", "new()", "halt('x')",
                        "zzvstr := copy(zzvstr)", "zzvstr := copy(zziv, 1, 2)", "zzvchar := chr(1, 2)", "zzvreal := sqrt", "dispose(zzvpi, zzvpi)", "assign(zzvtext)", "assign(zziv, 'x')", "zzvbool := odd(2.5)", "inc(zziv + 1)", "close(zziv)"])
    g = r.choice(["zzvreal := sin(1.0)", "inc(zziv)", "zziv := ord('a')", "new(zzvpi)", "zzvstr := copy(zzvstr, 1, 2)", "zziv := length(zzvstr)"])
    return b, g, (n,)
@kind
def sets(r):
    b = r.choice(["zzvseti := [zzvreal]", "zzvsetc := [3]", "zzvseti := ['a']", "zzvsete := [zzb1]", "zzvseti := [1, 'a']", "zzvsetc := ['a'..3]", "zzvsete := [zza1..zzb2]", "zzvbool := 3 in zziv", "zzvbool := 'a' in zzvseti",
                  "zzvbool := zzb1 in zzvsete", "zzvseti := zzvseti + 3", "zzvseti := zzvseti + zzvsetc", "zzvseti := 3", "zzvbool := zzvseti = 3", "zzvbool := zzvseti <= zzvsetc", "zzvsetc := [zzvstr]"])
    return b, "zzvseti := [1, zziv] + [2..4]", (b,)
@kind
def syntax(r):
    b = r.choice(["zziv = 3", "zziv := ", "zziv := 3 +", "zziv := (3", "zziv := 3)", "zziv 3", "if zzvbool zziv := 1", "if then zziv := 1", "while do zziv := 1", "while zzvbool zziv := 1", "for zziv 1 to 3 do", "for zziv := 1 3 do",
                  "for zziv := 1 to 3 zziv := 1", "repeat zziv := 1", "case zziv 1: end", "case zziv of 1 end", "case zziv of 1: zziv := 1", "case of 1: end", "with do zziv := 1", "zzp2(1,)", "zzp2(,'a')", "zzp2(1 'a')", "zzp1(1",
                  "zziv := zzvarri[1", "zziv := zzvarri 1]", "zziv := := 3", "begin zziv := 1", "else zziv := 1", "zziv := * 3", "zziv := 3 3", "zziv := 3 div", "then", "do", "of", "zziv := 'abc", "zzvbool := 1 < < 2",
                  "zziv := 1 2", "zziv.: = 3", "zzvrec. := 3", "zzvrec..x := 3", "zziv := zzvpi^ ^ ^ 2", "goto", "goto zziv", "zziv := not", "zziv := #", "zziv := 3 ? 4", "zziv := 3 & 4", "% := 3", "writeln(3", "writeln 3)", "write(3:)",
                  "write(:3)", "writeln(3,)", "read(zziv,)", "until zzvbool", "zziv := 1 else zziv := 2", "zziv := if zzvbool then 1", "procedure zzx; begin end", "var zzx: integer", "zziv := 99999999999999999999999", "zziv := 36#", "zziv := $",
                  "zzvreal := 1.5e", "zzvreal := 1e+"])
    return b, "zziv := 3", (b,)

# ---------------------------------------------------------------- declarations with one error
DECL_ERRORS = [  # (bad, good)
 ("var zzd: integer; zzd: char;", "var zzd: integer; zzd2: char;"), ("var zzd, zzd: integer;", "var zzd, zzd2: integer;"), ("const zzd = 3; zzd = 4;", "const zzd = 3; zzd2 = 4;"),
 ("type zzd = integer; zzd = char;", "type zzd = integer; zzd2 = char;"), ("type zzd = integer; var zzd: integer;", "type zzd = integer; var zzd2: zzd;"), ("const zzd = 3; var zzd: integer;", "const zzd = 3; var zzd2: integer;"),
 ("type zzd = (zzd1, zzd2, zzd1);", "type zzd = (zzd1, zzd2, zzd3);"), ("type zzd = (zzd1, zzd2); zzdd = (zzd3, zzd2);", "type zzd = (zzd1, zzd2); zzdd = (zzd3, zzd4);"),
 ("type zzd = record a: integer; a: char end;", "type zzd = record a: integer; b: char end;"), ("type zzd = record a: integer; case b: boolean of true: (c: integer); false: (a: char) end;", "type zzd = record a: integer; case b: boolean of true: (c: integer); false: (d: char) end;"),
 ("type zzd = record a, b, a: integer end;", "type zzd = record a, b, c: integer end;"), ("procedure zzd(a, a: integer); begin end;", "procedure zzd(a, b: integer); begin end;"),
 ("procedure zzd(a: integer; a: char); begin end;", "procedure zzd(a: integer; b: char); begin end;"), ("procedure zzd; begin end; procedure zzd; begin end;", "procedure zzd; begin end; procedure zzd2; begin end;"),
 ("procedure zzd; var a, a: integer; begin end;", "procedure zzd; var a, b: integer; begin end;"), ("procedure zzd(a: integer); var a: char; begin end;", "procedure zzd(a: integer); var b: char; begin end;"),
 ("function zzd: integer; begin zzd := 1 end; var zzd: integer;", "function zzd: integer; begin zzd := 1 end; var zzd2: integer;"),
 ("var zzd: zznotype;", "var zzd: integer;"), ("var zzd: array [1..3] of zznotype;", "var zzd: array [1..3] of integer;"), ("type zzd = record a: zznotype end;", "type zzd = record a: integer end;"), ("procedure zzd(a: zznotype); begin end;", "procedure zzd(a: integer); begin end;"),
 ("function zzd: zznotype; begin end;", "function zzd: integer; begin zzd := 1 end;"), ("type zzd = ^zznotype; var zzd2: zzd;", "type zzd = ^zzd3; zzd3 = record a: zzd end; var zzd2: zzd;"), ("type zzd = set of zznotype;", "type zzd = set of char;"), ("type zzd = file of zznotype;", "type zzd = file of char;"),
 ("const zzd = zznoconst;", "const zzd = maxint;"), ("const zzd = 3 + zznoconst;", "const zzd = 3 + maxint;"), ("var zzd0: integer; const zzd = zzd0;", "const zzd0 = 1; zzd = zzd0;"), ("const zzd = 3 + 'abc';", "const zzd = 'd' + 'abc';"), ("const zzd = ;", "const zzd = 1;"),
 ("const zzd 3;", "const zzd = 3;"), ("const zzd := 3;", "const zzd = 3;"), ("type zzd: integer;", "type zzd = integer;"), ("var zzd = integer;", "var zzd: integer;"), ("var zzd integer;", "var zzd: integer;"), ("var zzd: ;", "var zzd: char;"), ("var : integer;", "var zzd: integer;"),
 ("var zzd,: integer;", "var zzd: integer;"), ("var 3: integer;", "var zzd: integer;"), ("type zzd = array [5..1] of integer;", "type zzd = array [1..5] of integer;"), ("type zzd = 5..1;", "type zzd = 1..5;"), ("type zzd = 'a'..5;", "type zzd = 'a'..'e';"),
 ("type zzd = 1.5..2.5;", "type zzd = 1..2;"), ("type zzd = array [real] of integer;", "type zzd = array [char] of integer;"), ("type zzd = array [1.0..2.0] of integer;", "type zzd = array [1..2] of integer;"), ("type zzd = set of real;", "type zzd = set of boolean;"),
 ("type zzd = set of integer;", "type zzd = set of 0..100;"), ("type zzd = set of 0..100000;", "type zzd = set of 0..100;"), ("type zzd = array [1..3] integer;", "type zzd = array [1..3] of integer;"), ("type zzd = array 1..3 of integer;", "type zzd = array [1..3] of integer;"),
 ("type zzd = array [1..3 of integer;", "type zzd = array [1..3] of integer;"), ("type zzd = array [1] of integer;", "type zzd = array [1..1] of integer;"), ("type zzd = set 1..3;", "type zzd = set of 1..3;"), ("type zzd = file integer;", "type zzd = file of integer;"),
 ("type zzd = record a integer end;", "type zzd = record a: integer end;"), ("type zzd = record a: integer;", "type zzd = record a: integer end;"), ("type zzd = (a1zz, );", "type zzd = (a1zz, a2zz);"), ("type zzd = ();", "type zzd = (a1zz);"), ("type zzd = (1, 2);", "type zzd = (a1zz);"),
 ("type zzd = record case b: real of 1: (c: integer) end;", "type zzd = record case b: integer of 1: (c: integer) end;"), ("type zzd = ^;", "type zzd = ^integer;"), ("type zzd = integer", "type zzd = integer;"),
 ("procedure zzd begin end;", "procedure zzd; begin end;"), ("procedure zzd();;; begin end;", "procedure zzd; begin end;"), ("procedure (a: integer); begin end;", "procedure zzd(a: integer); begin end;"), ("procedure zzd(a); begin end;", "procedure zzd(a: char); begin end;"),
 ("procedure zzd(a: integer; begin end;", "procedure zzd(a: integer); begin end;"), ("procedure zzd(a: integer) begin end;", "procedure zzd(a: integer); begin end;"), ("procedure zzd: integer; begin end;", "function zzd: integer; begin zzd := 1 end;"), ("function zzd; begin end;", "function zzd: char; begin zzd := 'a' end;"),
 ("function zzd(a: integer); begin end;", "function zzd(a: integer): integer; begin zzd := a end;"), ("function zzd: ; begin end;", "function zzd: char; begin zzd := 'a' end;"), ("procedure zzd; begin end", "procedure zzd; begin end;"), ("procedure zzd; begin", "procedure zzd; begin end;"),
 ("procedure zzd; forward; procedure zzd2; begin zzd end;", "procedure zzd; forward; procedure zzd2; begin zzd end; procedure zzd; begin end;"), ("function zzd: integer; forward; function zzd: char; begin zzd := 'a' end;", "function zzd: integer; forward; function zzd: integer; begin zzd := 1 end;"),
 ("label 77; procedure zzd; begin goto 78 end;", "procedure zzd; label 77; begin goto 77; 77: zzd end;"), ("procedure zzd; label 77; begin goto 77 end;", "procedure zzd; label 77; begin 77: goto 77 end;"), ("procedure zzd; label 77; begin 77: ; 77: ; goto 77 end;", "procedure zzd; label 77; begin 77: ; goto 77 end;"),
 ("procedure zzd; begin 77: end;", "procedure zzd; label 77; begin 77: zzd end;"),
 ("procedure zzd(protected a: integer); begin a := 3 end;", "procedure zzd(protected a: integer); var b: integer; begin b := a end;"), ("procedure zzd(protected var a: integer); begin a := 3 end;", "procedure zzd(protected var a: integer); var b: integer; begin b := a end;"),
 ("type zzd = record a: integer end; procedure zzd2(protected a: zzd); begin a.a := 3 end;", "type zzd = record a: integer end; procedure zzd2(a: zzd); begin a.a := 3 end;"), ("type zzd = array [1..3] of char; procedure zzd2(protected a: zzd); begin a[2] := 'x' end;", "type zzd = array [1..3] of char; procedure zzd2(a: zzd); begin a[2] := 'x' end;"),
 ("procedure zzd; begin zzd := 3 end;", "function zzd: integer; begin zzd := 3 end;"), ("function zzd: integer; begin zzd := 'a' end;", "function zzd: integer; begin zzd := 1 end;"), ("function zzd: char; begin zzd := 1 end;", "function zzd: char; begin zzd := 'a' end;"),
 ("type zzd = class a: integer; procedure m; end; procedure zzd.nm; begin end; procedure zzd.m; begin end;", "type zzd = class a: integer; procedure m; end; procedure zzd.m; begin end;"), ("type zzd = class(zznoclass) a: integer end;", "type zzd = class a: integer end;"),
 ("type zzd = class a: integer; a: char end;", "type zzd = class a: integer; b: char end;"), ("procedure zznoclass.m; begin end;", "procedure zzd; begin end;"),
 ("type zzd = 1..9; var zzd2: zzd; procedure zzd3; begin zzd2 := 10 end;", "type zzd = 1..9; var zzd2: zzd; procedure zzd3; begin zzd2 := 9 end;"), ("uses zznounit;", ""), ("begin", ""), ("end;", ""), ("zziv := 3;", ""), ("if true then;", ""), ("interface", ""), ("var zzd: string[;", "var zzd: string[5];"),
 ("var zzd: integer value 'x';", "var zzd: integer value 3;"), ("const zzd = 1; zzd2 = zzd + ;", "const zzd = 1; zzd2 = zzd + 1;"), ("const zzd = (1;", "const zzd = (1);"), ("const zzd = 5 div 'a';", "const zzd = 5 div 2;"), ("const zzd = not 'abc';", "const zzd = not true;"),
]

# ---------------------------------------------------------------- every predefined routine with wrong arguments
GEN = ["zzvrec", "zzvpi", "zzvfilei", "zzvobj", "zzvarri", "zzvseti"]
NOTNUM = GEN + ["zzvstr", "zzvarrc", "zzvchar", "zzvena", "zzvbool"]
NOTINT = GEN + ["zzvstr", "zzvarrc", "zzvreal", "zzvcplx"]
NOTREAL = NOTNUM + ["zzvcplx"]
NOTSTR = GEN + ["zzvreal", "zzvint", "zzvena", "zzvcplx", "zzvbool"]
NOTFILE = ["zzvrec", "zzvpi", "zzvobj", "zzvarri", "zzvseti", "zzvint", "zzvstr", "zzvreal", "zzvchar", "'name'"]
NOTPTR = ["zzvrec", "zzvfilei", "zzvobj", "zzvarri", "zzvseti", "zzvint", "zzvstr", "zzvreal", "nil", "zzfnpi"]
NOTVARINT = NOTINT + ["3", "zzk", "zzfnint", "zzvint + 1"]
BUILTINS = [(n, "zzvreal := %s(%s)", ["zzvreal"], [NOTNUM], 0) for n in ("abs", "sqr", "sqrt", "sin", "cos", "exp", "ln", "arctan")] + \
 [(n, "zziv := %s(%s)", ["zzvreal"], [NOTREAL], 0) for n in ("round", "trunc")] + \
 [("tan", "zzvreal := %s(%s)", ["zzvreal"], [NOTREAL], 0), ("frac", "zzvreal := %s(%s)", ["zzvreal"], [NOTREAL], 0), ("arctan2", "zzvreal := %s(%s)", ["zzvreal", "2.0"], [NOTREAL, NOTREAL], 0), ("fmod", "zzvreal := %s(%s)", ["zzvreal", "2.0"], [NOTREAL, NOTREAL], 0),
  ("odd", "zzvbool := %s(%s)", ["zzvint"], [NOTINT], 0), ("chr", "zzvchar := %s(%s)", ["65"], [NOTINT], 0), ("ord", "zziv := %s(%s)", ["zzvchar"], [NOTINT], 0), ("succ", "zziv := %s(%s)", ["zzvint", "2"], [NOTINT, NOTINT], 1),
  ("pred", "zziv := %s(%s)", ["zzvint", "2"], [NOTINT, NOTINT], 1), ("random", "zziv := %s(%s)", ["5"], [NOTINT], 1), ("randomize", "%s(%s)", ["5"], [NOTINT], 1), ("inc", "%s(%s)", ["zzvint"], [NOTVARINT], 0), ("dec", "%s(%s)", ["zzvint"], [NOTVARINT], 0),
  ("new", "%s(%s)", ["zzvpi"], [NOTPTR], 0), ("dispose", "%s(%s)", ["zzvpi"], [NOTPTR], 0), ("halt", "%s(%s)", ["3"], [NOTINT], 1), ("length", "zziv := %s(%s)", ["zzvstr"], [NOTSTR], 0), ("popcnt", "zziv := %s(%s)", ["zzvint"], [["zzvrec", "zzvpi", "zzvfilei", "zzvobj", "zzvarri", "zzvstr", "zzvreal", "zzvcplx"]], 0),
  ("card", "zziv := %s(%s)", ["zzvseti"], [["zzvrec", "zzvpi", "zzvfilei", "zzvobj", "zzvarri", "zzvstr", "zzvreal", "zzvcplx"]], 0), ("assign", "%s(%s)", ["zzvtext", "'f'"], [NOTFILE, NOTSTR], 0), ("panic", "%s(%s)", ["'x'"], [NOTSTR], 0), ("paramcount", "zziv := %s%s", [], [], 0),
  ("clock", "zzvi64 := %s%s", [], [], 0), ("cycles", "zzvi64 := %s%s", [], [], 0), ("paramstr", "zzvstr := %s(%s)", ["1"], [NOTINT], 0), ("copy", "zzvstr := %s(%s)", ["zzvstr", "1", "2"], [NOTSTR, NOTINT, NOTINT], 1), ("substr", "zzvstr := %s(%s)", ["zzvstr", "1", "2"], [NOTSTR, NOTINT, NOTINT], 1),
  ("trim", "zzvstr := %s(%s)", ["zzvstr"], [NOTSTR], 0), ("index", "zziv := %s(%s)", ["zzvstr", "'a'"], [NOTSTR, NOTSTR], 0), ("max", "zziv := %s(%s)", ["zzvint", "3"], [NOTNUM, NOTNUM], 0), ("min", "zziv := %s(%s)", ["zzvint", "3"], [NOTNUM, NOTNUM], 0), ("sign", "zziv := %s(%s)", ["zzvint"], [NOTNUM], 0),
  ("pack", "%s(%s)", ["zzun", "1", "zzpk"], [["zzvint", "zzvrec", "zzvarri", "zzvarrr", "zzvseti", "zzvpi", "zzvfilei"], NOTINT + ["zzvchar", "zzvena"], ["zzvint", "zzvrec", "zzvarri", "zzvarrr", "zzvseti", "zzvpi"]], 0),
  ("unpack", "%s(%s)", ["zzpk", "zzun", "1"], [["zzvint", "zzvrec", "zzvarri", "zzvarrr", "zzvseti", "zzvpi"], ["zzvint", "zzvrec", "zzvarri", "zzvarrr", "zzvseti", "zzvpi", "zzvfilei"], NOTINT + ["zzvchar", "zzvena"]], 0),
  ("val", "%s(%s)", ["zzvstr", "zzvint"], [NOTSTR, GEN + ["zzvstr", "zzvcplx", "3", "zzk"]], 0), ("reset", "%s(%s)", ["zzvtext"], [NOTFILE], 0), ("rewrite", "%s(%s)", ["zzvtext"], [NOTFILE], 0), ("append", "%s(%s)", ["zzvtext"], [NOTFILE], 0), ("close", "%s(%s)", ["zzvtext"], [NOTFILE], 0),
  ("get", "%s(%s)", ["zzvtext"], [NOTFILE], 0), ("put", "%s(%s)", ["zzvtext"], [NOTFILE], 0), ("page", "%s(%s)", ["zzvtext"], [NOTFILE], 0), ("eof", "zzvbool := %s(%s)", ["zzvtext"], [NOTFILE], 1), ("eoln", "zzvbool := %s(%s)", ["zzvtext"], [NOTFILE], 1),
  ("empty", "zzvbool := %s(%s)", ["zzvfilei"], [NOTFILE], 1), ("position", "zzvi64 := %s(%s)", ["zzvfilei"], [NOTFILE], 0), ("lastposition", "zzvi64 := %s(%s)", ["zzvfilei"], [NOTFILE], 0),
  ("seekread", "%s(%s)", ["zzvfilei", "3"], [NOTFILE, NOTINT], 0), ("seekwrite", "%s(%s)", ["zzvfilei", "3"], [NOTFILE, NOTINT], 0), ("seekupdate", "%s(%s)", ["zzvfilei", "3"], [NOTFILE, NOTINT], 0), ("unbind", "%s(%s)", ["zzvfilei"], [NOTFILE], 0),
  ("bind", "%s(%s)", ["zzvtext", "zzbt"], [NOTFILE, ["zzvrec", "zzvint", "zzvstr", "zzvseti", "zzvobj", "'f'"]], 0), ("binding", "zzbt := %s(%s)", ["zzvtext"], [NOTFILE], 0),
  ("cmplx", "zzvcplx := %s(%s)", ["1.0", "2.0"], [NOTREAL, NOTREAL], 0), ("polar", "zzvcplx := %s(%s)", ["1.0", "2.0"], [NOTREAL, NOTREAL], 0), ("re", "zzvreal := %s(%s)", ["zzvcplx"], [GEN + ["zzvstr", "zzvchar", "zzvena"]], 0),
  ("im", "zzvreal := %s(%s)", ["zzvcplx"], [GEN + ["zzvstr", "zzvchar", "zzvena"]], 0), ("arg", "zzvreal := %s(%s)", ["zzvcplx"], [GEN + ["zzvstr", "zzvchar", "zzvena"]], 0),
  ("gettimestamp", "%s(%s)", ["zzts"], [["zzvrec", "zzvint", "zzvstr", "zzbt", "3"]], 0), ("time", "writeln(%s(%s))", ["zzts"], [["zzvrec", "zzvint", "zzvstr", "zzbt", "3"]], 0), ("date", "writeln(%s(%s))", ["zzts"], [["zzvrec", "zzvint", "zzvstr", "zzbt", "3"]], 0)] + \
 [(n, "zzvbool := %s(%s)", ["zzvstr", "'x'"], [NOTSTR, NOTSTR], 0) for n in ("eq", "ne", "lt", "le", "gt", "ge")]
EXTRA = "var zzts: timestamp; zzbt: bindingtype; zzun: array [1..5] of char; zzpk: packed array [1..3] of char;\n"
def sweep_list():
    out = []
    for n, f, good, bads, opt in BUILTINS:
        ok = f % (n, ", ".join(good))
        if f.startswith("writeln"): mk = lambda a: "writeln(%s(%s))" % (n, ", ".join(a)) if a else "writeln(%s)" % n
        else: mk = lambda a, f=f: (f.replace("%s(%s)", "%s%s") % (n, "(" + ", ".join(a) + ")" if a else ""))
        out.append((n, mk(good + [good[-1] if good else "1"]), ok))
        for k in range(len(good) - opt): out.append((n, mk(good[:k]), ok))
        for i, bs in enumerate(bads):
            for b in bs: out.append((n, mk(good[:i] + [b] + good[i + 1:]), ok))
    return out
PTYPES = {"integer": [""], "ppr": [".x", ".t.x", ".z[2]", ".z[zziv]"], "ppa": ["[2]", "[zziv]"], "ppb": ["[2].x", "[zziv].z[1]"], "ppc": ["[2, 3]"], "ppp": [""], "pps": [""]}
PTDECL = ("type ppt = record x: integer end; ppr = record x: integer; t: ppt; z: array [1..3] of integer end; ppa = array [1..4] of integer; ppb = array [1..3] of ppr; "
          "ppc = array [1..3, 1..4] of integer; ppp = ^integer; pps = string[12];\n")
def protects(c, rng, kit):
    """Routines some of whose parameters are protected; a change of a protected one is an error, the same change of another is not."""
    r = rng
    for _ in range(6):
        t = r.choice(["integer"] * 3 + ["ppr", "ppa", "ppb", "ppc", "ppp", "pps"])
        groups, free, prot = [], [], []
        for g in range(r.randrange(1, 5)):
            pr, va = r.random() < .5, r.random() < .4
            ns = ["g%dn%d" % (g, j) for j in range(r.randrange(1, 5))]
            gt = t if g == 0 or r.random() < .6 else r.choice(list(PTYPES))
            groups.append(("protected " if pr else "") + ("var " if va else "") + ", ".join(ns) + ": " + gt)
            if gt == t: (prot if pr else free).extend(ns)
        if not free: groups.append("fa, fb: " + t); free = ["fa", "fb"]
        if not prot: groups.append("protected pa, pb, pc: " + t); prot = ["pa", "pb", "pc"]
        r.shuffle(groups)
        path = r.choice(PTYPES[t]); sub = {"ppp": "ppp", "pps": "pps"}.get(t, "integer")
        if sub == "ppp": acts = ["%s := nil", "new(%s)", "pvp(%s)"]
        elif sub == "pps": acts = ["%s := 'ab'", "read(%s)", "writestr(%s, 5)", "pvs(%s)", "%s[1] := 'x'"]
        else:
            acts = ["%s := 3", "%s := %s + 1", "read(%s)", "readln(zziv, %s)", "inc(%s)", "dec(%s)", "pvi(%s)", "pvi2(zziv, %s)", "pvi2(%s, 1)", "readstr(zzvstr, %s)"]
            if path == "": acts += ["for %s := 1 to 3 do", "for %s := 3 downto 1 do", "for %s in [1, 2] do", "val('12', %s)"]
            if t in ("ppr",) and path == ".x": acts += ["with %s do WITH := 4", "with %s do pvi(WITH)"]
        act = r.choice(acts); wrap = r.choice(["%s", "if zzvbool then begin %s end", "repeat %s until true", "begin writeln; %s end", "case zziv of 1: %s; 2: end"])
        if act[:3] == "for" : wrap = "begin %s end"
        nest = r.random() < .35; owner = r.random() < .2 and act[:3] != "for"
        def mk(n):
            if "WITH" in act: st = act.replace("WITH", "x") % n
            else: st = act.replace("%s", n + path)
            st = wrap % st
            if nest and act[:3] != "for": body = "procedure inn; begin %s end;\nbegin inn end;\n" % st
            else: body = "begin\n%s\nend;\n" % st
            head = "(" + "; ".join(groups) + ")"
            pre = PTDECL + "procedure pvi(var q: integer); begin end; procedure pvi2(var q: integer; w: integer); begin end; procedure pvp(var q: ppp); begin end; procedure pvs(var q: pps); begin end;\n"
            if owner: pre = PTDECL + "type ppz = class k: integer; procedure rr%s; end;\n" % head + pre[len(PTDECL):]; x = "procedure ppz.rr%s;\n" % head
            elif fwd: pre += "procedure rr%s; forward;\n" % head; x = "procedure rr;\n"
            else: x = "procedure rr%s;\n" % head
            h = "program p(input, output);\n" + DECLS + pre
            return h + x + body + "begin end.\n", h.count("\n"), (h + x + body).count("\n") + 1, head + " " + st
        fwd = r.random() < .2
        if act == "pvi2(zziv, %s)": continue      # passes by value
        gt, _, _, gd = mk(r.choice(free)); bt, lo, hi, bd = mk(r.choice(prot))
        k = attempt(c, kit, gt)
        if k.rc != 0: raise Violation("a correct program is rejected (status %s): %s: %s" % (k.rc, gd, clip(k.out + k.err, 300)), {"p.pas": gt})
        c.count("controls_accepted")
        judge(c, attempt(c, kit, bt), bt, None, bd, "a protected parameter", (lo, hi))
        c.count("errors_injected"); c.count("protected_changes"); c.state("protect", act + path + ("nest" if nest else "") + ("fwd" if fwd else ""))

SWEEP = sweep_list()
import random as _random
_random.Random(7).shuffle(SWEEP)
def sweep(c, rng, kit):
    """A stretch of the list of wrong uses of predefined routines, each alone in a small program."""
    n = len(SWEEP); k = c.idx // 8 * 35 % n
    part = (SWEEP + SWEEP)[k:k + 35]
    head = "program p(input, output);\n" + DECLS + EXTRA
    t = head + "begin\n" + ";\n".join(g for _, _, g in part) + "\nend.\n"
    r = attempt(c, kit, t)
    if r.rc != 0: raise Violation("a program with only correct statements is rejected (status %s): %s" % (r.rc, clip(r.out + r.err, 300)), {"p.pas": t})
    c.count("controls_accepted")
    for nm, bad, good in part:
        w = rng.choice(["%s", "if zzvbool then %s", "begin %s end", "while zzvbool do %s"])
        t = head + "begin\n  zziv := 1;\n" + w % bad + "\nend.\n"; ln = t[:-6].count("\n")
        r = attempt(c, kit, t)
        judge(c, r, t, None, bad, "predefined routine " + nm, (ln, ln + 1))
        c.count("errors_injected"); c.state("builtin", bad)
    m = len(W.PAIRS); k = c.idx // 8 * 18 % m
    for bd, bs, gd, gs in (W.PAIRS + W.PAIRS)[k:k + 18]:
        for bad, d, st in ((False, gd, gs), (True, bd, bs)):
            t = "program p(input, output);\n"
            if d.startswith("label"): t += d + "\n"; d = ""
            t += DECLS
            lo = t.count("\n") if not bd.startswith("label") else 0
            t += d + "\nbegin\n  " + st + "\nend.\n"; hi = t.count("\n")
            r = attempt(c, kit, t)
            if bad:
                judge(c, r, t, None, (bd + " // " + bs)[:200], "a wrong twin", (lo, hi))
                c.count("errors_injected"); c.state("twin", bd + bs)
            elif r.rc != 0:
                raise Violation("a correct program is rejected (status %s): %s: %s" % (r.rc, (gd + " // " + gs)[:200], clip(r.out + r.err, 300)), {"p.pas": t})
            else: c.count("controls_accepted")
    c.key = C.sha(repr(part)); c.sample = repr(part[:8])

def lex(src):
    """[(kind, text, offset)] without white space and comments."""
    out, p = [], 0
    while p < len(src):
        m = spell.TOK.match(src, p)
        if not m: raise Inconclusive("no token at %r" % src[p:p + 20])
        k = m.lastgroup
        if k not in ("ws", "com"): out.append((k, m.group(), p))
        p = m.end()
    return out

def places(src):
    """(token list, statement positions, declaration positions, [is the token in a statement part])."""
    toks = lex(src)
    st, stmts, dcl, inb = [], [], [], []
    for i, (k, t, p) in enumerate(toks):
        l = t.lower() if k == "id" else t
        inb.append(any(x == "b" for x in st))
        if l == "begin" or l == "repeat": st.append("b" if l == "begin" else "p")
        elif l in ("record", "object", "class"): st.append("r")
        elif l == "case": (st.append("c") if not (st and st[-1] == "r") else None)
        elif l in ("end", "until"):
            if st: st.pop()
        if (l in ("begin", "repeat") or l == ";") and st and st[-1] in "bp":
            stmts.append(p + len(t))
        elif l == ";" and not st and i > 2: dcl.append((i, p + len(t)))
    return toks, stmts, dcl, inb

HEAD = re.compile(r"^\s*program\s+\w+\s*(\([^)]*\))?\s*;", re.I)
def base(c):
    for _ in range(6):
        try: kind_, src, _ = corpus.make(c.rng, 4000)
        except Exception: continue
        m = HEAD.match(src)
        if m and len(src) < 60000 and all(ord(x) < 127 for x in src): return kind_, src, m.end()
    raise Inconclusive("no base program")

def after_uses(src, pos):
    while True:
        m = re.match(r"\s*uses\s+\w+\s*;", src[pos:], re.I)
        if not m: return pos
        pos += m.end()

CONTAIN = ["%s", "%s", "%s", "if false then begin %s end", "while zziv > 100 do begin %s end", "if zzvbool then zziv := 1 else begin %s end", "for zziv := 3 to 1 do begin %s end", "repeat %s until true",
           "case zziv of 1: begin %s end; 2: end", "with zzvrec2 do begin %s end", "begin begin %s end end", "case zziv of 1: ; otherwise begin %s end end", "for zzvsub in zzvseti do begin %s end", "if zziv = 1 then if zziv = 2 then begin %s end"]
def wrap(r, s): return r.choice(CONTAIN) % ("\n" + s + "\n")
ROUT = {"proc": "procedure zzt; begin\n%s\nend;\n", "func": "function zzt(a: integer): char; begin zzt := 'a';\n%s\nend;\n",
        "nested": "procedure zzt; var l1: integer; procedure i1; var l2: char; procedure i2(z: real); begin l1 := 2; l2 := 'a';\n%s\nend; begin i2(1.0) end; begin i1 end;\n",
        "method": "type zztc = class a: integer; procedure m(k: char); end;\nprocedure zztc.m(k: char); begin a := 1;\n%s\nend;\n",
        "closure": "procedure zzt; var l1: integer; procedure i1; begin l1 := l1 + 1;\n%s\nend; begin i1 end;\n"}

def clean(d):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p): os.unlink(p)

def attempt(c, kit, src, units=None, emit="llvm", opts=()):
    clean(c.dir)
    r = K.compile_pas(kit, src, c.dir, name="p", opts=list(opts), units=units, cpu=30, emit=emit)
    c.count("compilations")
    if r.timeout == "wall": raise Inconclusive("wall clock limit")
    return r

ERR = re.compile(r"^([^\n:]*):(\d+):(\d+): Error: (.+)$", re.M)
def below(t, ln):
    """The line of the first token after line ln."""
    ls = t.split("\n")
    while ln < len(ls) and not ls[ln].strip(): ln += 1
    return ln + 1
def judge(c, r, src, units, what, where, near=None, emit="llvm", file="p"):
    """The compiler's answer to an ill-formed program. near: (first, last) line the first message may name."""
    texts = {"p": src}; texts.update(units or {})
    fs = {n + ".pas": s for n, s in texts.items()}; fs["message"] = r.out + r.err; fs["error"] = what
    txt = (r.out + r.err).decode("latin-1")
    d = "%s (%s)" % (what, where)
    if r.timeout: raise Violation("the compiler does not end on: " + d, fs)
    if r.rc == 0: raise Violation("an ill-formed program is accepted: " + d, fs)
    made = [f for f in ("p", "p.o", "p.ll") if os.path.exists(os.path.join(c.dir, f))]
    if made: raise Violation("%s is left behind for an ill-formed program: %s" % (made, d), fs)
    if r.rc != 1 or not ERR.search(txt):
        raise Violation("no diagnostic (status %s, %r) for: %s" % (r.rc, clip(txt, 160), d), fs)
    f, ln, _, msg = ERR.search(txt).groups()
    n = os.path.basename(f)[:-4]
    if n not in texts: raise Violation("the message names %r, not a source file: %s" % (f, d), fs)
    ln = int(ln)
    if not 1 <= ln <= texts[n].count("\n") + 2: raise Violation("the message names line %d of %d: %s" % (ln, texts[n].count("\n") + 1, d), fs)
    if near and (n != file or not near[0] <= ln <= near[1]):
        raise Violation("the first message %r names line %d of %s, the error is in line %d of %s: %s" % (clip(msg, 80), ln, n, near[0], file, d), fs)
    c.count("rejected_with_diagnostic")
    c.state("message", re.sub(r"'[^']*'|\d+", "#", msg)[:70])

def injected(c, rng, kit):
    """Statement errors in all kinds of places of a valid program."""
    bk, src, h = base(c)
    h = after_uses(src, h)
    src = src[:h] + "\n" + DECLS + src[h:]
    _, stmts, dcl, _ = places(src)
    stmts = [p for p in stmts if p > h + len(DECLS)]
    if not stmts: raise Inconclusive("no statements")
    n = 10
    todo = []
    for _ in range(n):
        kn, f = rng.choice(KINDS)
        bad, good, feat = f(rng)
        w = rng.choice(CONTAIN)
        if kn == "syntax" or ";" in w and rng.random() < .3: w = rng.choice(CONTAIN)
        rt = rng.choice([None, None, None] + list(ROUT))
        todo.append((kn, bad, good, feat, w, rt, rng.choice(stmts)))
    main = src
    def text(which, only):
        """The program with the good (0) or bad (1) statement of `only`; all good ones if None."""
        ins, head = [], ""
        for i, (kn, bad, good, feat, w, rt, pos) in enumerate(todo):
            if only is not None and i != only: continue
            s = w % ("\n" + (bad if which else good) + "\n")
            if rt: head += ROUT[rt].replace("zzt", "zzt%d" % i) % s
            else: ins.append((pos, "\n" + s + ";\n"))
        out, p = [], 0
        hp = h + 1 + len(DECLS)
        for pos, s in sorted(ins + ([(hp, head)] if head else []), key=lambda x: x[0]):
            out.append(src[p:pos]); out.append(s); p = pos
        out.append(src[p:])
        return "".join(out)
    ctl = text(0, None)
    r = attempt(c, kit, ctl)
    if r.rc != 0:
        raise Violation("a program with only correct statements is rejected (status %s): %s" % (r.rc, clip(r.out + r.err, 300)), {"p.pas": ctl})
    c.count("controls_accepted")
    for i, (kn, bad, good, feat, w, rt, pos) in enumerate(todo):
        t = text(1, i)
        emit = rng.choice(["llvm", "llvm", "llvm", None]); o = random_opts(rng) if rng.random() < .3 else []
        r = attempt(c, kit, t, emit=emit, opts=o)
        ln = t.count("\n", 0, t.index("\n" + bad + "\n", h + len(DECLS) - 1)) + 2
        judge(c, r, t, None, "%s: %s" % (kn, bad), "in %s, %s" % (rt or "a statement of a %s program" % bk, w.replace("%s", "...")),
              (ln, below(t, ln)) if kn not in ("syntax", "case_labels") else None, emit)
        c.state("kind", kn, *feat); c.state("place", kn, rt, w)
        c.count("errors_injected")
    c.key = C.sha(ctl); c.sample = clip("\n".join(x[1] for x in todo), 900)

def units(c, rng, kit):
    """Errors inside units: in the interface, in the implementation, in the initialisation, and in users of a unit."""
    bk, src, h = base(c)
    decl = "const zzu0 = 3;\ntype zzut = record x: integer; y: char end;\nvar zzuv: integer; zzur: zzut; zzub: boolean;\nprocedure zzup(a: integer);\nfunction zzuf(a: char): integer;\n"
    impl = "procedure zzup(a: integer); begin zzuv := a end;\nfunction zzuf(a: char): integer; begin zzuf := ord(a) end;\n"
    S = [("zzuv := 'a'", "zzuv := 3"), ("zzuv := zzundecl", "zzuv := zzu0"), ("zzup('x')", "zzup(4)"), ("zzup", "zzup(zzuv)"), ("zzuv := zzuf(3)", "zzuv := zzuf('a')"), ("zzu0 := 4", "zzuv := 4"), ("zzur := 3", "zzur.x := 3"),
         ("zzur.q := 3", "zzur.y := 'a'"), ("if zzuv then zzuv := 1", "if zzub then zzuv := 1"), ("zzuv := zzup(3)", "zzuv := zzuf('b')"), ("zzuv := 3 +", "zzuv := 3"), ("zzuv = 3", "zzuv := 3"), ("for zzub := 1 to 2 do", "for zzuv := 1 to 2 do"),
         ("case zzuv of 1: ; 1: end", "case zzuv of 1: ; 2: ; end"), ("zzuv := zzuf('a', 'b')", "zzuv := zzuf('c')")]
    D = [("var zzx: zznotype;", "var zzx: integer;"), ("var zzuv: char;", "var zzx: char;"), ("type zzx = array [5..1] of char;", "type zzx = array [1..5] of char;"), ("const zzx = zzundecl;", "const zzx = zzu0;"),
         ("type zzx = record a: integer; a: char end;", "type zzx = record a: integer end;"), ("procedure zzx(a, a: char);", None), ("function zzx;", None), ("var zzx integer;", "var zzx: integer;"), ("uses zznounit;", None)]
    place = rng.choice(["impl", "impl", "init", "local", "interface", "implvar", "user", "deep"])
    bad, good = rng.choice(D if place in ("interface", "implvar") else S)
    if place == "implvar" and bad.startswith(("procedure", "function")): bad, good = D[0]
    if place == "interface" and bad.startswith("uses"): bad, good = D[1]
    if good is None: good = ""
    def build(s):
        x = "\n" + s + "\n"
        u = "unit zzu;\ninterface\n%s%s\nimplementation\n%s%s%s%s" % (decl, x if place == "interface" else "", x if place == "implvar" else "", impl,
            "procedure zzh; begin%send;\n" % x if place == "impl" else "procedure zzh; procedure zzi; begin%send; begin zzi end;\n" % x if place == "local" else "",
            "begin%send.\n" % x if place == "init" else "end.\n")
        us = {"zzu": u}
        used = "zzu"
        if place == "deep":
            us["zzw"] = "unit zzw;\ninterface\nuses zzu;\nprocedure zzwp;\nimplementation\nprocedure zzwp; begin%send;\nend.\n" % x
            used = "zzw"
        ma = src[:h] + "\nuses %s;\n" % used + src[h:]
        if place == "user":
            _, st, _, _ = places(ma)
            p = st[pick % len(st)]
            ma = ma[:p] + "\n" + s + ";\n" + ma[p:]
        return ma, us
    pick = rng.randrange(10 ** 6)
    ma, us = build(good)
    r = attempt(c, kit, ma, us)
    if r.rc != 0: raise Violation("a correct program with units is rejected (%s, %s): %s" % (place, good, clip(r.out + r.err, 300)), dict({"p.pas": ma}, **{k + ".pas": v for k, v in us.items()}))
    c.count("controls_accepted")
    ma, us = build(bad)
    r = attempt(c, kit, ma, us, emit=rng.choice(["llvm", None]))
    where = {"deep": "zzw", "user": "p"}.get(place, "zzu")
    t = ma if where == "p" else us[where]
    ln = t.count("\n", 0, t.index("\n" + bad)) + 2
    semantic = bad in [x for x, _ in S if x not in ("zzuv := 3 +", "zzuv = 3")]
    judge(c, r, ma, us, bad, "in a unit: %s" % place, (ln, below(t, ln)) if semantic else None, file=where)
    c.count("errors_injected"); c.state("unit", place, bad)
    c.key = C.sha(ma, repr(us)); c.sample = clip(us["zzu"], 800)

def declared(c, rng, kit):
    """Declaration errors at global level, in routines and in nested routines of a valid program."""
    bk, src, h = base(c)
    h = after_uses(src, h)
    for _ in range(6):
        bad, good = rng.choice(DECL_ERRORS)
        top = bad.startswith(("uses", "begin", "end;", "zziv", "if true", "interface", "type zzd = integer\n"))
        form = rng.choice(["global", "global", "routine", "nested", "function"]) if not top else "global"
        if "class" in bad and form != "global": form = "global"
        def text(d):
            d = "\n" + d + "\n"
            pre = "var zziv: integer;\n" if bad.startswith("zziv") else ""
            if form == "routine": d = "procedure zzouter;%sbegin end;\n" % d
            elif form == "function": d = "function zzouter(zza: integer): integer;%sbegin zzouter := zza end;\n" % d
            elif form == "nested": d = "procedure zzouter; var zzl: integer; procedure zzinner;%sbegin zzl := 1 end; begin zzinner end;\n" % d
            return src[:h] + "\n" + pre + d + ("var zzafter: integer;\n" if form == "global" and bad in ("type zzd = integer",) else "") + src[h:]
        g = text(good)
        r = attempt(c, kit, g)
        if r.rc != 0: raise Violation("a program with a correct declaration is rejected (%s, %s): %s" % (form, good, clip(r.out + r.err, 300)), {"p.pas": g})
        c.count("controls_accepted")
        b = text(bad)
        r = attempt(c, kit, b, emit=rng.choice(["llvm", "llvm", None]))
        judge(c, r, b, None, bad, "declaration, %s" % form)
        c.count("errors_injected"); c.state("declaration", bad, form)
    c.key = C.sha(src); c.sample = bad

SKIPNEXT = {";", "end", "until", "else", "otherwise", ")"}
SKIPPREV = {";", "begin", "then", "do", "else", "of", ":", "repeat", "otherwise", "("}
def damaged(c, rng, kit):
    """One token of a valid program removed, doubled or replaced so that it can not be well-formed any more; one name replaced by an unknown one."""
    if rng.random() < .3:
        import C21
        src, us, _ = C21.split(C21.Null(rng), rng)
    else:
        _, src, _ = base(c); us = {}
    files = dict({"p": src}, **us)
    for n, s in files.items():
        if any(ord(x) > 126 for x in s): raise Inconclusive("special characters")
    r = attempt(c, kit, src, us)
    if r.rc != 0: raise Violation("a correct program is rejected: %s" % clip(r.out + r.err, 300), {n + ".pas": s for n, s in files.items()})
    c.count("controls_accepted")
    info = {n: places(s) for n, s in files.items()}
    done = 0
    for _ in range(40):
        if done >= 8: break
        n = rng.choice(list(files)); s = files[n]; toks, _, _, inb = info[n]
        i = rng.randrange(3, len(toks) - 2)
        k, t, p = toks[i]; l = t.lower() if k == "id" else t
        nx, pv = toks[i + 1][1].lower(), toks[i - 1][1].lower()
        new = near = None
        if l in ("then", "do", "of", ":=", "(", ")", "[", "]", "until", "begin", "end"):
            if l in ("begin", "end") and n != "p" : continue
            if l == "do" and nx in (";", "end"): continue
            if l == ")" and any(x[1] == "{" for x in toks): continue
            how = rng.choice(["delete", "double"]) if l in (":=", "then", "(", ")", "of") else "delete"
            if how == "double" and l in ("(", ")"): pass
            if how == "delete": new = s[:p] + " " + s[p + len(t):]
            else: new = s[:p] + t + " " + s[p:]
            what = "%s %r" % (how, t)
        elif l == ";":
            if nx in SKIPNEXT or pv in SKIPPREV or nx in ("virtual", "override", "static", "inline", "forward", "end"): continue
            if toks[i + 1][1] in "([-+" : continue
            new = s[:p] + " " + s[p + 1:]; what = "delete ';' between %r and %r" % (pv, nx)
        elif l in ("+", "*", "/", "div", "and", "or", "=", "<=") and inb[i]:
            if rng.random() < .5: new = s[:p] + " " + s[p + len(t):]; what = "delete %r" % t
            else: new = s[:p] + t + " * " + s[p + len(t):]; what = "%r followed by '*'" % t
            if l == "=" : continue
            if l == "+" and "delete" in what and nx in "-+": continue
            if nx in ("-", "+", "(", "[") and "delete" in what: continue
        elif k == "id" and inb[i] and l not in spell.KEYWORDS and l not in ("self", "inherited") and nx != ":" :
            if l in ("true", "false", "nil"): pass
            new = s[:p] + "zzunknown" + s[p + len(t):]; what = "unknown name instead of %r" % t
            ln = s.count("\n", 0, p) + 1
            near = (ln, below(new, ln))
            if pv == "." or nx == ".": pass
        if new is None: continue
        if pv == "." and l == "end": continue
        f2 = dict(files); f2[n] = new
        ma = f2.pop("p")
        r = attempt(c, kit, ma, f2, emit=rng.choice(["llvm", "llvm", None]))
        judge(c, r, ma, f2, "line %d of %s: %s" % (s.count("\n", 0, p) + 1, n, what), "damaged token %d" % i, near, file=n)
        c.count("errors_injected"); c.state("damage", what.split()[0], l if k != "id" or l in spell.KEYWORDS else "name", pv in spell.KEYWORDS)
        done += 1
    c.key = C.sha(src); c.sample = clip(src, 600)

def case(c):
    rng, kit = c.rng, c.kits["plain"]
    k = c.idx % 8
    if k < 4: injected(c, rng, kit)
    elif k == 4: units(c, rng, kit); units(c, rng, kit); units(c, rng, kit)
    elif k == 5: declared(c, rng, kit); protects(c, rng, kit); sweep(c, rng, kit)
    else: damaged(c, rng, kit)

if __name__ == "__main__":
    simple_check("C13", "a program counts once per distinct base program into which errors were injected after the same program with the correct relatives of the erroneous constructs was accepted",
                 ["the catalogue of erroneous constructs covers the kinds of error the property lists, not every possible ill-formed program",
                  "constructs that the Pascal dialects treat differently (for example a string assigned to a char array) are not used as errors"], case, budget_quick=56)
