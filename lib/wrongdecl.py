# Wrong declarations and statements, each beside a correct twin: (declarations, statement, correct declarations, correct statement).
PAIRS = [
 ('var a: array [1..3] of char; b: array [1..4] of char;', 'if a = b then zziv := 1', 'var a, b: array [1..3] of char;', 'if a = b then zziv := 1'),
 ('var a: array [1..3] of char; b: array [1..4] of char;', 'if a < b then zziv := 1', 'var a, b: array [1..3] of char;', 'if a < b then zziv := 1'),
 ('var a: array [1..3] of char; b: array [1..4] of char;', 'a := b', 'var a, b: array [1..3] of char;', 'a := b'),
 ('var a: array [1..3] of char;', "a := 'abcdef'", 'var a: array [1..3] of char;', "a := 'abc'"),
 ('var a: array [1..3] of integer; b: array [1..3] of real;', 'a := b', 'var a, b: array [1..3] of integer;', 'a := b'),
 ('var a: array [1..3] of integer; b: array [1..4] of integer;', 'a := b', 'var a, b: array [1..3] of integer;', 'a := b'),
 ('procedure f(a: integer); forward; procedure f(a: char); begin end;', 'zziv := 1', 'procedure f(a: integer); forward; procedure f(a: integer); begin end;', 'zziv := 1'),
 ('procedure f(a: integer); forward; procedure f(a, b: integer); begin end;', 'zziv := 1', 'procedure f(a, b: integer); forward; procedure f(a, b: integer); begin end;', 'zziv := 1'),
 ('procedure f(a: integer); forward; procedure f(var a: integer); begin end;', 'zziv := 1', 'procedure f(var a: integer); forward; procedure f(var a: integer); begin end;', 'zziv := 1'),
 ('function f(a: integer): char; forward; function f(a: integer): real; begin f := 1 end;', 'zziv := 1', 'function f(a: integer): real; forward; function f(a: integer): real; begin f := 1 end;', 'zziv := 1'),
 ('procedure f(a: integer); forward; function f(a: integer): real; begin f := 1 end;', 'zziv := 1', 'function f(a: integer): real; forward; function f(a: integer): real; begin f := 1 end;', 'zziv := 1'),
 ('procedure f; forward; procedure f; forward; procedure f; begin end;', 'zziv := 1', 'procedure f; forward; procedure f; begin end;', 'zziv := 1'),
 ('type c = class procedure m; end; d = class(c) procedure m; override; end; procedure c.m; begin end; procedure d.m; begin end;', 'zziv := 1', 'type c = class procedure m; virtual; end; d = class(c) procedure m; override; end; procedure c.m; begin end; procedure d.m; begin end;', 'zziv := 1'),
 ('type c = class procedure m; virtual; end; d = class(c) procedure n; override; end; procedure c.m; begin end; procedure d.n; begin end;', 'zziv := 1', 'type c = class procedure m; virtual; end; d = class(c) procedure n; virtual; end; procedure c.m; begin end; procedure d.n; begin end;', 'zziv := 1'),
 ('type c = class a: integer; procedure m; end; procedure c.m; begin b := 1 end;', 'zziv := 1', 'type c = class a: integer; procedure m; end; procedure c.m; begin a := 1 end;', 'zziv := 1'),
 ('type c = class a: integer; procedure m; end; procedure c.m; begin end; procedure c.m; begin end;', 'zziv := 1', 'type c = class a: integer; procedure m; end; procedure c.m; begin end;', 'zziv := 1'),
 ('type c = class a: integer; procedure m(x: integer); end; procedure c.m(x: char); begin end;', 'zziv := 1', 'type c = class a: integer; procedure m(x: integer); end; procedure c.m(x: integer); begin end;', 'zziv := 1'),
 ('type c = class a: integer; end; d = class(c) b: integer; end; var x: c; y: d;', 'y := x', 'type c = class a: integer; end; d = class(c) b: integer; end; var x: c; y: d;', 'x.a := y.a'),
 ('type c = class a: integer; end; d = class(c) b: integer; end; var x: ^c; y: ^d;', 'y := x', 'type c = class a: integer; end; d = class(c) b: integer; end; var x: ^c; y: ^d;', 'x := y'),
 ("type r = record case b: integer of 1: (c: integer); 'a': (d: char) end;", 'zziv := 1', 'type r = record case b: integer of 1: (c: integer); 2: (d: char) end;', 'zziv := 1'),
 ('type r = record case b: boolean of true: (c: integer); 2: (d: char) end;', 'zziv := 1', 'type r = record case b: boolean of true: (c: integer); false: (d: char) end;', 'zziv := 1'),
 ('const k = 5 div 0;', 'zziv := 1', 'const k = 5 div 2;', 'zziv := 1'),
 ('const k = 5 mod 0;', 'zziv := 1', 'const k = 5 mod 2;', 'zziv := 1'),
 ('const k = not 2.5;', 'zziv := 1', 'const k = not true;', 'zziv := 1'),
 ("const k = -'a';", 'zziv := 1', 'const k = -1;', 'zziv := 1'),
 ('const k = -true;', 'zziv := 1', 'const k = not true;', 'zziv := 1'),
 ('const k = -zza1;', 'zziv := 1', 'const k = zza1;', 'zziv := 1'),
 ("const k = 'a' * 2;", 'zziv := 1', 'const k = 3 * 2;', 'zziv := 1'),
 ("const k = 'a' - 'b';", 'zziv := 1', 'const k = 3 - 2;', 'zziv := 1'),
 ('const k = 1.5 div 2.0;', 'zziv := 1', 'const k = 1.5 / 2.0;', 'zziv := 1'),
 ('const k = 1.5 mod 2;', 'zziv := 1', 'const k = 5 mod 2;', 'zziv := 1'),
 ("const k = succ(3, 'a');", 'zziv := 1', 'const k = succ(3, 2);', 'zziv := 1'),
 ('const k = pred(3, 2.5);', 'zziv := 1', 'const k = pred(3, 2);', 'zziv := 1'),
 ("const k = chr('a');", 'zziv := 1', 'const k = chr(65);', 'zziv := 1'),
 ('const k = ord(1.5);', 'zziv := 1', "const k = ord('a');", 'zziv := 1'),
 ("const k = ord('a', 'b');", 'zziv := 1', "const k = ord('a');", 'zziv := 1'),
 ('const k = length(3);', 'zziv := 1', "const k = length('abc');", 'zziv := 1'),
 ('const k = succ();', 'zziv := 1', 'const k = succ(1);', 'zziv := 1'),
 ('const k = true + 1;', 'zziv := 1', 'const k = 1 + 1;', 'zziv := 1'),
 ('const k = 1 and 2.5;', 'zziv := 1', 'const k = 1 and 2;', 'zziv := 1'),
 ('const k = 2 pow 2.5;', 'zziv := 1', 'const k = 2 pow 3;', 'zziv := 1'),
 ("const k = [1, 'a'];", 'zziv := 1', 'const k = [1, 2];', 'zziv := 1'),
 ("const k = 1.0 / 0.0 + 'x';", 'zziv := 1', 'const k = 1.0 / 2.0;', 'zziv := 1'),
 ('const k = zza1 + 1;', 'zziv := 1', 'const k = succ(zza1);', 'zziv := 1'),
 ('const k = zzvint;', 'zziv := 1', 'const k = zzk;', 'zziv := 1'),
 ('const k = zzea;', 'zziv := 1', 'const k = zza2;', 'zziv := 1'),
 ('const k = k + 1;', 'zziv := 1', 'const k = zzk + 1;', 'zziv := 1'),
 ('var a: array [1..zzvint] of integer;', 'zziv := 1', 'var a: array [1..zzk] of integer;', 'zziv := 1'),
 ('var a: string[zzvint];', 'zziv := 1', 'var a: string[zzk];', 'zziv := 1'),
 ("var a: string['a'];", 'zziv := 1', 'var a: string[3];', 'zziv := 1'),
 ('var a: string[0];', 'zziv := 1', 'var a: string[1];', 'zziv := 1'),
 ('var a: 1..zzvint;', 'zziv := 1', 'var a: 1..zzk;', 'zziv := 1'),
 ('type t = 1..2.5;', 'zziv := 1', 'type t = 1..2;', 'zziv := 1'),
 ('type t = zza3..zza1;', 'zziv := 1', 'type t = zza1..zza3;', 'zziv := 1'),
 ('type t = zza1..zzb2;', 'zziv := 1', 'type t = zzb1..zzb2;', 'zziv := 1'),
 ("type t = 'z'..'a';", 'zziv := 1', "type t = 'a'..'z';", 'zziv := 1'),
 ('type t = true..5;', 'zziv := 1', 'type t = false..true;', 'zziv := 1'),
 ('var a: type of zznovar;', 'zziv := 1', 'var a: type of zzvint;', 'zziv := 1'),
 ('var a: type of zzea;', 'zziv := 1', 'var a: type of zzvena;', 'zziv := 1'),
 ('type s(n: integer) = array [1..n] of char; var a: s;', 'zziv := 1', 'type s(n: integer) = array [1..n] of char; var a: s(5);', 'zziv := 1'),
 ('type s(n: integer) = array [1..n] of char; var a: s(5, 6);', 'zziv := 1', 'type s(n: integer) = array [1..n] of char; var a: s(5);', 'zziv := 1'),
 ('type s(n: integer) = array [1..m] of char; var a: s(5);', 'zziv := 1', 'type s(n: integer) = array [1..n] of char; var a: s(5);', 'zziv := 1'),
 ('var a: array [1..3] of integer value [1: 5; otherwise 1; otherwise 0];', 'zziv := 1', 'var a: array [1..3] of integer value [1: 5; otherwise 0];', 'zziv := 1'),
 ("var a: array [1..3] of integer value [1: 'a'; otherwise 0];", 'zziv := 1', 'var a: array [1..3] of integer value [1: 5; otherwise 0];', 'zziv := 1'),
 ('var a: array [1..3] of integer value [5: 1; otherwise 0];', 'zziv := 1', 'var a: array [1..3] of integer value [3: 1; otherwise 0];', 'zziv := 1'),
 ("var a: array [1..3] of integer value ['a': 1; otherwise 0];", 'zziv := 1', 'var a: array [1..3] of integer value [3: 1; otherwise 0];', 'zziv := 1'),
 ('var a: zzr1 value [x: 1; z: 2];', 'zziv := 1', "var a: zzr1 value [x: 1; y: 'b'];", 'zziv := 1'),
 ("var a: zzr1 value [x: 'a'; y: 'b'];", 'zziv := 1', "var a: zzr1 value [x: 1; y: 'b'];", 'zziv := 1'),
 ('var a: zzr1 value 5;', 'zziv := 1', "var a: zzr1 value [x: 1; y: 'b'];", 'zziv := 1'),
 ('var a: zzsub value 20;', 'zziv := 1', 'var a: zzsub value 5;', 'zziv := 1'),
 ('var a: zzea value zzb1;', 'zziv := 1', 'var a: zzea value zza1;', 'zziv := 1'),
 ('var a: char value 5;', 'zziv := 1', "var a: char value 'b';", 'zziv := 1'),
 ('var a: boolean value 1;', 'zziv := 1', 'var a: boolean value true;', 'zziv := 1'),
 ("var a: real value 'a';", 'zziv := 1', 'var a: real value 2.5;', 'zziv := 1'),
 ('var a: string[5] value 5;', 'zziv := 1', "var a: string[5] value 'abc';", 'zziv := 1'),
 ('var a: ^integer value 5;', 'zziv := 1', 'var a: ^integer value nil;', 'zziv := 1'),
 ("var a: zzsi value ['a'];", 'zziv := 1', 'var a: zzsi value [1];', 'zziv := 1'),
 ('var a: integer value zzvint;', 'zziv := 1', 'var a: integer value zzk;', 'zziv := 1'),
 ('var a: array [1..2, 1..2] of integer;', 'for zziv in a do zzvint := 1', 'var a: array [1..2] of integer;', 'for zziv in a do zzvint := 1'),
 ('', 'case zziv of 1: zzvint := 1; otherwise zzvint := 2; otherwise zzvint := 3 end', '', 'case zziv of 1: zzvint := 1; otherwise zzvint := 2 end'),
 ('', 'case zziv of 1: zzvint := 1; otherwise: zzvint := 2; 3: zzvint := 3 end', '', 'case zziv of 1: zzvint := 1; 3: zzvint := 3; otherwise zzvint := 2 end'),
 ('', "case zzvchar of 'a': zzvint := 1; 3: zzvint := 3 end", '', "case zzvchar of 'a': zzvint := 1; 'c': zzvint := 3 end"),
 ('', 'case zziv of 1.5: zzvint := 1 end', '', 'case zziv of 1: zzvint := 1 end'),
 ('', "case zzvsub of 'a': zzvint := 1 end", '', 'case zzvsub of 1: zzvint := 1 end'),
 ('label 5;', '5: zziv := 1; 5: zziv := 2; goto 5', 'label 5, 6;', '5: zziv := 1; 6: zziv := 2; if zzvbool then goto 5'),
 ('label 5;', 'goto 5', 'label 5;', 'goto 5; 5: zziv := 1'),
 ('', '5: zziv := 1', 'label 5;', '5: zziv := 1; if zzvbool then goto 5'),
 ('label 5, 5;', 'zziv := 1', 'label 5, 6;', 'zziv := 1'),
 ('label x;', 'zziv := 1', 'label 7;', 'zziv := 1'),
 ('procedure f(protected a: integer); begin zzvarint(a) end;', 'zziv := 1', 'procedure f(a: integer); begin zzvarint(a) end;', 'zziv := 1'),
 ('procedure f(protected a: integer); begin read(a) end;', 'zziv := 1', 'procedure f(a: integer); begin read(a) end;', 'zziv := 1'),
 ('procedure f(protected a: integer); begin inc(a) end;', 'zziv := 1', 'procedure f(a: integer); begin inc(a) end;', 'zziv := 1'),
 ('procedure f(protected a: integer); begin for a := 1 to 3 do end;', 'zziv := 1', 'procedure f(a: integer); begin for a := 1 to 3 do end;', 'zziv := 1'),
 ('procedure f(protected a: zzpi); begin new(a) end;', 'zziv := 1', 'procedure f(a: zzpi); begin new(a) end;', 'zziv := 1'),
 ('procedure f(protected a: zzr1); begin with a do x := 1 end;', 'zziv := 1', 'procedure f(a: zzr1); begin with a do x := 1 end;', 'zziv := 1'),
 ('procedure f(protected a: zzr1); begin zzvarint(a.x) end;', 'zziv := 1', 'procedure f(a: zzr1); begin zzvarint(a.x) end;', 'zziv := 1'),
 ('procedure f(protected var a: integer); procedure g; begin a := 1 end; begin g end;', 'zziv := 1', 'procedure f(var a: integer); procedure g; begin a := 1 end; begin g end;', 'zziv := 1'),
 ("procedure f(protected a: zzstr); begin writestr(a, 'x') end;", 'zziv := 1', "procedure f(a: zzstr); begin writestr(a, 'x') end;", 'zziv := 1'),
 ("procedure f(protected a: zzstr); begin a[1] := 'x' end;", 'zziv := 1', "procedure f(a: zzstr); begin a[1] := 'x' end;", 'zziv := 1'),
 ("procedure f(protected a: integer); begin readstr('12', a) end;", 'zziv := 1', 'procedure f(a: integer); begin readstr(zzvstr, a) end;', 'zziv := 1'),
 ("procedure f(protected a: integer); begin val('12', a) end;", 'zziv := 1', "procedure f(a: integer); begin val('12', a) end;", 'zziv := 1'),
 ('procedure f(protected a: zzai); begin a[1] := 2 end;', 'zziv := 1', 'procedure f(a: zzai); begin a[1] := 2 end;', 'zziv := 1'),
 ('procedure f(protected a: zzai); begin zzvararri(a) end;', 'zziv := 1', 'procedure f(a: zzai); begin zzvararri(a) end;', 'zziv := 1'),
 ('procedure f(protected a: integer); begin for a in [1, 2] do end;', 'zziv := 1', 'procedure f(a: integer); begin for a in [1, 2] do end;', 'zziv := 1'),
 ('', 'zzvarint(zzk)', '', 'zzvarint(zziv)'),
 ('', 'inc(zzk)', '', 'inc(zziv)'),
 ('', 'for zzk := 1 to 2 do', '', 'for zziv := 1 to 2 do'),
 ('', 'read(zzk)', '', 'read(zziv)'),
 ('', 'readstr(zzvstr, zzk)', '', 'readstr(zzvstr, zziv)'),
 ('', 'zzk := 3', '', 'zziv := 3'),
 ('', "val('1', zzk)", '', "val('1', zziv)"),
 ('', "zzks[1] := 'a'", '', "zzvstr[1] := 'a'"),
 ('const zzar = zzai[1: 5; otherwise 2];', 'zzar[2] := 3', 'const zzar2 = zzai[1: 5; otherwise 2];', 'zziv := zzar2[2]'),
 ("const zzcc = zzr1[x: 5; y: 'a'];", 'zzcc.x := 3', "const zzcc = zzr1[x: 5; y: 'a'];", 'zziv := zzcc.x'),
 ('procedure q(function f(a: integer): integer; procedure g); begin end;', 'q(zzp0, zzf1)', 'procedure q(function f(a: integer): integer; procedure g); begin end;', 'q(zzf1, zzp0)'),
 ('procedure q(function f(a: integer): char); begin end;', 'q(zzf1)', 'procedure q(function f(a: integer): integer); begin end;', 'q(zzf1)'),
 ('procedure q(function f(a, b: integer): integer); begin end;', 'q(zzf1)', 'procedure q(function f(a: integer): integer); begin end;', 'q(zzf1)'),
 ('procedure q(function f(var a: integer): integer); begin end;', 'q(zzf1)', 'procedure q(function f(a: integer): integer); begin end;', 'q(zzf1)'),
 ("procedure q(function f(a: integer): integer); begin zziv := f('a') end;", 'zziv := 1', 'procedure q(function f(a: integer): integer); begin zziv := f(1) end;', 'zziv := 1'),
 ('procedure q(function f(a: integer): integer); begin zziv := f(1, 2) end;', 'zziv := 1', 'procedure q(function f(a: integer): integer); begin zziv := f(1) end;', 'zziv := 1'),
 ('procedure q(procedure f(a: integer)); begin zziv := f(1) end;', 'zziv := 1', 'procedure q(procedure f(a: integer)); begin f(1) end;', 'zziv := 1'),
 ('procedure q(a: array [l..h: integer] of integer); begin end;', 'q(zzvarrr)', 'procedure q(a: array [l..h: integer] of integer); begin end;', 'q(zzvarri)'),
 ('procedure q(a: array [l..h: integer] of integer); begin end;', 'q(zzm)', 'procedure q(a: array [l..h: integer] of integer); begin end;', 'q(zzvarri)'),
 ('procedure q(a: array [l..h: integer] of integer); begin l := 3 end;', 'zziv := 1', 'procedure q(a: array [l..h: integer] of integer); begin zziv := l end;', 'zziv := 1'),
 ('procedure q(var a: real); begin end;', 'q(zziv)', 'procedure q(a: real); begin end;', 'q(zziv)'),
 ('procedure q(var a: longint); begin end;', 'q(zziv)', 'procedure q(a: longint); begin end;', 'q(zziv)'),
 ('procedure q(var a: complex); begin end;', 'q(zzvreal)', 'procedure q(a: complex); begin end;', 'q(zzvreal)'),
 ('var g: text;', 'g := zzvtext', '', 'zziv := 2'),
 ('var g: file of char; h: file of integer;', 'g := h', '', 'zziv := 2'),
 ('procedure q; var x: integer; begin x := 1 end; procedure q2; begin x := 2 end;', 'zziv := 1', 'procedure q; var x: integer; begin x := 1 end; procedure q2; var x: integer; begin x := 2 end;', 'zziv := 1'),
 ('procedure q; procedure inner; begin end; begin inner end; procedure q2; begin inner end;', 'zziv := 1', 'procedure q; procedure inner; begin end; begin inner end; procedure q2; begin q end;', 'zziv := 1'),
 ("function f: integer; begin f := 'a' end;", 'zziv := 1', 'function f: integer; begin f := 1 end;', 'zziv := 1'),
 ('function f: integer; begin f := 1 end;', 'f := 3', 'function f: integer; begin f := 1 end;', 'zziv := f'),
 ('procedure f; begin end;', 'if f then zziv := 1', 'function f: boolean; begin f := true end;', 'if f then zziv := 1'),
 ('function f = r: integer; begin r := 1 end;', 'r := 3', 'function f = r: integer; begin r := 1 end;', 'zziv := f'),
 ('type t = t;', 'zziv := 1', 'type t = integer;', 'zziv := 1'),
 ('type a = ^b;', 'zziv := 1', 'type a = ^b; b = integer;', 'zziv := 1'),
 ('type zzd = packed integer;', 'zziv := 1', 'type zzd = packed array [1..2] of integer;', 'zziv := 1'),
 ('type t = set of zzr1;', 'zziv := 1', 'type t = set of zzea;', 'zziv := 1'),
 ('type t = set of -1000..1000;', 'zziv := 1', 'type t = set of -10..10;', 'zziv := 1'),
 ('', 'zzvint := zzvi64^', '', 'zzvi64 := zzvint'),
 ('', 'with zzvint do', '', 'with zzvrec do zziv := x'),
 ('', 'zzvcplx := zzvstr', '', 'zzvcplx := zzvint'),
 ('', 'if zzvcplx < zzvcplx then', '', 'if zzvcplx = zzvcplx then'),
 ('', 'zziv := zzvint / 2', '', 'zzvreal := zzvint / 2'),
 ('', 'zziv := 2.0', '', 'zziv := 2'),
 ('', 'zziv := zzvint ** 2', '', 'zzvreal := zzvint ** 2'),
 ('', 'zzvreal := zzvcplx', '', 'zzvcplx := zzvreal'),
 ('', 'zziv := trunc(zzvcplx)', '', 'zziv := trunc(zzvreal)'),
 ('', 'zziv := nil', '', 'zzvpi := nil'),
 ('', 'zzvpi := 0', '', 'zzvpi := nil'),
 ('', 'if zzvpi < nil then', '', 'if zzvpi = nil then'),
 ('', 'zzvpi := zzvpi + 1', '', 'zzvpi^ := zzvpi^ + 1'),
 ('', 'zzvrec := zzvrec2', '', 'zzvrec := zzbig.frec'),
 ('', 'if zzvrec = zzvrec then', '', 'if zzvrec.x = zzvrec.x then'),
 ('', 'zzvarri := 3', '', 'zzvarri[1] := 3'),
 ('', 'zzvpr^ := zzvpi^', '', 'zzvpr^.x := zzvpi^'),
 ('', 'zzvseti := zzvseti * zzvsetc', '', 'zzvseti := zzvseti * [2]'),
 ('', 'zzvena := succ(zzvenb)', '', 'zzvena := succ(zzvena)'),
 ('', 'zzvena := 1', '', 'zzvena := zza1'),
 ('', 'zzvbool := 1', '', 'zzvbool := true'),
 ('', 'zzvchar := 65', '', 'zzvchar := chr(65)'),
 ('', "zziv := 'a'", '', "zziv := ord('a')"),
 ('', 'zziv := true', '', 'zziv := ord(true)'),
 ('procedure f(protected a: zzr1); begin with a do x := 3 end;', 'zziv := 1', 'procedure f(a: zzr1); begin with a do x := 3 end;', 'zziv := 1'),
 ('procedure f(protected a: zzr1); begin with a do zzvarint(x) end;', 'zziv := 1', 'procedure f(a: zzr1); begin with a do zzvarint(x) end;', 'zziv := 1'),
 ('procedure f(protected var a: integer); begin zzvarint(a) end;', 'zziv := 1', 'procedure g(protected var b: integer); begin end; procedure f(protected var a: integer); begin g(a) end;', 'zziv := 1'),
 ('procedure f(protected a: zzpi); begin a := nil end;', 'zziv := 1', 'procedure f(protected a: zzpi); begin a^ := 3; zzvarint(a^); inc(a^); read(a^) end;', 'zziv := 1'),
 ('procedure f(protected a: zzai); begin read(a[1]) end;', 'zziv := 1', 'procedure f(protected a: zzai); begin write(a[1]) end;', 'zziv := 1'),
 ('procedure f(protected a: zzai); begin inc(a[zziv]) end;', 'zziv := 1', 'procedure f(protected a: integer); begin zzvarri[a] := 2; inc(zzvarri[a]) end;', 'zziv := 1'),
 ('procedure f(protected a: integer); procedure g; begin zzvarint(a) end; begin g end;', 'zziv := 1', 'procedure f(protected a: integer); procedure g; begin zziv := a end; begin g end;', 'zziv := 1'),
 ('procedure f(protected a: integer); procedure g; begin inc(a) end; begin g end;', 'zziv := 1', 'procedure f(a: integer); procedure g; begin inc(a) end; begin g end;', 'zziv := 1'),
 ('procedure q(a: array [l..h: integer] of integer); begin inc(h) end;', 'zziv := 1', 'procedure q(a: array [l..h: integer] of integer); begin zziv := h - l end;', 'zziv := 1'),
 ('procedure q(a: array [l..h: integer] of integer); begin zzvarint(l) end;', 'zziv := 1', 'procedure q(a: array [l..h: integer] of integer); begin for zziv := l to h do end;', 'zziv := 1'),
 ('procedure q(var a: array [l..h: integer] of integer); begin for h := 1 to 3 do end;', 'zziv := 1', 'procedure q(var a: array [l..h: integer] of integer); begin a[h] := 3 end;', 'zziv := 1'),
 ('procedure q(var a: array [l..h: integer] of integer); begin h := 3 end;', 'zziv := 1', 'procedure q(var a: array [l..h: integer] of integer); begin a[l] := h end;', 'zziv := 1'),
 ('function f: integer; begin f := 1 end; procedure g; begin f := 2 end;', 'zziv := 1', 'function f: integer; procedure g; begin f := 2 end; begin f := 1; g end;', 'zziv := 1'),
 ('type c = class procedure m; end; d = class(c) procedure m; override; end; e = class(d) end; procedure c.m; begin end; procedure d.m; begin end;', 'zziv := 1', 'type c = class procedure m; virtual; end; d = class(c) procedure m; override; end; e = class(d) procedure m; override; end; procedure c.m; begin end; procedure d.m; begin end; procedure e.m; begin end;', 'zziv := 1'),
 ("const k = ord('ab');", 'zziv := 1', "const k = ord('a');", 'zziv := 1'),
 ('const k = ord(2.0);', 'zziv := 1', 'const k = ord(zza2);', 'zziv := 1'),
 ('procedure g(function f(var a: integer): integer); begin end; procedure h(function f(a: integer): integer); begin g(f) end;', 'zziv := 1', 'procedure g(function f(a: integer): integer); begin end; procedure h(function f(a: integer): integer); begin g(f) end;', 'zziv := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'read(kar[2])', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(kar[2])'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'inc(kar[zziv])', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := kar[zziv]'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarint(kar[2])', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarint(zzvarri[2])'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarint(krc.x)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarint(zzvrec.x)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'with krc do zzvarint(x)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'with zzvrec do zzvarint(x)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "krc.y := 'b'", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(krc.y)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "kst := 'abc'", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvstr := kst'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'kse := [1]', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := kse'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'kre := 1.0', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvreal := kre'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'ken := zza1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvena := ken'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'inc(ken)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'inc(zzvena)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for ken := zza1 to zza3 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zzvena := zza1 to zza3 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for kar[1] := 1 to 2 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 2 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zzvarri[1] := 1 to 2 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 2 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zzvrec.x := 1 to 2 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 2 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zzvpi^ := 1 to 2 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 2 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "val('12', kar[1])", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "val('12', zziv)"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "val('12', zzk)", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "val('12', zziv)"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "writestr(kst, 'a')", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "writestr(zzvstr, 'a')"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'new(nil)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'new(zzvpi)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'readstr(zzvstr, zzk)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'readstr(zzvstr, zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'readstr(zzvstr, kar[1])', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'readstr(zzvstr, zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'true := false', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvbool := false'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zza1 := zza2', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvena := zza2'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'maxint := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := maxint'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'integer := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'writeln := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'writeln'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'inc(true)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'inc(zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'dec(zza2)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'dec(zzvena)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'inc(zzvreal)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'inc(zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'inc(zzvstr)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'inc(zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", '3 := zziv', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "'a' := zzvchar", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvchar := 'a'"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", '(zziv) := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv + 1 := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzf1(3) := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zzf1(3)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", '-zziv := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := -3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", '[1] := zzvseti', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := [1]'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'nil := zzvpi', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvpi := nil'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzp0 := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzp0'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'kar := kar', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := kar[1]'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'krc := zzvrec', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvrec := zzvrec'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zziv then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zziv = 1 then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'while zzvpi do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'while zzvpi <> nil do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'repeat until zzvseti', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'repeat until zzvseti = zzvseti'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvseti <= 3 then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvseti <= [3] then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvrec = zzvrec then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvrec.x = zzvrec.x then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvarri = zzvarri then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvarri[1] = zzvarri[2] then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvpi < zzvpi then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvpi = zzvpi then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvfilei = zzvfilei then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zziv = zziv then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvena = zzvenb then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvena = zzvena then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvchar = 65 then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "if zzvchar = 'A' then"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvbool = 1 then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvbool = true then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "if 'abc' = 3 then", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "if 'abc' = 'abd' then"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvpi = zzvpr then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvpi = nil then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zziv in 3 then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zziv in [3] then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "if 'a' in [1] then", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if 1 in [1] then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvreal in [1] then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zziv in [1] then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvena in [zzb1] then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvena in [zza1] then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "if zziv in [1..'a'] then", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zziv in [1..2] then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if not zzvstr then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if not zzvbool then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zziv and zzvbool then', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvbool and zzvbool then'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zziv and zzvbool', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zziv and zziv'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zziv div 2.0', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zziv div 2'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 5 mod zzvreal', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 5 mod 2'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zzvreal', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvreal := zziv'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zziv / 2', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvreal := zziv / 2'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvchar := zzvstr', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvstr := zzvchar'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvchar := 'ab'", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvchar := 'a'"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvbool := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvbool := true'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvena := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvena := zza1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvena := zzb1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvena := zza1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvstr := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvstr := '3'"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvstr := zzvstr + 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvstr := zzvstr + '3'"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvstr := zzvstr - 'a'", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvstr := zzvstr + 'a'"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := [zza1]', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := [1]'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := [3]'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := [1.5]', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := [1]'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := zzvseti + 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvseti := zzvseti + [3]'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvpi := zzvpr', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvpi := nil'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvpi := zzvint', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvpi^ := zzvint'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvrec := zzvarri', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvrec.x := zzvarri[1]'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri := zzvrec', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri := zzvarri'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvrec := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvrec.x := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1] := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvarri['a'] := 1", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1] := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1.5] := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1] := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[zzvbool] := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1] := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1, 2] := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1] := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1][2] := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1] := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvint[1] := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1] := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvint.x := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvrec.x := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvint^ := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvpi^ := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvrec.zzz := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvrec.x := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvpi^.x := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvpi^ := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvrec^.x := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvpr^.x := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzf1 := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zzf1(1)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zzp0', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzp0'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zzf1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zzf1(1)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzp0(3)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzp0'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzf1('a')", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zzf1(1)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvrec)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvrec.x)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvseti)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvpi)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvpi^)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "write(zziv:'a')", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zziv:3)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zziv:1.5)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zziv:3)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "write(zzvreal:3:'a')", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvreal:3:1)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zziv:3:2)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zziv:3)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvchar:3:2)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvchar:3)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvbool:3:1)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvbool:3)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvtext, zzvrec)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvtext, zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "write(zzvfilei, 'a')", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvfilei, 3)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'read(zzvfilei, zzvchar)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'read(zzvfilei, zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'readln(zzvfilei, zziv)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'read(zzvfilei, zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'writeln(zzvfilei, 3)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvfilei, 3)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "write(zzvfilei, 3, 'x')", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'write(zzvfilei, 3)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvfilei^ := 'a'", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvfilei^ := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'read(zzvena)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'read(zziv)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zzvreal of 1: end', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 1: end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "case zzvstr of 'a': end", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "case zzvchar of 'a': end"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "case zziv of 'a': end", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 1: end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 1: 1.5: end', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 1: ; 2: end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zzvena of zzb1: end', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zzvena of zza1: end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of zzvint: end', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of zzk: end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 1, 1: end', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 1, 2: end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "case zzvchar of 'a'..'f', 'c': end", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "case zzvchar of 'a'..'f', 'g': end"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 5..3: end', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 3..5: end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zzvbool of 1: end', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zzvbool of true: end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zzvreal := 1 to 2 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 2 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1.0 to 2 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 2 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "for zziv := 1 to 'a' do", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 2 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "for zzvchar := 'a' to 3 do", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "for zzvchar := 'a' to 'b' do"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "for zzvstr := 'a' to 'b' do", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "for zzvchar := 'a' to 'b' do"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv in [zza1] do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zzvena in [zza1] do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv in 3 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv in [3] do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zzvchar in zzvarri do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv in zzvarri do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zzf1 := 1 to 2 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 2 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'with zzvarri do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'with zzvrec do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'with zzvpr do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'with zzvpr^ do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'goto 77', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 77'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", '77: zziv := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'begin zziv := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'begin zziv := 1 end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvbool zziv := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvbool then zziv := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'while zzvbool zziv := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'while zzvbool do zziv := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv = 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := ', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1 +', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1 + 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := (1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := (1)'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := * 2', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1 * 2'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1 2', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 12'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1 := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[1] := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvchar := 'a", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvchar := 'a'"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'repeat zziv := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'repeat zziv := 1 until true'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 1: zziv := 2', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'case zziv of 1: zziv := 2 end'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 1 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to do', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'for zziv := 1 to 1 do'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'else zziv := 1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvbool then else zziv := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvbool then zziv := 1; else zziv := 2', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'if zzvbool then zziv := 1 else zziv := 2'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zznone', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zziv'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zznone', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzp0'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zznone(3)', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzp0'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zznone[3]', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zzvarri[3]'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zznone.x', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := zzvrec.x'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 99999999999999999999999', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 99999'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 3ab', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvreal := 1e', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvreal := 1e1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := $', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := $f'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 2#12', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 2#11'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 37#1', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 36#1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := #', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1 ? 2', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zziv := 1 + 2'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvint :=: 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvint := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'with krc do x := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'with zzvrec do x := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "kst[1] := 'x'", "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", "zzvstr[1] := 'x'"),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'kar[zziv] := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[kar[1]] := 3'),
 ("const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'kar[kar[1]] := 3', "const kar = zzai[1: 5; otherwise 2]; krc = zzr1[x: 5; y: 'a']; kst = 'hello'; kse = [1, 3]; kre = 2.5; ken = zza2;", 'zzvarri[kar[kar[1]]] := 3'),
]
