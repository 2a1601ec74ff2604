#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for titles, statements and anchors)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "Ordinal and real expressions compute their Pascal value",
 "For every well-typed expression over integer, longint, char, boolean, enumerated, subrange and real operands whose evaluation stays in range, the compiled program yields the value Pascal defines: operator precedence and left associativity, integer/longint/real promotion, truncating div with matching mod, signed and char/boolean/enum comparisons, bitwise and shift operators, short-circuit and_then/or_else, ** and pow, and the ordinal and arithmetic functions (ord, chr, succ, pred, odd, abs, sqr, sign, min, max, popcnt, trunc, round, frac). It does so alike at every optimisation level and for both target widths, wherever the operands live (literal, constant, global, local, parameter, array element, record field).",
 ["inputs", "programs", "configurations"],
 "all well-typed in-range expression trees, all operand values, operand storage kinds, -O0..-O3, -m32/-m64",
 "The 150 sample programs evaluate a few hundred fixed expressions on fixed small operands; operator/type/width/storage combinations and operand values are unbounded.",
 ["expr.cpp", "builtin.cpp", "semantics.cpp", "parser.cpp", "token.cpp", "types.cpp"],
 [("binary and unary expression code generation", "expr.cpp BinaryExprAST::CodeGen, UnaryExprAST::CodeGen"),
  ("precedence climbing parser", "parser.cpp ParseBinOpRHS; token.cpp precedence table"),
  ("implicit conversions", "semantics.cpp TypeCheckVisitor; expr.cpp TypeCastAST"),
  ("arithmetic builtins", "builtin.cpp FunctionAbs/Sqr/Odd/Round/Trunc/Succ/Pred/Min/Max/Sign")])

prop("C02", "Statements execute in the order and number Pascal prescribes",
 "For every program built from assignment, if/else, while, repeat, for to/downto (over any ordinal type and any bounds, including empty and full-range loops), for-in over arrays and sets, case (values, lists, ranges, otherwise), with, compound statements and goto within a block, the sequence of executed statements and the resulting variable values are those of Pascal's semantics: loop bounds are evaluated once, exactly one case branch runs, and dangling else binds to the nearest if. Nothing else is executed and nothing is skipped, at any optimisation level.",
 ["programs", "inputs", "configurations"],
 "all terminating structured programs over the listed statements, nested to any depth, all optimisation levels and widths",
 "Tests contain one or two hand-written shapes per statement; nesting, bounds at the ends of a type, sparse or wide case ranges and control flow inside conditions are not enumerated.",
 ["expr.cpp", "parser.cpp", "semantics.cpp"],
 [("statement code generation", "expr.cpp IfExprAST, ForExprAST, WhileExprAST, RepeatExprAST, CaseExprAST, LabelExprAST, GotoAST, WithExprAST"),
  ("statement parsing", "parser.cpp ParseStatement, ParseForExpr, ParseCaseExpr, ParseIfExpr")])

prop("C03", "Compilation options never change what a program does",
 "A program whose behaviour Pascal defines produces byte-identical output and the same exit status under every combination of -O0, -O1, -O2, -O3, -g, -no-memcpy, -Cr, -callgraph, -std=none and -m32/-m64. The only permitted differences are explicit size queries and what files or diagnostics the option itself asks for.",
 ["programs", "configurations"],
 "all defined programs x the full option cross product",
 "The test suite runs fixed programs under option sets but never -O3, -no-memcpy, -callgraph or -std, and only programs small enough that most optimisations, aggregate copies and ABI paths are never exercised.",
 ["lacsap.cpp", "expr.cpp", "binary.cpp", "types.cpp", "options.h"],
 [("pass pipeline and target selection", "lacsap.cpp OptimizeModule, CreateModule; binary.cpp"),
  ("memcpy/loop choices for aggregates", "expr.cpp AssignExprAST; options.h"),
  ("ABI lowering of aggregates", "expr.cpp PrototypeAST/CallExprAST; types.cpp")])

prop("C04", "Routines bind parameters, results and enclosing variables correctly",
 "In every program, a value parameter is a private copy of its argument of any type, a var parameter is the argument itself, a protected parameter keeps its value, a function returns the value last assigned to its result, and each activation of a (mutually, deeply) recursive, forward-declared or nested routine has its own locals. A nested routine reads and writes the variables of the activations that lexically enclose it, also when several levels deep or when passed as a procedural or functional parameter, and conformant-array parameters see the bounds and elements of the actual array.",
 ["programs", "inputs", "configurations"],
 "all call graphs, nesting depths, parameter lists and argument types, recursion depths, option sets",
 "Tests fix a handful of nesting shapes and parameter lists; capture sets, aliasing between var parameters and recursion through several levels are combinatorial.",
 ["expr.cpp", "parser.cpp", "semantics.cpp", "callgraph.cpp", "stack.h", "namedobject.h"],
 [("closure construction", "callgraph.cpp BuildClosures; expr.cpp ClosureAST, TrampolineAST"),
  ("argument passing", "expr.cpp CallExprAST::CodeGen, CreateArgList, FunctionAST::CodeGen"),
  ("scoping", "stack.h; parser.cpp ParseDefinition")])

prop("C05", "Set values and operators agree with mathematical sets",
 "For every set type over integers subranges, chars or enumerations (any base range up to the supported size), constructors, union, intersection, difference, symmetric difference, membership, equality, inclusion, card, assignment, parameters and for-in iteration give exactly the members mathematics prescribes. Iteration visits each member once in ascending order, and no operation changes an operand other than its target.",
 ["inputs", "programs", "configurations"],
 "all base ranges (including word-boundary sizes and negative or offset lower bounds), all pairs of set values and elements, constant and computed constructors, option sets",
 "Tests use a few fixed small sets; errors confined to particular word boundaries, offsets or member combinations escape them.",
 ["expr.cpp", "runtime/set.c", "types.cpp", "semantics.cpp", "parser.cpp", "builtin.cpp"],
 [("set constructors and inline operators", "expr.cpp SetExprAST, BinaryExprAST::SetCodeGen/InlineSetFunc, MakeConstantSet"),
  ("runtime set operations", "runtime/set.c")])

prop("C06", "String and char-array operations match a byte-sequence model",
 "For every string value within capacity, assignment (including from chars, literals, char arrays, substrings and slices and between different capacities), concatenation, the six comparisons and their EQ/NE/LT/LE/GT/GE forms, length, capacity, copy, substr, index, trim, val, indexing, writestr and readstr give what the same operation on byte sequences gives, and the same holds for comparing and assigning fixed char arrays. A value longer than its target keeps as many leading characters as fit. Variables adjacent to the target keep their value and operands are not modified.",
 ["inputs", "programs", "configurations"],
 "all strings of length 0..255 over all byte values, all positions and lengths in range, all declared capacities, option sets",
 "Tests use a dozen short literals; empty, full-capacity, embedded high-bit and equal-prefix strings are not covered.",
 ["runtime/string.c", "runtime/assign.c", "runtime/val.c", "runtime/array.c", "expr.cpp", "builtin.cpp", "semantics.cpp"],
 [("string runtime", "runtime/string.c, runtime/assign.c, runtime/array.c, runtime/val.c"),
  ("string code generation", "expr.cpp CallStrFunc/CallStrCat/AssignStr; builtin.cpp FunctionCopy/Length/Trim/Index")])

prop("C07", "Formatted output is exactly what the write parameters ask for",
 "For every value of type integer, longint, char, boolean, enumeration, real, string or char array and every field width and fraction-digit count, write, writeln and writestr emit exactly the text Pascal specifies: right-justified in at least the given width, correctly rounded decimal fraction or exponent form for reals, literal names for booleans and enumerations. Items appear in argument order, an argument list is equivalent to the sequence of single writes, and writestr produces the same text as write.",
 ["inputs", "programs", "configurations"],
 "all values of each type (type limits, negative zero, huge and tiny reals), widths and precisions 0..255, destination output, file or string, option sets",
 "Tests check fixed lines of output; extremes of value, width and precision are not enumerated.",
 ["runtime/write.c", "expr.cpp", "parser.cpp", "semantics.cpp"],
 [("write lowering", "expr.cpp WriteAST::CodeGen; parser.cpp ParseWrite"),
  ("formatters", "runtime/write.c")])

prop("C08", "Text input is consumed exactly as Pascal prescribes",
 "For every text file content, read/readln of chars, integers, longints, reals, booleans, strings and char arrays, file^, get, eof and eoln deliver the values and positions of Pascal's text model: white space and signs before numbers skipped, reading stops at the first character that does not belong to the item, readln discards the rest of the line, the end of a line is consumed as one character. This holds whatever the line lengths and total size, including files without a final newline and items straddling internal buffer boundaries, and readstr parses a string the same way.",
 ["inputs", "programs"],
 "all byte contents of text files and standard input, all interleavings of the input operations, all sizes",
 "Tests read a few fixed small files; positions relative to the buffer size, missing final newlines and mixed read sequences are unbounded.",
 ["runtime/read.c", "runtime/fileio.c", "runtime/getput.c", "runtime/runtime.h", "expr.cpp", "builtin.cpp"],
 [("text scanner", "runtime/read.c"), ("buffering", "runtime/fileio.c, runtime/getput.c"),
  ("read lowering", "expr.cpp ReadAST::CodeGen")])

prop("C09", "Files give back exactly what was put, in order, across open and close",
 "A typed or text file that is rewritten, written (write or buffer variable with put), closed and reset yields exactly the components written, in order, then eof; append keeps the old content in front of the new; several files open at once, and files passed as var parameters, do not disturb each other; direct-access seeks position on the requested component and position/lastposition/empty report it (lastposition is the number of components). A written value is converted as in an assignment; binary files take one value per read or write. The bytes on disk are the concatenation of the component representations, and the content is complete after close or normal termination.",
 ["histories", "inputs", "programs"],
 "all sequences of assign/rewrite/reset/append/put/get/read/write/seek/close over several files and component types and sizes",
 "Tests copy two small files once; histories over several files, sizes beyond a buffer, re-opening and seeks are not explored.",
 ["runtime/fileio.c", "runtime/getput.c", "runtime/readbin.c", "runtime/writebin.c", "runtime/seek.c", "runtime/assign.c", "runtime/bind.c", "builtin.cpp"],
 [("file table and buffers", "runtime/assign.c, runtime/fileio.c, runtime/runtime.h"),
  ("component transfer", "runtime/getput.c, runtime/readbin.c, runtime/writebin.c"), ("direct access", "runtime/seek.c")])

prop("C10", "Arrays, records, variants and pointers keep independent, faithful storage",
 "For every composite type built from arrays (any ordinal index type and bounds, multi-dimensional, packed), records, variant records, pointers and their nestings, writing one component changes exactly that component, assigning a whole value copies it, and reading it back gives what was last stored. Dynamically allocated objects are distinct from one another and stay intact until disposed, pointer comparison reflects identity, and pack/unpack move exactly the prescribed elements.",
 ["programs", "inputs", "histories", "configurations"],
 "all type shapes, index values, assignment sequences, allocation/disposal histories, option sets",
 "Tests fix a few types; layout, index offset and copy errors show only for particular shapes, sizes and bounds.",
 ["types.cpp", "expr.cpp", "parser.cpp", "builtin.cpp", "runtime/alloc.c", "semantics.cpp"],
 [("type layout", "types.cpp ArrayDecl/RecordDecl/VariantDecl GetLlvmType, Size"),
  ("component addressing", "expr.cpp ArrayExprAST, FieldExprAST, VariantFieldExprAST, PointerExprAST"),
  ("allocation", "builtin.cpp FunctionNew/FunctionDispose; runtime/alloc.c")])

prop("C11", "Constant definitions denote the value their expression computes at run time",
 "Whatever constant expression defines a named constant, array bound, string size, case label or initial value (operators, parentheses, signs, named constants, constant functions, sets and strings), the value the program observes equals that of evaluating the same expression on variables at run time. Redefinition in an inner scope affects only that scope.",
 ["inputs", "programs"],
 "all constant expressions over integer, real, char, boolean, string, enumeration and set constants",
 "Tests contain a few dozen fixed constants; folding is a second evaluator whose agreement with the first has to hold for all operator/type/value combinations.",
 ["constants.cpp", "constants.h", "parser.cpp"],
 [("constant folding", "constants.cpp operator+...; parser.cpp ParseConstExpr/ParseConstTerm/ParseConstRHS"),
  ("constant functions", "constants.cpp EvalFunction")])

prop("C12", "Range checking stops exactly the out-of-range accesses",
 "Compiled with -Cr, a program that indexes an array outside its declared bounds stops at that access, before it takes effect, with a non-zero exit status and a message naming the source position. A program all of whose indices are in range behaves exactly as without -Cr.",
 ["inputs", "programs", "configurations"],
 "all array index types, bounds, dimensions, index values, reads and writes, optimisation levels and widths",
 "Every baseline test that indexes an array under -Cr fails today, so the option is untested; index values and bounds are unbounded.",
 ["expr.cpp", "semantics.cpp", "runtime/rangeerror.c", "options.h"],
 [("range check insertion", "semantics.cpp CheckArrayExpr; expr.cpp RangeCheckAST::CodeGen"),
  ("error report", "runtime/rangeerror.c")])

prop("C13", "Ill-formed programs are rejected with a diagnostic, never compiled",
 "A program that violates Pascal's static rules (syntax, undeclared or duplicate names, incompatible operand, assignment, argument or index types, wrong argument counts, assignment to constants or protected parameters, duplicate case labels, bad for variables, labels or write parameters, unresolved forward declarations of pointer types) makes the compiler print an error naming a line of the source, exit with non-zero status and produce no executable or IR file. Adding such an error to a valid program is detected wherever in the program it occurs, including inside nested routines, units and unreachable code.",
 ["programs"],
 "valid programs x error kinds x positions",
 "The suite has 41 fixed erroneous programs, each with the error in one place.",
 ["semantics.cpp", "parser.cpp", "lacsap.cpp", "types.cpp"],
 [("semantic checks", "semantics.cpp TypeCheckVisitor"), ("syntax errors", "parser.cpp Expect/Error"),
  ("exit status", "lacsap.cpp main, Compile")])

prop("C14", "Spelling that Pascal treats as equivalent compiles to the same program",
 "Changing letter case of keywords and identifiers, replacing white space by any amount of blanks, tabs, newlines or comments of any of the comment forms, using alternate symbols, writing integers in another supported base or reals in another notation, or renaming identifiers consistently leaves the compiled program's behaviour unchanged. Characters inside string and char literals are always preserved exactly.",
 ["programs", "inputs"],
 "all programs x all token-preserving respellings; all literal contents",
 "Tests are written in one layout; equivalence classes of spellings cannot be sampled by fixed files.",
 ["lexer.cpp", "token.cpp", "source.cpp", "stack.h", "builtin.cpp"],
 [("tokenizer", "lexer.cpp GetToken, StringToken, NumberToken, SkipComment"), ("case folding", "token.cpp; stack.h; utils.cpp strlower")])

prop("C15", "Compilation is a deterministic function of the source and options",
 "Compiling the same source with the same options gives byte-identical IR, object code and diagnostics every time, whatever the process address layout, environment, working directory or concurrent compilations. Compilation neither depends on nor alters any file other than the source, its units and the named outputs.",
 ["histories", "configurations", "programs"],
 "all programs x repeated runs under address-space randomisation, different directories, environments and parallel compilers",
 "Tests compile each program once per option set and never compare two compilations.",
 ["callgraph.cpp", "expr.cpp", "lacsap.cpp", "binary.cpp", "types.cpp"],
 [("iteration order of compiler containers", "callgraph.cpp; expr.cpp; stack.h"), ("output file handling", "binary.cpp; lacsap.cpp")])

prop("C16", "Method calls reach the override of the object's class",
 "For every class hierarchy, calling a virtual method runs the implementation of the most derived class of the object that overrides it, whether called directly, through a var parameter, a pointer or from an inherited method; calling a non-virtual method runs the one visible from the static type. Fields of base and derived classes occupy distinct storage, static members are shared by all objects, and self denotes the receiving object.",
 ["programs", "inputs", "configurations"],
 "all hierarchies (depth, overriding pattern, fields), receivers and call paths, option sets",
 "Tests have four fixed hierarchies of depth at most three.",
 ["types.cpp", "expr.cpp", "parser.cpp"],
 [("virtual table construction", "types.cpp ClassDecl; expr.cpp VTableAST"),
  ("dispatch", "expr.cpp VirtFunctionAST; parser.cpp MakeSelfCall")])

prop("C17", "Complex arithmetic and its functions follow complex algebra",
 "For all complex operands (and mixed complex, real and integer operands), +, -, *, /, unary minus, =, <>, pow and **, and cmplx, polar, re, im, abs, arg, sqr, sqrt, exp, ln, sin, cos and arctan give the value complex algebra prescribes to within floating-point accuracy. Complex values pass through variables, parameters, results, arrays and records unchanged.",
 ["inputs", "programs", "configurations"],
 "all finite complex operands in the functions' domains, storage kinds, option sets",
 "One test evaluates one operand pair per function.",
 ["runtime/cmath.c", "expr.cpp", "builtin.cpp", "semantics.cpp"],
 [("complex code generation", "expr.cpp complex operators"), ("complex runtime", "runtime/cmath.c")])

prop("C18", "Mathematical functions and random numbers are accurate and reproducible",
 "sqrt, sin, cos, tan, arctan, arctan2, ln, exp, real powers, round, trunc, frac, abs and the other numeric functions agree with the mathematical function to within floating-point accuracy over their domain, for real and integer arguments alike. random numbers lie in the requested range and form the same sequence in every run, option set and mixture of calls.",
 ["inputs", "programs", "configurations"],
 "all arguments in the domains, call orders and option sets",
 "Tests evaluate each function at a handful of points and check one random sequence.",
 ["builtin.cpp", "runtime/math.c", "runtime/cmath.c"],
 [("intrinsics and runtime calls", "builtin.cpp FunctionFloat/FunctionRound/FunctionTrunc/FunctionRandom"), ("generator", "runtime/math.c")])

prop("C19", "The runtime stays memory-safe on any program data",
 "Whatever the content of input files, standard input, command-line arguments, string values and file names, a program that is itself correct never makes the runtime library read or write outside the objects it was given, use an uninitialised or closed resource or hit undefined behaviour: it either works or stops with a reported error. This includes lines, numbers and strings longer than any internal limit, missing or truncated files, binary garbage and more open files than the table holds.",
 ["inputs", "fault_sequences", "histories"],
 "all input contents, lengths, arguments and I/O failure points, under address and undefined-behaviour sanitizers",
 "Tests run an unsanitized runtime on friendly inputs.",
 ["runtime/read.c", "runtime/write.c", "runtime/string.c", "runtime/assign.c", "runtime/fileio.c", "runtime/getput.c", "runtime/val.c", "runtime/params.c", "runtime/seek.c", "runtime/set.c"],
 [("bounded buffers", "runtime/runtime.h, runtime/read.c, runtime/write.c"), ("file table", "runtime/assign.c, runtime/fileio.c")])

prop("C20", "Every accepted program yields valid IR that is the program that is linked",
 "Whenever the compiler accepts a program, under any option set, it exits 0 and the IR it emits passes LLVM's verifier; building an executable from that emitted IR with an independent compiler gives a program that behaves identically to the executable produced directly. With -g the same holds and the debug information is well-formed and its line table covers the executed statements' lines, and it places each described record field where the program stores it.",
 ["programs", "configurations"],
 "all accepted programs x option sets",
 "Tests never inspect the IR or debug information and never use the IR output mode.",
 ["binary.cpp", "lacsap.cpp", "expr.cpp", "types.cpp"],
 [("object and IR emission", "binary.cpp CreateBinary"), ("debug information", "expr.cpp DebugInfo; types.cpp DebugType")])

prop("C21", "Splitting a program into units does not change its behaviour",
 "Moving types, constants, variables and routines of a program into units used by it leaves its output unchanged: exported names are visible with their types and values, unit initialisation code runs exactly once, before the main program, in order of use, and variables of a unit are shared by all its users. Names declared only in a unit's implementation stay invisible outside it.",
 ["programs", "configurations"],
 "all partitions of programs into units, chains of uses, option sets",
 "Two fixed unit tests exist, each with one unit.",
 ["parser.cpp", "expr.cpp", "runtime/main.c"],
 [("unit parsing", "parser.cpp ParseUses, ParseUnit, ParseInterface"), ("initialisation list", "expr.cpp UnitAST; runtime/main.c")])

prop("C22", "Initial values, typed constants and schema types have their declared meaning",
 "Variables, types and fields declared with a value clause start with exactly that value on every activation, for scalars, strings, sets, arrays (indices, ranges and otherwise) and records, nested in any way; structured constants and default() denote the same values. A schema type instantiated with given discriminants behaves exactly like the type written out with those values.",
 ["programs", "inputs", "configurations"],
 "all initialised type shapes, global and local, recursion, schema discriminants, option sets",
 "A dozen fixed initialisers are tested.",
 ["parser.cpp", "expr.cpp", "schema.cpp", "types.cpp"],
 [("initial values", "parser.cpp ParseInitValue; expr.cpp InitArrayAST, InitRecordAST, InitValueAST"), ("schema instantiation", "schema.cpp Instantiate")])

prop("C23", "The compiler itself runs without memory errors and fails cleanly",
 "Compiling any valid program causes no memory-safety violation or undefined behaviour in the compiler. For every input file, valid or not, the exit status tells the truth: zero means a runnable executable of this source was produced, non-zero means none was produced and a message was printed; the compiler terminates.",
 ["inputs", "programs"],
 "all source texts: generated valid programs and token-level mutations of them, under address and undefined-behaviour sanitizers",
 "Tests use an unsanitized compiler on fixed sources.",
 ["parser.cpp", "lexer.cpp", "semantics.cpp", "expr.cpp", "types.cpp", "lacsap.cpp"],
 [("error recovery", "parser.cpp Error paths"), ("driver", "lacsap.cpp main")])

prop("C24", "Programs end with the status they ask for and see their arguments",
 "halt(n) ends the program at once with status n, panic and file errors end it with a non-zero status and message, and normal completion gives status 0, in each case with all output written before that point delivered in order, to terminals, pipes and files alike. paramcount and paramstr report the actual command-line arguments (the first 255 characters of a longer one; an empty string for a number outside 0..paramcount).",
 ["inputs", "programs", "fault_sequences"],
 "all statuses, argument lists, amounts of pending output, nesting of calls and open files at termination",
 "Tests always run to completion with at most one argument.",
 ["runtime/main.c", "runtime/panic.c", "runtime/params.c", "builtin.cpp", "runtime/fileio.c"],
 [("termination", "builtin.cpp FunctionHalt/FunctionPanic; runtime/panic.c, runtime/main.c"), ("arguments", "runtime/params.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
