"""Writes MANIFEST.json for the checks that exist; properties without a check are listed as not yet claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "differential execution of generated expression programs against a reference interpreter and value tables",
 "C02": "trace monitoring of generated statement programs against a reference interpreter and loop/case tables",
 "C03": "cross-option differential monitoring of generated programs",
 "C04": "execution monitoring of generated routine programs against models of binding and closures",
 "C05": "execution monitoring of generated set programs against mathematical sets",
 "C06": "execution monitoring of generated string programs against a byte-sequence model",
 "C07": "execution monitoring of formatted output against an exact formatter model",
 "C08": "execution monitoring of text input programs over generated files against a text-file model",
 "C09": "history monitoring of generated file-operation sequences against a file model, including bytes on disk",
 "C10": "execution monitoring of generated storage operations against a cell model",
 "C11": "differential execution of constant definitions against run-time evaluation and a model",
 "C12": "execution monitoring of injected in-range and out-of-range accesses under -Cr",
 "C13": "monitoring compiler verdicts on valid programs with one injected error",
 "C14": "metamorphic monitoring: equivalent respellings of a program must behave identically",
 "C15": "repeated compilation under perturbed environments with byte comparison and file-system monitoring",
 "C16": "execution monitoring of generated class hierarchies against a dispatch model",
 "C17": "execution monitoring of complex arithmetic against an algebra model",
 "C18": "execution monitoring of numeric functions against reference values; sequence checking of random",
 "C19": "AddressSanitizer/UBSan runtime library and instrumented programs under hostile data",
 "C20": "LLVM verifier, independent back end and DWARF verifier as monitors over every emitted module",
 "C21": "metamorphic monitoring: program split into units must behave like the single-file program",
 "C22": "execution monitoring of initial values and schema types against a value model",
 "C23": "AddressSanitizer/UBSan compiler over valid and mutated sources with exit-status consistency monitor",
 "C24": "process monitoring of exit status, delivered output and arguments",
}
N = "Sampled exploration: each run observes freshly generated programs (seeded) on the real compiler and runtime; holds for what was observed. Trusts the model/oracle in /verif/lib and /verif/checks, gcc/clang/LLVM and the C library."
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py" % i, thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % i,
                           technique=T[i], level="exploration", level_note=N))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet: its runtime monitor is still being built")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check rebuilds the compiler and runtime from /repo's working tree in a private scratch directory. No hooks were added to /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
