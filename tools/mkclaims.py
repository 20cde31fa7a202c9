import json
T = "contract-based deductive verification of the real C++ functions (own VC generator over clang's AST of the current sources; z3 and algebraic normal forms discharge every obligation)"
N = "contracts on the real functions, every obligation re-derived and discharged per run; functions listed in the evidence as 'bounded' are proved for explicit matrices up to 3x3 only; functions listed as not proved are covered by the bounded concrete check (random terms, real library against an independent evaluator), which is never counted as proved. Doubles are treated as reals, ints as integers."
c = {}
for i in ['S01', 'S02', 'S03', 'S04', 'S05']:
    c[i] = {"technique": T, "level": "proof", "note": N}
c['S07'] = {"technique": T, "level": "proof", "note": "operator== of every class and of expression pointers, is_Zero and is_One: true implies equal dimensions and value, for operands of any kind; operator< of every class and of expression pointers: never both ways, and neither way only between equal expressions (relational contracts). Explicit matrices up to 3x3, sums and products up to three operands a side ('bounded' in the evidence). Names identify symbols (assumed). " + N}
c['S08'] = {"technique": T, "level": "proof", "note": "subs of every class: the result is the expression with the symbol bound to the new value (a homomorphism through every operation), the new value having the dimensions of the symbol; Jacobians are not covered; in-place replacement in the graph (subs with one argument) by the bounded check. Names identify symbols (assumed). " + N}
S6 = "contract-based deductive verification of the real C++ functions (storage of matrices: heapvc, unbounded sizes, invariants on the element loops; constructors: cxxvc), with a bounded concrete stand-in for the functions out of reach"
c['S06'] = {"technique": S6, "level": "proof", "note": "element access, bounds, constructors from lists, fill, transpose, sums, products, division, negation of Matrix and SymmetricMatrix for matrices of every size; Matrix::der, simplify, comparison and the operators with a general expression on the left rest on the bounded check (every operation against a plain array model, sizes up to 4), which is never counted as proved. Elements are reals."}
c['C01'] = {"technique": "bounded concrete check of the real printers: random expressions are printed, the text is read back with the grammar of the target language and evaluated; contracts on the printer functions are being added", "level": "exploration", "note": "eight printers; texts of random expressions (depth <= 4, sizes <= 4) parsed by grammars of C, FMU-C, C#, Fortran, Matlab, MatlabSym, Modelica and Python written for this check (cxxvc/lang.py)"}
P = "contract-based deductive verification of the real Python functions (own verifier pyvc: the sources of /repo/pymbs are executed on generic symbolic arguments with the contracts of the symbolic library, every postcondition is discharged as an identity of terms over GF(2^61-1))"
PN = "floats treated as reals; equalities decided by polynomial identity testing (error probability < 2^-40 per obligation); library functions by contract (S01-S08). Contracts marked bounded in the evidence hold for the listed topologies only, for all states and parameters."
for i in ['K01', 'K02', 'K03']:
    c[i] = {"technique": P, "level": "proof", "note": PN}
for i in ['K04', 'K05']:
    c[i] = {"technique": P + ", topologies bounded", "level": "exploration", "note": PN + " The trees of joints, loads and loops are enumerated up to a bound (thorough: random trees and loads in addition)."}
G = "bounded stand-in: random systems installed with the real library, its results executed and compared with an independent evaluation of the model; contracts on the functions are being added"
H = "contract-based deductive verification of the real C++ functions over an unbounded heap (heapvc: own VC generator over clang's AST of the current sources; invariants on loops, contracts at calls, obligations discharged by z3), with a bounded concrete stand-in (random systems) for the functions out of reach"
c['G01'] = {"technique": H, "level": "proof", "note": "the chain from the dependency edges to the emitted order is under contract (findParentsSymbols, findParentsNodes, buildGraph, depth-first search, sort, getAssignments, Assignments, getEquations): proved for every graph; what an expression mentions (findSymbols) for every expression; simplification and optimisation passes before it: random systems of states, equations, solves, parameters, sensors; order, completeness and refusal of cycles"}
c['G02'] = {"technique": G, "level": "exploration", "note": "values of the assignments with and without graph optimizations, whole and in scalars"}
c['C02'] = {"technique": G, "level": "exploration", "note": "files of the Python, C, Fortran and FMU writers and their Python wrappers (executed), of the Matlab and Modelica writers with their options (interpreted) at two points; the C# writer is not covered (see DESIGN.md)"}
na = {}
json.dump({"claims": c, "na": na, "notes": "see DESIGN.md"}, open('/verif/tools/claims.json', 'w'), indent=1)
