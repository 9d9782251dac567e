"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.

A property is claimed when mc/props/<id>.py exists; DROPPED holds the reasons
for those that are not claimed."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, level="model_checking", tech="", note="", observe=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            over=over,
            text=text,
            why=why,
            files=files,
            mech=mech,
            level=level,
            tech=tech,
            note=note,
            observe=list(observe),
        )
    )


CPY = "CPython executing the same source text is the oracle."
EXH = "bounded exhaustive enumeration of programs and inputs, executed on the real compiler and CEK machine, "

p(
    "C01",
    "Operators and comparisons compute what Python computes",
    "For every expression built from integers, booleans, bytes, strings, None, lists, dicts and data classes with the unary, binary, comparison (including chained, `in`, `is`) and boolean operators, that compiles, the compiled script returns the value CPython returns on the same inputs, and fails exactly when CPython raises. Operand type combinations that are supported stay supported.",
    ["programs", "inputs"],
    "all operator x operand-type combinations and operator nestings up to depth 2, on a boundary alphabet of values for every operand",
    "The tests sample some operators with hypothesis integers; the sign and size cases of //, %, **, shifts, the mixed bool/int cases, negative repeat counts, comparisons of nested values and the operator x type matrix are never covered as a whole.",
    ["opshin/type_impls.py", "opshin/compiler.py", "opshin/type_inference.py"],
    [("per-type implementation of binary operators, comparisons, unary operators", "opshin/type_impls.py:_binop_bin_fun,cmp,_unop_fun"), ("expression compilation", "opshin/compiler.py:visit_BinOp,visit_Compare,visit_BoolOp,visit_UnaryOp")],
    tech=EXH + "compared with CPython",
    note=CPY + " Exhaustive within the stated alphabets of types, operators and values; the CEK machine (uplc) and CPython are trusted.",
)
p(
    "C02",
    "Conversions, builtin functions and text formatting agree with Python",
    "int(), str(), bool(), bytes(), len, range, sum, min, max, abs, pow, all, any, chr, ord, hex, oct, bin, reversed, enumerate, print, isinstance, the methods of str and bytes, and f-strings return what CPython returns for the same arguments, and fail exactly when CPython raises.",
    ["inputs", "programs"],
    "every supported builtin and method on all strings/bytes up to a length over an alphabet of significant characters, and all boundary integers; text forms of all values up to nesting depth 3",
    "The tests sample each builtin with random input; malformed numerals, separators, signs, escapes, empty inputs and nested text forms are found only by enumerating all short inputs over the significant characters.",
    ["opshin/fun_impls.py", "opshin/type_impls.py", "opshin/std/builtins.py", "opshin/rewrite/rewrite_inject_builtins.py"],
    [("constructors int/str/bytes/bool and stringify", "opshin/type_impls.py:IntImpl,StrImpl,BytesImpl,BoolImpl,stringify"), ("builtin functions", "opshin/fun_impls.py, opshin/std/builtins.py")],
    tech=EXH + "compared with CPython",
    note=CPY + " All strings up to the stated length over the stated alphabet.",
)
p(
    "C03",
    "Lists, dicts and tuples behave as in Python",
    "Indexing (positive and negative), slicing, concatenation, membership, length, iteration, comprehensions (with filters), literals, destructuring, and the methods index, get, keys, values and items of lists, dicts, pairs and tuples yield what CPython yields, and an out-of-range index, a missing key or a failed unpacking fails the script exactly when Python raises.",
    ["programs", "inputs"],
    "all container operations x element types on all containers up to length 3-7 and all index/slice-bound combinations in [-n-2, n+2]",
    "Tests pick a few index and slice bounds; the boundary behaviour is a function of length, sign and emptiness jointly and needs the whole product.",
    ["opshin/compiler.py", "opshin/type_impls.py", "opshin/rewrite/rewrite_tuple_assign.py", "opshin/rewrite/rewrite_destructuring_assign.py"],
    [("subscripts and slices", "opshin/compiler.py:visit_Subscript"), ("container methods", "opshin/type_impls.py:ListType,DictType,PairType"), ("comprehensions and literals", "opshin/compiler.py:visit_ListComp,visit_DictComp,visit_List,visit_Dict")],
    tech=EXH + "compared with CPython",
    note=CPY,
)
p(
    "C04",
    "Control flow executes as in Python",
    "Every supported nesting of if/elif/else, while, for, early return, assert, assignment, augmented and annotated assignment executes the same path, leaves variables with the same values, and returns or fails as CPython does.",
    ["programs", "inputs"],
    "all statement skeletons up to a depth and number of statements, over all branch outcomes and loop counts 0..3",
    "Each test is one program; the interaction of return-in-loop, loop else, variables first bound in a branch and shadowing is combinatorial.",
    ["opshin/compiler.py", "opshin/type_inference.py", "opshin/rewrite/rewrite_annotate_fallthrough.py"],
    [("statement compilation in continuation style", "opshin/compiler.py:visit_sequence,visit_If,visit_While,visit_For,visit_Return"), ("fallthrough annotation", "opshin/rewrite/rewrite_annotate_fallthrough.py")],
    tech="exhaustive enumeration of all statement skeletons up to a size bound, executed on the real compiler and CEK machine on every path, compared with CPython",
    note=CPY + " Every program of the grammar within the size bound is run.",
)
p(
    "C05",
    "Functions, closures, methods and scoping behave as in Python",
    "Calls (positional, keyword, default-free), recursion and mutual recursion, nested functions with captured variables, shadowing of outer names, methods and dunder methods of data classes, and redefinition of names resolve to the same binding and value as in CPython.",
    ["programs", "inputs"],
    "all programs from a grammar of up to three function definitions x placement x capture x rebinding x call order, and all dunder/method shapes",
    "Name resolution depends on the whole arrangement of definitions, rebindings and uses; tests fix single arrangements.",
    ["opshin/rewrite/rewrite_scoping.py", "opshin/rewrite/rewrite_function_closures.py", "opshin/compiler.py", "opshin/type_inference.py"],
    [("unique naming of scopes", "opshin/rewrite/rewrite_scoping.py"), ("closure capture", "opshin/rewrite/rewrite_function_closures.py"), ("call compilation", "opshin/compiler.py:visit_FunctionDef,visit_Call"), ("method lifting", "opshin/type_inference.py")],
    tech="exhaustive enumeration of all definition/capture/rebinding arrangements up to a bound, executed and compared with CPython",
    note=CPY,
)
p(
    "C06",
    "isinstance narrowing of unions is sound and selects the right branch",
    "For every union type, every test built from isinstance with and/or/not/else/early return, and every member value, the compiled script takes the branch CPython takes and sees the value with the narrowed type, with fields and operators yielding the same results.",
    ["programs", "inputs"],
    "all unions of up to three/four members out of data classes, int, bytes, str, bool, lists, dicts x all test shapes up to two atoms x all member values",
    "Tests check a handful of unions; the ordering of case distinctions, the negative branch and nested boolean tests multiply.",
    ["opshin/type_inference.py", "opshin/type_impls.py", "opshin/compiler.py"],
    [("type checks derived from conditions", "opshin/type_inference.py:TypeCheckVisitor,implement_typechecks"), ("isinstance implementation", "opshin/type_impls.py:IsinstanceImpl / PolymorphicFunction"), ("union attribute access", "opshin/type_impls.py:UnionType.attribute")],
    tech=EXH + "over all (union, test shape, member value) triples, compared with CPython",
    note=CPY,
)
p(
    "C07",
    "Data crossing the script boundary has the documented Plutus data encoding",
    "Parameters of every annotation type are decoded from, and results encoded to, the same Plutus data that the off-chain classes serialise to; constructor numbers, field order and nesting are preserved, field access yields the field, equality is structural, and to_cbor() on-chain yields exactly the bytes the off-chain object serialises to.",
    ["inputs", "programs"],
    "all data class shapes up to three fields/nesting 2 over all field types x all boundary values, in both directions",
    "Tests check example classes; a mismatch (field order, offset of skipped access, indefinite/definite lists, 64-byte chunks) shows only for particular shapes and sizes.",
    ["opshin/type_impls.py", "opshin/compiler.py", "opshin/prelude.py"],
    [("boundary transformations", "opshin/type_impls.py:TransformExtParamsMap,TransformOutputMap"), ("record constructor and accessors", "opshin/type_impls.py:RecordType.constr,attribute"), ("to_cbor", "opshin/type_impls.py")],
    tech="exhaustive enumeration of class shapes and values, round trip and field access on the real compiler and machine against pycardano's encoding",
    note="Oracle: pycardano/cbor encoding of the off-chain object and a hand-written canonical form.",
)
p(
    "C08",
    "Optimisation level and flags never change what a script does",
    "For every program and input the result (value or failure) is the same at every optimisation level -O0 to -O3 and under every combination of the compiler flags that do not by definition alter it; a program accepted without optimisation is accepted at every level.",
    ["configurations", "programs", "inputs"],
    "a corpus of programs chosen to exercise every optimisation x all levels x every single flag and all pairs of flags (thorough: all flag subsets), on all listed inputs",
    "Tests run most programs at one or two levels; optimisation bugs need a particular flag with a particular shape.",
    ["opshin/optimize", "opshin/compiler.py", "opshin/compiler_config.py"],
    [("optimisation passes", "opshin/optimize/*.py"), ("levels and flags", "opshin/compiler_config.py"), ("pass order", "opshin/compiler.py:compile")],
    tech="exhaustive enumeration of configurations (levels, flag subsets) x programs x inputs, real compiler and machine, CPython and cross-configuration agreement as oracle",
    note="All configurations of the enumerated flag lattice.",
)
p(
    "C09",
    "Accepted programs never get stuck on values of the wrong representation",
    "A program the compiler accepts never fails at run time, on inputs of the declared types, other than where CPython raises: no value is used in a position that expects another representation, whatever way it got there (variables of several types, containers, branches, calls, unions, subscripts).",
    ["programs", "inputs"],
    "all flows source type x path of up to two steps (assignment, branch merge, list/dict/tuple element, call, return, field, union) x sink type, for all values of the source type",
    "The type checker is a soundness claim over all programs; tests only contain programs that were thought of.",
    ["opshin/type_inference.py", "opshin/type_impls.py", "opshin/compiler.py"],
    [("type inference", "opshin/type_inference.py:AggressiveTypeInferencer"), ("subtyping", "opshin/type_impls.py:__ge__"), ("representation changes", "opshin/compiler.py:transform_output_to_type")],
    tech="exhaustive enumeration of all value flows (source type, path, sink type) up to a length; each accepted program is run on all values and compared with CPython",
    note=CPY + " Programs the compiler rejects are outside the claim, except for the recorded set of accepted ones.",
)
p(
    "C10",
    "Compilation is deterministic and independent of history",
    "Compiling the same source with the same options yields the same script bytes, script hash and diagnostics whatever was compiled before in the process, in whatever order, in whatever process, under whatever hash seed.",
    ["histories", "programs"],
    "all sequences up to length 3 of compilations out of a set of programs chosen for shared state (imports, integrity checks, failing programs, same-named modules), and all programs under several hash seeds in fresh processes",
    "Tests compile each program once in one process; hidden global state shows only in sequences.",
    ["opshin/compiler.py", "opshin/rewrite", "opshin/builder.py", "opshin/type_inference.py"],
    [("global scope tables", "opshin/type_inference.py:INITIAL_SCOPE"), ("memoised compilation", "opshin/builder.py:_static_compile"), ("import rewriting", "opshin/rewrite/rewrite_import.py")],
    tech="explicit-state exploration of all compilation histories up to a depth over the real compiler; each step's output compared with the output from the initial state",
    note="State is the process; every sequence over the operation alphabet up to the depth is run.",
)
p(
    "C11",
    "The math and fraction libraries satisfy their defining laws on-chain and off",
    "gcd, sign and unsigned byte conversions, Fraction arithmetic, comparison, normalisation, floor and ceil return the mathematically defined value, on-chain and off-chain alike, and normalised fractions are in lowest terms with positive denominator.",
    ["inputs"],
    "all fractions with numerator/denominator in [-N, N] (denominator 0 excluded), all pairs for binary operations; all integers in a range plus powers of 256 +-1",
    "Tests sample random fractions; sign of the denominator and zero cases are sparse.",
    ["opshin/std/fractions.py", "opshin/std/math.py"],
    [("fraction arithmetic", "opshin/std/fractions.py"), ("integer helpers", "opshin/std/math.py")],
    tech="exhaustive enumeration of all small operands, library run off-chain and compiled, against Python's fractions/int arithmetic",
    note="Oracle: fractions.Fraction and int of the Python standard library.",
)
p(
    "C12",
    "Time interval operations agree with the sets of points they denote",
    "contains, compare and the interval constructors agree with set inclusion, order and membership of the points (including infinite and open bounds) for every pair of intervals, off-chain and compiled.",
    ["inputs"],
    "all intervals over a grid of bounds incl. +-infinity and open/closed ends, all pairs",
    "Tests sample times; the open/closed/infinite boundary product is where this goes wrong.",
    ["opshin/ledger/interval.py"],
    [("bound comparison and containment", "opshin/ledger/interval.py")],
    tech="explicit-state model (each interval's set of grid points) compared with the real library, off-chain and compiled, on all pairs of intervals",
    note="Oracle: point sets over a grid refined at half steps.",
)
p(
    "C13",
    "Bitmap operations behave as a set of positions",
    "Any sequence of set, flip, test and size operations on a bitmap has the effect it has on the set of bit positions, off-chain and on-chain, and an index out of range fails.",
    ["histories", "inputs"],
    "all operation sequences from the empty bitmaps of 1-3 bytes to the full reachable state space of 1 byte (2^8 states) and depth-bounded for 2-3 bytes",
    "Tests run single operations.",
    ["opshin/std/bitmap.py"],
    [("bitmap functions", "opshin/std/bitmap.py")],
    tech="explicit-state breadth-first exploration of the set-of-positions model; every transition replayed on the implementation off-chain and compiled",
    note="All reachable states of the stated sizes.",
)
p(
    "C14",
    "Builtin bindings mean the same off-chain and on-chain",
    "Every function of the builtin library returns off-chain exactly what the corresponding Plutus builtin returns in a compiled script, and fails off-chain exactly when it fails on-chain, for every argument.",
    ["inputs"],
    "every exported builtin x all argument tuples over boundary alphabets (sizes, signs, indices around the ends, empty, non-canonical)",
    "Tests use hypothesis for some builtins; arguments at the ends, negative indices, invalid UTF-8 and error agreement are not covered for all.",
    ["opshin/std/builtins.py", "opshin/std/bls12_381.py", "opshin/rewrite/rewrite_import_uplc_builtins.py", "opshin/bridge.py"],
    [("off-chain implementations", "opshin/std/builtins.py"), ("on-chain binding", "opshin/rewrite/rewrite_import_uplc_builtins.py"), ("conversion bridge", "opshin/bridge.py")],
    tech=EXH + "off-chain function against the compiled builtin",
    note="Two implementations compared exhaustively over the alphabet; the machine's builtins are trusted as the on-chain meaning.",
)
p(
    "C15",
    "Hash functions equal the standard ones",
    "sha256, sha3_256, blake2b (and further supported digests) with digest() of compiled scripts equal hashlib's for every message.",
    ["inputs"],
    "all message lengths 0..N around the block sizes and all import spellings",
    "Tests hash random short messages.",
    ["opshin/std/hashlib.py", "opshin/rewrite/rewrite_import_hashlib.py"],
    [("hashlib binding", "opshin/rewrite/rewrite_import_hashlib.py")],
    tech=EXH + "compared with hashlib",
    note="Oracle: CPython hashlib.",
)
p(
    "C16",
    "Contract artefacts stay consistent over any history of operations",
    "Over any sequence of building, applying parameters, dumping and loading a contract artefact, the script bytes, hashes, addresses, blueprint, parameter list and datum/redeemer types agree with each other, loading returns what was dumped, and applying parameters equals compiling with them.",
    ["histories"],
    "all operation sequences up to depth 4 over the operations build / apply one or two parameters / dump / load / overwrite",
    "Tests check one dump or one apply at a time.",
    ["opshin/builder.py"],
    [("PlutusContract and its methods", "opshin/builder.py:PlutusContract,dump,load,apply_parameter,apply_parameters")],
    tech="explicit-state exploration of all operation sequences up to a depth on the real artefact class, against an abstract model of the artefact",
    note="All sequences up to the depth.",
)
p(
    "C17",
    "The blueprint describes the types of the contract exactly",
    "For every datum, redeemer and parameter annotation the blueprint schema accepts exactly the encoded values of that type as far as the schema language can tell, and converting a type to its schema and back yields an equivalent type.",
    ["inputs", "programs"],
    "all annotation types up to nesting 2 over all base types, classes and unions; every value of the type and every value of every other type",
    "Tests check fixed types.",
    ["opshin/builder.py"],
    [("schema generation and reading", "opshin/builder.py:to_plutus_schema,from_plutus_schema")],
    tech="exhaustive enumeration of annotation types and values; an independent schema validator decides acceptance; round trip through the real functions",
    note="Independent CIP-57 validator written for this check.",
)
p(
    "C18",
    "The command line tool, the library and the script agree",
    "For every contract and arguments, `opshin eval`, `opshin eval_uplc`, `opshin compile`/`build` followed by evaluation, and the library functions give the same result; arguments in JSON or CBOR form are parsed to the same data; output is exactly the result and nothing else.",
    ["inputs", "configurations"],
    "all (contract, argument) pairs of a list x argument spellings x commands x optimisation flags",
    "The CLI tests check exit codes for example contracts.",
    ["opshin/__main__.py", "opshin/builder.py"],
    [("command dispatch and parameter parsing", "opshin/__main__.py")],
    tech="exhaustive enumeration of commands x argument encodings x contracts on the real entry point, cross-checked with each other and an independent parser",
    note="Independent JSON/CBOR data parser.",
)
p(
    "C19",
    "Parameters reach the function in declaration order, at compile time or run time",
    "A contract with any number of parameters behaves the same whether its leading parameters are given when compiling, applied to the artefact, or passed at run time, and each argument reaches the parameter at its position with its declared type.",
    ["inputs", "programs"],
    "all arities 1..4 x all type assignments from an alphabet x all split points between compile time, apply time and run time",
    "Tests check single contracts.",
    ["opshin/builder.py", "opshin/compiler.py", "opshin/__main__.py"],
    [("parameter application", "opshin/builder.py:compile,apply_parameters"), ("validator wrapping", "opshin/compiler.py:visit_Module")],
    tech=EXH + "all splits of the argument list must agree with CPython",
    note=CPY,
)
p(
    "C20",
    "check_integrity accepts exactly the well-formed values",
    "check_integrity succeeds on a value exactly if its encoding has the declared structure (constructor, number of fields, and the same recursively for the field types), and fails otherwise, without changing the value.",
    ["inputs"],
    "all class shapes of the C07 list x all structurally well-formed encodings and all single mutations of them (constructor, arity, kind of any node)",
    "Tests check a few malformed datums.",
    ["opshin/std/integrity.py", "opshin/type_impls.py", "opshin/rewrite/rewrite_import_integrity_check.py"],
    [("copy_only_attributes", "opshin/type_impls.py"), ("check_integrity binding", "opshin/rewrite/rewrite_import_integrity_check.py")],
    tech="exhaustive single-mutation (and for small shapes double-mutation) enumeration of encodings, decided by an independent structural checker",
    note="Independent structural checker.",
)
p(
    "C21",
    "Ledger types and prelude helpers describe the transaction",
    "For every transaction, reading a path of the script context (fields, list elements, dictionary entries, members of unions) through the types of the prelude yields exactly the component that the ledger encodes at that place, on-chain and off-chain alike; isinstance tells the members of a union apart; the helpers of the prelude (resolve_spent_utxo, own_policy_id, own_address, own_datum, resolve_datum, all_tokens_locked_at_address, token_present_in_inputs, ...) return what their documentation says about that transaction, and fail exactly when there is no such component.",
    ["transactions", "paths"],
    "all paths of the type graph of ScriptContext, with every member of every union on the path; 12 helpers x all small transactions (inputs, outputs, values, addresses, datums, datum tables); values of Plutus V3 checked with check_integrity",
    "Tests read a few fields of two recorded contexts and call single helpers from example contracts.",
    ["opshin/ledger", "opshin/prelude.py", "opshin/std/integrity.py", "opshin/type_impls.py"],
    [("ledger types", "opshin/ledger/api_v3.py"), ("helpers", "opshin/prelude.py")],
    tech="exhaustive enumeration of the paths of the context and of small transactions against an explicit model of the ledger encoding",
    note="The model of the encoding and of the helpers is written in the check; every model value is replayed on-chain (UPLC machine), off-chain (CPython, from_cbor) and re-encoded.",
)
p(
    "C22",
    "Imports resolve to the same definitions as in Python",
    "A contract spread over modules with `from m import *` / `import ... as` spellings, chains and diamonds of imports, and relative or nested packages behaves as CPython executing the same modules, and an import that cannot be supported is rejected.",
    ["programs"],
    "all import graphs of up to three modules x import spellings x which module defines/redefines a name",
    "Tests import library modules only.",
    ["opshin/rewrite/rewrite_import.py", "opshin/rewrite/rewrite_import_typing.py", "opshin/rewrite/rewrite_import_dataclasses.py", "opshin/rewrite/rewrite_import_plutusdata.py"],
    [("import inlining", "opshin/rewrite/rewrite_import.py")],
    tech="exhaustive enumeration of module graphs and spellings in a scratch directory; compiled contract compared with CPython",
    note=CPY,
)
p(
    "C23",
    "Constructor ids are deterministic and unions stay distinguishable",
    "The constructor number of a class without explicit number is the same on-chain and off-chain, is stable over redefinition and process, depends on the class name and its fields only, and the compiler refuses a union whose members share a number.",
    ["programs"],
    "all pairs/triples of class shapes and explicit/implicit numbers",
    "Tests check fixed classes.",
    ["opshin/type_inference.py", "opshin/type_impls.py", "opshin/prelude.py"],
    [("id derivation", "opshin/type_inference.py / opshin/util.py / pycardano"), ("uniqueness check", "opshin/type_impls.py / opshin/type_inference.py")],
    tech="exhaustive enumeration of class shapes; on-chain and off-chain ids compared, acceptance of unions decided by an independent rule",
    note="Oracle: pycardano CONSTR_ID of the off-chain class.",
)
p(
    "C24",
    "Diagnostics point at the offending line and lint output is well formed",
    "For every rejected program the reported position is the position of the offending statement in the original source, and `lint` prints exactly one well-formed diagnostic in the requested format, with that position, and nothing for accepted programs.",
    ["programs"],
    "all error kinds x position (line, nesting) x output format",
    "Tests check one or two messages.",
    ["opshin/__main__.py", "opshin/util.py", "opshin/compiler.py"],
    [("error wrapping with positions", "opshin/util.py:CompilerError"), ("lint command", "opshin/__main__.py")],
    tech="exhaustive enumeration of (error kind, placement, format) on the real entry point",
    note="Placement is known by construction.",
)
p(
    "C25",
    "Unsupported Python is rejected, never silently changed",
    "Every Python construct outside the supported subset, placed anywhere a program can contain it, is either rejected at compile time or compiled to what CPython computes; it is never silently dropped or reinterpreted.",
    ["programs", "inputs"],
    "all syntax node kinds and option fields of the Python grammar x placements (module, function, loop, branch, nested function, class body)",
    "Tests check some forbidden constructs in one placement each.",
    ["opshin/compiler.py", "opshin/type_inference.py", "opshin/rewrite"],
    [("generic rejection", "opshin/util.py:CompilingNodeTransformer.generic_visit"), ("restriction passes", "opshin/rewrite/rewrite_forbidden_*.py")],
    tech="exhaustive enumeration of grammar productions x placements; accepted programs are run and compared with CPython",
    note=CPY,
)
p(
    "C26",
    "Evaluation order, short-circuiting and trace output are as in Python",
    "Operands, arguments, container elements, comparison chains, conditions and statements are evaluated exactly as often as, and in the order, CPython evaluates them, as observed by the trace output of printing functions placed in every position; the trace before a failure is the text printed before the exception.",
    ["programs", "inputs"],
    "every expression and statement form with an observable, possibly failing call in every position x all outcomes",
    "Tests compare results, hardly ever order or multiplicity of effects.",
    ["opshin/compiler.py", "opshin/fun_impls.py", "opshin/rewrite"],
    [("laziness via force/delay", "opshin/util.py:OLet,SafeLambda"), ("print as trace", "opshin/fun_impls.py:PrintImpl"), ("rewrites duplicating expressions", "opshin/rewrite/rewrite_augassign.py, rewrite_tuple_assign.py")],
    tech="exhaustive enumeration of probe positions and outcomes; trace sequences compared with CPython's printed lines",
    note=CPY + " Messages are compared at the levels that keep them (up to -O2).",
)
p(
    "C27",
    "Use of unbound names fails exactly as in Python",
    "A program that uses a name before it is bound, or bound only on a path not taken, fails at run time exactly on the inputs where CPython raises (or is rejected), and never otherwise; unused or dead code never makes a program fail.",
    ["programs", "inputs"],
    "all placements of binding/use of a name over branches, loops (0..2 iterations), functions (defined before/after use), and levels of nesting",
    "Tests check single arrangements.",
    ["opshin/compiler.py", "opshin/type_inference.py", "opshin/rewrite/rewrite_scoping.py"],
    [("undefined-name errors", "opshin/compiler.py:visit_Name, visit_Module"), ("scope merging", "opshin/type_inference.py:merge_scope")],
    tech="exhaustive enumeration of bind/use placements x paths, compared with CPython",
    note=CPY,
)

DROPPED = {}
exec(open(os.path.join(os.path.dirname(__file__), "dropped.py")).read())


def claimed(i):
    return os.path.exists(os.path.join(ROOT, "mc", "props", i.lower() + ".py"))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["id"]
            f.write(
                json.dumps(
                    dict(
                        id=q["id"],
                        title=q["title"],
                        statement=q["statement"],
                        quantifier=dict(over=q["over"], text=q["text"]),
                        why_tests_cant=q["why"],
                        anchors=dict(
                            files=q["files"],
                            mechanism=[dict(name=n, where=w) for n, w in q["mech"]],
                            observe_at=q["observe"],
                            hook_needed=None,
                        ),
                    )
                )
                + "\n"
            )
    m = dict(
        version=1,
        setup_cmd="./check --selftest",
        checks=[
            dict(
                property=q["id"],
                quick_cmd=f"./check {q['id']} --tier quick",
                thorough_cmd=f"./check {q['id']} --tier thorough",
                evidence_file=f"evidence/{q['id']}.json",
                technique=q["tech"],
                level=LEVELS.get(q["id"], "exploration"),
                level_note=q["note"],
            )
            for q in P
            if claimed(q["id"])
        ],
        not_applicable=[
            dict(property=q["id"], reason=DROPPED.get(q["id"], "check not built yet"))
            for q in P
            if not claimed(q["id"])
        ],
        notes="See DESIGN.md. Every check runs the compiler of the working tree in /repo and the CEK machine; no hooks in /repo are needed.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
