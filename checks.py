"""What each registered check runs: library variants and, per property, the
generated-input parts with their case budgets (quick, thorough)."""
SAN = "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=function,enum -fno-sanitize-recover=all"
VARIANTS = {
    "mkl": dict(backend="mkl", cflags="-g -O1"),
    "mklsan": dict(backend="mkl", cflags=SAN),
    "mklfuzz": dict(backend="mkl", cflags=SAN + " -fsanitize=fuzzer-no-link"),
    "bi": dict(backend="builtin", cflags="-g -O1"),
    "bil": dict(backend="builtin", cflags="-g -O1", cmake=["-DOSQP_USE_LONG=OFF"]),
    "bif": dict(backend="builtin", cflags="-g -O1", cmake=["-DOSQP_USE_LONG=OFF", "-DOSQP_USE_FLOAT=ON"]),
    "bifl": dict(backend="builtin", cflags="-g -O1", cmake=["-DOSQP_USE_LONG=ON", "-DOSQP_USE_FLOAT=ON"]),
    "bisan": dict(backend="builtin", cflags=SAN),
}
def part(variant, src, q, t, **k):
    return dict(variant=variant, src=src if isinstance(src, list) else [src], cases=(q, t), **k)
PBT = "property-based testing: structured random generation, shrinking; oracle: "
CHECKS = {
    "C01": dict(level="exploration", technique=PBT + "independent long-double recomputation of the documented criteria",
                note="random histories of set-up, updates and solves; no proof", parts=[part("mkl", "c01.cpp", 30000, 2000000)]),
    "C02": dict(level="exploration", technique=PBT + "rigorous error bounds around a constructed optimum, multiplier sign conditions",
                note="problems built from a known primal-dual optimum", parts=[part("mkl", "c02.cpp", 20000, 1000000)]),
    "C03": dict(level="exploration", technique=PBT + "long-double recomputation of every reported quantity",
                note="random histories ending on every branch", parts=[part("mkl", "c03.cpp", 30000, 2000000)]),
    "C04": dict(level="exploration", technique=PBT + "recomputation of the certificate inequalities; Farkas argument for impossible declarations",
                note="feasible and infeasible problems, histories", parts=[part("mkl", "c04.cpp", 30000, 2000000)]),
    "C05": dict(level="exploration", technique=PBT + "recomputation of the certificate inequalities; convexity argument for impossible declarations",
                note="bounded and unbounded problems, histories", parts=[part("mkl", "c04.cpp", 30000, 2000000)]),
    "C06": dict(level="exploration", technique=PBT + "classification known by construction, metamorphic iteration limit",
                note="small well-scaled problems", parts=[part("mkl", "c06.cpp", 15000, 500000)]),
    "C07": dict(level="exploration", technique=PBT + "differential against a freshly set up solver, and recomputation on the model's final data",
                note="random update paths between problems on one pattern", parts=[part("mkl", "c07.cpp", 60000, 1000000)]),
    "C08": dict(level="exploration", technique=PBT + "model of the stored settings; differential against a fresh solver with the resulting settings",
                note="random update/solve histories", parts=[part("mkl", "c08.cpp", 30000, 1000000)]),
}
CHECKS["C09"] = dict(level="exploration", technique=PBT + "twin solver that never received the rejected calls; model of the data in force",
    note="random histories interleaved with invalid calls", parts=[part("mkl", ["reject.cpp", "c09.cpp"], 30000, 1000000)])
CHECKS["C10"] = dict(level="exploration", technique=PBT + "independent table of the documented requirements, one or more of them violated",
    note="every requirement of setup and updates, edges of every range", parts=[part("mkl", ["reject.cpp", "c10.cpp"], 200000, 1000000)])
CHECKS["C11"] = dict(level="exploration", technique=PBT + "recomputation of everything reported after each solve of a history; repeated cold solve must be identical",
    note="random histories", parts=[part("mkl", "c11.cpp", 30000, 1000000)])
CHECKS["C12"] = dict(level="exploration", technique=PBT + "known optimal pairs, identical twins, metamorphic stop-and-resume",
    note="random problems, starts and histories", parts=[part("mkl", "c12.cpp", 30000, 1000000)])
CHECKS["C13"] = dict(level="exploration", technique=PBT + "inputs in read-only pages that vanish after the call; twin solver with kept inputs",
    note="random histories, setup/update/warm-start arguments", parts=[part("mkl", "c13.cpp", 30000, 1000000)])
CHECKS["C14"] = dict(level="exploration", technique=PBT + "virtual clock; metamorphic comparison of stopping by check, iteration limit and time limit",
    note="controlled clock readings, all limits", parts=[part("mkl", "c14.cpp", 30000, 1000000)])
CHECKS["C15"] = dict(level="exploration", technique=PBT + "twin runs with and without polishing; known nondegenerate optimum",
    note="random problems, settings and histories", parts=[part("mkl", "c15.cpp", 30000, 1000000)])
CHECKS["C16"] = dict(level="exploration", technique=PBT + "AddressSanitizer/UBSan, allocation ledger, and equality of two executions with different fresh-memory contents",
    note="random API histories including failures; sanitizer build", parts=[part("mklsan", ["reject.cpp", "c16.cpp"], 40000, 400000)])
CHECKS["C17"] = dict(level="fault_enumeration", technique=PBT + "every single allocation of each generated history failed in turn (alone / with all later ones) under AddressSanitizer; allocation ledger",
    note="random histories; failures are injected in the library's own allocations, not inside MKL", parts=[part("mklsan", "c17.cpp", 900, 40000)])
CHECKS["C18"] = dict(level="exploration", technique=PBT + "differential: direct against indirect solver, iteration by iteration and on final outcomes",
    note="random problems, tunings and update histories", parts=[part("mkl", "c18.cpp", 60000, 1000000)])
CHECKS["C19"] = dict(level="exploration", technique=PBT + "metamorphic: equivalent rewritings compared iterate by iterate or against the transformed known optimum, under random tuning",
    note="random problems with known optimum; permutations, negations, scalings, shifts, duplicated and split rows, infinities", parts=[part("mkl", "c19.cpp", 60000, 1000000)])
CHECKS["C20"] = dict(level="exploration", technique=PBT + "signals injected at generated points (clock readings) inside and between calls; uninterrupted twin; sigaction state",
    note="all kinds of caller dispositions, random histories", parts=[part("mkl", "c20.cpp", 30000, 1000000)])
CHECKS["C21"] = dict(level="exploration", technique=PBT + "eigenvalues of the regularised cost reduced by the constraint terms decide acceptance both ways",
    note="random convex and non-convex costs at setup and update", parts=[part("mkl", "c21.cpp", 60000, 1000000)])
CHECKS["C22"] = dict(level="exploration", technique=PBT + "random interleavings of several call histories against each history run alone, under AddressSanitizer",
    note="two or three solvers with different problems, settings and linear solvers", parts=[part("mklsan", ["reject.cpp", "c22.cpp"], 12000, 400000)])
CHECKS["C25"] = dict(level="exploration", technique=PBT + "explicit expected entries and documented values; twin that is never asked for its solution; AddressSanitizer",
    note="all constructors, defaults, error codes, retrieval at any point of random histories", parts=[part("mklsan", ["reject.cpp", "c25.cpp"], 25000, 400000)])
CHECKS["C32"] = dict(level="exploration", technique=PBT + "differential against a dense extended-precision reference of the documented method, with a perturbed twin measuring sensitivity",
    note="random problems, tunings and short histories", parts=[part("mkl", "c32.cpp", 150000, 1000000)])
CHECKS["C33"] = dict(level="exploration", technique=PBT + "metamorphic: twin solvers receive the same values through differently ordered, grouped or repeated calls and are compared bitwise",
    note="random problems, histories and settings", parts=[part("mkl", "c33.cpp", 30000, 1000000)])
CHECKS["C26"] = dict(level="exploration", technique=PBT + "the step size observed after every iteration count against the policy; dense extended-precision reference of the method with the documented weights",
    note="all adaptation modes, random tunings and histories, controlled clock", parts=[part("mkl", "c26.cpp", 40000, 1000000)])
CHECKS["C27"] = dict(level="exploration", technique=PBT + "differential: silent against verbose twin; parsed output against the reported information",
    note="random histories with the verbose flag switched on the way", parts=[part("mkl", "c27.cpp", 20000, 1000000)])
CHECKS["C31"] = dict(level="exploration", technique=PBT + "independent long-double equilibration; the stored problem against the caller's problem times the stored factors",
    note="random data over many magnitudes, update histories; reads the solver's stored factors and data", parts=[part("mkl", "c31.cpp", 40000, 1000000)])
CHECKS["C23"] = dict(level="exploration", technique=PBT + "every operation against its definition in extended precision, on windows with guarded surroundings, with aliasing, under AddressSanitizer",
    note="all vector and matrix operations of the algebra layer, random sizes, values, patterns and scalars", parts=[part("mklsan", "c23.cpp", 150000, 3000000, optional=True), part("bisan", "c23.cpp", 150000, 3000000, optional=True)])
CHECKS["C24"] = dict(level="exploration", technique=PBT + "explicit dense model of the intended matrix; fresh assembly after random update sequences; AddressSanitizer",
    note="random patterns with missing and partial diagonals, both storage formats, index-wise updates; sparse conversions", parts=[part("mklsan", "c24.cpp", 150000, 3000000, optional=True), part("mklsan", "c24u.cpp", 100000, 2000000, optional=True), part("bisan", "c24.cpp", 100000, 2000000, optional=True)])
# The same checks on the library built with the built-in algebra (QDLDL stand-in in third_party).
for _p, _q in dict(C01=10000, C02=8000, C03=10000, C04=8000, C05=8000, C06=5000, C07=20000, C08=8000, C09=8000, C10=40000, C11=8000, C12=10000, C13=8000,
                   C14=8000, C15=10000, C19=15000, C20=8000, C21=15000, C26=10000, C27=5000, C31=10000, C32=40000, C33=10000).items():
    _b = CHECKS[_p]["parts"][0]
    CHECKS[_p]["parts"].append(part("bi", _b["src"], _q, _b["cases"][1] // 3, optional=True))
for _p, _q in dict(C16=10000, C17=300, C22=4000, C25=8000).items():
    _b = CHECKS[_p]["parts"][0]
    CHECKS[_p]["parts"].append(part("bisan", _b["src"], _q, _b["cases"][1] // 3, optional=True))
CHECKS["C30"] = dict(level="exploration", technique=PBT + "differential: the same random history through the reference build and the built-in algebra in both precisions and index widths",
    note="reference: MKL, double, long; compared iterate by iterate within rounding, by outcome on known problems, and on argument checks", parts=[part("mkl", "c30.cpp", 120000, 3000000, shims=["bi", "bil", "bif", "bifl"])])
CHECKS["C28"] = dict(level="exploration", technique=PBT + "round trip: the emitted program, compiled, goes through the same further history as the solver it came from, compared bit by bit",
    note="random problems, histories, both modes, both precisions, several programs in one binary; built-in algebra", parts=[part("bi", "c28.cpp", 2500, 60000, codegen=True), part("bif", "c28.cpp", 500, 20000, codegen=True, optional=True), part("bisan", "c28.cpp", 500, 20000, codegen=True, optional=True)])
CHECKS["C29"] = dict(level="exploration", technique=PBT + "analytic reference: at an optimum known by construction the adjoint system is solved in extended precision; bitwise twin that never asks for derivatives; every allocation failed in turn",
    note="random strictly convex problems with a nondegenerate optimum, reached directly or by updates; built-in algebra, double and single precision", parts=[part("bi", "c29.cpp", 40000, 2000000), part("bif", "c29.cpp", 20000, 1000000, optional=True), part("bisan", "c29.cpp", 12000, 400000, optional=True)])
NOT_APPLICABLE = {}
