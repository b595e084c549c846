"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


S = "lie_nn/_src/"
add("S01", "Concurrent callers get the answers they would get alone",
    "Threads that call the library at the same time, on the same or on different representation objects, each get the answer the call gives when it runs alone, whatever the interleaving. "
    "No interleaving makes a call fail, block for ever or modify its arguments, and a thread interrupted in the middle of a call does not change what the other threads get. "
    "The same holds for calls made from a user callback (such as a round_fn), a signal handler or a finaliser in the same thread while another call is in progress at any point.",
    ["schedules", "histories", "inputs"],
    "every interleaving of 2-4 threads at line/call/instruction granularity, every mix of public operations on shared representation objects, cold and warm caches, nested calls from callbacks and from signal handlers at any step",
    "The tests are single threaded: not one interleaving is exercised, and a data race needs a switch inside a window of one or two lines.",
    [S + "reduced_tensor_product.py", S + "rep.py", S + "irrep.py", S + "util.py", S + "irreps/"],
    [("functions keep all working state in locals; representation objects are never written after construction", S + "rep.py"),
     ("lru_cache (thread safe, keyed on immutable values) is the only shared mutable state", S + "reduced_tensor_product.py")],
    [("lru_caches", "memoised permutation groups, bases and matrices", S + "reduced_tensor_product.py"),
     ("multipledispatch dispatchers", "overload tables and their call cache", "every @dispatch function")],
    ["returned value of every public call", "argument arrays before and after"])
add("S02", "An interrupted operation leaves no trace",
    "If an operation is abandoned part way - by KeyboardInterrupt, MemoryError or any other exception at any point of its execution, by an exception from a user callback or input iterator, or by dropping a half-consumed iterator - the exception reaches the caller and every later call, including a retry of the same operation, gives exactly what it gives in a fresh process. "
    "Its arguments are unmodified, no lock stays held and no process-wide setting stays changed.",
    ["crash_points", "histories", "inputs"],
    "every public operation, every interruption point (line, call, return) inside it, several interruptions in a row, cold and warm caches, any later operation",
    "No test interrupts anything; a half-filled cache or table only shows up if the interruption falls between two particular statements and a later call takes the poisoned path.",
    [S + "reduced_tensor_product.py", S + "util.py", S + "rep.py", S + "irreps/sun.py"],
    [("results are built in locals and published by return", S + "util.py"), ("lru_cache stores only after a successful return", S + "reduced_tensor_product.py")],
    [("lru_caches", "memoised values that survive the failed call", S + "reduced_tensor_product.py")],
    ["exception seen by the caller", "results of later calls vs fresh process", "process-global settings"])
add("S03", "A failing numerical backend never yields a wrong answer",
    "When any allocation or numerical routine the library relies on fails in the middle of an operation (MemoryError, LinAlgError, FloatingPointError), the operation either raises or returns a fully correct result; it never returns a partial, empty, unconverged or substituted answer as if it were the answer. "
    "The next fault-free call of the same operation is correct again.",
    ["fault_sequences", "inputs"],
    "every public operation, every call it makes into numpy/scipy/linear algebra, one or several failing calls, each failure kind",
    "LAPACK non-convergence and allocation failure never happen in the tests, so no error path is ever executed.",
    [S + "util.py", S + "infer_change_of_basis.py", S + "tensor_product.py", S + "reduced_rep.py", S + "reduced_tensor_product.py", S + "irreps/"],
    [("no error is caught: failures propagate as exceptions", S + "util.py"), ("intertwining equation re-checked before returning", S + "infer_change_of_basis.py")],
    (), ["value or exception of every public call", "defining equations of the returned value"])
add("S04", "Callers own their arrays: arguments are read-only, results are private",
    "No operation writes into an array or representation passed to it, at any instant of its execution. "
    "Arrays returned by queries and computations (generators, algebras and Clebsch-Gordan tensors of tabulated irreps, change-of-basis tensors, null spaces, reduced bases, products) belong to the caller: overwriting them at any time, even while another call is in progress, changes neither any other result - past or future - nor the representation they came from. "
    "Overwriting an input array after a computation returned does not change the result already returned.",
    ["histories", "schedules", "inputs"],
    "every history of calls interleaved with in-place writes to every returned buffer and to inputs, at every moment including during another call",
    "The tests never write to a returned array, so an aliased or cached buffer is invisible to them.",
    [S + "irreps/", S + "util.py", S + "reduced_rep.py", S + "reduced_tensor_product.py", S + "tensor_product.py", S + "finite.py"],
    [("fresh arrays are built on every query; cached arrays are copied by a reshape/contraction before they reach the caller", S + "reduced_tensor_product.py"),
     (".copy() before in-place updates", S + "irreps/so13.py"), ("np.copy(A[i]) in Gram-Schmidt", S + "util.py")],
    [("cached permutation matrices", "arrays kept alive by lru_cache", S + "reduced_tensor_product.py")],
    ["bytes of every argument and of every retained result"])
add("S05", "Answers do not depend on the history of the process",
    "The answer of an operation depends only on its arguments: it is what a fresh process gives, whatever was computed before, in whichever order, on representations, formulas, dimensions or tolerances however similar, on objects that have since been modified or garbage-collected, with memoised results kept or evicted, and after new representation classes were defined. "
    "Repeating a call repeats its answer.",
    ["histories", "inputs"],
    "every sequence of public operations, including near-identical arguments, recycled object identities, arguments mutated between calls, cache eviction and garbage collection at any point",
    "Each test asks one question of one process history; a cache keyed too coarsely needs two particular calls in a particular order.",
    [S + "reduced_tensor_product.py", S + "irrep.py", S + "irreps/", S + "tensor_product.py", S + "clebsch_gordan.py", S + "group_product.py"],
    [("cache keys contain every argument the value depends on", S + "reduced_tensor_product.py"), ("frozen dataclasses with value equality as irreps", S + "irrep.py"), ("dispatch on exact type tuples", "multipledispatch")],
    [("lru_caches", "memoised values", S + "reduced_tensor_product.py"), ("multipledispatch dispatchers", "dispatch caches", "every @dispatch function")],
    ["every call vs the same call in a fresh process"])
add("S06", "Irreps and their Clebsch-Gordan tables are exact on any backend",
    "For every tabulated irrep the generators close into its algebra, and for every triple the Clebsch-Gordan tensor solves the intertwining equation with as many independent solutions as the multiplicity of the third irrep in the product of the first two; the product rule lists exactly the irreps that occur, and dimensions and trivial irrep agree. "
    "These tables are the same (to rounding) whichever of the equally valid results the linear-algebra backend returns for its degenerate problems: eigenvector phases, order and rotation within eigenspaces, and last-bit rounding.",
    ["inputs", "fault_sequences", "configurations"],
    "every irrep family, every irrep and triple up to the dimension bound, every admissible backend result (simulated by backward-stable perturbations, random phases and rotations)",
    "The tests see one LAPACK build, hence one choice of eigenvectors, and only small irreps without repeated weights or multiplicities.",
    [S + "irreps/", S + "util.py", S + "clebsch_gordan.py", S + "irrep.py", S + "group_product.py"],
    [("eigenvectors are replaced by the Gram-Schmidt reduction of the projector, which does not depend on their choice", S + "util.py"),
     ("closed forms for SU(2); Gelfand-Tsetlin ladder recursion for SU(N)", S + "irreps/sun.py"), ("explicitly_real_basis", S + "util.py")],
    (), ["X, A, H, dim, *, clebsch_gordan, iterator of each irrep class"])
add("S07", "The intertwiner solver is complete and reproducible on any backend",
    "For arbitrary representations of the same group (any basis, real or complex, continuous and discrete generators) the change-of-basis, null-space, Clebsch-Gordan, irreducibility and reality questions are answered with the right number of linearly independent solutions, each satisfying its equation. "
    "The arrays returned are a function of the arguments alone, to rounding: they do not depend on which valid eigenvectors the backend returns.",
    ["inputs", "fault_sequences", "configurations"],
    "all pairs and triples of representations with well-conditioned bases up to the dimension bound, under every admissible backend result",
    "Tests compare a few triples on one backend; the freedom of LAPACK in degenerate eigenspaces is never exercised.",
    [S + "util.py", S + "infer_change_of_basis.py", S + "clebsch_gordan.py", S + "is_irreducible.py", S + "real.py"],
    [("projector + Gram-Schmidt canonical form", S + "util.py nullspace"), ("equation asserted before returning", S + "infer_change_of_basis.py")],
    (), ["infer_change_of_basis, clebsch_gordan, nullspace, basis_intersection, is_irreducible, is_real, make_explicitly_real"])
add("S08", "Reduction of a representation is valid for every random draw",
    "Reducing a representation returns an equivalent one: its basis change is invertible and block-diagonalises every generator, each block is irreducible, and the blocks are, with multiplicity, those the representation was built from. "
    "This holds for every outcome of the random numbers the algorithm draws and for every admissible backend result; a draw it cannot handle raises an error rather than giving a wrong decomposition.",
    ["inputs", "fault_sequences"],
    "all well-conditioned direct sums of irreps (with multiplicities, complex bases, discrete generators), all random draws including nearly tied ones, all admissible backend results",
    "One test reduces one representation with one unseeded draw.",
    [S + "reduce.py", S + "util.py"],
    [("random combination of the commutant; eigenspaces; Gram-Schmidt", S + "util.py invariant_subspaces")],
    [("numpy global RNG", "source of the random combination", "np.random")],
    ["reduce, util.decompose_rep_into_irreps"])
add("S09", "Streamed constraints are consumed lazily, once and in order",
    "The sequential null-space solver pulls matrices from its input one at a time, in order, and stops pulling as soon as the requested dimension is reached; what it returns is a linearly independent set that spans exactly the vectors annihilated by every matrix it pulled. "
    "Each matrix is processed before the next one is pulled, so the producer may reuse its buffer. "
    "If the stream ends too early it raises ValueError, and if the stream raises, that exception reaches the caller unchanged.",
    ["inputs", "fault_sequences", "schedules"],
    "every stream of constraint matrices (real/complex, redundant, rank-deficient, empty blocks), every stream length, every failure position, consumers running concurrently, streams whose producer calls back into the library or reuses its buffer after the pull",
    "The only test passes a complete list, so laziness, exhaustion and failing producers are never seen.",
    [S + "util.py"], [("generator loop with running basis S", S + "util.py sequential_nullspace")], (), ["pull log of the stream", "returned basis"])
add("S10", "Lazy enumerations are independent of each other",
    "The irreps enumerated by iterator() and by multiplying two irreps form, for each enumeration, the same sequence whenever and however it is consumed: interleaved with other enumerations of the same class, paused across any other call, abandoned half-way, exhausted, or consumed from another thread than the one that created it. "
    "The enumeration of a class starts with the trivial irrep, is strictly increasing and reaches every irrep; every product lists each irrep of the decomposition once.",
    ["schedules", "histories", "inputs"],
    "every interleaving of partial consumptions of any number of enumerations over all irrep classes, with abandonment, closing and other calls in between",
    "Tests consume each enumeration once, from the start, alone.",
    [S + "irrep.py", S + "irreps/", S + "group_product.py"],
    [("generators / fresh lists without shared cursors", S + "irreps/"), ("sorted(set()) in SU(N)", S + "irreps/sun.py")], (),
    ["items yielded by each enumeration"])
add("S11", "Process-wide state is left alone, even for a moment",
    "Apart from the explicitly random functions (reduce and the decomposition beneath it, which draw from numpy's global generator, and random permutations) operations neither read nor advance the random generators, and none changes numpy print options or floating-point error handling, the warning filters, recursion limit, environment, current directory, standard streams or the arguments' flags - neither on return, nor on failure, nor as seen by other threads while it runs. "
    "Operations write nothing to the standard streams, except the diagnostics of a failing representation check and Python warnings, and create no files or threads.",
    ["schedules", "crash_points", "histories"],
    "every public operation, observed at every point of its execution and after every injected failure",
    "Tests look at return values only; global state is never compared before, during and after a call.",
    [S + "rep.py", S + "util.py", S + "reduce.py"],
    [("np.errstate/np.printoptions context managers", S + "util.py limit_denominator"), ("no global seeding", S + "reduce.py")],
    [("np.random / random", "global generators", "numpy, random"), ("print options / errstate", "global formatting and FP settings", "numpy")],
    ["snapshots of the settings at every step"])
add("S12", "Reduced tensor-product bases are exact and canonical",
    "The basis returned for a permutation-constrained tensor product is equivariant, has exactly the permutation symmetry the formula asks for, is linearly independent, and is complete: each irrep appears with the multiplicity of the constrained space. "
    "The same request yields the same array and the same irreps whatever the iteration order of sets, the hash seed, the state of the caches and the admissible choice of the backend.",
    ["inputs", "configurations", "histories", "fault_sequences"],
    "all formulas up to five indices and dimension bound, all iteration orders of sets, hash seeds, cache contents and admissible backend results",
    "Tests check two formulas under one hash seed and one backend; set order only varies between processes.",
    [S + "reduced_tensor_product.py", S + "discrete_groups/perm.py", S + "util.py"],
    [("sorted() before every order-dependent loop", S + "reduced_tensor_product.py"), ("basis_intersection with canonical Gram-Schmidt", S + "util.py")],
    [("lru_caches", "permutation groups and bases", S + "reduced_tensor_product.py")],
    ["reduced_tensor_product_basis, reduced_symmetric_tensor_product_basis"])
add("S13", "Tensor products and other composites are exact on any backend",
    "Tensor products and powers, direct sums, basis and algebra changes, group products and conjugates of representations - tabulated, with multiplicity, reduced with or without basis change, or generic, in any combination and order the library supports - have the generators their definition prescribes in the basis the factors come in, and so does the group element exponentiated from them. "
    "Reduced and generic routes to the same product agree, whichever admissible results the linear-algebra backend returns on the way.",
    ["inputs", "configurations", "fault_sequences"],
    "all pairs of representation kinds and irrep families up to the dimension bound, all orders and powers, all admissible backend results",
    "Tests compare dimensions for a few pairs; the twelve dispatch combinations, basis changes and multiplicities are mostly unexercised.",
    [S + "tensor_product.py", S + "reduced_rep.py", S + "change_basis.py", S + "direct_sum.py", S + "change_algebra.py", S + "group_product.py", S + "conjugate.py", S + "rep.py"],
    [("Q = inv(stacked Clebsch-Gordan)", S + "tensor_product.py"), ("block placement of factors", S + "tensor_product.py")], (),
    ["X, H, A, dim of the composite"])
add("S14", "Saved representations survive a restart",
    "Any representation, irrep, multiplicity or reduced basis that is pickled or copied - at any moment, also while in use by another thread or after its process computed anything else - and restored in this or a new process, with another hash seed, is equal in value to the original and gives the same answers to every operation; value-equal irreps stay equal, hash alike and order alike across the restart. "
    "Restoring leaves the restored object independent of the original.",
    ["crash_points", "histories", "inputs"],
    "every object kind, every history before saving, crash and restart in a fresh interpreter with another hash seed, every operation afterwards",
    "Nothing is ever pickled in the tests.",
    [S + "irrep.py", S + "rep.py", S + "reduced_rep.py", S + "irreps/", S + "reduced_tensor_product.py", S + "finite.py"],
    [("plain dataclasses whose state is their fields only", S + "irrep.py")], (), ["results after restore vs before save"])
add("S15", "The validators accept exactly what is a representation",
    "The checks that users validate their own work with decide rightly and always give an answer: a representation is accepted exactly when its generators obey the commutation relations of its structure constants and its matrices fit together, "
    "a triple of representations exactly when the Clebsch-Gordan tensors it produces intertwine the product with the third, structure constants are inferred exactly for families of matrices that close under commutation and then reproduce the commutators, and unitarity and triviality are reported as they are - "
    "at the tolerance the caller asks for, for every size and scale, whatever validations and changes of the object came before, whichever admissible results the backend returns, and also when reporting a failure cannot be printed. "
    "A validation leaves the object it looked at unchanged, and the asserting, returning and method forms agree.",
    ["inputs", "configurations", "fault_sequences", "histories"],
    "all representations within the dimension bound and all their corruptions above and below the tolerance, all validation histories and admissible backend results",
    "Tests run the validators on correct representations only; nothing checks that a wrong one is refused, at which tolerance, or after which history.",
    [S + "rep.py", S + "irrep.py", S + "infer_change_of_basis.py", S + "properties.py", S + "util.py", S + "lie_algebra_utils.py"],
    [("residual of [X_i,X_j] - A_ijk X_k", S + "rep.py check_algebra"), ("infer_algebra_from_generators", S + "util.py")], (),
    ["verdict of the validators"])
add("S16", "Repeating work accumulates nothing",
    "Doing the same work again - with equal but newly built arguments, completed, failed, interrupted, or from several threads - leaves nothing behind for each repetition once the results are dropped and the caches are warm: "
    "memory, live objects, threads, file descriptors, loaded modules, exit handlers, warning filters and hooks stop growing however often it is repeated.",
    ["histories", "schedules", "fault_sequences"],
    "every public operation, every number of repetitions, every point of interruption",
    "A test process ends before accumulation matters and no test looks at what is left behind; a training loop or service calls for days.",
    [S + "rep.py", S + "irrep.py", S + "clebsch_gordan.py", S + "reduced_tensor_product.py", S + "group_product.py", S + "infer_change_of_basis.py", S + "util.py"],
    [("caches keyed by value and bounded by the domain", S + "reduced_tensor_product.py"), ("no registration on construction", S + "irrep.py")],
    [("lru_caches and multimethod tables", "grow with distinct requests only", S)], ["live memory and objects after each repetition"])
add("S17", "A process forked in the middle of calls answers correctly",
    "When a process forks at any moment - while its other threads are in the middle of calls to the library, from within a call (in a callback or signal handler), or after calls that were interrupted - every call made in the child gives exactly the answer it gives in a fresh process and finishes: "
    "nothing a vanished thread was doing, holding or had half stored is waited for or used. In the parent all calls, those in progress included, go on as if nothing had happened.",
    ["schedules", "crash_points", "histories", "inputs"],
    "every moment of a fork within and between the calls of 1-4 threads, every public operation in the child and in the parent, cold and warm caches, one or several forks",
    "Data loaders and multiprocessing pools fork busy processes; no test forks, and state left by a vanished thread shows only if the fork falls into its window.",
    [S + "reduced_tensor_product.py", S + "rep.py", S + "irrep.py", S + "util.py", S + "irreps/"],
    [("working state lives in locals and is published complete", S + "util.py"), ("no locks, markers or worker threads of its own", S + "reduced_tensor_product.py")],
    [("lru_caches", "memoised values inherited by the child", S + "reduced_tensor_product.py")],
    ["returned value of every call in child and parent", "termination of the child"])
# ----- pure functions: no schedule, fault, randomness or history: not applicable here
PURE = [
    ("P01", "Rational rounding is accurate and idempotent",
     "Rounding to square roots of rationals returns the nearest such number within the denominator bound and is idempotent.", [S + "util.py"]),
    ("P02", "Strings parse to the representation they denote",
     "Parsing the string form of an irrep, multiplicity or sum gives that representation, and malformed strings are rejected.", [S + "irreps/", S + "reduced_rep.py"]),
    ("P03", "Permutations form the symmetric group",
     "Composition, inversion, ranking, cycles and sign of permutations satisfy the laws of the symmetric group for every size.", [S + "discrete_groups/perm.py"]),
    ("P04", "Weyl dimensions and root data match the classification",
     "Root systems, fundamental weights and Weyl dimensions of the classical series agree with the classification of simple Lie algebras.", [S + "lie_algebra_utils.py", S + "irreps/son.py", S + "irreps/spn.py"]),
    ("P05", "The regular representation represents the group",
     "For every finite group table the regular representation is a homomorphism by permutation matrices.", [S + "util.py"]),
    ("P06", "The JAX exponential map equals the NumPy one",
     "For every representation and parameters the JAX and NumPy exponential maps agree.", [S + "jax_utils.py", S + "rep.py"]),
]
for id, t, s, f in PURE:
    add(id, t, s, ["inputs"], "every input within the documented domain", "Tests sample a few inputs; the claim is over all of them.", f, [("pure function", f[0])])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
