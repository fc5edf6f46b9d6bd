#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids/titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
L = "include/tlapack/"
SEQ = "Every test in /repo runs one call at a time on one thread; "

p("C01", "Concurrent C++ calls on separate data do not influence each other",
  "Any set of calls of the C++ interface (generic and pointer-based) running at the same time in different threads, each with output storage of its own (which may be parts of one larger array) and possibly sharing operands that all of them only read, gives every caller bit for bit the outputs, return value or exception it gets when its call runs alone. This holds for every interleaving of the calls, at any granularity, and for repeated calls in the same threads.",
  ["schedules", "inputs", "programs"],
  "all pairs/groups of public routines, all inputs, all interleavings of their memory accesses",
  SEQ + "no schedule other than the serial one is ever executed, so shared hidden state (static scratch space, cached constants, temporarily modified shared operands) passes every test.",
  [L + "blas", L + "lapack", L + "legacy_api", L + "base/utils.hpp", L + "base/constants.hpp", L + "LegacyMatrix.hpp", L + "plugins/legacyArray.hpp"],
  [("all scratch memory is a local object of the call (Create/std::vector)", L + "base/arrayTraits.hpp"), ("no mutable namespace-scope or function-local static data in the headers", L), ("read-only operands are taken by const reference and never modified", L + "blas")],
  observe=["outputs, return value and exception of each call"])
p("C02", "Concurrent C and CBLAS calls on separate data do not influence each other",
  "Calls made through the C and CBLAS interfaces at the same time from different threads, each with output storage of its own (which may be parts of one larger array) and possibly sharing operands that all of them only read, give every caller bit for bit what it gets when its call runs alone, in every interleaving and for every layout, transposition, triangle and precision option. A call never modifies, not even for a moment, an operand the interface declares to be read-only.",
  ["schedules", "inputs", "programs"],
  "all pairs of C/CBLAS entry points, option combinations, inputs and interleavings of their memory accesses",
  SEQ + "the C wrappers are only linked by examples, and an operand that is changed and restored within a call is invisible to a single-threaded caller.",
  ["src/tlapack_cwrappers.cpp", L + "legacy_api/blas", "include/tlapack.h.in", "include/tlapack_cblas.h.in"],
  [("wrappers are stateless translations of enums and pointers", "src/tlapack_cwrappers.cpp"), ("row-major cases are mapped to column-major calls", L + "legacy_api/blas/gemv.hpp")],
  observe=["outputs of each call; the shared operand as seen by another thread at any instant"])
p("C03", "No call ever writes outside the storage it documents as output",
  "From entry to return, normal or exceptional, no routine changes any byte outside the elements it documents as output or workspace: read-only operands, the triangle of a matrix it is told not to reference, the gap between the columns of a submatrix, and everything before, after and between the operands keep their value at every instant, so that another thread reading or updating them is never disturbed. Nor does it access memory that belongs to nobody.",
  ["schedules", "inputs", "programs"],
  "all routines, all inputs and shapes, all instants at which another thread may look at the surrounding storage",
  SEQ + "tests allocate exact-size matrices with no neighbours, look only at the final result, and never observe storage in the middle of a call; a store that goes to a gap, to the other triangle, or that is undone before return is not seen.",
  [L + "blas", L + "lapack", L + "LegacyMatrix.hpp", L + "LegacyVector.hpp", L + "plugins/legacyArray.hpp", L + "legacy_api"],
  [("slicing restricts every write to the selected submatrix", L + "plugins/legacyArray.hpp"), ("uplo/diag arguments select the only triangle written", L + "lapack/laset.hpp")],
  observe=["every store of a call, and the value of every byte around the operands at every step"])
p("C04", "Storage a routine must not reference never influences its results",
  "The contents of storage that a routine documents as not referenced - the opposite triangle of a symmetric, Hermitian or triangular operand, an implicit unit diagonal, gaps between columns, and output operands whose previous value is cancelled by a zero coefficient - have no effect on any output or return value. This holds for arbitrary contents (NaN and infinities included) and also when another thread keeps changing that storage during the call.",
  ["schedules", "inputs", "fault_sequences"],
  "all routines with triangular/Hermitian/scaled-output operands, all contents of the unreferenced storage, all points in time at which it changes",
  "Tests leave the unreferenced part at one fixed value (usually symmetric or zero data) that is constant during the call, so a read of it does not change the verdict.",
  [L + "blas", L + "lapack", L + "base/StrongZero.hpp"],
  [("loops restricted to the stored triangle", L + "blas/hemv.hpp"), ("zero beta assigns instead of scaling", L + "blas/gemm.hpp"), ("StrongZero absorbs NaN and Inf", L + "base/StrongZero.hpp")],
  observe=["outputs and return value against the run with different contents"])
p("C05", "A failed memory allocation is reported, leaks nothing, and can be retried",
  "If any one allocation made by a call fails, or all of them from some point on, the call ends with an exception (it neither terminates the process nor returns normally with a wrong result), and it releases everything it had acquired. Read-only operands and surrounding storage keep their contents, and repeating the call with restored inputs once memory is available gives bit for bit the result of a call that never failed.",
  ["fault_sequences", "inputs", "programs"],
  "all routines that allocate, every position in the sequence of their allocations, transient and persistent exhaustion, all inputs",
  "No test makes an allocation fail; the error path of every allocation is never executed.",
  [L + "lapack", L + "blas", L + "base/arrayTraits.hpp", L + "plugins/legacyArray.hpp", L + "plugins/stdvector.hpp"],
  [("workspaces are std::vector objects owned by the stack frame (RAII)", L + "plugins/legacyArray.hpp"), ("no noexcept on functions that allocate", L + "lapack")],
  observe=["exception seen by the caller; number of live blocks; outputs of the retried call"])
p("C06", "Workspace variants allocate nothing and need only the queried workspace",
  "A routine called with a caller-provided workspace of exactly the size its workspace query returns acquires no memory, so it also succeeds when no memory is left; it accesses no element beyond that workspace, and its results and return value are bit for bit those of the variant that allocates internally. The previous contents of the workspace, stale data from other calls included, do not matter.",
  ["inputs", "fault_sequences", "histories", "programs"],
  "all routines with a workspace query, all shapes and options, all contents of the workspace, with the allocator failing throughout",
  "Tests pass fresh zero-initialised or generously sized workspaces and a working allocator; an oversized access, a hidden allocation or a dependence on zeroed workspace goes unnoticed.",
  [L + "base/workspace.hpp", L + "base/arrayTraits.hpp", L + "lapack", L + "plugins/legacyArray.hpp"],
  [("*_worksize functions compute WorkInfo", L + "lapack"), ("reshape() carves matrices out of the workspace and throws when it is too small", L + "plugins/legacyArray.hpp"), ("minMax combines the needs of nested calls", L + "base/workspace.hpp")],
  observe=["allocations during the call; accesses to the workspace; outputs"])
p("C07", "Results depend on the inputs only, not on the state of the machine",
  "Outputs and return values are a function of the documented inputs alone: they do not depend on what uninitialised heap and stack memory happens to contain, on the previous contents of output-only storage, on the addresses or placement of the operands and of internal allocations, on clocks, environment variables or entropy sources, or on the thread that makes the call. Two executions that differ only in these give bit-for-bit equal results.",
  ["configurations", "inputs", "programs", "fault_sequences"],
  "all routines and inputs, all states of the execution environment",
  "Tests run in one environment: fresh zero pages, one placement, one entropy source; a dependence on them gives the same value each time or hides inside the tolerance of a residual check.",
  [L + "lapack", L + "blas", L + "base/utils.hpp", L + "lapack/larnv.hpp", L + "plugins/legacyArray.hpp"],
  [("every output and scratch element is assigned before it is read", L + "lapack"), ("generator state comes from the caller's seed", L + "lapack/larnv.hpp")],
  observe=["outputs and return value of executions under different environments"])
p("C08", "A call is not influenced by the calls made before it, failed ones included",
  "Whatever sequence of calls a thread has made before - of the same or other routines, with other sizes, options or precisions, and including calls that failed by exception, by non-zero status or by exhausted memory - a call gives bit for bit the outputs and return value it gives in a fresh process. A routine therefore leaves no residue, and repeating a call with restored inputs repeats its result.",
  ["histories", "fault_sequences", "programs"],
  "all finite histories of calls, faults included, in one thread or several",
  "Each test case calls a routine once or twice with one size and checks a residual; no test replays the same call after an arbitrary history and compares exactly, or after a failure.",
  [L + "lapack", L + "blas", L + "legacy_api", "src/tlapack_cwrappers.cpp"],
  [("no static or thread-local state in the headers", L), ("scratch memory is owned by the call", L + "base/arrayTraits.hpp")],
  observe=["outputs and return value of the same call at different places of a history"])
p("C09", "Corrupted data never causes hanging, crashing or stray memory accesses",
  "Whatever values the floating-point data of a call takes - NaN, infinities, overflowing or underflowing values, single corrupted elements, present from the start or appearing in the middle of the call - the call ends within a number of steps bounded by the problem size, by returning or by a catchable exception. On the way it accesses only its operands, its workspace and memory it allocated.",
  ["fault_sequences", "crash_points", "inputs"],
  "all routines including the iterative ones, all corrupted values, all positions and all instants of the corruption",
  "Tests use random well-scaled data that is constant during the call; iteration limits, convergence tests that are false for NaN, and data-dependent indices are never driven by corrupted values.",
  [L + "lapack/lahqr.hpp", L + "lapack/multishift_qr.hpp", L + "lapack/lahqz.hpp", L + "lapack/steqr.hpp", L + "lapack/svd_qr.hpp", L + "lapack/laed4.hpp", L + "blas/rotmg.hpp", L + "lapack"],
  [("iteration limits of the iterative algorithms", L + "lapack/lahqr.hpp"), ("scaling loops with a bounded count", L + "lapack/larfg.hpp")],
  observe=["number of memory accesses of the call (simulated clock), its termination status, every address accessed"])
p("C10", "A NaN that reaches the data of a call is not silently lost",
  "If an element that a routine uses is NaN when the call starts, or becomes NaN before the routine first reads it, then the routine does not report success with outputs that look valid: the NaN (or an infinity) shows in the outputs that depend on that element, or the call returns a non-zero status or throws. In particular norms of data with a NaN are NaN, the search for the largest element finds the NaN, and checks for NaN or infinity answer yes.",
  ["fault_sequences", "inputs"],
  "all routines with the propagation guarantee, every operand element they use, every instant before its first use",
  "A few tests put a NaN into one fixed position of a vector for the norms and index searches; no test covers positions, options and routines, or data that goes bad while a call is running.",
  [L + "blas/iamax.hpp", L + "lapack/lange.hpp", L + "lapack/lanhe.hpp", L + "lapack/lansy.hpp", L + "lapack/lantr.hpp", L + "lapack/lassq.hpp", L + "lapack/hasnan.hpp", L + "lapack/hasinf.hpp", L + "lapack/potf2.hpp", L + "lapack/getrf_level0.hpp", L + "base/utils.hpp", L + "blas"],
  [("comparisons are written so that NaN wins", L + "lapack/lange.hpp"), ("no skipping of operations for zero factors", L + "blas/gemm.hpp")],
  observe=["outputs and status of the call"])
p("C11", "Rejected calls are rejected every time and change nothing",
  "A call whose arguments are inconsistent - mismatching dimensions, unknown option values, too small strides - ends with an exception at any point of any history, never with a partial computation: all operands, the output ones included, keep their contents. The calls that follow behave as if the rejected call had not been made; consistent ones are not rejected.",
  ["histories", "inputs", "fault_sequences"],
  "all routines with documented preconditions, all single violations of them, all positions in a history of calls",
  "Only a handful of preconditions are ever violated in the tests, and none of them looks at the operands afterwards or goes on with valid calls.",
  [L + "base/exceptionHandling.hpp", L + "blas", L + "legacy_api", L + "lapack"],
  [("tlapack_check/tlapack_check_false at the start of each routine", L + "base/exceptionHandling.hpp")],
  observe=["exception type; contents of all operands; outcome of later calls"])
p("C12", "Random vectors are a function of the given seed alone",
  "Filling a vector with random numbers depends only on the seed object handed in, the distribution and the length: it is independent of entropy sources (also when they fail or return unusual values), of other streams in use at the same time, and of earlier calls. Continuing with the updated seed continues the same reproducible stream, and the values respect the range of the distribution.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all seeds, lengths, distributions and element types, all interleavings with other streams, all behaviours of the entropy source",
  "The tests use it as a source of data and never compare two streams, let alone under another entropy source or another interleaving.",
  [L + "lapack/larnv.hpp", L + "legacy_api/lapack/larnv.hpp"],
  [("generator is a local object seeded from the argument", L + "lapack/larnv.hpp"), ("seed argument is updated for the next call", L + "lapack/larnv.hpp")],
  observe=["generated values, updated seed"])
p("C13", "Task-parallel tiled operations give the sequential result in any schedule",
  "When a matrix is divided into tiles under a task runtime, every execution order and overlap of the submitted tasks that respects the data accesses they declare, with any delays and any placement of tile copies in separate memories, leaves in the matrix the result of executing the operations one after the other in program order. This covers products, rank-k updates, triangular solves, Cholesky factorization and the generic algorithms built on them, for all tile shapes including ragged ones.",
  ["schedules", "inputs", "configurations", "programs"],
  "all task schedules and replica placements, all tilings, all supported operations and sequences of them",
  "The task layer is not compiled by the test suite at all (no runtime installed), and a real runtime would show only the few schedules it happens to produce.",
  [L + "starpu/tasks.hpp", L + "starpu/codelets.hpp", L + "starpu/functions.hpp", L + "starpu/Tile.hpp", L + "starpu/gemm.hpp", L + "starpu/herk.hpp", L + "starpu/trsm.hpp", L + "starpu/potf2.hpp"],
  [("per-operation access modes in the codelets", L + "starpu/codelets.hpp"), ("one handle per tile or subtile from a partition plan", L + "starpu/Tile.hpp")],
  state=[("partition plan", "children handles of the tile grid", L + "starpu/Matrix.hpp")],
  observe=["matrix contents after all tasks finished"])
p("C14", "Element access to a runtime-managed matrix is ordered with running tasks",
  "Reading or writing a single element of a matrix that is managed by the task runtime always sees every operation issued before it and never one issued after it, although tasks run asynchronously: mixed programs of element reads, element updates, slices and tile operations give, in every schedule, the values of sequential execution.",
  ["schedules", "programs"],
  "all programs of element reads, element updates and tile operations, all schedules",
  "The task layer is not compiled by the tests, and ordering errors show only in particular schedules.",
  [L + "starpu/MatrixEntry.hpp", L + "starpu/Matrix.hpp", L + "starpu/codelets.hpp"],
  [("entry handles are children of the tile handle; reads acquire and release them", L + "starpu/MatrixEntry.hpp"), ("updates are submitted as tasks", L + "starpu/tasks.hpp")],
  observe=["values read by the program, final matrix contents"])
p("C15", "Tasks touch only the data they declare, in the way they declare it",
  "Every task the library submits reads only data declared as readable, changes only data declared as writable, does not rely on the previous contents of data declared write-only and overwrites all of it, and uses only argument memory that stays alive until it has finished. No placement of copies, eviction or delay chosen by the runtime can therefore change its effect.",
  ["schedules", "fault_sequences", "configurations"],
  "all task kinds, option combinations, tile shapes, placements and delays",
  "Not compiled by the tests; with a real runtime on one shared memory a wrong access mode has no visible effect.",
  [L + "starpu/codelets.hpp", L + "starpu/functions.hpp", L + "starpu/tasks.hpp", L + "starpu/MatrixEntry.hpp"],
  [("codelet mode tables", L + "starpu/codelets.hpp"), ("arguments on the heap freed by the completion callback", L + "starpu/tasks.hpp")],
  observe=["accesses of each task to its buffers and argument block"])
p("C16", "Runtime-managed matrices release everything and always make progress",
  "Whatever is done with runtime-managed matrices, tiles and elements - copies, slices, regrids, rejected operations - once the last matrix object is destroyed all handles, partitions and task arguments have been released exactly once and none while still in use, and the user's memory holds the final values. The main program never waits on something that cannot finish, and an operation on matrices whose tiles do not match is refused with an exception and likewise leaves nothing behind.",
  ["schedules", "fault_sequences", "programs", "histories"],
  "all programs over matrices, tiles and elements, mismatched operations included, and all schedules",
  "Not compiled by the tests; leaks, early release and deadlocks depend on the schedule and on the lifetime of copies.",
  [L + "starpu/Matrix.hpp", L + "starpu/MatrixEntry.hpp", L + "starpu/Tile.hpp", L + "starpu/tasks.hpp", L + "starpu/utils.hpp"],
  [("shared handle with a deleter that unpartitions and unregisters", L + "starpu/Matrix.hpp"), ("completion callback frees arguments", L + "starpu/tasks.hpp")],
  observe=["handle, partition and argument accounting of the runtime; user memory after destruction"])
p("C17", "A failure raised by the number type in mid-computation is harmless",
  "If an arithmetic operation, comparison or mathematical function of a user-supplied number type throws at an arbitrary point of a call (copying, negation, isnan/isinf and the machine constants are required not to throw), the exception reaches the caller unchanged, all memory the call acquired is released, operands it only reads and storage around its outputs keep their contents, and repeating the call with restored outputs gives the result of an undisturbed call.",
  ["crash_points", "fault_sequences", "inputs"],
  "all routines usable with user-supplied number types, every arithmetic operation as the point of failure",
  "The tests instantiate number types whose operations never fail.",
  [L + "blas", L + "lapack", L + "base/scalar_type_traits.hpp"],
  [("no noexcept on computational routines; scratch memory is RAII", L + "lapack")],
  observe=["exception seen by the caller, live memory blocks, operands, result of the repeated call"])

p("C18", "Internally parallel routines give the sequential result for every team",
  "A routine that runs parts of its work in a team of threads (built with OpenMP) produces bit for bit the result of its run on one thread, for every number of threads, every assignment of work and every interleaving of them, also when several callers enter it at once. Within a parallel region no two threads touch the same element, of an operand or of a shared variable, without synchronisation when one of them writes it; every thread reaches every barrier, and only the documented outputs are written.",
  ["schedules", "inputs"],
  "all team sizes and schedules, all options and shapes, including shapes that need one, few or many blocks of work",
  "The tests are built without OpenMP or run whatever schedule the machine gives for a few sizes; a race between blocks shows only for shapes of several blocks and unlucky timing.",
  [L + "lapack/rot_sequence3.hpp"],
  [("parallel loop over blocks of columns or rows, every block disjoint from the others", L + "lapack/rot_sequence3.hpp")],
  observe=["output operand", "accesses of each team member between synchronisation points"])

p("C19", "A call leaves no trace in the process besides its outputs",
  "However a call ends - normally, by an exception, with a non-zero status, out of memory, on corrupted data, or rejected - the process is as its caller set it up: rounding mode, trap masks and flush-to-zero settings of the thread, formats of the standard streams, the new and terminate handlers, signal handlers and mask, locale and environment variables keep whatever value they had, also when it is not the default. The call prints nothing (warnings documented by the library as lines with an error code on the standard error stream excepted), opens no file, registers nothing to run at exit, does not use up or reseed the generator behind rand(), and never ends the process.",
  ["fault_sequences", "configurations", "inputs"],
  "all routines of the C++, C and CBLAS interfaces, all caller settings, all points of failure in a call",
  "The tests run under default settings, on paths that succeed, and never look at the process afterwards; a setting that is not restored on one error path stays invisible.",
  [L + "base/exceptionHandling.hpp", L + "lapack/mult_hehe.hpp", L + "lapack/geqrt3.hpp", L + "blas/lassq.hpp", "src/tlapack_cwrappers.cpp"],
  [("errors are reported by exceptions and return values, not by output or by global handlers", L + "base/exceptionHandling.hpp")],
  observe=["floating-point control words, stream formats, handlers, locale and environment before and after the call", "output and files requested by the call"])

# --- guarantees outside the technique (listed under not_applicable) ---
p("N01", "Computed results are backward stable",
  "For every input, factorizations, solvers, eigenvalue and singular value routines return results whose residual and loss of orthogonality are bounded by a modest multiple of the unit roundoff of the data type, times a function of the size.",
  ["inputs"], "all finite inputs, sizes, options and number types",
  "Tests sample a few random matrices of a few sizes.",
  [L + "lapack", L + "blas"], [("orthogonal transformations, pivoting, scaling", L + "lapack")])
p("N02", "Extreme but finite data causes no avoidable overflow or underflow",
  "Routines documented as safe - norms, Givens and Householder generation, complex division, reciprocal scaling, robust solves - return accurate results whenever the exact result is representable, however large or small the data.",
  ["inputs"], "all finite inputs near the overflow and underflow thresholds",
  "Tests use moderate data and few scaled cases.",
  [L + "blas/nrm2.hpp", L + "lapack/lassq.hpp", L + "blas/rotg.hpp", L + "blas/lartg.hpp", L + "lapack/larfg.hpp", L + "lapack/ladiv.hpp", L + "lapack/rscl.hpp"], [("scaled accumulators and safe ranges", L + "base/constants.hpp")])
p("N03", "Storage layout, strides and matrix class do not change the mathematics",
  "The same mathematical operands give equivalent results in column-major, row-major, strided and transposed storage, with any supported matrix class, and through the C++, C, CBLAS and Fortran interfaces.",
  ["inputs", "configurations"], "all operands, layouts, strides, interfaces",
  "Tests use two layouts with a few sizes and no cross-interface comparison.",
  [L + "plugins", L + "legacy_api", "src"], [("array traits; wrappers", L + "base/arrayTraits.hpp")])
p("N04", "Blocked, recursive and unblocked variants agree",
  "All algorithmic variants and block sizes of one operation produce valid results of the same factorization, equal up to rounding.",
  ["inputs", "configurations"], "all variants, block sizes, inputs",
  "Tests sample a few block sizes.",
  [L + "lapack"], [("variant options", L + "lapack/potrf.hpp")])
p("N05", "Status codes identify breakdown exactly",
  "A zero status is returned exactly when the factorization or iteration succeeded, and a positive one names the first pivot, minor or eigenvalue at which it broke down, the earlier part of the output being valid.",
  ["inputs"], "all inputs including singular and indefinite ones",
  "Tests provoke few breakdowns.",
  [L + "lapack/potrf2.hpp", L + "lapack/getrf_recursive.hpp", L + "lapack/lahqr.hpp"], [("info return values", L + "lapack")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=True) + "\n")
print(len(P))
