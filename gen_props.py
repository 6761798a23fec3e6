#!/usr/bin/env python3
"""One-off generator kept so that properties.jsonl stays readable/reviewable."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Asynchronous ILU(0) factorisation terminates at the exact factors",
 "If every update of the factor entries eventually becomes visible (no thread lags more than a fixed number of sweeps behind) and enough build sweeps are requested, the asynchronously computed ILU(0) preconditioner is the exact ILU(0) factorisation of the (optionally symmetrically scaled) matrix, whatever the thread interleaving, chunk size, number of threads and initial guess. This is observed by applying the preconditioner exactly: the result equals the exact ILU(0) solve.",
 ["schedules","inputs","configurations"],
 "every interleaving with bounded sweep lag, every non-singular-pivot square matrix with full diagonal and sorted rows, scalar and 4/5-block storage, both block layouts, every initialisation type, chunk size, thread count, scaling on/off",
 "The tests run a few matrices on a real OpenMP runtime whose interleavings are a handful of near-lockstep ones and with tolerances on the remainder; lost dependency, stale publication or partial-sum exposure only shows on specific interleavings.",
 ["src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","src/kernels/kernels_ilu0_factorize.hpp","src/ilu_pattern.cpp","src/solverops_ilu0.cpp"],
 [("fixed-point sweep over rows, one shared factor array","src/async_ilu_factor.cpp executeILU0Factorization; src/async_blockilu_factor.cpp"),("position lists for the partial dot products","src/ilu_pattern.cpp compute_ILU_positions_CSR_CSR"),("private accumulation, single publication per entry","src/kernels/kernels_ilu0_factorize.hpp")],
 [("iluvals","shared L and U entries in the matrix's own pattern","include/solverops_ilu0.hpp")],
 ["output vector of apply() of a sequentially/level applied preconditioner"])

p("P02","Asynchronous triangular application terminates at the exact solve",
 "With bounded sweep lag and enough application sweeps, applying an ILU(0) or symmetric Gauss-Seidel preconditioner asynchronously returns the exact forward-and-backward triangular solve with its factors, for every interleaving, initial guess type, chunk size and thread count. In particular no part of the backward solve may start from a forward solution that is not complete.",
 ["schedules","inputs","configurations"],
 "every bounded-lag interleaving; every right-hand side and matrix with full diagonal; scalar and block storage; both application initialisations",
 "Real runs of a small test matrix hardly ever leave the near-sequential interleavings in which one or two sweeps are already exact.",
 ["src/solverops_ilu0.cpp","src/solverops_sgs.cpp","src/kernels/kernels_ilu_apply.hpp","src/kernels/kernels_sgs.hpp"],
 [("nowait dynamic sweeps inside one parallel region per factor","src/solverops_ilu0.cpp scalar_ilu0_apply, block_ilu0_apply"),("barrier between forward and backward region","end of each parallel region"),("backward sweeps","src/solverops_sgs.cpp AsyncSGS_SRPreconditioner::apply")],
 [("ytemp","intermediate vector of the forward solve","include/solverops_ilu0.hpp, include/solverops_sgs.hpp")],["output vector of apply()"])

p("P03","Level-scheduled methods equal the sequential algorithm on every schedule",
 "Level-scheduled ILU(0) application, symmetric Gauss-Seidel application and symmetric Gauss-Seidel relaxation return the result of the sequential algorithm in the original row order, for every thread interleaving and team size, for every structurally symmetric matrix.",
 ["schedules","inputs","configurations"],
 "all interleavings and team sizes, all structurally symmetric patterns with sorted rows and full diagonal, scalar and block storage",
 "A wrong level or missing barrier only shows when two rows of one level are executed in the other order, which test runs with static contiguous chunks practically never do.",
 ["src/levelschedule.cpp","src/solverops_levels_sgs.cpp","src/solverops_levels_ilu0.cpp"],
 [("level partition: rows in a level are mutually independent","src/levelschedule.cpp computeLevels"),("one parallel loop with closing barrier per level, forward then backward","src/solverops_levels_sgs.cpp, src/solverops_levels_ilu0.cpp")],
 [("levels","row ranges of the levels","include/solverops_levels_sgs.hpp")],["output vector of apply()/apply_relax()"])

p("P04","Asynchronous relaxation contracts for diagonally dominant matrices",
 "For a (block-)row diagonally dominant matrix, chaotic and asynchronous symmetric relaxation never leave the error larger than the contraction factor times the initial error in the weighted maximum norm, however long individual threads stall, and with bounded lag the error decays geometrically in the number of sweeps. Every sweep relaxes every row at least once.",
 ["schedules","inputs","configurations"],
 "all interleavings (unbounded stalls for the one-step bound, bounded lag for the geometric bound), all strictly diagonally dominant matrices, right-hand sides and initial guesses, scalar and block storage",
 "The guarantee is the Chazan-Miranker theorem over all schedules; tests only watch convergence of one system under benign scheduling.",
 ["src/relaxation_chaotic.cpp","src/solverops_sgs.cpp","src/kernels/kernels_relaxation.hpp","src/solverops_jacobi.cpp"],
 [("nowait sweeps over all rows updating the solution in place","src/relaxation_chaotic.cpp, src/solverops_sgs.cpp apply_relax"),("inverted diagonal (blocks)","src/solverops_jacobi.cpp compute")],
 [("x","shared iterate, read and written without synchronisation","caller's vector")],["output vector of apply()/apply_relax()"])

p("P05","Asynchronous preconditioners of M-matrices stay between Jacobi and exact",
 "For an M-matrix and a non-negative right-hand side, one application of any asynchronous preconditioner or relaxation (zero initial guess) with at least one sweep yields a vector between the (scaled) diagonal solve and the exact application of the method, entry by entry, for every interleaving with arbitrarily long stalls and any sweep counts. No entry is ever skipped, double-counted or left over from earlier work.",
 ["schedules","inputs","configurations"],
 "every interleaving including unbounded stalls and late or missing team members; every M-matrix and non-negative right-hand side; every method, init type, sweep and chunk count",
 "Monotonicity must hold on every schedule, including ones where a thread sleeps for whole sweeps; tests see only the final convergence of an outer solver.",
 ["src/solverops_ilu0.cpp","src/solverops_sgs.cpp","src/relaxation_chaotic.cpp","src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp"],
 [("each entry published only as a complete update","kernels under src/kernels"),("column-oriented backward sweep resets its accumulators once per sweep and updates atomically","src/solverops_sgs.cpp CSC_BGS_Preconditioner::apply")],
 [("temp","shared accumulators of the column-oriented sweep","src/solverops_sgs.cpp")],["output vector of apply()/apply_relax()"])

p("P06","Sequential variants are exact, deterministic and thread independent",
 "Methods documented as sequential (sequential ILU(0), sequentially factored or sequentially applied ILU(0)) and every asynchronous method that gets only one thread behave exactly like the textbook sequential algorithm: one sweep is already the exact factorisation or triangular solve, and k relaxation sweeps are k Gauss-Seidel sweeps. The available number of threads and the schedule do not change the result.",
 ["schedules","inputs","configurations"],
 "every thread count and schedule for sequential variants, every refusal of the runtime to grant threads for asynchronous ones, all matrices with full diagonal, every init, chunk and sweep count",
 "Tests run sequential variants at the machine's thread count and never with a runtime that grants fewer threads than asked.",
 ["src/solverops_ilu0.cpp","src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","src/solverfactory.cpp","src/relaxation_chaotic.cpp","src/solverops_sgs.cpp"],
 [("if(usethreads) clause and row order of sweeps","src/async_ilu_factor.cpp, src/async_blockilu_factor.cpp, src/solverops_ilu0.cpp"),("settings to threaded-factor / threaded-apply mapping","src/solverfactory.cpp")],
 None,["output vector of apply()/apply_relax()"])

p("P07","Parallel matrix and vector kernels give the sequential result",
 "Matrix-vector products and generalised products for row- and column-stored (block) matrices, Jacobi application and Jacobi relaxation including its tolerance-based stopping, identity preconditioning, symmetric scaling vectors, the column lists of a matrix and the maximum norm return the sequential result for every interleaving, thread count and granted team size. Input operands are never modified.",
 ["schedules","inputs","configurations"],
 "all schedules and team sizes, all matrices (including empty rows, one row, fewer rows than threads) and vectors, all instantiated block sizes and layouts, all scalar coefficients and tolerances",
 "Races in these loops (shared temporaries, missing reductions, early continuation) need a precise interleaving; tests compare one run.",
 ["src/blas/matvecs.cpp","src/blas/blas1.cpp","src/blockmatrices.ipp","src/scmatrix.cpp","src/solverops_jacobi.cpp","src/solverops_base.cpp","src/rawsrmatrixutils.cpp"],
 [("row-parallel loops with private accumulators","src/blas/matvecs.cpp"),("double-buffered Jacobi iteration with norm reductions","src/solverops_jacobi.cpp apply_relax"),("max reduction","src/blas/blas1.cpp")],
 None,["output vectors and return values"])

p("P08","Concurrent matrix assembly conserves every contribution",
 "When several application threads concurrently add blocks to the same sparse matrix through the thread-safe update calls, the assembled matrix holds exactly the sum of all contributions at every stored position, whatever the interleaving, and nothing else changes.",
 ["schedules","inputs","histories"],
 "all interleavings of any number of threads, every multiset of block, buffer-strided and diagonal updates, scalar and block matrices",
 "Lost updates need two threads inside the same read-modify-write; no existing test updates concurrently.",
 ["src/blockmatrices.ipp","include/blockmatrices.hpp"],
 [("atomic element updates","src/blockmatrices.ipp updateBlock, updateDiagBlock"),("position lookup in the stored row","src/blockmatrices.ipp")],
 [("vals","stored non-zero values","include/blockmatrices.hpp")],["matrix values read back through matrix-vector products and diagonal accessors"])

p("P09","Parallel prefix sum is the exclusive scan for any team",
 "The thread-parallel prefix sum used to build compressed row pointers returns the exclusive scan of its input for every input length, number of requested threads, number of threads actually granted, and interleaving.",
 ["schedules","inputs","configurations"],
 "all lengths (including zero, one and fewer entries than threads), all values without overflow, all requested/granted team sizes, all interleavings",
 "The result depends on how many threads the runtime really grants and on phase interleavings; the tests use one fixed team.",
 ["src/utils/prefix_sum.cpp","include/utils/prefix_sum.hpp","src/adjacency.cpp","src/ilu_pattern.cpp"],
 [("per-chunk scans followed by offset propagation, separated by barriers","src/utils/prefix_sum.cpp")],
 [("partial sums","chunk totals","src/utils/prefix_sum.cpp")],["array after the call"])

p("P10","Preconditioner objects are isolated and recomputable over any history",
 "In any history of creating, computing, applying, relaxing, changing matrix values, recomputing and destroying several preconditioner objects, possibly from several application threads that each use their own objects on a shared matrix, every application behaves as that of a freshly created and computed object on the values last computed from - also when other matrices, of other sizes or structure, were used and released earlier in the process. The system matrix and right-hand sides are never modified. A request for something the library does not offer (an unknown method, name or block size, a relaxation a method does not have) is refused with an exception and changes nothing. Destroyed objects leave no memory behind.",
 ["histories","schedules","inputs","configurations"],
 "all finite operation histories over several objects of all methods and all interleavings of application threads with their inner teams",
 "State carried between calls (cached level sets, position lists, temporaries, previous factors) only matters in longer histories; tests make one compute and one solve.",
 ["src/solverops_ilu0.cpp","src/solverops_sgs.cpp","src/solverops_levels_ilu0.cpp","src/solverops_levels_sgs.cpp","src/solverops_jacobi.cpp","src/relaxation_chaotic.cpp","src/solverfactory.cpp"],
 [("lazy first-time setup, re-initialisation at every compute","compute() of each method"),("per-object temporaries","ytemp, iluvals, scale, dblocks members")],
 None,["outputs of apply()/apply_relax(); bytes of the caller's matrix and right-hand side"])

p("P11","Requested factorisation diagnostics are correct on every schedule",
 "When diagnostics are requested, the reported remainder norms before and after the factorisation sweeps and the minimum and average diagonal dominance of the factors equal their definition evaluated on the factors actually held, for every schedule and team size. Requesting them does not change the computed preconditioner.",
 ["schedules","inputs","configurations"],
 "all schedules, team sizes and sweep counts, scalar and block storage, scaling on and off, all init types",
 "Reductions and extra passes over shared factors are schedule dependent, and no test checks these numbers.",
 ["src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","src/matrix_properties.cpp","include/preconditioner_diagnostics.hpp","src/solverops_levels_ilu0.cpp"],
 [("residual reductions","src/async_ilu_factor.cpp scalar_ilu0_nonlinear_res, src/async_blockilu_factor.cpp"),("four simultaneous reductions","src/matrix_properties.cpp diagonal_dominance")],
 None,["PrecInfo returned by compute()"])

p("P12","Operations stay inside live memory and never depend on uninitialised data",
 "No operation reads or writes outside the memory blocks it was given or allocated, uses memory after releasing it, or loses memory it owns, and no result depends on what freshly allocated memory happened to contain, for any schedule, team size and history.",
 ["schedules","histories","inputs","configurations"],
 "all schedules, team sizes, histories and matrices (including single row, empty off-diagonals, fewer rows than threads)",
 "Stray accesses usually hit mapped memory and fresh pages are zero, so tests pass regardless.",
 ["src","include/arrayview.hpp","include/srmatrixdefs.hpp"],
 [("owning array views and explicit aligned allocation/free pairs","include/arrayview.hpp, src/*.cpp destructors"),("explicit initialisation of temporaries and factors","setup_storage, compute")],
 None,["every memory access of the library; heap at end of run; outputs under different fill patterns"])

p("P13","Allocation failure is reported and leaves the caller's world intact",
 "If any memory allocation of an operation fails, the operation reports it by throwing std::bad_alloc (or, for an allocation inside the standard input stream while a file is read, the reader's own exception) instead of crashing or returning a wrong result; the caller's matrix and vectors stay unmodified, the affected object can be destroyed safely, and fresh objects created afterwards work normally.",
 ["fault_sequences","inputs","configurations"],
 "failure of the k-th allocation for every k, in every public operation outside parallel regions, for every method",
 "Tests never run out of memory.",
 ["include/arrayview.hpp","src/solverops_ilu0.cpp","src/solverops_jacobi.cpp","src/solverops_sgs.cpp","src/solverops_levels_sgs.cpp","src/scmatrix.cpp","src/rawsrmatrixutils.cpp","src/coomatrix.cpp"],
 [("aligned allocation at every owner","include/arrayview.hpp and aligned_alloc call sites"),("destructors free whatever was allocated","destructors")],
 None,["exception type; behaviour of destruction and of a fresh object"])

p("P14","Matrix Market input is exact or refused, never silently wrong",
 "Reading a Matrix Market coordinate matrix or dense vector either yields exactly the matrix in the file (converted to sparse rows or block rows with ascending columns; symmetric storage is expanded or refused) or reports an error, even when reads are short, interrupted or fail, or the file is truncated or malformed. A partially read or garbled matrix is never returned as if it were complete.",
 ["fault_sequences","crash_points","inputs"],
 "every truncation point, every sequence of short, interrupted and failing reads, every header, size-line and entry corruption, every entry order",
 "Tests read a few intact files from a healthy disk.",
 ["src/coomatrix.cpp","include/coomatrix.hpp"],
 [("header and size-line parsing, entry loop","src/coomatrix.cpp readMatrixMarket, readDenseMatrixMarket"),("sort and compress","src/coomatrix.cpp convertToCSR/BSR")],
 None,["matrix returned or exception/termination"])

p("P15","Reordering and scaling permute correctly and undo themselves",
 "Applying a row/column ordering and scaling to a matrix or vector yields the matrix or vector defined by that permutation and scaling, and applying the inverse afterwards restores the original, for every permutation and every schedule of the parallel loops, in any sequence of applications and inverses, and with one ordering used by several threads at a time. An ordering is computed from exactly the matrix it is asked for.",
 ["schedules","inputs","histories"],
 "all permutations (row only, column only, both, none), all non-zero scalings, block sizes 1, 4 and 7, all interleavings and team sizes, any number of forward/inverse applications",
 "Tests use one hand-written ordering and a benign schedule; in-place permutation in parallel is exactly what interleavings break.",
 ["src/reorderingscaling.cpp","include/reorderingscaling.hpp"],
 [("out-of-place permutation via temporary copies","src/reorderingscaling.cpp applyOrdering"),("inverse permutation arrays","src/reorderingscaling.cpp setOrdering")],
 None,["matrix arrays and vectors after the call"])
p("P16","Reordered incomplete factorisation solves in the caller's numbering",
 "An asynchronous ILU(0) preconditioner built with an external row and/or column ordering applies the exact ILU(0) of the permuted matrix once enough sweeps are requested: the right-hand side is taken, and the result returned, in the caller's original numbering, for every ordering, schedule and team size. The ordering is recomputed at every compute, values and orderings may change between computes, and the caller's matrix and right-hand side are never modified.",
 ["schedules","inputs","histories","configurations"],
 "all bounded-lag interleavings, all row, column, combined and symmetric permutations that leave a full diagonal, all initialisations, any number of recomputations with changed values or orderings",
 "The only caller in the repository is a perftest; no stable test runs this preconditioner, and a wrong direction of the permutation is invisible for symmetric or self-inverse orderings.",
 ["src/solverops_ilu0.cpp","include/solverops_ilu0.hpp","src/reorderingscaling.cpp"],
 [("private reordered copy of the matrix, recomputed per compute","src/solverops_ilu0.cpp ReorderedAsyncILU0_SRPreconditioner::compute"),("row ordering forward on the right-hand side, column ordering inverse on the solution","src/solverops_ilu0.cpp ReorderedAsyncILU0_SRPreconditioner::apply")],
 None,["output vector of apply(); bytes of the caller's matrix"])
p("P17","Sparse approximate inverse rows are optimal on every schedule",
 "The parallel computation of a left (incomplete) sparse approximate inverse fills every block row of the result with the row that minimises the distance of its product with the matrix from the identity over the sparsity pattern of that row (full variant), or that satisfies the local equations on the pattern exactly (incomplete variant), for every schedule, chunk size and team size, for scalar and block matrices and for triangular views. The pattern may be reused after the values change; the matrix, and storage outside the view, stay untouched.",
 ["schedules","inputs","configurations"],
 "all interleavings and team sizes of the row loop (several application threads included), all matrices whose local systems are well conditioned, both variants, full matrices and triangular views",
 "The tests compare sparsity patterns of fixed matrices only; the numbers and the parallel loop are never exercised.",
 ["src/sai.cpp","src/sai.hpp"],
 [("gather, dense solve, scatter per row","src/sai.cpp compute_SAI, gather_lhs_matrix, scatter_solution"),("pattern of the local systems","src/sai.cpp left_SAI_pattern, left_incomplete_SAI_pattern")],
 None,["values of the approximate inverse after the call"])
p("P18","Matrix objects keep one owner and one content over any history",
 "Over any history of constructing matrices and matrix storage (from a non-zero structure, by wrapping arrays, by taking over raw arrays, by moving storage in, by deep copy), setting and adding blocks, scaling, zeroing, setting a new structure, comparing, sharing, viewing and destroying, every object holds exactly the matrix that a simple model of the calls gives. Every owned array is released exactly once, wrapped arrays are never released, a deep copy is independent of its original, handed-over objects are nulled, and an operation that fails for lack of memory leaves all other objects intact and its own object destroyable or reusable.",
 ["histories","fault_sequences","schedules","inputs"],
 "all finite histories of the construction, mutation, query and destruction calls over several objects, possibly from two application threads sharing one matrix, all failing allocations, all team sizes",
 "Ownership errors need a particular order of copies, moves and destructions, or a failure in the middle of one; the tests make one matrix and one product.",
 ["include/arrayview.hpp","include/srmatrixdefs.hpp","src/rawsrmatrixutils.cpp","src/blockmatrices.ipp","include/blockmatrices.hpp"],
 [("owner flag of array views","include/arrayview.hpp"),("move_to_const, share_with_const, triangular views","src/rawsrmatrixutils.cpp"),("constructors and setStructure","src/blockmatrices.ipp")],
 [("owner","whether an array view releases its block","include/arrayview.hpp")],["contents through products and storage accessors; live heap blocks after the last destruction"])
p("P19","The PETSc plugin serves every shell preconditioner of a solver, over any history",
 "Setting up a PETSc solver tree gives every shell preconditioner in it (under block Jacobi, additive Schwarz, multigrid or nested solvers) its own BLASTed preconditioner, made by the application's factory when it supplies one, from the settings in the options database when it is first set up and from the preconditioning operator. Every later setup uses the current matrix, also when its values changed or it was assembled in other arrays; application and relaxation then give what the stand-alone method gives, a relaxation is offered exactly for methods that have one and performs the number of iterations asked for, and vectors are always handed back. Recorded factor and apply times cover exactly the time spent, and the totals are their sums. A failing PETSc call, an unsupported matrix, block size or option, a missing required option, or a missing diagonal is reported (option errors may end the program) and the setup can be repeated afterwards; when solver and list are destroyed nothing remains allocated.",
 ["histories","fault_sequences","schedules","configurations"],
 "all solver trees, option sets, histories of setups, value changes, re-assemblies, applications and relaxations over all preconditioners of the tree, failing PETSc calls and allocations, clock behaviour, schedules and team sizes",
 "Needs PETSc, which the stable tests do not have; the repository's PETSc tests solve one fixed problem and check the iteration count.",
 ["src/blasted_petsc.cpp","include/blasted_petsc.h","include/blasted_petsc_ext.hpp"],
 [("recursive setup of the solver tree","src/blasted_petsc.cpp setup_stack_recursive"),("first setup from options, later setups update","src/blasted_petsc.cpp compute_preconditioner_blasted"),("shell callbacks","src/blasted_petsc.cpp apply_local_blasted, relax_local_blasted, cleanup_blasted")],
 None,["result vectors, error codes, times in the contexts, list contents, settings passed to the factory, live heap blocks"])
p("P20","Systems and options brought in through PETSc are complete or refused",
 "Reading a matrix or a vector from a Matrix Market file into a PETSc object yields an assembled object with exactly the size and the values in the file (with any block size and matrix type asked for in the options that fits the file), or reports an error: a failing PETSc call, a damaged, truncated or unreadable file, a block size that does not divide the matrix, or a vector that does not fit the given matrix never gives success with an incomplete or wrong object. Options taken from the options database have exactly the value set; a missing required option, or a failing query, is reported by an exception, a missing optional one gives its default. Whatever happens, no memory is lost, and success leaves no PETSc object besides the one returned.",
 ["fault_sequences","crash_points","inputs","configurations"],
 "every truncation point, sequence of short, interrupted and failing reads and corruption of a file, every failing PETSc call and allocation, all block sizes and matrix types in the options, square and rectangular matrices, all option names, kinds, values and length limits",
 "Needs PETSc, which the stable tests do not have; the PETSc tests read intact files only and never see a call fail.",
 ["src/utils/blasted_petsc_io.cpp","src/utils/cmdoptions.cpp","include/utils/blasted_petsc_io.h","include/utils/cmdoptions.hpp"],
 [("row by row or block-row by block-row insertion, or a matrix from arrays","src/utils/blasted_petsc_io.cpp readMatFromCOOFile, readMatFromCOOFile_viaSR"),("vector from a dense file, optionally laid out for a matrix","src/utils/blasted_petsc_io.cpp readVecFromFile"),("queries of the options database","src/utils/cmdoptions.cpp")],
 None,["returned PETSc objects, error codes and exceptions, option values, live heap blocks"])
#NEXT
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
