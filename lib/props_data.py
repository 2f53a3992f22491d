prop('C08', 'C entry points do what the routine they are named after does',
 'Calling a routine through the C interface has exactly the effect of calling the C++ routine of the same name on the same operands: every argument arrives in its own role, the modulus and the requested (positive or balanced) representation select the field, enumerated options keep their meaning, and the result is handed back.',
 ['inputs', 'programs'], 'every C entry point of the two C interface headers, both settings of the representation flag, every argument value',
 'test-interfaces-c calls 4 of about 84 entry points, with contiguous operands and the positive representation only.',
 ['fflas-ffpack/interfaces/libs/fflas_lvl1.C', 'fflas-ffpack/interfaces/libs/fflas_lvl2.C', 'fflas-ffpack/interfaces/libs/fflas_lvl3.C', 'fflas-ffpack/interfaces/libs/ffpack.C', 'fflas-ffpack/interfaces/libs/fflas_c.h', 'fflas-ffpack/interfaces/libs/ffpack_c.h'],
 [('each wrapper builds Modular/ModularBalanced from p and forwards', 'fflas-ffpack/interfaces/libs/*.C')],
 'forward substitution over the type-checked AST of every wrapper (all paths)', 'every wrapper body is resolved on every path; trusts that the C++ routine of that name is the intended one')
prop('C09', 'The precompiled libraries define every routine the headers leave to them',
 'A client that asks for the precompiled routines links: every specialisation that the headers declare as provided by the libraries is emitted by one of the library translation units.',
 ['programs', 'configurations'], 'every routine x field x element type declared under the precompiled configuration',
 'The tests use a handful of the about 600 declared specialisations; a missing one is only seen by the client that needs it.',
 ['fflas-ffpack/interfaces/libs/fflas_L1_inst.h', 'fflas-ffpack/interfaces/libs/fflas_L2_inst.h', 'fflas-ffpack/interfaces/libs/fflas_L3_inst.h', 'fflas-ffpack/interfaces/libs/ffpack_inst.h'],
 [('paired inclusion of *_inst_implem.inl by header and source', 'fflas-ffpack/interfaces/libs')],
 'set inclusion of mangled symbols: declared specialisations versus instantiation definitions', 'exact for the analysed configuration (x86-64, AVX2)')
prop('C10', 'Headers can be included by any number of translation units',
 'Any set of translation units of one program may include any of the library headers, repeatedly and in any order, and the program links: no header emits a strong definition of a function or variable.',
 ['programs'], 'every program made of several translation units',
 'Apart from one two-file test (which never linked), every test program is a single translation unit.',
 ['fflas-ffpack/utils', 'fflas-ffpack/fflas', 'fflas-ffpack/ffpack', 'fflas-ffpack/paladin', 'fflas-ffpack/field'],
 [('inline / template definitions and include guards', 'all headers')],
 'linkage analysis of every definition written in a header; double inclusion', 'exact for the definitions visible in the analysed configurations')
prop('C11', 'Routines keep no hidden state between calls',
 'The result of a routine depends on its arguments only and calls from different threads on disjoint operands do not disturb each other: no routine keeps mutable state in static storage, draws from or reseeds a process-wide random generator, or changes process-wide settings (generators of random test matrices excepted, whose pivot positions come from rand()).',
 ['histories', 'schedules'], 'every sequence and every concurrent interleaving of calls',
 'Tests call routines in a fixed order from one thread; leaked state shows only in histories they do not contain.',
 ['fflas-ffpack/fflas', 'fflas-ffpack/ffpack', 'fflas-ffpack/paladin', 'fflas-ffpack/checkers', 'fflas-ffpack/field'],
 [('all state is in arguments, helpers and locals', 'whole library')],
 'enumeration of all static-storage variables and of calls to process-global mutators over the type-checked program', 'exact for variables; calls are matched against a list of process-global mutators')
prop('C01', 'Every routine releases exactly the memory it allocates',
 'Each buffer a routine allocates for its own use is released exactly once, by the release function that matches its allocator, on every path through the routine (early returns and rank-deficient or empty cases included), is not used after its release, and buffers handed to the caller are handed over by exactly one owner; everything that the initialiser of a container (sparse formats, verification objects) allocates is released by its release function or destructor.',
 ['inputs', 'histories'], 'every path of every routine, every sequence of calls',
 'The tests do not measure memory, and early-exit paths for degenerate operands are rarely taken.',
 ['fflas-ffpack/fflas', 'fflas-ffpack/ffpack', 'fflas-ffpack/paladin', 'fflas-ffpack/checkers', 'fflas-ffpack/field', 'fflas-ffpack/utils'],
 [('fflas_new / fflas_delete, new / delete pairs', 'about 150 functions'), ('sparse_init / sparse_delete', 'fflas-ffpack/fflas/fflas_sparse')],
 'path-sensitive ownership typestate analysis with interprocedural summaries over the type-checked AST', 'all structured paths of every instantiated function; allocations stored in array elements are not tracked; exceptional exits not counted')
prop('C02', 'Matrix and vector arithmetic computes its definition on exactly its operands',
 'For all dimensions (zero included), all transposition flags, all row distances and increments no smaller than needed, and all scalars, each arithmetic routine on dense matrices and vectors (fgemm and its Winograd, blocked and parallel variants, fgemv, fger, fadd, fsub, faxpy, fscal, fneg, fassign, fdot, fzero, freduce, fswap, fsquare and their in-place and parallel forms) leaves in its output operand exactly the value that defines it (for instance C <- alpha op(A) op(B) + beta C), for every block of the output, and writes nothing else. This is the identity over the field (or ring); that sums accumulated with delayed reduction stay in the exact range of the machine type is not part of this property.',
 ['inputs', 'configurations'], 'every size, flag, leading dimension, scalar and block content; every split chosen by the scheduling parameters',
 'Tests sample a few sizes, fields and flag combinations; wrong offsets, strides, signs or scalings on one branch (peeling, odd sizes, beta = 0, transposed operand, one parallel split) need the branch and the shape to coincide.',
 ['fflas-ffpack/fflas/fflas_fgemm', 'fflas-ffpack/fflas/fflas_fgemv.inl', 'fflas-ffpack/fflas/fflas_fger.inl', 'fflas-ffpack/fflas/fflas_pfgemm.inl', 'fflas-ffpack/fflas/fflas_level1.inl', 'fflas-ffpack/fflas/fflas_fadd.inl', 'fflas-ffpack/fflas/fflas_fscal.inl'],
 [('block recursion and Winograd schedules', 'fflas-ffpack/fflas/fflas_fgemm/schedule_*.inl'), ('parallel splits', 'fflas-ffpack/fflas/fflas_pfgemm.inl'), ('element loops', 'fflas-ffpack/fflas/fflas_level1.inl, fflas_fadd.inl, fflas_fscal.inl')],
 'modular abstract interpretation of every definition over block values (non-commutative polynomials in operand blocks) with symbolic sizes, compared with its specification at every exit; callees by summary',
 'equality over the ring of the field (modular reduction, delayed-reduction bounds and the BLAS/SIMD kernels are trusted); definitions the analysis cannot decide are listed in the evidence and never reported')
prop('C03', 'Triangular solve and triangular product compute their definition',
 'For both sides, both triangles, both transposition flags and both diagonal kinds, all dimensions, leading dimensions and scalars, ftrsm overwrites B with alpha op(A)^-1 B (or alpha B op(A)^-1), ftrmm overwrites B with alpha op(A) B (or alpha B op(A)), and the out-of-place product adds alpha op(A) B to beta C; only the triangle the flags name is read (not its diagonal when it is unit), A is unchanged and nothing outside B (or C) is written.',
 ['inputs'], 'every combination of the four flags, every size and every operand',
 'The 16 recursive variants times field kinds times delayed/blocked levels are each a separate code path of a macro-generated family; tests cover a few shapes and compare the result only through another routine of the library.',
 ['fflas-ffpack/fflas/fflas_ftrsm.inl', 'fflas-ffpack/fflas/fflas_ftrmm.inl', 'fflas-ffpack/fflas/fflas_ftrsm_src.inl', 'fflas-ffpack/fflas/fflas_ftrmm_src.inl', 'fflas-ffpack/fflas/fflas_pftrsm.inl'],
 [('macro-generated recursive functors', 'fflas-ffpack/fflas/fflas_ftr*m_src.inl'), ('dispatch on flags', 'fflas-ffpack/fflas/fflas_ftrsm.inl, fflas_ftrmm.inl')],
 'modular abstract interpretation over block values with triangular-block algebra (inverse and product of 2x2 partitioned triangles), compared with the specification at every exit',
 'as C02; the blocked base case of the delayed solver is analysed for one block (the only value TRSMBound yields)')
prop('C16', 'Parallel loop partitions cover every index exactly once',
 'For every extent (0 included), thread count or grain and every cutting strategy (single, row, column, block; by threads, grain or fixed size), the blocks visited by the one- and two-dimensional block iterators that parallel routines loop over start at 0, follow each other without gap or overlap, and end at the extent in each direction; an iterator over a non-empty range visits at least one block.',
 ['inputs', 'configurations'], 'all extents, all numbers of threads or grains >= 1, all strategy combinations',
 'Tests run a few sizes with the thread count of the machine and the default strategy; an uncovered trailing block needs a particular remainder.',
 ['fflas-ffpack/paladin/blockcuts.inl', 'fflas-ffpack/paladin/parallel.h'],
 [('ForStrategy1D, ForStrategy2D and BlockCuts', 'fflas-ffpack/paladin/blockcuts.inl')],
 'abstract interpretation of the iterator members over symbolic sizes; inductive step from an arbitrary state plus closed-form sum of the steps', 'exact integer arithmetic (no overflow); 20 iterator instantiations and 10 block-size rules')

prop('C05', 'Every operand is addressed with its own row distance',
 'Each matrix passed from one routine to another travels with the row distance (leading dimension) or increment it is stored with: no routine hands a block of one operand, or of its own workspace, to a callee together with the row distance of another matrix. Results therefore do not depend on the relation between the leading dimensions of different operands, nor on the padding between rows.',
 ['inputs'], 'every pair (matrix, row distance) at every call in the library, for all leading dimensions and increments',
 'Almost all tests use leading dimensions equal to the number of columns, often of square matrices, where a swapped leading dimension has no effect.',
 ['fflas-ffpack/fflas', 'fflas-ffpack/ffpack', 'fflas-ffpack/paladin', 'fflas-ffpack/checkers'],
 [('(pointer, leading dimension) parameter pairs', 'all level 1-3 routines, factorisations and drivers'), ('workspaces from fflas_new with a fixed width', 'fflas-ffpack/ffpack')],
 'provenance dataflow: origin of each pointer argument versus origin of the stride argument next to it, at every call of every definition (instantiated or not)', 'each pointer/stride pair whose origins are both resolved; unresolved pairs are counted, not reported')
prop('C13', 'The library compiles in every supported configuration',
 'Code using the public routines over the supported fields compiles in each configuration: without vector instructions, with SSE4, AVX, AVX2, AVX-512F alone or with DQ; with or without OpenMP, with explicit or dataflow task synchronisation; with the checkers, the timing of checkers or the debug assertions enabled; every operation of a vector wrapper uses only instructions of the set that selects the wrapper.',
 ['configurations', 'programs'], '24 (quick) or 32 (thorough) configurations times every instantiation of the drivers and of the precompiled libraries',
 'The test suite is built in a single configuration (g++, AVX2, OpenMP).',
 ['fflas-ffpack/fflas/fflas_simd', 'fflas-ffpack/fflas/fflas_simd.h', 'fflas-ffpack/paladin/parallel.h', 'fflas-ffpack/checkers', 'fflas-ffpack/fflas', 'fflas-ffpack/ffpack'],
 [('conditional compilation on instruction sets', 'fflas-ffpack/fflas/fflas_simd.h'), ('task macros', 'fflas-ffpack/paladin/parallel.h')],
 'type checking (and lowering, for instruction-set membership) of instantiation drivers in a matrix of configurations', 'exact for the instantiations of the drivers; x86-64 only')

prop('C06', 'Element-wise routines return the reduced result for every length and alignment',
 'For every length (0 included), every increment >= 1, every alignment of the operands and every modulus, each element-wise routine over Modular and ModularBalanced fields (fadd, fsub, fneg, faxpy, fscal, freduce, finit, fconvert, fassign, fzero, their in-place forms and the vectorised kernels behind them) writes, for each of the n elements and nothing else, the value its definition gives from the elements at the same position, reduced to the unique representative of the field ([0,p-1], or the balanced interval); fiszero and fequal report a difference exactly when some element differs. The scalar, SSE, AVX2 and AVX-512 code paths give the same result.',
 ['inputs', 'configurations'], 'every length, increment, alignment, modulus and element values; four instruction-set configurations',
 'Tests draw few sizes and run on one instruction set; a wrong head or tail loop, a correction applied once too few, or a bad lane needs a particular length modulo the vector width, alignment, or value at the edge of the interval.',
 ['fflas-ffpack/fflas/fflas_level1.inl', 'fflas-ffpack/fflas/fflas_fadd.inl', 'fflas-ffpack/fflas/fflas_freduce.inl', 'fflas-ffpack/fflas/fflas_fscal.inl', 'fflas-ffpack/fflas/fflas_faxpy.inl', 'fflas-ffpack/fflas/fflas_finit.inl', 'fflas-ffpack/fflas/fflas_fassign.inl', 'fflas-ffpack/fflas/fflas_simd'],
 [('scalar head, vector body, scalar tail', 'fflas-ffpack/fflas/fflas_fadd.inl, fflas_freduce.inl, fflas_fscal.inl'), ('conditional correction of a sum, difference or remainder', 'vectorised::VEC_ADD, VEC_SUB, VEC_MOD, VEC_SCAL')],
 'abstract interpretation of one generic element (and one generic vector lane) of each loop in a case-partitioned linear domain; loops summarised by position and count', 'every definition instantiated for the listed fields; floating-point rounding inside the quotient estimate is bounded by one unit (assumed); the semantics of the vector wrappers is taken from their names and decided by C12 where claimed')

prop('C04', 'Concurrent tasks never touch the same data unordered',
 'Whatever the schedule, the result of a task-parallel routine (parallel fgemm and its one-, two- and three-dimensional splits, parallel Winograd, fgemv, ftrsm, fadd, fsub, their in-place forms, freduce, fzero) is the sequential one: two tasks of which one writes a block of a matrix, or changes a helper or variable, that the other reads or writes are ordered, by a wait or by declared dependences on the same object; the code that follows waits before it uses what a task writes; a temporary is released, and the routine returns, only when all the tasks it created are complete. This holds with explicit and with dataflow synchronisation.',
 ['schedules', 'configurations'], 'every interleaving of the tasks of every listed routine, every split, both synchronisation modes',
 'A race needs an unlucky interleaving; tests run a few times, on one machine, with explicit synchronisation only.',
 ['fflas-ffpack/fflas/fflas_pfgemm.inl', 'fflas-ffpack/fflas/fflas_fgemm/schedule_winograd.inl', 'fflas-ffpack/fflas/fflas_pftrsm.inl', 'fflas-ffpack/paladin/pfgemm_variants.inl', 'fflas-ffpack/paladin/parallel.h', 'fflas-ffpack/paladin/pfgemv.inl'],
 [('TASK(MODE(READ.. WRITE.. VALUE.. CONSTREFERENCE..)), CHECK_DEPENDENCIES, WAIT, SYNCH_GROUP', 'fflas-ffpack/paladin/parallel.h and its users')],
 'abstract interpretation with the set of outstanding tasks (footprint rectangles per operand with symbolic sizes, shared variables, dependences) in the state', 'every definition with OpenMP directives that has a block specification; overlaps are reported only with a satisfying instance of the sizes; two definitions undecided (listed in evidence)')
prop('C19', 'Delayed reductions are completed before a result is used or returned',
 'Products, triangular solves and updates over a prime field compute over the integers and reduce later. Whatever the sizes, the algorithm and the splitting, (1) no routine over a field that promises a field element as output returns a block that was computed over the integers and not reduced since (routines whose helper is in lazy mode, and the schedules they are made of, may, and state the bounds in the helper); (2) no operation over the field that takes no helper is given such a block; (3) a helper passed to a product does not claim that an operand is reduced (a fresh helper, initA, initB, initC), or still has the bounds it had before it was accumulated into, when a block of that operand may be unreduced; (4) a triangular solve done over the integers is only given reduced operands.',
 ['inputs', 'programs'], 'every size, leading dimension, transposition, algorithm and recursion level of fgemm, fgemv, fger, ftrsm, ftrmm, fsyrk and the routines they are built of, over prime fields',
 'An unreduced entry, or a helper with the wrong bounds, only gives a wrong answer when a value overflows the representation or is compared: tests use a few sizes and mostly small or one large modulus.',
 ['fflas-ffpack/fflas/fflas_fgemm.inl', 'fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl', 'fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl', 'fflas-ffpack/fflas/fflas_fgemm/schedule_winograd.inl', 'fflas-ffpack/fflas/fflas_fgemv.inl', 'fflas-ffpack/fflas/fflas_fger.inl', 'fflas-ffpack/fflas/fflas_ftrsm_src.inl', 'fflas-ffpack/fflas/fflas_helpers.inl'],
 [('freduce / ScalAndReduce after operations over the delayed ring', 'fflas-ffpack/fflas/fflas_fgemm.inl, fflas_fgemv.inl, fflas_ftrsm_src.inl'), ('MMHelper bounds: initA, initB, initC, copies of helpers', 'fflas-ffpack/fflas/fflas_helpers.inl')],
 'typestate analysis of matrix blocks (reduced / reduction delayed) and of helpers (what they claim) by abstract interpretation with symbolic sizes', 'every definition over a prime field with a block specification; whether the numeric bounds are large enough (when a reduction may be skipped) is not part of this property; a few definitions undecided (listed in evidence)')
prop('C20', 'Delayed computations stay within the exactly representable range',
 'Products over a prime field are computed over the integers with the reduction delayed, in floating point or machine integers that are exact only up to a largest storable value. Whatever the modulus, the representation (positive or balanced), the sizes, the scalars, the algorithm and the number of recursive levels: (1) an operation over the integers that accumulates products does so with an inner dimension at most the delay computed for operands, scalars and accumulator at least as large as the ones it is given; (2) a sum of intermediate results is done without reduction only when it was tested against the largest storable value; (3) the bounds a helper carries to a callee cover every element of the blocks passed to it; (4) the output bounds a routine states in its helper cover every element of its output. Hence no intermediate result loses a digit.',
 ['inputs', 'programs'], 'every modulus, size, scalar, recursion level and split of fgemm (classical, Winograd, parallel variants), and fgemv, over prime fields with delayed reduction',
 'A bound that is too optimistic only shows for moduli near the limit of the representation and inner dimensions just above the delay, with entries all near the extreme value.',
 ['fflas-ffpack/fflas/fflas_fgemm.inl', 'fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl', 'fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl', 'fflas-ffpack/fflas/fflas_fgemm/schedule_winograd.inl', 'fflas-ffpack/fflas/fflas_fgemm/schedule_winograd_acc.inl', 'fflas-ffpack/fflas/fflas_fgemv.inl', 'fflas-ffpack/fflas/fflas_helpers.inl', 'fflas-ffpack/fflas/fflas_bounds.inl', 'fflas-ffpack/utils/flimits.h', 'fflas-ffpack/paladin/pfgemm_variants.inl'],
 [('MMHelper bounds Amin..Outmax, MaxDelayedDim, setOutBounds', 'fflas-ffpack/fflas/fflas_helpers.inl'), ('NeedPreAddReduction, NeedPreSubReduction, NeedPreAXPYReduction, NeedDoublePreAddReduction', 'fflas-ffpack/fflas/fflas_fgemm.inl'), ('kmax blocks of the classical product', 'fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl')],
 'interval analysis with symbolic bounds (linear forms over the helper fields) of matrix blocks, by abstract interpretation with symbolic sizes; a failed comparison is reported only with a satisfying instance of the bounds', 'every definition whose helper carries bounds and has a block specification; the formulas of MaxDelayedDim, setOutBounds, DotProdBoundClassic, the helper constructors and init members are proved by symbolic evaluation over non-negative symbols (machine rounding of the quotient is not modelled), the largest storable values by compile-time witnesses; sums of two or four input blocks inside the Winograd schedules are assumed to fit (guaranteed by the choice of the recursion level); how fger and the triangular solves use their delay bounds is not decided')
prop('C18', 'Symmetric updates and triangular inverses compute their definition',
 'For every size, row distance, scalar, choice of triangle, transposition, unit-diagonal option, threshold, mode and algorithm: fsyrk leaves alpha op(A) op(A)^T + beta C (alpha op(A) D op(A)^T + beta C, and A scaled by D, for the variants with a diagonal matrix) and fsyr2k leaves alpha (op(A) op(B)^T + op(B) op(A)^T) + beta C in the chosen triangle of C, diagonal included; ftrtri replaces the chosen triangle of A by its inverse, ftrtrm replaces A = L\\U by the product U L or L U, ftrstr replaces the triangle of B by A^-1 B or B A^-1, trinv_left writes the inverse of a unit lower triangle, ftrsv replaces x by op(A)^-1 x; the other triangle of a triangular operand, an implicit unit diagonal, and all input operands and memory outside the operands are as before.',
 ['inputs', 'programs'], 'all sizes including 0 and 1 for the blocked and delayed variants, sizes up to 5 for loops over single elements; every flag combination; characteristic 2 and odd for fsyr2k',
 'The tests use a few sizes, mostly above or below the thresholds, one characteristic per run; a wrong scalar in one recursive branch, or a read of the triangle that is not owned, needs a particular combination.',
 ['fflas-ffpack/fflas/fflas_fsyrk.inl', 'fflas-ffpack/fflas/fflas_fsyrk_strassen.inl', 'fflas-ffpack/fflas/fflas_fsyr2k.inl', 'fflas-ffpack/ffpack/ffpack_ftrtr.inl', 'fflas-ffpack/ffpack/ffpack_ftrstr.inl', 'fflas-ffpack/fflas/fflas_ftrsv.inl'],
 [('recursive splitting of the triangle', 'fflas-ffpack/fflas/fflas_fsyrk.inl, ffpack_ftrtr.inl, ffpack_ftrstr.inl'), ('delayed reduction by blocks of the inner dimension', 'fflas-ffpack/fflas/fflas_fsyrk.inl'), ('use of the unused triangle as work space', 'fflas-ffpack/fflas/fflas_fsyr2k.inl')],
 'abstract interpretation over block values (non-commutative polynomials in operand blocks, symbolic sizes) with square cells split into strict upper part, diagonal and strict lower part; comparison with the specification at every exit', 'arithmetic modulo the characteristic; the schedule inside fsyrk_strassen and the variant with 2x2 diagonal blocks are not decided; element loops are decided for sizes up to 5; the content of the triangle fsyrk does not own is unspecified')
prop('C07', 'Checkers accept right results and reject wrong ones',
 'Each probabilistic checker (fgemm, ftrsm, PLUQ, invert, charpoly) accepts the output of a correct computation always, and accepts a wrong one with probability at most about 1/q over its random choices.',
 ['inputs', 'histories'], 'every operand and every random choice', 'Tests sample a few corruptions; the false-acceptance rate is a probability.',
 ['fflas-ffpack/checkers'], [('random projections', 'fflas-ffpack/checkers/checker_fgemm.inl, checker_pluq.inl')],
 na='the statement is about a probability over random vectors, and the accepting direction about an equality of field values after arbitrary arithmetic; no static argument in reach bounds either (memory, leaks and operand addressing of the checkers are covered by C01 and C05)')
prop('C17', 'Factorisations, ranks, determinants and null spaces are mathematically right',
 'PLUQ, LUdivine, fsytrf, the echelon forms, Rank, Det and NullSpaceBasis return factors whose product is the input, the true rank, determinant and a basis of the null space, for every matrix of every rank profile.',
 ['inputs'], 'every matrix over every supported field', 'The pivoting path depends on the values; tests sample random matrices with generic or random rank profiles.',
 ['fflas-ffpack/ffpack'], [('pivot search and permutations', 'fflas-ffpack/ffpack/ffpack_pluq.inl, ffpack_ludivine.inl, ffpack_echelonforms.inl')],
 na='control flow, block sizes and permutations depend on the values of pivots found at run time (data-dependent ranks at every recursion level); the block analysis has no abstraction of a rank-revealing permutation strong enough to relate the permuted halves, so equality with the definition cannot be decided statically here')
prop('C15', 'Sparse products equal the dense product of the stored matrix',
 'For each sparse format, fspmv and fspmm give the same result as the dense product with the matrix the format represents, for every entry list, block size and field.',
 ['inputs'], 'every sparse matrix, format and field', 'Formats differ by padding and slicing that depends on row lengths; tests use few shapes.',
 ['fflas-ffpack/fflas/fflas_sparse'], [('per-format kernels', 'fflas-ffpack/fflas/fflas_sparse/*')],
 na='the result depends on indices stored in memory at run time (row pointers, column indices, padding); relating them to the matrix they encode needs array-content invariants the static domain here cannot express (memory, strides and hidden state of these files are covered by C01, C05, C10, C11)')
prop('C21', 'Characteristic and minimal polynomials are right',
 'CharPoly and MinPoly return the characteristic and minimal polynomial of the input for every matrix, algorithm choice and random seed.',
 ['inputs', 'histories'], 'every matrix, algorithm tag and random choice', 'Las Vegas retries and degenerate Krylov profiles are rare on random inputs.',
 ['fflas-ffpack/ffpack/ffpack_charpoly.inl', 'fflas-ffpack/ffpack/ffpack_minpoly.inl'], [('Krylov and Hessenberg iterations', 'fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl, ffpack_charpoly_kgfast.inl')],
 na='value-dependent control flow (degrees, linear dependences) and randomised retries; the result is an algebraic invariant of run-time values that no dataflow domain in reach can represent')
prop('C22', 'Residue number systems represent and reconstruct integers exactly',
 'Converting integers to residues and back is the identity on the signed range the basis was sized for, and the basis sizes chosen by the integer product cover the result.',
 ['inputs'], 'every integer within the range of the basis', 'Only extreme values near half the product of the moduli show a basis that is one bit short.',
 ['fflas-ffpack/field/rns-double.h', 'fflas-ffpack/field/rns-double.inl', 'fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl'], [('Chinese remaindering in floating point with precomputed matrices', 'fflas-ffpack/field/rns-double.inl')],
 na='exactness rests on bounds of floating-point dot products with tables computed at run time from randomly generated primes; the values involved cannot be bounded by a static argument in reach')
prop('C23', 'Matrices written to a file are read back unchanged',
 'ReadMatrix after WriteMatrix gives the same dimensions and entries, for every format, field and size.',
 ['inputs', 'configurations'], 'every matrix, format, field', 'Tests write a few small matrices.',
 ['fflas-ffpack/utils/fflas_io.h'], [('format detection and parsing', 'fflas-ffpack/utils/fflas_io.h')],
 na='the property relates two loops through the content of a file and the stream operators of the field types (external library); the relation between text and value is outside what the static domain here can express')
