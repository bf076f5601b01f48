import json
import re
P=[]
MAP={'LDL_numeric':'src/ldl.c','AMD_2':'src/amd_2.c','AMD_postorder':'src/amd_postorder.c'}
def where(fn,files):
    import glob
    for f in files+[g[6:] for g in sorted(glob.glob('/repo/src/*.c'))]:
        t=open('/repo/'+f,errors='replace').read()
        if MAP.get(fn) and f!=MAP[fn]: continue
        for ln,l in enumerate(t.split('\n'),1):
            g='(?:GLOBAL +)?(?:PRIVATE +)?'
            if re.search(r'^\s*[\w\s\*]*\b'+fn+r'\b\s*(/\*.*)?(\(|$)',l) and ';' not in l and '=' not in l and 'if' not in l:
                return f+': '+fn
    return MAP.get(fn,files[0])+': '+fn
def p(id,title,statement,over,qtext,why,files,mech):
    mech=[dict(name=x,where=where(x,files)) for x in mech]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=mech)))
Q="src/qpSWIFT.c";A="src/Auxilary.c";L="src/ldl.c"
p("C01","An optimal exit certifies the returned point",
 "When the solver reports an optimal solution, the point it hands back (x, y, z, s as they stand after the call) has a stationarity residual |Px+c+A'y+G'z|, an equality residual |Ax-b| and an inequality residual |Gx+s-h| each below the relative tolerance over sqrt(3), and an average complementarity s'z/m below the absolute tolerance. The test is made on that very point and in the current call: the report is never left over from an earlier iterate or an earlier solve of the same instance, and a residual that is not a number never passes as small.",
 ["inputs","histories"],"All problems (sparse or dense, with or without equality constraints), all user-set tolerances, all sequences of solve calls on an instance.",
 "The suite only checks that calls return; no test compares the returned point with the optimality conditions, and a finite set of problems cannot show the certificate holds for every iterate the solver may stop at.",
 [Q,A],["QP_SOLVE","computeresiduals","norm","innerproduct","SparseMatrixMultiply","SparseMatrixTransMultiply","updatevariables"])
p("C02","Every solve ends within its iteration budget with a truthful status",
 "A solve performs at most the configured maximum number of iterations and returns one of the four documented status codes, the same value it stores in the statistics. Optimal is reported only if the convergence test succeeded in this call, maximum-iterations only if the iteration count reached the configured maximum, and KKT failure only if a factorisation failed; once set-up has recorded a KKT failure, a solve returns that failure without iterating. The iteration count reported is the number of iterate updates made by this call.",
 ["inputs","histories"],"All problems, all values of the iteration limit (including zero), all verbosity levels, repeated solves.",
 "Which exit is taken depends on the whole trajectory; tests exercise a couple of trajectories that converge.",
 [Q,A],["QP_SOLVE","kktsolve_1","kktsolve_2","QP_SETUP","QP_SETUP_dense","kkt_initialize"])
p("C03","Slacks and inequality multipliers stay strictly positive",
 "In exact arithmetic the starting slack and inequality-multiplier vectors are strictly positive, and every iteration keeps every component of both strictly positive. Each step length is in (0,1], and is at most 0.99 of the distance to the boundary of the positive orthant along its direction.",
 ["inputs"],"All problems with at least one inequality, all iterates, all search directions (in exact arithmetic).",
 "It is an inductive statement about every iterate and every direction; a test sees a few end points.",
 [A,Q],["kkt_initialize","findminmax","findsteplength","updatevariables","QP_SOLVE","formlambda"])
p("C04","The KKT matrix is assembled exactly and updated only in its scaling block",
 "The assembled matrix is exactly [P A' G'; A 0 0; G 0 -I] in compressed-column form, with correct column pointers and with the -I diagonal entry present for every inequality row and last in its column, also when a row of G holds no entries. Later updates replace precisely those m diagonal entries by -s_i/z_i and change no other entry.",
 ["inputs"],"All compressed-column P, A, G and their transposes, of all sizes and sparsity patterns, with and without A, including empty rows and columns.",
 "The result depends on the sparsity pattern; an empty row, an empty column or an absent A is exactly what sample problems lack.",
 [A,Q],["formkktmatrix_full","updatekktmatrix","QP_SETUP","QP_SETUP_dense","SparseMatrixTranspose"])
p("C05","Sparse matrix kernels compute exactly what they name",
 "Transposing a compressed-column matrix yields a valid compressed-column matrix holding exactly the transposed entries, each column's entries in the order of the source columns. The multiply kernels subtract exactly A x (or A' x) from the output vector, starting from zero when asked to and from the old value otherwise, and the vector kernels (scaled addition, inner product, norm, minimum/maximum) compute their defining formula over the whole vector.",
 ["inputs"],"All matrices in valid compressed-column form, including unsorted rows, duplicate entries, empty rows and columns, and all vector lengths.",
 "The claim ranges over all dimensions and patterns; the unit tests use one or two fixed small matrices.",
 [A],["SparseMatrixTranspose","Transpose_Row_Count","SparseMatrixMultiply","SparseMatrixTransMultiply","updatevariables","innerproduct","norm","findminmax"])
p("C06","Dense matrices are imported exactly in either storage order",
 "Converting a dense matrix stored by columns or by rows yields the same compressed-column matrix: it holds exactly the nonzero entries of the input with their values, row indices strictly increasing in each column, correct column pointers, dimensions and entry count.",
 ["inputs"],"All dense matrices of all dimensions, in both storage orders, including all-zero rows, columns and matrices.",
 "All shapes and zero patterns are quantified; tests use one matrix, and square or symmetric samples cannot tell the two orders apart.",
 [A],["densetosparse","densetosparse_ROWMAJOR"])
p("C07","Factorise-and-solve solves the permuted KKT system",
 "For a symmetric matrix whose pivots need no regularisation, the factorisation yields unit lower-triangular L and diagonal D with L D L' equal to the symmetrically permuted matrix, and the permute, forward, diagonal, backward and un-permute steps return the solution of the original system. The symbolic phase predicts exactly the storage the numeric phase fills.",
 ["inputs"],"All symmetric sparse matrices, all right-hand sides, all permutations (in exact arithmetic).",
 "Fill-in patterns and elimination trees differ for each matrix and ordering; tests only check that the solver runs.",
 [L,A],["LDL_symbolic","LDL_numeric","LDL_lsolve","LDL_dsolve","LDL_ltsolve","LDL_perm","LDL_permt","ldlinitialsolve","kktsolve_1","kktsolve_2"])
p("C08","Factorisation always succeeds with nonzero, sign-preserving pivots",
 "The numeric factorisation replaces any pivot whose magnitude is at most 1e-14 by one of magnitude 1e-7 with the same sign (negative for zero) and leaves every other pivot unchanged. Every stored pivot is therefore nonzero, no division by a zero pivot ever occurs, and the factorisation always reports success.",
 ["inputs"],"All matrices, including singular, zero and rank-deficient ones, at every elimination step.",
 "Tiny and zero pivots appear only for particular values at particular elimination steps; ordinary problems never trigger the branch.",
 [L,A],["LDL_numeric","LDL_dsolve","kktsolve_1","ldlinitialsolve"])
p("C09","The elimination ordering is always a permutation with a matching inverse",
 "The ordering the solver uses is a permutation of the KKT rows: the caller's own vector, unchanged, if one is given; otherwise the minimum-degree ordering, or the natural order if that ordering reports failure. The stored inverse is its exact inverse, and the ordering routine rejects malformed matrices (bad dimensions, column pointers or row indices) with its invalid status instead of using them.",
 ["inputs","fault_sequences"],"All sparsity patterns and sizes, all user permutations, allocation failures inside the ordering routine.",
 "A wrong ordering for one pattern in a million corrupts the solve silently; tests sample a handful of patterns and never make an allocation fail.",
 ["src/amd_order.c","src/amd_valid.c","src/amd_preprocess.c","src/amd_1.c","src/amd_2.c","src/amd_aat.c","src/amd_postorder.c",L,Q],["AMD_order","AMD_valid","AMD_preprocess","AMD_1","AMD_2","AMD_aat","AMD_postorder","AMD_post_tree","LDL_symbolic","QP_SETUP","QP_SETUP_dense"])
p("C10","Set-up and clean-up are balanced and free nothing of the caller's",
 "Set-up followed by any number of solves and the matching clean-up releases every block the library allocated exactly once, and touches no released memory. Clean-up never releases the caller's arrays: matrices and vectors passed to the sparse entry point, vectors passed to the dense one, and a permutation the caller supplied.",
 ["histories","fault_sequences"],"All combinations of present and absent equality constraints and user permutation, both entry points, ordering failure, all solve outcomes.",
 "Tests do not observe the heap; leaks and double frees hide in option combinations that are not sampled.",
 [Q,A,"src/amd_order.c"],["QP_SETUP","QP_SETUP_dense","QP_CLEANUP","QP_CLEANUP_dense","ldlinitialsolve","kkt_initialize","SparseMatrixTranspose","AMD_order"])
p("C11","Caller-supplied problem data is never modified",
 "No call of the library writes to the arrays the caller passed: matrix column pointers, row indices and values, the cost, inequality and equality vectors, and the permutation hold the same contents after set-up, solve and clean-up as before.",
 ["inputs","histories"],"All problems, both entry points, all solve trajectories.",
 "Tests never compare inputs before and after; a write on a rare branch stays unseen.",
 [Q,A,L,"src/amd_order.c"],["QP_SETUP","QP_SETUP_dense","QP_SOLVE","QP_CLEANUP","computeresiduals","updatekktmatrix_b","kkt_initialize","LDL_numeric"])
p("C12","All memory accesses stay inside their arrays",
 "For consistent inputs, every read and write made during set-up, solve and clean-up falls inside a live allocation, null pointers are never dereferenced, and every loop terminates.",
 ["inputs","histories"],"All dimensions and sparsity patterns with at least one variable and one inequality, with or without equality constraints.",
 "Bounds depend on the pattern-dependent sizes that the symbolic phase predicts; the sample problems touch a few patterns and run without memory checking.",
 [A,L,Q,"src/amd_order.c","src/amd_valid.c","src/amd_preprocess.c"],["LDL_symbolic","LDL_numeric","formkktmatrix_full","SparseMatrixTranspose","densetosparse","QP_SETUP","QP_SOLVE"])
p("C13","Search directions solve the intended Newton systems",
 "The right-hand side of each linear system is [rx; ry; rz - ds/z] with the residuals' signs as defined, where the complementarity term ds is -lambda^2, -lambda^2 - delta_s*delta_z + sigma*mu, or -lambda^2 + sigma*mu for the predictor, corrector and centring steps, and lambda^2 = s*z, mu = s'z/m. The slack direction satisfies delta_s = (ds - s*delta_z)/z, the centring weight is the clipped cube of the predicted complementarity ratio, and each iterate moves by exactly step length times direction, with the primal step for x, s and the dual step for y, z.",
 ["inputs"],"All iterates, dimensions and step kinds (in exact arithmetic).",
 "A sign or index slip in a direction still converges on easy problems, so passing runs do not show the equations hold.",
 [A,Q],["updatekktmatrix_b","form_ds","formlambda","formrho","kktsolve_1","kktsolve_2","updatevariables","computeresiduals","kkt_initialize","QP_SOLVE"])
p("C14","Reported objective and statistics describe the returned solution",
 "After an optimal exit, the reported objective equals 0.5 x'Px + c'x at the returned x, and the reported residual norms and complementarity are those of the returned point.",
 ["inputs","histories"],"All problems and trajectories that end with an optimal status.",
 "No test reads the reported objective or norms against an independent evaluation.",
 [Q,A],["obj_value","QP_SOLVE","computeresiduals","innerproduct"])
p("C15","Set-up records the problem, defaults and dimensions faithfully",
 "After set-up through either entry point the instance holds the given dimensions, matrices and vectors (equality constraints dropped exactly when their data or count is absent), their transposes, the documented default settings, and a starting point that solves the initial KKT system. The dense entry point, in either storage order, sets up the same problem as the sparse one given the same matrices.",
 ["inputs"],"All dimensions and data, with and without equality constraints, both storage orders, both entry points.",
 "Tests call each entry point on one problem and do not compare the resulting instances.",
 [Q,A],["QP_SETUP","QP_SETUP_dense","SparseMatrixSetup","densetosparse","densetosparse_ROWMAJOR","kkt_initialize"])
p("C16","The Python call validates its arguments and passes the problem through",
 "The Python function raises an exception, and never crashes or returns a result, for arguments that are not arrays of the required kind or whose dimensions do not match; otherwise it solves exactly the given problem with the given options and returns the solution and the basic or advanced results that the solver computed. An exception is raised whenever no result is returned, and never together with one.",
 ["inputs"],"All argument combinations, array dimensionalities, shapes and option values.",
 "The suite tries a fixed list of bad arguments; dimensionalities such as zero-dimensional arrays and combinations of options are not in it.",
 ["python/pyqpSWIFT.c"],["method_qpSWIFT"])
p("C17","Instances are independent and results depend only on the inputs",
 "The library keeps no mutable state outside the instance it returns: solving one problem never changes the result of another, in any interleaving of set-up, solve and clean-up, and solving the same data twice in fresh instances gives identical results and statistics, timings aside.",
 ["histories","schedules"],"All interleavings of calls on any number of instances, all problems.",
 "Shared state shows only under particular interleavings of several instances; each test uses one instance at a time.",
 [Q,A,L,"src/amd_global.c","src/amd_order.c","src/timer.c"],["QP_SETUP","QP_SETUP_dense","QP_SOLVE","QP_CLEANUP","AMD_order"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
