import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":mechanism,"where":", ".join(files)}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="include/cppad/cg/"
p("S01","Sparsity pattern operations compute the exact Boolean matrix result",
  "For sparsity patterns given as one set of column indexes per row, transposing, adding, adding the transpose, and multiplying (A*B, A^T*B, and the transposed result form) leave in the result exactly the positions of the mathematical Boolean matrix operation joined with the positions already there, for any dimensions including identity and empty operands; the identity test answers true exactly for the identity pattern. Operands are never changed.",
  ["inputs"],"all patterns, all dimensions consistent with each operation's documented sizes",
  "The tests run a handful of small fixed matrices; the shortcuts for identity/empty operands and the early exits of the inner loops are decided by the pattern, over which the claim is universal.",
  [H+"util.hpp"],"transposePattern, add(Trans)MatrixSparsity, mult*Sparsity*, isIdentityPattern")
p("S02","Sparsity index lists list every non-zero exactly once, row by row",
  "Converting a sparsity pattern (dense Boolean matrix or one set per row) to row/column index vectors or to a sparse row-column pattern yields exactly one entry per non-zero element and nothing else, ordered by row and, within a row, by column. Converting row/column index lists back to sets yields exactly the listed elements in addition to what the sets already held.",
  ["inputs"],"all Boolean and set patterns, all dimensions",
  "Tests compare a few model sparsities; an off-by-one on an empty row, a last row or a rectangular matrix needs a specific pattern.",
  [H+"extra/sparsity.hpp",H+"util.hpp"],"generateSparsityIndexes (Boolean and set), generateSparsitySet, toSparsityPattern")
p("S03","Custom element selections keep exactly the requested elements",
  "When the user selects elements of a Jacobian or Hessian, by index lists or by sets, filtering a sparsity pattern keeps an element if and only if it was in the pattern and was selected, and leaves the pattern unchanged when no selection was given. The list of all elements kept for generation is the filtered one.",
  ["inputs"],"all selections, all patterns of the declared dimensions",
  "Tests use few selections; erasing while iterating goes wrong only for particular arrangements of kept and dropped elements.",
  [H+"custom_position.hpp"],"CustomPosition constructors, filter, setFullElements")
p("P01","Detected index patterns reproduce every index they were built from",
  "For every map from iteration indexes to element indexes, and every list of element indexes, the detected index pattern evaluates at each given iteration to exactly the given element, whichever kind (linear, sectioned, two-dimensional, random) was chosen.",
  ["inputs"],"all index maps and index lists accepted by the detectors",
  "Pattern tests build a few regular sequences; irregular section boundaries (single-element sections, overlapping extrapolation) are decided by the data.",
  [H+"patterns/index/index_pattern.hpp",H+"patterns/index/index_pattern_impl.hpp",H+"patterns/index/linear_index_pattern.hpp",H+"patterns/index/sectioned_index_pattern.hpp",H+"patterns/index/plane_2d_index_pattern.hpp",H+"patterns/index/random_1d_index_pattern.hpp",H+"patterns/index/random_2d_index_pattern.hpp"],"IndexPattern::detect, SectionedIndexPattern::detectLinearSections, Plane2DIndexPattern::detectPlane2D")
p("P02","Iteration-range algebra is exact",
  "Combining ordered ranges of loop iterations gives ordered ranges that cover exactly the union, inverting them gives exactly the complement over all iterations, and the ranges of an if/else-if branch are those of its condition while the else branch gets every iteration not taken by an earlier branch. No iteration is lost or run by two branches.",
  ["inputs"],"all ordered non-overlapping range lists with start<=end; all if/else-if/else chains over one index",
  "Only reached indirectly by loop tests with a few contiguous ranges; boundaries at zero, adjacency and the maximum value need specific data.",
  [H+"range.hpp"],"combineOverlapingIterationRanges, invertIterationRanges, ifBranchIterationRanges")
p("E01","Recorded arithmetic denotes the operation that was written",
  "For every operator and math function on code-generation scalars, and every mix of constants, variables and variables with known values, the result (constant, reused operand or newly recorded operation) denotes the mathematical result of the written operation on its operands; a known value is attached exactly when all operands have one and equals the result of the operation. Simplifications (adding zero, multiplying by zero or one, dividing by one, equal operands, conditional folding) never change the value in exact arithmetic, and operands belonging to different code handlers are rejected by the binary operators.",
  ["inputs","programs"],"all operand kinds and all real operand values for which the operation is defined",
  "Operator tests run each operation on one point with variables; the many constant/variable/valued combinations and special constants are not covered.",
  [H+"arithmetic.hpp",H+"arithmetic_assign.hpp",H+"unary.hpp",H+"math.hpp",H+"math_other.hpp",H+"cond_exp_op.hpp",H+"cg.hpp",H+"default.hpp",H+"variable.hpp"],"overloaded operators and math functions of CG<Base>")
p("E02","Evaluating a recorded model performs exactly the recorded operations",
  "Re-evaluating recorded operations on new independent values applies, for each supported operation kind, the matching mathematical operation to the values of its operands in recorded order, evaluates each shared operation once (and always keeps the value of the right operation), gives every dependent its value, and throws for unsupported operation kinds, for a number of independent or dependent values that does not match and for an evaluator already in use; after an error the evaluator can be used again.",
  ["inputs","programs"],"all operation kinds and operand values",
  "Evaluator tests use a few expressions; operand order and per-operation dispatch for all kinds are not exercised.",
  [H+"evaluator/evaluator.hpp",H+"evaluator/evaluator_cg.hpp"],"EvaluatorBase::evalOperation/evalOperations/evaluate")
p("E03","Solving an equation for a variable inverts every step on the path",
  "Isolating an operation from residual = 0 along a path yields an expression which, substituted for the operation, satisfies the residual in exact arithmetic (on the branch where each inverse is defined), and a path is reported solvable exactly when each of its steps can be inverted.",
  ["inputs","programs"],"all supported operations along the path, either operand position, all operand values on the principal branch",
  "Solver tests use one equation per operation and one operand position.",
  [H+"solver.hpp",H+"code_handler_impl.hpp"],"CodeHandler::solveFor, isSolvable")
p("C01","Generated C expressions compute the recorded operation",
  "For every recorded operation, the C text emitted for it, parsed by the C grammar with its operands as names or parenthesised sub-expressions, is the recorded operation on its operands in recorded order: no precedence, associativity, sign, function-name, comparison or constant change, and every constant is written as a floating-point constant with its own value (to the configured number of digits) and sign.",
  ["inputs","programs"],"all operation kinds, all nestings, all constants",
  "Tests compile a limited set of models; a missing parenthesis or an integer-valued operand shows only for particular nestings.",
  [H+"lang/c/language_c.hpp",H+"lang/c/lang_stream_stack.hpp"],"LanguageC::pushExpressionNoVarCheck and the push* functions")
p("C02","Generated C loop indexes and conditions reproduce the index pattern",
  "The C text emitted for an index pattern or for an iteration condition evaluates, for every value of the loop index in the domain, to exactly the value of the pattern or to whether the index lies in one of the ranges.",
  ["inputs"],"all patterns, all ranges (including one-element ranges and the open-ended last range), all index values",
  "Loop tests reach a few linear patterns and conditions.",
  [H+"lang/c/language_c.hpp",H+"lang/c/language_c_index_patterns.hpp"],"LanguageC::indexPattern2String, linearIndexPattern2String, printIndexCondExpr")
p("M01","Array storage in generated code never overlaps live array contents",
  "When storage inside the shared temporary array is given to a new array, the range given lies within the reported total size and does not overlap the range of any array not yet released; releasing an array returns exactly its range.",
  ["histories"],"all sequences of reservations and releases of arrays of any sizes and contents",
  "Tests with atomic functions create few arrays; fragmentation patterns depend on the history.",
  [H+"array_id_compresser.hpp"],"ArrayIdCompresser::reserveArrayStartingAt / addFreeArrayName",
  [("_freeArrayStartSpace/_freeArrayEndSpace","free ranges, indexed by start and by end")])
p("M02","A temporary variable slot is never reused while its value is still needed",
  "When temporary variables of generated code share storage, a slot assigned to a variable is given to another variable only after the last use of the first one in evaluation order.",
  ["programs"],"all evaluation orders and usage intervals",
  "Tests compile some models; a lifetime overlap needs a specific graph.",
  [H+"code_handler_impl.hpp"],"CodeHandler::reduceTemporaryVariables, determineLastTempVarUsage")
p("H01","The code handler owns every node exactly once and side tables follow it",
  "Every operation node created through a code handler is owned by it exactly once and is found at its own recorded position; removing a range of nodes removes exactly those nodes and their entries in all per-node tables, and later nodes keep their data. ",
  ["histories"],"all sequences of node creation and deletion",
  "Tests do not delete ranges of nodes with per-node tables in use.",
  [H+"code_handler_impl.hpp",H+"code_handler_vector.hpp"],"CodeHandler::manageOperationNode, deleteManagedNodes; CodeHandlerVector::nodesErased/adjustSize")
p("D01","DAE index reduction keeps a valid matching of variables and equations",
  "During structural index reduction, at every point each assigned variable belongs to an equation that contains it, no variable and no equation is assigned twice, and an augmenting step that reports success assigns one more equation while keeping all previously assigned equations assigned.",
  ["histories","inputs"],"all bipartite structures and all sequences of augmentations",
  "Tests run a few physical models.",
  [H+"dae_index_reduction/bipartite_graph.hpp",H+"dae_index_reduction/bipartite_nodes.hpp",H+"dae_index_reduction/augment_path_depth_lookahead.hpp",H+"dae_index_reduction/augment_path_depth_lookahead_a.hpp"],"bipartite nodes and augmenting paths")
p("K01","A loaded model checks sizes, and stores every value at its position",
  "A compiled model called through the runtime interface rejects arguments whose sizes differ from the model's dimensions before generated code reads or writes them, passes the arguments in the documented order, and returns sparsity and sparse results with each value at the position given by its row and column index.",
  ["inputs","configurations"],"all dimensions, sizes, index lists and value arrays",
  "Tests call models with right sizes only.",
  [H+"model/functor_generic_model.hpp",H+"model/generic_model.hpp"],"FunctorGenericModel<Base> methods and loadSparsity")
p("T01","Scheduled thread-pool jobs are each queued exactly once",
  "Whatever the scheduling strategy, measured times and number of threads, every submitted job is placed exactly once in the work given to the threads, with its own function and argument; and the execution order computed from measured times is a permutation of the jobs.",
  ["inputs","schedules"],"all job counts, thread counts, measured times; single-threaded reasoning about each critical section",
  "Tests run few jobs with similar times.",
  [H+"model/threadpool/pthread_pool.c"],"jobqueue_push_static_jobs, jobqueue_multipush, jobqueue_pull, cppadcg_thpool_update_order")
p("V01","Array views and slices refer to exactly the viewed elements",
  "An array view reads and writes exactly the elements of the underlying storage it was created over; copying values between views, slicing and filling touch only elements within bounds.",
  ["inputs"],"all views and all element indexes",
  "Tests check one vector.",
  [H+"array_view.hpp"],"ArrayView")
p("N01","Generated variable names are distinct for distinct variables",
  "Within one generated function, distinct independents, dependents, temporaries and array positions get distinct names or array positions, and each array element used is within the size reported for that array.",
  ["inputs","configurations"],"all identifiers and generator settings",
  "Tests use a few models.",
  [H+"lang/c/lang_c_default_var_name_gen.hpp",H+"lang/c/lang_c_default_reverse2_var_name_gen.hpp",H+"lang/c/lang_c_default_hessian_var_name_gen.hpp"],"variable name generators")
p("Z01","Generated derivatives equal the mathematical derivatives",
  "The compiled Jacobian, Hessian and directional derivative code of a model evaluates to the derivatives of the recorded model at every point.",
  ["inputs","programs"],"all recorded models and all points","Tests sample models and points.",
  [H+"model/model_c_source_gen.hpp"],"ModelCSourceGen and CppAD")
p("Z02","Loop detection preserves the model",
  "Generating code with detected equation patterns and loops yields the same function values and derivatives as generating it without loops.",
  ["inputs","programs"],"all models and all related-dependent groupings","Tests sample models.",
  [H+"patterns/dependent_pattern_matcher.hpp",H+"patterns/loop.hpp"],"DependentPatternMatcher, Loop")
p("Z03","Compiled model libraries load and unload cleanly",
  "A compiled model library, static or dynamic, exposes exactly the models it was built from, and using a model after its library is closed is rejected.",
  ["histories","configurations"],"all build configurations and open/close histories","Tests open few libraries.",
  [H+"model/dynamic_lib/dynamic_lib.hpp"],"DynamicLib and FunctorModelLibrary")
p("Z04","Thread-pool execution is race free and terminates",
  "Under every schedule each queued job runs once, waiting returns only after all jobs are finished, and shutdown terminates all threads.",
  ["schedules"],"all interleavings","Tests run few schedules.",
  [H+"model/threadpool/pthread_pool.c"],"thread_do, thpool_wait, bsem_*")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
