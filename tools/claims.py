CLAIMED = {
    "S01": {"note": "Every obligation of 10 pattern functions (all loops, all sizes) discharged for the std::vector<std::set> / CppAD::vector<std::set> instances; trusted: extraction, VC generator, models of std::set/vector, SMT solvers; termination not proved."},
    "S03": {"note": "Every obligation of the constructors, filter and setFullElements of CustomPosition discharged for set-based patterns; trusted: extraction, VC generator, models of std::set/vector/vector<bool>, SMT solvers; termination not proved."},
    "E01": {"note": "All obligations of 101 function instances (operators, compound assignments incl. self, math functions, pow, CondExp*, comparison and classification predicates, node creation) of CG<double> discharged in exact real arithmetic; Base=double; compound assignment with different handlers is an assertion in the library and a precondition here; library math functions are uninterpreted."},
    "M01": {"note": "All obligations of reserveArraySpace, addFreeArraySpace, the constructor and getIdCount of ArrayIdCompresser<double> discharged for every history (representation invariant), every argument list and every free-space layout; the element-comparison heuristic is an unconstrained trusted function; termination not proved."},
    "V01": {"note": "All obligations of the ArrayView<double>/ArrayView<const double> constructors, size/element/pointer access, head/tail/segment, fill, copy (incl. overlapping views), swap discharged for every storage, offset and length; frames stated element by element; iterators are raw pointers; output operator and reverse iterators only exercised by the harness."},
    "K01": {"note": "All obligations of 44 FunctorGenericModel<double>/GenericModel<double> functions discharged: every size and index that reaches generated code, the order of its arguments, and the position of every dense and sparse result value; generated code itself is an assumed contract (it reads/writes exactly the sizes its sparsity functions publish)."},
    "E02": {"note": "All obligations of the evaluation functions of EvaluatorBase/EvaluatorOperations<double,double,double> discharged for every acyclic graph: 29 operation kinds, operand access, dispatch, cache, all evaluate() overloads, independents lookup, EvaluatorCG::processArray; array elements of atomic functions are an assumed contract; the instance is a CRTP class with the library's own functions, values are real numbers."},
    "C01": {"note": "All obligations of the LanguageC<double> functions that write operations, operands, constants, comparisons and parentheses discharged: the text written is parsed by an independent C expression grammar for every syntactic class of each operand and compared symbolically; variable names and the stream are assumed contracts; array, loop and atomic operations are outside."},
    "P01": {"note": "All obligations of LinearIndexPattern::evaluate, detectLinearSections (list and map form) and IndexPattern::detect (list and map form, including the table of a random pattern) discharged for every input; integers are mathematical; nonlinear products/quotients are opaque with lemmas proved in the same run; Plane2D detection and maxCount are covered by an exhaustive small-table harness only (bounded)."},
}
NOT = {
}
