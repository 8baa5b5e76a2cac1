NOTES = {
 "J01": ("lockset dataflow over all paths of the resolved program", "Sound for the analysed code paths: every access to a field shared with the workers, in every function of the class, on every path including exceptional ones. Trusts the models of the standard and Boost lock guards."),
 "J02": ("typestate dataflow with predicate abstraction of wait conditions", "Every path of every member function. Trusts the models of condition variables and lock guards; conditions are abstracted to the predicates that occur in the code."),
 "J03": ("counting typestate dataflow over all paths, exceptional ones included", "Every path of the worker, the thread start, the drain operation and the destructor. Trusts the lock and thread models; a job is assumed not to throw (an exception leaving a worker thread ends the program)."),
 "L01": ("interprocedural lock-order graph", "Every lock acquisition reachable from every public logging operation, with the locks held at it, exceptional paths included."),
 "L02": ("lockset dataflow over all paths of the resolved program", "Every access to the two tables in every function of the library."),
 "L05": ("typestate dataflow over all paths, exceptional ones included", "Every path of every operation that hands a message to the logger; any call not known to be noexcept may throw."),
 "T02": ("lockset dataflow over all paths of the resolved program", "Every access to the tables in every function of the library. Accesses through accumulators of single timers are outside the property."),
 "V01": ("translation validation: each operation against a small source-level reference, by path-sensitive value graphs", "Every path of every forwarding operation is compared, as a symbolic term over its inputs, with a reference implementation written in witness/; loops are summarised exactly. Virtual calls on the wrapped store are opaque. Trusts the models of the standard library containers and strings."),
 "V02": ("translation validation: each operation against a small source-level reference, by path-sensitive value graphs", "Loops over the layers are summarised as searches over all layers, so the comparison covers any number of layers. Reading a layer is opaque. The listing order of getChildren is not compared."),
 "V04": ("translation validation: each operation against a small source-level reference, by path-sensitive value graphs", "The search over the alternatives is summarised for lists of any length."),
 "P01": ("effect analysis and translation validation by path-sensitive value graphs", "Every path of every accessor; the operations of the Boost property tree are opaque apart from whether they write."),
 "P02": ("translation validation: each operation against a small source-level reference, by path-sensitive value graphs", "Every path of each typed accessor in the three layers; the Boost property tree itself is opaque."),
 "P03": ("dominating-guard analysis on the path-sensitive value graph", "Every member function of both handles, every path to a use of the underlying tree."),
 "P04": ("translation validation and call-dispatch rule on the value graph", "Every path of the load and save operations of every format; the parsers themselves are trusted."),
 "P05": ("order-of-effects rule on the value graph", "Every path of the recursive loader; the merge of one file is opaque."),
 "A01": ('translation validation: each operation against a small source-level reference, by path-sensitive value graphs', 'Every macro with plain, conditional and bitwise arguments, for all values of the arguments. Floating point comparisons are over the reals: NaN arguments are only covered for the NaN and finiteness assertions.'),
 "A02": ('translation validation: each operation against a small source-level reference, by path-sensitive value graphs, in four build configurations', 'Every debug macro in each of the configurations active, forced (both spellings) and compiled out, for all values of the arguments.'),
 "C01": ('translation validation: each operation against a small source-level reference, by path-sensitive value graphs; input closure of the hash terms', 'Every comparison, copy, assignment, swap, increment, validity test and hash of both identifier kinds, for all values. Raw memory copies are modelled member by member.'),
 "K01": ('symbolic evaluation of source into coefficient terms (abstract interpretation) with an algebraic zero test', 'Every builder of a rotation matrix; exact arithmetic.'),
 "K02": ('symbolic evaluation of source into coefficient terms (abstract interpretation) with an algebraic zero test', 'Every product, inverse, rotation and update of quaternions; exact arithmetic; small-angle cases belong to K08.'),
 "K03": ('symbolic evaluation of source into coefficient terms (abstract interpretation) with an algebraic zero test', 'Every operation of Transformation and the matrix helpers; exact arithmetic.'),
 "K06": ('symbolic evaluation of source into coefficient terms (abstract interpretation) with an algebraic zero test', 'Extraction from the built matrix on the open principal range, with sign facts of the sines and cosines of marked angles.'),
 "K07": ('path-sensitive range analysis of call arguments', 'Every call of asin, acos and sqrt in the extraction code, from every public entry, with linear consequences of the path conditions.'),
 "K08": ('symbolic evaluation of source and comparison of series coefficients', 'Every function with a small-angle branch; ranges of the switch, carried terms and neglected terms.'),
 "K05": ('symbolic evaluation and symbolic differentiation of source, with an algebraic zero test', 'Every Jacobian, rate matrix and angular velocity of the library; exact arithmetic, away from singularities.'),
 "K04": ('symbolic evaluation and symbolic differentiation of source, with an algebraic zero test', 'Every operation on uncertain points, transformations and vectors (dimension 3 and 1); exact arithmetic; arbitrary, not necessarily symmetric, covariances.'),
 "T01": ('value-graph equivalence with time units', 'Both sides of each pair are put into gated value form in which spans and points of time are terms for seconds, scaled by the ratio in their type; returned values, guards and final state must be identical. Rounding and overflow not modelled.'),
 "T03": ('value-graph equivalence, loops by recurrence', "The remembered segment after a sample, the reset state, the estimate's two points and the refusal conditions with the state they leave are compared with their specification for arbitrary states of integral and floating correctors."),
 "S01": ('symbolic value graph: archive round trip and equality as term equality', "Each type's save and load are composed over an archive modelled as a list of (tag, type, value); the resulting object must be the copy, the archive must be empty, and isBinaryEqual must be the conjunction of one comparison per data member."),
 "E01": ('symbolic value graph: archive round trip over symbolic dimensions', 'Every pair of source and target matrix type (fixed, dynamic rows, columns, both) is composed over an archive modelled as a list; dimensions are symbols, split into no rows, no columns, and some of both.'),
 "M01": ('symbolic value-graph equivalence of writer+reader composition with the identity, over a model of the file as a list of byte runs', 'Composes each writer with the reader on a file modelled as a list of runs (length, content) and compares names, kinds, dimensions and contents with what was stored; compares what save and append emit with one block per entry asked for; no product of counts in 32 bits.'),
 "M02": ('path-sensitive value-graph analysis with every stream operation allowed to fail (typestate of the stream: failed, pending)', 'Every read, write, flush and close may fail at every point; normal return implies that nothing failed and nothing is pending, no size comes from an incomplete read, nothing incompletely read reaches the archive, also on exceptional exits.'),
 "M03": ('symbolic value-graph equivalence of witness functions over a model of maps', 'For each storing operation on arbitrary archives and names: the set of names that denote two entries and the set of names present after it, the name check passed before, and the accepted names, as equalities of witness functions.'),
 "J04": ('symbolic data flow over the lock-protected queue (value graph; queue contents as a ghost value per lock hold)', 'Every acquisition of the lock (constructor, lock(), wait) makes the queue an opaque value and the flags unknown; at every release the queue must be that value unchanged, with submitted jobs appended, or without its first element, which must then be the job the worker owes a call. Called functors are compared with the owed job; on normal and exceptional ends nothing may be owed. Submissions are checked through witness instantiations (void job, future of int, future of void), whose appended functor is followed to the packaged task. Trust: std::deque, boost::function, boost::packaged_task behave as documented; a job that throws ends its worker (noted, J03).'),
 "R01": ('symbolic data flow over ghost models of engines, distributions and generators (value graph equality)', "The constructors of the objects that outlive a call are followed to find which engine each generator draws from (by reference or copy); their states are then made arbitrary and every function of the module is compared, as a term of the draw and the engine's state, with what it is documented to return and leave behind; after seed() no state that later draws use may mention an earlier state. A type rule rejects sums and differences of the integer bounds in 32 bits. Trust: the boost/std engines and distributions themselves."),
 "H01": ("declaration and linkage query over the compiler's syntax tree; compile witnesses per header", "All public headers of the built packages (found by directory, so new ones are included) are parsed one by one as the only include, and together in one generated unit. The compiler's own linkage computation (GVA linkage) must not be strong external for any definition located in a header; declarations are matched against the bodies of all built sources. Declared-only helpers of overload tests (namespaces internal/detail, types no object of which can be made) are exempt. sm_opencv is left out: OpenCV is not installed."),
 "L04": ('value-graph static analysis (gated values of the parser, token factory and tokens evaluated per name; formatter output compared structurally)', 'Decided for every severity and token name by specialising the symbolic values computed from the source. The format parser (Formatter::init, a regular-expression loop) and the choice of colour per severity are not judged.'),
 "L06": ('value-graph static analysis (symbolic effect summaries compared with the definition; events handed to the logger and room left by vsnprintf read off the summary)', 'Locks are left to L01/L02, the printing mark to L05. Allocation failure and errors reported by vsnprintf are not considered.'),
 "L03": ('symbolic effect analysis of macro expansions (three successive executions composed over the value graph, per macro and per compile-time threshold)', "The registry's part is its contract, decided by L06. Executions by one thread: the once-only and throttle marks are not synchronised and no claim is made about races on them."),
 "C03": ('value-graph static analysis (loops unrolled over the bytes, each character and byte decided as a function of its own input by folding its extracted term over the finite domain)', 'Text tests are recognised as find_first_not_of, isxdigit or comparisons per character; a decoder branching separately on each digit of each byte exceeds the term limit and is reported as undecided.'),
 "C02": ('gated value graph comparison of every helper with its definition', 'Each helper is evaluated to gated value terms (loops summarised by their per-round value functions) and must equal one of several spellings of its definition in witness/text_helpers.cpp; all of these make progress in every round. A rewrite into a loop shape not among the spellings would be reported although right.'),
 "T04": ('gated value graph comparison of every timer operation with its definition', 'Every operation of Timer and Timing is evaluated to value terms over arbitrary tables and must equal its definition in witness/timer_stats.cpp, including the exceptions and the state they leave. That boost::accumulators computes what its extractors name is assumed.'),
 "C04": ('equality of gated values with several spellings of the definition; narrowing-conversion lint', 'Rounding errors of floating point are not modelled; NaN arguments are left out.'),
 "E02": ('symbolic evaluation of the source (value graph) and algebraic identity of coefficient terms', "Witness pairs in witness/eigen_numerics.cpp: S*S' is compared with P'L max(D,0) L'P, the product that Eigen's LDLT stands for, with the factors unknown coefficients and P unknown, for 2x2 and 3x3; the Jacobian of an unknown function of three variables with two results is compared with the central differences spelled out, for a user's functor, the boost::function wrapper and the convenience function with and without a step (64 cases of |x_c| against 1 each). Each call of the random module is another unknown. Bound: these dimensions; the code treats all dimensions by the same loops."),
 "P06": ('symbolic evaluation of the source (value graph) and algebraic identity of coefficient terms', "Witness pairs in witness/pose_from_tree.cpp: the getters of the tree are unknown functions of tree and key, so a wrong key, order, default or a missing normalisation makes a coefficient differ. Reading a missing key is P01's and P02's matter."),
 "S02": ('symbolic evaluation of the source (value graph) with the file system as a list of operations', "Witness pairs in witness/object_files.cpp: each function against its operations spelled out. A stream is good or not depending on everything done so far, objects that go out of scope end their archive or flush their stream at that point, so a write that is checked before the archive ended, or not at all, makes the condition of normal return differ. Errors that only close(2) reports are outside; boost's archives and Eigen's are taken as they are (S01 and E01 decide what goes into an archive)."),
 "M04": ('symbolic value-graph equivalence of witness functions over a model of maps', "Witness pairs in witness/archive_values.cpp: every getter against a lookup in the map of its kind, every setter against the value it must leave under the name, for one arbitrary other name that its entry stays, counts and iterators against the maps. A matrix is its rows, columns and coefficients; conversions by Eigen's assignment keep the value."),
 "Y01": ('custom query over the type-checked program of the Python bindings: ordered registrations, overload subsumption over the exported class hierarchy, name-to-target correspondence; abstract interpretation of the Python helpers', 'The registrations are collected in the order the module initialiser makes them, through helper functions and local variables. Wrappers are followed to the functions they call. Conversions registered outside the repository (numpy_eigen) are assumed to accept only their own types. The content that asDict-like wrappers build is not decided.'),
 "C05": ('type-level witnesses (static assertions over instantiations) and term equivalence with the definition', 'Traits are asserted for five element types in each combination of const with reference or pointer; since no trait is specialised for a particular element type, these represent all. volatile, rvalue references and pointers that are themselves const are left open.'),
 "S03": ('symbolic evaluation to gated values (translation validation against reference definitions)', "save and load evaluated one after the other over a list as the archive and a model of cv::Mat's storage; isBinaryEqual compared with its definition"),
 "K09": ('symbolic evaluation to rational functions of the entries, compared as polynomials', '46+ identities in witness/kin_points.cpp over symbolic columns, weights and covariances; every feasible case of the gates is compared'),
 "N01": ('symbolic evaluation of the alignment source over unknown points; algebraic comparison of the decomposed matrix and of the result as a function of the factors with the closed-form optimum', "For points: the decomposed matrix is the cross-covariance about the means, the rotation is U diag(1,1,det U det V) V^T in every feasible case of the source's branches, and the translation takes mean to mean; that this is optimal is the theorem of Arun, Huang, Blostein and Umeyama. For directions: the quadratic form decomposed equals, as a polynomial identity on unit quaternions, the weighted sum for the rotation made of that quaternion, and the eigenvector taken is that of the largest eigenvalue in every feasible case. Eigen's decompositions are assumed; pairs unrolled for one to four points and one to three directions."),
 "N02": ('symbolic evaluation of one further sample on a hull of symbolic points, loops unfolded until no path is left; feasibility of the violating condition on each path decided by linear reasoning over the monomials', "One step of the induction: with zero to four kept points at unknown coordinates (increasing, convex) and an unknown sample, every feasible path of correctTimestamp keeps the first k points and the sample, where the path's own conditions exclude that a kept point lies above the line to the sample or a dropped one below it; the value returned is that of the line through two neighbouring kept points which the path shows to be around the middle. The loop looks at the last two points only, so more points behave alike. Floating time type; T03 compares the segment for integral times. Rounding is not modelled."),
 "K10": ('symbolic evaluation with every random number an unknown; polynomial identities for the lengths; comparison of the linear factors', "Every draw of Eigen's Random and of sm::random is an unknown. The squared length of a quaternion must be one, of the translation and of the rotation vector handed to axisAngle2quat the square of a draw between zero and the bound, as identities in the draws; the case that a random direction is exactly zero is set aside. angleMod must subtract a turn times the rounded number of turns, the conversions be linear with the right factor to 1e-12."),
 "A03": ('equality of gated values, NaN included, of whether a failure is reported with the entrywise definition', 'The helpers are templates over the matrix type: they are instantiated with matrices of unknown entries, of equal sizes and of sizes that differ in rows, in columns or in both. googletest itself is represented by a header that states what its assertions mean. The text of the message is not examined.'),
}
NA = {
 "N03": "T04 decides which statistic of which record is reported and what is added to it; that the running values kept by boost::accumulators are those statistics is numerical code outside the repository over unbounded histories",
}
