import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=()):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],
                 **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {}),
                 "observe_at":observe,"hook_needed":None}})
QP="qiskit_optimization/problems/quadratic_program.py"
PR="qiskit_optimization/problems/"
CV="qiskit_optimization/converters/"
AL="qiskit_optimization/algorithms/"
AP="qiskit_optimization/applications/"
p("C01","Editing a quadratic program keeps its registries consistent",
 "After any sequence of edits of a quadratic program (adding variables one by one or in bulk, adding, changing and removing linear and quadratic constraints, setting the objective or bounds, clearing), the lists, the name-to-position maps, the counts by type and the lookups by name or position describe the same elements, in the order in which they were added, with unique names and lower bounds not above upper bounds. A call that fails, for example because a name is taken, bounds are contradictory, or a coefficient refers to an unknown variable, leaves the program exactly as it was. Automatically chosen names are fresh, and the elements a call returns are the ones it registered.",
 ["histories","inputs"],"every finite history of edit calls with any mix of valid and failing arguments, and every accepted argument format",
 "The tests perform a handful of fixed edits and look at selected fields; they never look at the state after a failed call and never interleave removals with later additions.",
 [QP,PR+"variable.py",PR+"constraint.py",PR+"linear_constraint.py",PR+"quadratic_constraint.py"],
 [("validate, then register in list and index","QuadraticProgram._add_variables, linear_constraint, quadratic_constraint"),("index rebuilt after removal","remove_linear_constraint, remove_quadratic_constraint")],
 ["variables, variables_index, linear_constraints(_index), quadratic_constraints(_index), get_* and get_num_* after every call"],
 [("variables, constraints and their index maps","the registry","QuadraticProgram.__init__")])
p("C02","Expressions denote the polynomial they were given",
 "A linear, quadratic or objective expression evaluates to the mathematical value of the coefficients it was given, and its gradient is the mathematical gradient, for every accepted coefficient format (list, dense array, sparse matrix, dictionary by name or position; a quadratic coefficient pair in either order accumulates) and every accepted format of the point. Reading the coefficients back as array or dictionary, symmetric or triangular, by name or by position, and reading or writing single entries in either order of a pair, all describe that same polynomial. This remains true when variables are added to the program after the expression was created.",
 ["inputs","histories"],"all coefficient vectors and matrices in every accepted format, all points, all interleavings with later added variables and entry updates",
 "The tests use one 5-variable example with symmetric data; asymmetric matrices, mixed formats, integer dtypes, and expressions older than some variables are not sampled.",
 [PR+"linear_expression.py",PR+"quadratic_expression.py",PR+"quadratic_objective.py",PR+"linear_constraint.py",PR+"quadratic_constraint.py"],
 [("conversion to a triangular sparse matrix","QuadraticExpression._coeffs_to_dok_matrix, _triangle_matrix, _symmetric_matrix"),("resize on access","LinearExpression.coefficients, QuadraticExpression.coefficients")],
 ["evaluate, evaluate_gradient, to_array, to_dict, item access"])
p("C03","Feasibility verdicts are exact",
 "The feasibility report of a program for a point names exactly the variables whose bounds the point violates and exactly the linear and quadratic constraints it violates, and the point is called feasible if and only if nothing is named. Every sense spelling that is accepted means the comparison it names, and a point of the wrong length is rejected with the library's error.",
 ["inputs"],"all programs with bounds, linear and quadratic constraints of all senses, and all points including those exactly on a bound or right-hand side",
 "The tests check three points of one program; boundary points, negative bounds, and combined violations are not enumerated.",
 [QP,PR+"constraint.py"],[("bound and constraint comparisons","QuadraticProgram.get_feasibility_info"),("sense parsing","ConstraintSense.convert")],
 ["get_feasibility_info, is_feasible"])
p("C04","Substituting variables preserves the meaning of the program",
 "Substituting constants for variables, or multiples of other variables for variables, yields a program that, at every assignment of the remaining variables, has the objective value of the original program at the corresponding full assignment, and whose bounds and constraints hold exactly when those of the original program hold there. If, starting from a valid program, the substitution leaves a variable with no value between its bounds, puts a constant outside the bounds of the variable it replaces, or turns a constraint into a false statement without variables, the new program is marked infeasible; otherwise it is marked valid. Substitutions that are contradictory in form (the same variable twice, by itself, by a variable that is itself substituted, or with factor zero) are rejected with the library's error, and the original program is never changed.",
 ["inputs"],"all programs, all maps of variables to constants or to non-zero multiples of kept variables, by name or position, all assignments",
 "The tests substitute in one or two small programs and compare printed results; negative factors, collapsing constraints and chained maps are sampled once or not at all.",
 [QP],[("rewriting of expressions and bounds","SubstituteVariables"),("feasibility of emptied constraints","SubstituteVariables._feasible")],
 ["QuadraticProgram.substitute_variables result: variables, objective, constraints, status"])
p("C05","Exchange with DOcplex models and LP files loses nothing",
 "Exporting a program to a DOcplex model and importing it again, or writing it to an LP file and reading it back, yields a program with the same name, variables (names, types, bounds; for DOcplex models also their order), objective (sense, constant, coefficients) and constraints (names, senses, coefficients, right-hand sides), apart from constraints that constrain nothing; a constraint without terms that nothing satisfies is never silently dropped; quadratic constraints are those with a quadratic term. Importing a DOcplex model in which variables and constants stand on both sides of a comparison yields the equivalent constraint, and unsupported variable types or constraint kinds are rejected with the library's error.",
 ["inputs"],"all programs (continuous, binary, integer variables; any finite or infinite bounds; all senses) and all DOcplex models built from linear and quadratic expressions on either side",
 "The tests convert a few models; repeated products, terms on the right-hand side, repeated variables and infinite bounds are barely covered.",
 [QP],[("export","QuadraticProgram.to_docplex, export_as_lp_string, write_to_lp_file"),("import","QuadraticProgram.from_docplex, read_from_lp_file")],
 ["fields of the re-imported program"])
p("C06","Ising Hamiltonians and binary programs describe the same function",
 "Exporting an unconstrained binary program to an Ising Hamiltonian and offset gives a diagonal operator whose value on the basis state of any assignment (variable i on qubit i) plus the offset is the objective value of that assignment, negated for maximisation. Importing a diagonal Hamiltonian with terms on at most two qubits gives a binary minimisation program whose objective value at every assignment is the operator's value plus the given offset, replacing whatever the program held before. Programs with constraints or non-binary variables, and operators with non-diagonal or higher-order terms, are rejected with the library's error.",
 ["inputs"],"all binary objectives (constant, linear, diagonal and cross terms, both senses) and all diagonal Pauli sums of degree at most two with any offset, and all assignments",
 "The tests use one 4-node max-cut operator and back; constant terms, repeated terms, maximisation, and single-term operators are not covered.",
 [QP],[("x = (1-z)/2 expansion","QuadraticProgram.to_ising"),("inverse expansion","QuadraticProgram.from_ising")],
 ["operator diagonal and offset; imported program"])
p("C07","Binary encoding of integer variables is exact",
 "Converting integer variables to binary variables yields a program without integer variables in which the encodings of each integer variable take every value between its bounds and no other value. At every binary assignment the objective, every constraint's left-hand side minus its right-hand side, and hence feasibility agree with the original program at the decoded assignment, and names, senses and all non-integer variables are kept. Decoding an assignment returns, for every original variable in the original order, the value it has in that assignment.",
 ["inputs"],"all programs with integer variables of any finite integer bounds (including negative and equal ones) mixed with binary and continuous variables, all assignments",
 "The tests convert a few programs with non-negative bounds and compare fixed coefficients; products of two integer variables, negative or equal bounds and decoding of arbitrary assignments are not enumerated.",
 [CV+"integer_to_binary.py"],[("bounded-coefficient encoding","IntegerToBinary._convert_var, _encode"),("substitution in expressions","IntegerToBinary._convert_linear_coefficients_dict, _convert_quadratic_coefficients_dict"),("decoding","IntegerToBinary.interpret")],
 ["converted program; interpret"])
p("C08","Slack variables turn inequalities into equivalent equalities",
 "Converting inequality constraints to equality constraints yields a program in which every constraint is an equality and, for every point of the original variables within their bounds, the slack variables can be chosen within their bounds to satisfy the converted constraints exactly when the point satisfies the original constraints; the objective does not depend on the slack variables and is unchanged. Integer slack is used only where all quantities of the constraint are integral, constraints that were equalities are kept, and a constraint that is incompatible with the requested slack mode is rejected with the library's error. Decoding returns the values of the original variables in their order.",
 ["inputs","configurations"],"all programs with linear and quadratic constraints of every sense over bounded variables, all slack modes, all points",
 "The tests convert a few fixed constraints; slack range, rounding and sign for negative coefficients, quadratic constraints and fractional data are only spot-checked.",
 [CV+"inequality_to_equality.py"],[("slack bound from variable bounds","InequalityToEquality._calc_linear_bounds, _calc_quadratic_bounds"),("slack construction","_add_integer_slack_var_*, _add_continuous_slack_var_*, _add_auto_slack_var_*"),("decoding","InequalityToEquality.interpret")],
 ["converted program; interpret"])
p("C09","Penalty terms penalise exactly the violations",
 "Converting linear equality constraints to penalty terms yields an unconstrained program with the same variables whose objective at every assignment is the original objective, worsened by the penalty factor times the sum of squared constraint residuals. With the automatically chosen factor, whenever the data are integral and the variables are bounded and integral, every optimal assignment of the converted program is an optimal feasible assignment of the original one if one exists. A user-supplied factor is used as given, inequality or quadratic constraints are rejected with the library's error, and decoding returns the assignment unchanged.",
 ["inputs","configurations"],"all programs with linear equality constraints, both objective senses, all factors, all assignments",
 "The tests compare coefficients for one program; the dominance claim quantifies over all assignments and all objectives.",
 [CV+"linear_equality_to_penalty.py"],[("penalty expansion","LinearEqualityToPenalty.convert"),("automatic factor","LinearEqualityToPenalty._auto_define_penalty")],
 ["converted program; interpret; penalty"])
p("C10","The QUBO pipeline preserves optima end to end",
 "Converting a program with binary and bounded integer variables, integral data and linear constraints to a QUBO yields an unconstrained, purely binary minimisation-equivalent program with the same optimisation sense, in which every optimal assignment decodes to an optimal feasible assignment of the original program whenever a feasible one exists, with equal objective value there. Every assignment decodes to values of the original variables in their order, and programs outside this class (continuous variables, quadratic constraints, non-integral constraint coefficients) are rejected with the library's error, consistently with the compatibility report.",
 ["inputs","configurations"],"all such programs, all binary assignments, default and user-supplied penalty factors",
 "The tests solve a few instances; equality of optima over the whole assignment space is not checked.",
 [CV+"quadratic_program_to_qubo.py",CV+"integer_to_binary.py",CV+"inequality_to_equality.py",CV+"linear_equality_to_penalty.py"],
 [("composition of the three converters","QuadraticProgramToQubo.convert / interpret"),("compatibility report","QuadraticProgramToQubo.get_compatibility_msg")],
 ["converted program; interpret; get_compatibility_msg, is_compatible"])
p("C11","Conversion and solving never alter inputs and can be repeated",
 "Converting, exporting, substituting in, or solving a program leaves that program as it was. Results depend only on the arguments of the call and on the configuration: using one converter or optimizer object for several programs one after the other, in any order, gives for each program the result a fresh object gives, and converted programs and results already returned are not changed by later calls, and editing a returned program does not reach the one that was given.",
 ["histories","inputs"],"all sequences of convert, interpret and solve calls with shared converter and optimizer objects on any programs",
 "The tests create a fresh object per call and do not compare the input before and after.",
 [CV,AL+"optimization_algorithm.py",AL,QP],[("deep copies of the source program","converters' convert methods, OptimizationAlgorithm._convert"),("state reset per call","converters' convert methods, solve methods")],
 ["the program before and after; results of repeated calls"])
p("C12","Results are consistent with the problem they answer",
 "Every optimizer returns a result whose value list has one entry per variable of the given problem in the problem's order, whose objective value is the problem's objective at those values, whose status is success exactly when the values are feasible, and whose name-to-value map, item access and variable list agree with the value list. Every reported sample likewise carries the objective value and feasibility status of its own values.",
 ["inputs","configurations"],"all problems an optimizer accepts, all optimizers, all converter chains, all sampled distributions a backend may return",
 "The tests compare a few solutions; maximisation through converters and infeasible samples are rarely observed.",
 [AL+"optimization_algorithm.py",AL+"minimum_eigen_optimizer.py",AL+"cobyla_optimizer.py",AL+"slsqp_optimizer.py",AL+"cplex_optimizer.py",AL+"grover_optimizer.py",AL+"admm_optimizer.py"],
 [("result construction","OptimizationAlgorithm._interpret, OptimizationResult"),("feasibility status","OptimizationAlgorithm._get_feasibility_status")],
 ["OptimizationResult.x, fval, status, samples, variables_dict, __getitem__"])
p("C13","Sampled states are turned into samples without loss",
 "For every eigenstate, given as a state vector, a dictionary of bit strings or a state function, every basis state with a probability of at least one millionth, and no other, becomes exactly one raw sample whose values are the state's bits in variable order, whose probability is that state's probability and whose objective value is the objective of those values; raw samples are ordered from best to worst in the problem's sense. Samples for the original problem are obtained by decoding each raw sample and merging those with equal values, adding their probabilities, feasible ones before infeasible ones and better before worse; the reported solution is the decoding of the best raw sample.",
 ["inputs"],"all amplitude distributions over up to the supported number of qubits, in each representation, all converter chains",
 "The tests check one or two distributions on symmetric states where bit-order and merging errors are invisible.",
 [AL+"optimization_algorithm.py",AL+"minimum_eigen_optimizer.py"],[("reading eigenstates","OptimizationAlgorithm._eigenvector_to_solutions"),("merging and ordering","OptimizationAlgorithm._interpret_samples"),("selection","MinimumEigenOptimizer._solve_internal")],
 ["result.raw_samples, result.samples, result.x"])
p("C14","Exact solvers return a true optimum of the original problem",
 "On every problem they accept, the exact back ends (exact diagonalisation through the eigen optimizer with its default conversion, and CPLEX) return a feasible solution whose objective value equals the true optimum over all assignments of the original problem, for minimisation and maximisation, whenever a feasible assignment exists. When none exists, no feasible solution is claimed.",
 ["inputs"],"all binary and bounded-integer programs with linear constraints of every sense and integral data (CPLEX: all convex problems it accepts)",
 "The tests solve about a dozen fixed instances.",
 [AL+"minimum_eigen_optimizer.py",AL+"cplex_optimizer.py",CV,QP],[("conversion, exact solution, decoding","MinimumEigenOptimizer.solve, CplexOptimizer.solve")],
 ["result.x, fval, status"])
p("C15","Recursive elimination follows the correlations and reconstructs soundly",
 "In every round the recursive optimizer replaces one variable by another, as equal or opposite to it, according to the strongest correlation of the sampled states, and the variable disappears from the next round's problem, until at most the configured minimum number of variables is left, which is solved by the configured final optimizer. The returned assignment satisfies every replacement recorded along the way, its objective value is that of the original problem, and it attains the best value the final optimizer could find under those replacements. The returned replacements and the requested history describe exactly the rounds performed.",
 ["inputs","histories","configurations"],"all binary programs, all correlation patterns the eigen optimizer can report in each round, all minimum sizes and history modes",
 "The tests run it on one QUBO with an exact eigensolver, which explores a single elimination order.",
 [AL+"recursive_minimum_eigen_optimizer.py"],[("correlation and elimination","RecursiveMinimumEigenOptimizer._find_strongest_correlation, solve"),("reconstruction","find_value in solve"),("correlations","MinimumEigenOptimizationResult.get_correlations")],
 ["problems handed to the wrapped optimizers; result.x, replacements, history"],[("replacements","variable -> (other variable, +-1) or constant","solve")])
p("C16","Grover adaptive search returns the best measured assignment",
 "Whatever the measurement outcomes, the Grover optimizer terminates after the configured number of iterations without improvement, raises its threshold only to values it has measured, and returns the best assignment it accepted (the all-zero assignment where nothing better was measured), with the objective value that the original problem has there; the samples it reports have probabilities summing to one and the values of their own assignments. The prepared circuit encodes the QUBO objective exactly: for every assignment, the value register holds that assignment's objective minus the current threshold in two's complement, for all integral objectives that fit the register, in both senses, and exactly the assignments below the threshold are amplified.",
 ["histories","inputs","schedules"],"all integral QUBOs, all sequences of measurement outcomes and rotation counts, all iteration limits",
 "The tests run a few instances on a simulator where each run sees a lucky sequence of measurements.",
 [AL+"grover_optimizer.py"],[("threshold and termination loop","GroverOptimizer.solve"),("state preparation","GroverOptimizer._get_a_operator"),("oracle","GroverOptimizer._get_oracle")],
 ["circuits and outcomes exchanged with the quantum instance; GroverOptimizationResult"],[("threshold, improvement_found, iteration counters","search state","solve")])
p("C17","ADMM iterates obey the augmented Lagrangian scheme",
 "In every iteration the sub-problems that the ADMM optimizer hands to its solvers are the augmented Lagrangian restricted to the binary block, to the continuous block together with the binary copies, and (in the three-block form) to the slack block, at the current values of the other blocks and multipliers, with the block's own constraints; the multipliers are then updated by the penalty parameter times the consensus residual. The recorded residuals, objective values, constraint residuals and merits are those of the recorded iterates, the penalty parameter follows the configured rule, and the loop stops exactly when the residual falls below the tolerance or the iteration or time limit is reached. The returned solution is the recorded iterate of least merit, with the original variables in their order and the original objective value; binary variables that occur neither in the objective nor in an equality constraint over binary variables stay zero in the binary block.",
 ["histories","inputs","configurations"],"all mixed-binary convex problems of the supported form, all answers of the sub-solvers, two- and three-block forms, all penalty rules, warm start, both senses",
 "The tests compare final results on small instances, where most wrong multipliers or sub-problems still converge to the same point.",
 [AL+"admm_optimizer.py"],[("block sub-problems","ADMMOptimizer._create_step1_problem, _create_step2_problem, _create_step3_problem"),("multiplier and rho updates","_update_lambda_mult, _update_rho"),("merit selection","_get_best_merit_solution")],
 ["problems handed to the sub-solvers; ADMMOptimizationResult.state; result.x, fval"],[("x0, u, z, y, lambda_mult, rho, residuals, merits","ADMM iterate history","ADMMState")])
p("C18","Multi-start local search keeps the best trial",
 "The multi-start search runs the requested number of trials, starts the first from the origin and the others at random points inside the variable bounds (an infinite side cut at the configured limit), and returns the trial with the best objective value in the problem's sense. The functions handed to the local solver are the objective, its gradient, the bounds and the constraints of the problem: equalities vanish exactly on, and inequalities are non-negative exactly on, the points that satisfy the respective constraint, and bounds are kept.",
 ["inputs","histories","configurations"],"all continuous problems with linear and quadratic constraints, all sequences of local-solver answers, all trial counts, both senses",
 "The tests run deterministic local solvers on a few convex problems where each trial finds the same point.",
 [AL+"multistart_optimizer.py",AL+"cobyla_optimizer.py",AL+"slsqp_optimizer.py"],[("trial loop","MultiStartOptimizer.multi_start_solve"),("constraint functions","CobylaOptimizer.solve, SlsqpOptimizer.solve")],
 ["functions and points exchanged with the local solver; result"])
p("C19","Warm-start QAOA keeps and ranks every pre-solution's samples",
 "Warm-start QAOA encodes each relaxed pre-solution into an initial state whose probability of one for a variable is the pre-solution's value clipped to the regularised range (of the given factory, or else of the optimizer's epsilon), pairs it with the matching mixer, and runs once per pre-solution. The samples of all runs are combined by the configured aggregation (by default the mean of the probabilities over the runs), without being decoded twice, and the returned solution is the best sample, feasible ones first, in the problem's sense.",
 ["inputs","configurations"],"all pre-solutions, regularisation parameters, numbers of runs, sampled distributions, aggregation rules",
 "The tests run one max-cut instance end to end.",
 [AL+"warm_start_qaoa_optimizer.py"],[("initial state and mixer","WarmStartQAOAFactory"),("aggregation","MeanAggregator"),("selection","WarmStartQAOAOptimizer.solve")],
 ["circuits given to QAOA; samples; result"])
p("C20","Goemans-Williamson returns real cuts ordered by value",
 "For every max-cut problem in the supported form the Goemans-Williamson optimizer returns only zero-one assignments, each carrying the objective value of that assignment and a success status, ordered from the largest value to the smallest and without repeating an assignment where the settings ask for it, together with the first of them as the solution. The requested number of cuts is generated, the same seed gives the same cuts, the value of the relaxation is no smaller than any cut, and if the relaxation cannot be solved the result reports failure with no solution.",
 ["inputs","fault_sequences"],"all weighted graphs, numbers of cuts, random seeds, and failures of the relaxation solver",
 "The tests solve one 4-node instance and never make the relaxation fail.",
 [AL+"goemans_williamson_optimizer.py"],[("rounding","GoemansWilliamsonOptimizer._generate_random_cuts"),("ranking","GoemansWilliamsonOptimizer.solve")],
 ["GoemansWilliamsonOptimizationResult"])
p("C21","Graph applications encode their combinatorial problem exactly",
 "For every graph, the program produced by the max-cut, graph-partition, stable-set, vertex-cover and clique applications has as its feasible assignments exactly the combinatorial objects of the problem (partitions with half of the vertices, rounded down, on the side of the ones, independent sets, covers, cliques of the given size) and as its objective exactly their value (weight of the cut, total weight of the crossing edges, number of vertices), in the right sense, so that its optima are the optimal objects. Interpreting an assignment, given as a vector or a result, returns exactly the object it denotes.",
 ["inputs"],"all weighted graphs with any edge set, all assignments",
 "The tests compare the program and interpretation for one fixed 4- or 5-node graph per application.",
 [AP+"max_cut.py",AP+"graph_partition.py",AP+"stable_set.py",AP+"vertex_cover.py",AP+"clique.py",AP+"graph_optimization_application.py",AP+"optimization_application.py"],
 [("program construction","to_quadratic_program of each application"),("interpretation","interpret of each application")],
 ["to_quadratic_program, interpret"])
p("C22","Set and number applications encode their problem exactly",
 "For every instance, the programs produced by the exact-cover, set-packing, knapsack and number-partition applications have as feasible assignments exactly the objects of the problem (exact covers, disjoint families, selections within capacity, balanced splits) and as objective exactly their value in the right sense. Interpreting an assignment, given as a vector or a result, returns exactly the subsets, items or two-way split it denotes.",
 ["inputs"],"all families of subsets, all item values, weights and capacities, all number lists, all assignments",
 "The tests check one fixed instance per application.",
 [AP+"exact_cover.py",AP+"set_packing.py",AP+"knapsack.py",AP+"number_partition.py",AP+"optimization_application.py"],
 [("program construction","to_quadratic_program of each application"),("interpretation","interpret of each application")],
 ["to_quadratic_program, interpret"])
p("C23","Routing applications encode tours and routes exactly",
 "For every complete weighted graph the travelling-salesman program's feasible assignments are exactly the visiting orders and its objective is the length of the closed tour, and the vehicle-routing program's feasible assignments are exactly the sets of the given number of depot-to-depot routes that visit every customer once, with their total length as objective. Interpreting a feasible assignment returns the visiting order, respectively the routes, that it denotes, and the tour-length helper returns the length of the tour it is given.",
 ["inputs"],"all complete weighted graphs, numbers of vehicles, depots, all assignments",
 "The tests use one 4-node graph each and compare a single interpretation.",
 [AP+"tsp.py",AP+"vehicle_routing.py"],[("program construction","Tsp.to_quadratic_program, VehicleRouting.to_quadratic_program"),("interpretation","Tsp.interpret, VehicleRouting.interpret")],
 ["to_quadratic_program, interpret, tsp_value"])
p("C24","Unsupported problems are refused up front",
 "An optimizer's compatibility report is empty exactly when the problem lies in its documented class, the yes-or-no form of the report agrees with it, and solving a problem whose report is not empty raises the library's error without returning a result. Invalid converter arguments or configuration values are refused with an error instead of being used.",
 ["inputs","configurations"],"all problems over the variable types, constraint kinds and data kinds, all optimizers and configurations",
 "The tests try one or two incompatible problems per optimizer.",
 [AL+"optimization_algorithm.py",AL,CV],[("compatibility checks","get_compatibility_msg of each optimizer and converter, OptimizationAlgorithm._verify_compatibility"),("converter list validation","OptimizationAlgorithm._prepare_converters")],
 ["get_compatibility_msg, is_compatible, exceptions of solve"])
p("C25","Instance files, random instances and sampling helpers are read faithfully",
 "Reading a max-cut instance from a Gset file or a travelling-salesman instance from a TSPLIB file yields exactly the graph described there (every edge with its weight, every distance rounded to the nearest integer), and files of unsupported type are rejected with the library's error. Random instances have the requested size and data within the requested ranges and are reproducible from a seed, and picking the most likely bit string of a state or distribution returns the most probable one with the bits in variable order.",
 ["inputs"],"all well-formed instance files, sizes, ranges and seeds, all states and distributions",
 "No test reads an instance file; random instances are checked for one size.",
 [AP+"max_cut.py",AP+"tsp.py",AP+"optimization_application.py",AP+"vehicle_routing.py"],[("file parsing","Maxcut.parse_gset_format, Tsp.parse_tsplib_format"),("random generation","create_random_instance"),("sampling","OptimizationApplication.sample_most_likely")],
 ["returned graphs, instances and bit strings"])
p("C26","Drawing a result shows exactly that result",
 "For every graph, result and set of positions, the drawing of a graph application shows every vertex once, with its own name at its own position, and the edges of the graph. With a result of max-cut, graph partition, stable set, vertex cover or clique, two vertices have the same colour exactly if the result puts them on the same side, and where vertices are selected (stable set, vertex cover, clique) the selected ones are the red ones; with a tour or a set of routes, exactly the edges travelled are highlighted, each route in a colour of its own; without a result nothing is highlighted. The result may be given as a vector or a result object and positions may be omitted, and drawing changes neither the graph nor the positions.",
 ["inputs"],"all graphs in every accepted format and vertex order, all assignments, tours and route sets, all positions or none",
 "No test draws anything.",
 [AP+"graph_optimization_application.py",AP+"max_cut.py",AP+"graph_partition.py",AP+"stable_set.py",AP+"vertex_cover.py",AP+"clique.py",AP+"tsp.py",AP+"vehicle_routing.py"],
 [("drawing","GraphOptimizationApplication.draw and _draw_result of each application"),("vertex colours","_node_color, _node_colors"),("highlighted edges","_edgelist, _edge_color")],
 ["the artists in the matplotlib figure after draw"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,sch)
print(len(P))
