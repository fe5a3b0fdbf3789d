TRUST = "Trusts the harness's recording and instance generator, TLC, and the compiler. "
prop("C02", "Preprocessing keeps every optimum and invents no solution",
     "Whatever preprocessing steps are enabled, the model the search works on admits only points which are feasible for the user's model and have the same objective value, and if the user's model is feasible it still admits a point with the optimal objective value. Bounds tightened during the search from an incumbent never cut off every optimum that is better than that incumbent. Preprocessing gives up on a model only if the model has no feasible point.",
     ["inputs", "configurations"], "every model and every combination of preprocessing options, including what happens between search loops",
     "Unit tests compare single presolve steps on hand-made models; equivalence of the composition over all points of a model needs the full feasible set as oracle.",
     ["printemps/preprocess", "printemps/model/model.h"],
     [("problem size reduction", "printemps/preprocess/problem_size_reducer.h"), ("dependent variable extraction", "printemps/preprocess/dependent_variable_extractor.h"),
      ("selection extraction", "printemps/preprocess/selection_extractor.h"), ("online bounding", "printemps/solver/tabu_search/controller/tabu_search_controller.h")],
     "TLA+ trace validation with TLC: reduced models recorded from the real code are compared with the semantics of the instance over all its points",
     TRUST + "Instances are small (up to 400 points), generated with all preprocessing options randomised; within an instance the comparison is over every point.")
prop("C03", "Incremental evaluation of a move equals evaluating its result",
     "For every point the search can be at and every candidate move, the objective, total violation, feasibility and both penalised objectives predicted for the move are those of the point the move leads to. A move which reduces some violation or improves the objective is never labelled as unable to do so.",
     ["inputs", "histories"], "every model, every history of moves, every kind of move, with and without incremental evaluation and in the minimise-only build",
     "Tests evaluate a few moves of a few models; the incremental evaluators depend on cached values left by the whole history of moves.",
     ["printemps/model/model.h", "printemps/model_component/constraint.h", "printemps/model_component/expression.h"],
     [("univariable, selection and compound evaluators", "printemps/model/model.h"), ("constraint and objective deltas", "printemps/model_component/constraint.h"), ("related constraints and sensitivities", "printemps/model_component/variable.h")],
     "TLA+ trace validation with TLC: random walks through the real neighbourhood, every candidate's scores recomputed by the specification from the point alone",
     TRUST + "Walks of 6 to 10 moves on generated models; all values are exact in scaled integers.")
prop("C04", "Applying moves keeps the model consistent with its point",
     "After any sequence of moves, the stored constraint values, the set of violated constraints, feasibility and the objective value are exactly those of the current variable values, and the variable values are those the moves assigned.",
     ["inputs", "histories"], "every model and every sequence of moves of every kind",
     "Tests apply one or two moves; staleness accumulates only over histories which interleave kinds of moves over shared constraints.",
     ["printemps/model/model.h", "printemps/model_component/constraint.h", "printemps/model_component/objective.h"],
     [("incremental update", "printemps/model/model.h"), ("violated constraint bookkeeping", "printemps/model/model.h")],
     "TLA+ trace validation with TLC: the specification's point evolves with the moves, the recorded model state must be the function of that point",
     TRUST + "Walks of 6 to 10 moves on generated models.")
prop("C08", "Moves are legal and keep the structure they promise to keep",
     "Every candidate move changes only free variables, each at most once, to values within their bounds, and changes the point. Groups of variables of which exactly one must be set keep exactly one set, after every move. A compound move built for a relation between its variables leads to a point where that relation holds.",
     ["inputs", "histories", "configurations"], "every model, every enabled neighbourhood and selection mode, every point reached by moves",
     "Tests construct moves for single hand-made constraints, mostly with coefficient +1 and no constant; legality must hold for every coefficient pattern and every reachable point.",
     ["printemps/neighborhood", "printemps/model/model.h", "printemps/preprocess/selection_extractor.h"],
     [("move generators", "printemps/neighborhood"), ("selections", "printemps/preprocess/selection_extractor.h"), ("constraint classification", "printemps/model_component/constraint.h")],
     "TLA+ trace validation with TLC: legality of every generated candidate decided by the specification at each step of random walks",
     TRUST + "All sixteen kinds of generated moves occur in the walks (user-defined moves are the user's).")
prop("C22", "Improvability screening never hides an improving move",
     "When candidate moves are screened by whether they can improve, every candidate which would improve the objective or reduce the violation of some constraint is kept.",
     ["inputs", "histories"], "every model, every point reached by moves, every kind of move",
     "Tests check flags for single variables of one model; the screen depends on which constraints are violated and on bounds at the current point.",
     ["printemps/model/model.h", "printemps/model_component/variable.h", "printemps/neighborhood/neighborhood.h"],
     [("objective and feasibility improvability flags", "printemps/model/model.h"), ("screening in move generators", "printemps/neighborhood")],
     "TLA+ trace validation with TLC: kept and hidden candidates of the real screen compared with improvement computed by the specification",
     TRUST + "Walks of 6 to 10 moves on generated models.")
prop("C05", "The reported solution is the best one found, and truly so",
     "The solver's final answer is the best feasible point among all points it visited, with the objective value and zero violation that point really has in the user's model; if none was feasible it is the visited point with the least penalised objective, reported as infeasible. At every moment the feasible incumbent is feasible for the user's model, never worsens, and is replaced whenever a strictly better feasible point is visited.",
     ["inputs", "histories", "configurations"], "every model, every option setting, every run of the search",
     "Tests run the solver on a few models and compare the answer with a known optimum; they do not relate the answer to the points visited on the way.",
     ["printemps/solution/incumbent_holder.h", "printemps/solver/solver.h", "printemps/solver/tabu_search"],
     [("incumbent updates", "printemps/solution/incumbent_holder.h"), ("tabu search loop", "printemps/solver/tabu_search/core/tabu_search_core.h"), ("final result", "printemps/solver/solver.h")],
     "TLA+ trace validation with TLC: complete solves observed move by move; the specification keeps its own incumbents and compares them with the recorded ones at each step and with the final report",
     TRUST + "Solves of up to 8 loops of up to 25 moves on generated models with randomised options; points visited inside the local search and Lagrange dual phases are known only through the incumbent they leave.")
prop("C06", "Archived solutions are real, sorted and complete",
     "Every archived feasible solution is feasible for the user's model with the objective it is stored with, and was visited by the search. The archive is sorted from best to worst, respects its capacity, and a visited feasible solution is missing only when the archive is full of solutions that are no worse. Archived incumbents carry the feasibility and objective of their point.",
     ["inputs", "histories", "configurations"], "every model, every option setting, every run and every archive capacity",
     "Tests push hand-made solutions into the archive; whether the archive reflects what a run visited depends on the whole run.",
     ["printemps/solution/solution_archive.h", "printemps/solver/abstract_solver_controller.h", "printemps/solver/tabu_search/core/tabu_search_core.h"],
     [("archive", "printemps/solution/solution_archive.h"), ("storing of feasible solutions", "printemps/solver/tabu_search/core/tabu_search_core.h")],
     "TLA+ trace validation with TLC: the specification accumulates the feasible points visited in a recorded solve and compares them with the archives returned",
     TRUST + "Solves of up to 8 loops of up to 25 moves on generated models.")
prop("C07", "The search obeys its limits and reports what it did",
     "A run performs no more loops and no more moves per loop than allowed, takes no step once the target objective is reached or its total or phase time limit has passed, and stops early only for a reported reason that is true. The user's callback runs exactly once per loop, and the reported elapsed time, numbers of loops and iterations, and the update and violation counts per variable and constraint, are those of the run.",
     ["inputs", "histories", "configurations"], "every model and every combination of limits, targets and options",
     "Tests check single limits on one model; the interplay of limits, targets, early stopping and automatic adjustment over several loops is not sampled.",
     ["printemps/solver/tabu_search", "printemps/solver/solver.h"],
     [("termination conditions", "printemps/solver/tabu_search/core/tabu_search_core.h"), ("loop control", "printemps/solver/tabu_search/controller/tabu_search_controller.h"), ("result", "printemps/solver/solver.h")],
     "TLA+ trace validation with TLC: loop and move counters of the specification advance with the recorded events; every start, move and end must be allowed by the limits",
     TRUST + "Time limits are decided on a virtual clock that advances with every reading, with a slack of five readings; limits of the linear relaxation are not decided.")
prop("C09", "Claims of optimality and dual bounds are true",
     "The dual bound reported at any time, from whichever relaxation, never excludes the optimum of the user's model. The search claims to have found an optimum only when the incumbent is optimal.",
     ["inputs", "histories", "configurations"], "every model, minimising and maximising, every option setting",
     "Tests compare bounds of two small models; validity must hold for every model and every sequence of multipliers.",
     ["printemps/solver/lagrange_dual", "printemps/solver/pdlp", "printemps/model/model.h"],
     [("naive dual bound", "printemps/model/model.h"), ("Lagrange dual", "printemps/solver/lagrange_dual/core/lagrange_dual_core.h"), ("linear relaxation", "printemps/solver/pdlp"), ("optimality claim", "printemps/solver/tabu_search/core/tabu_search_core.h")],
     "TLA+ trace validation with TLC: optimum computed by the specification over all points, compared with bounds and claims recorded from real solves",
     TRUST + "Instances with at most 300 points.")
prop("C17", "The tabu rule decides which moves are taken",
     "In each iteration the move taken is a permitted one with the best score, unless a candidate improves the best solution found (then the most improving is taken) or no candidate is permitted. A variable altered by a move stays forbidden for the current tenure up to the configured randomisation, unaltered variables keep their memory, memory starts empty in each loop, and the tenure stays within its range. A step size adjustment never makes the move worse nor leaves the bounds.",
     ["inputs", "histories", "configurations"], "every model, every tabu mode, every history of moves",
     "Tests check memory fields after single updates; the rule relates the whole candidate list, the memory left by the history and the incumbent.",
     ["printemps/solver/tabu_search", "printemps/solver/integer_step_size_adjuster.h"],
     [("selection of moves", "printemps/solver/tabu_search/core/tabu_search_core.h"), ("move scores", "printemps/solver/tabu_search/core/tabu_search_core_move_evaluator.h"), ("tenure", "printemps/solver/tabu_search/core/tabu_search_core_state_manager.h")],
     "TLA+ trace validation with TLC: tabu memory of the specification evolves with the moves; candidates, their permissions and the selection recorded from real solves must follow the rule",
     TRUST + "Solves of up to 8 loops of up to 25 moves; the random part of the tenure is allowed its whole range.")
prop("C19", "Local search only takes legal downhill steps and stops as it says",
     "Every step of the local search alters each variable at most once, alters no fixed or dependent variable, keeps all values within their bounds and keeps satisfied selections intact; without step size adjustment it ends feasible with a better objective value or with a smaller total violation than before. The phase stops at its iteration limit, at the target or at a point it cannot improve, does not run once the target is reached, and its reported iteration count is the number of steps taken.",
     ["inputs", "histories", "configurations"], "every model, starting point, neighbourhood configuration and history of steps",
     "Tests check the state manager with constructed scores; the guarantee is about steps combined from several moves judged on a live model.",
     ["printemps/solver/local_search"],
     [("steps and their combination", "printemps/solver/local_search/core/local_search_core.h"), ("scores", "printemps/solver/local_search/core/local_search_core_move_evaluator.h"), ("phase control", "printemps/solver/local_search/controller/local_search_controller.h")],
     "TLA+ trace validation with TLC: the steps of real local searches, recorded through an observation hook, must be steps the specification allows",
     TRUST + "Models of 5 to 12 variables and up to about 8 constraints, up to 30 steps; that the final point is optimal for the whole neighbourhood is not claimed (the code stops scanning early by design).")
prop("C01", "What the solver reports about a solution is true",
     "After any solve, the values reported respect the user's fixed values, the solution is called feasible exactly when its values satisfy every bound and constraint of the user's model, and the reported objective, expression, constraint and violation values and the total violation are those of the reported values. The solution object, the named, array-shaped and plain solution files, the stored solutions and the status all describe the same solution. A solve ends without an answer only if the model has no feasible point.",
     ["inputs", "configurations"], "every model, however its variables and constraints are laid out, and every solver configuration",
     "Tests compare reports for a few hand-made states; substituted, removed and reordered variables and constraints make the path from search state to report depend on the whole model and configuration.",
     ["printemps/solver/solver.h", "printemps/solution", "printemps/model/model.h"],
     [("postprocess and result assembly", "printemps/solver/solver.h"), ("solution conversion and files", "printemps/solution/named_solution.h"), ("export of solutions", "printemps/model/model.h")],
     "TLA+ trace validation with TLC: all reports of real solves, parsed independently, are judged by the semantics of the user's instance",
     TRUST + "Models of up to 9 variables and about 8 constraints, all options randomised; numbers are read from files with a tolerance of 1e-5.")
prop("C21", "The standalone program solves the instance it was given",
     "Run on an instance file with any combination of option, initial-solution, fixed-variable and mutable-variable files, the program writes solution, plain solution, status and (if asked) stored-solution files which are well formed, agree with each other and are true of that instance with those variables fixed. It fails without answer only if no feasible point exists.",
     ["inputs", "configurations"], "every instance file and combination of auxiliary files and flags",
     "The program's own flow (file in, files out) has no tests with an oracle; unit tests check the helpers separately.",
     ["printemps/standalone/mps_solver.h", "printemps/helper", "printemps/solution", "printemps/solver/status.h"],
     [("program flow", "printemps/standalone/mps_solver.h"), ("auxiliary files", "printemps/helper/auxiliary_file_reader.h"), ("status file", "printemps/solver/status.h")],
     "TLA+ trace validation with TLC: files written by real runs of the program in a scratch directory, parsed independently, are judged by the semantics of the instance",
     TRUST + "Models of up to 9 variables; continuous variables and flippable-pair files are not exercised.")
prop("C10", "Instance files are read with their documented meaning",
     "Reading an instance file yields exactly the model its rows, columns, right-hand sides, ranges, bounds and integrality markers define: the same variables, bounds, integrality, constraints with coefficients and constants, objective function and objective constant. Files which break the format, such as references to undeclared rows or columns, are refused rather than read as something else.",
     ["inputs"], "every instance file: any order, spacing, comments, omitted and repeated entries, and any combination of bound and range records",
     "Tests read two fixed files; the meaning of a record depends on the records before it (default bounds, sign of ranges, sections), which needs a model of the format.",
     ["printemps/mps/mps.h", "printemps/model/model.h"],
     [("reader", "printemps/mps/mps.h"), ("conversion to a model", "printemps/model/model.h")],
     "TLA+ trace validation with TLC: a specification of the format interprets each generated file record by record, and the model built by the real reader must equal the result",
     TRUST + "Generated files of up to 6 columns and 6 rows; the reader's own convention for a negative-infinite bound record (upper bound 0 stays) is taken as given; objective-sense sections are not generated.")
prop("C11", "Writing a model to an instance file and reading it back loses nothing",
     "For every linear model, writing it as an instance file and reading that file back gives a model with the same variables, bounds and integrality, the same constraints and the same objective function and constant, up to the file format's minimisation convention.",
     ["inputs"], "every linear model, including unused variables, empty rows, constants, fractional coefficients and unbounded variables",
     "Tests compare the text written for one model.",
     ["printemps/model/model.h", "printemps/mps/mps.h"],
     [("writer", "printemps/model/model.h"), ("reader", "printemps/mps/mps.h")],
     "TLA+ trace validation with TLC: the file written by the real writer is interpreted by the specification of the format and by the real reader, and must mean the model it came from",
     TRUST + "Generated models of up to 6 variables and 6 constraints.")
prop("C13", "Modelling operations mean what they say",
     "Every operation of the modelling layer on numbers, variables, expressions and arrays of them (sums, differences, products, quotients, negation, compound assignment, sums and dot products over whole arrays or slices, substitution, relations, selections, bounds, fixing and values) yields exactly the linear form, relation or variable state it denotes, whatever kinds of operands are combined. It changes its target and nothing else, an invalid operation is refused without any effect, and the elements of a model end up with distinct names.",
     ["inputs", "histories"], "every program of modelling operations, every combination of operand kinds and array shapes",
     "Tests cover each overload once with fresh operands; aliasing and lost array indices show only after earlier assignments.",
     ["printemps/model_component", "printemps/multi_array", "printemps/model/model.h"],
     [("expressions", "printemps/model_component/expression.h"), ("arrays", "printemps/model_component/expression_proxy.h"), ("relations", "printemps/model_component/constraint_binary_operator.h"), ("variables", "printemps/model_component/variable.h")],
     "TLA+ trace validation with TLC: the specification is a register machine of linear forms; random programs executed on the real classes must follow it step by step, including what must not change",
     TRUST + "Programs of up to 25 operations on up to 12 variables; coefficients are dyadic so all arithmetic is exact; division only where exact.")
prop("C14", "Every constraint is classified by its true form",
     "Every linear constraint is given exactly one class: the first in the documented order whose definition its coefficients, constant, sense and kinds of variables meet, and the variable marked in classes with a distinguished variable is the one the definition names. The groups by class, by sense and by being active, from which neighbourhoods and preprocessing work, contain each constraint exactly where it belongs.",
     ["inputs"], "every linear constraint over binary, integer, selection and dependent, free and fixed variables",
     "Tests classify one example per class; near misses (fractional, negative, fixed, reordered) decide whether preprocessing and moves are applied to constraints they are not valid for.",
     ["printemps/model_component/constraint.h", "printemps/model/model.h"],
     [("classification", "printemps/model_component/constraint.h"), ("grouping", "printemps/model/model.h")],
     "TLA+ conformance with TLC: the definitions of the classes are written in the specification and decide, for every generated constraint, what the real classification and grouping must be",
     TRUST + "Constraints of up to 6 variables with coefficients which are multiples of 1/4.")
prop("C12", "Options and documents read back exactly as written",
     "An option file is taken as a whole: every option it mentions has the given value, every other option its default, whatever the order, layout and line ends; a file with an ill-typed value is refused without effect. The option values written or printed are those in effect, and what the library writes as a document is valid and reads back as the same document, whatever names and texts it contains.",
     ["inputs", "histories"], "every option, every subset of options in a file, every sequence of loading, assigning, resetting and writing, and every document of nested objects, arrays, texts, numbers, booleans and nulls",
     "Tests read one option file and two small documents; a wrong default, a misspelt key or a text with separators shows only on other inputs.",
     ["printemps/option", "printemps/utility/json/json.h"],
     [("option sections", "printemps/option/option.h"), ("document reader and writer", "printemps/utility/json/json.h"), ("option values", "printemps/option/read_json.h")],
     "TLA+ trace validation with TLC: a state machine of option values and a push-down automaton of the document grammar are compared with recorded executions of the real reader and writer",
     TRUST + "Documents up to depth 4; numbers with at most 7 significant digits, which is the precision the writer uses; integers within the range of int when read.")
prop("C15", "The number of threads changes nothing",
     "Whatever number of threads builds and evaluates the candidate moves, every candidate is the move and has the scores the model defines for it, exactly as with a single thread. Dual bounds obtained with several threads are as valid as with one.",
     ["schedules", "inputs"], "every number of threads, every schedule, every model and every history of moves, with parallel neighbourhood update and parallel evaluation on or off or chosen automatically",
     "The test suite is built without threads.",
     ["printemps/model/model.h", "printemps/neighborhood", "printemps/solver/tabu_search/core/tabu_search_core.h", "printemps/solver/lagrange_dual"],
     [("parallel evaluation", "printemps/solver/tabu_search/core/tabu_search_core.h"), ("parallel neighbourhood update", "printemps/neighborhood/neighborhood.h"), ("lookups shared by the threads", "printemps/utility/fixed_size_hash_map.h")],
     "TLA+ trace validation with TLC: walks and complete solves recorded from a multi-threaded build must be behaviours of the same specification as single-threaded ones",
     TRUST + "Schedules are those the operating system produces in repeated concurrent evaluations by 2 to 4 threads, not enumerated.")
prop("C16", "The solver's data structures answer as their abstract counterparts",
     "Bounded queues, disjoint sets, one-to-one maps and lookup tables give, after every history of operations, the answers of the abstract structure they stand for, whatever keys collide. Rank, inverse, products and reachability of matrices over GF(2), and products, transposition, combinations, norms and scaling of sparse matrices and vectors, are the mathematical ones. Minimum spanning trees span, are acyclic and minimal, and the set, map and array helpers (intersection, union, distances, counts, extremes, ranges) compute what they are named for.",
     ["inputs", "histories"], "every history of operations and every argument",
     "Tests run each structure on one example; collisions, unions of unions, singular matrices, ties and disconnected graphs appear only for particular histories and arguments.",
     ["printemps/utility"],
     [("lookup table of sensitivities", "printemps/utility/fixed_size_hash_map.h"), ("matrices over GF(2)", "printemps/utility/binary_matrix.h"), ("sparse linear algebra", "printemps/utility/sparse"), ("graphs and disjoint sets", "printemps/utility/graph/graph.h")],
     "TLA+ trace validation with TLC: recorded histories of operations on the real structures are explained by abstract machines; results of operations are compared with their definitions",
     TRUST + "Structures of up to 12 elements, matrices up to 5 by 5 with exactly representable entries.")
prop("C18", "The search uses the phases and moves the options ask for, and no others",
     "A relaxation or local search phase runs before the tabu search if and only if the options ask for it, it applies to the model, and neither the target nor the time limit was reached before. Simple kinds of moves asked for are in use whenever the model has any, special kinds are called in together when a full loop brings no improvement of the penalised objective and sent away when one does, and no candidate ever has a kind that is switched off or not in use.",
     ["inputs", "histories", "configurations"], "every model, every option setting, every sequence of loops",
     "There are tens of switches whose effect shows only in particular loops of a run on models having that structure; tests exercise the switches one by one at the default setting, and a phase or move which silently does not take part fails no test.",
     ["printemps/solver/solver.h", "printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h", "printemps/neighborhood/neighborhood.h"],
     [("order and enabling of phases, default kinds of moves", "printemps/solver/solver.h"), ("switching of special moves", "printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h")],
     "TLA+ trace validation with TLC: complete solves observed event by event; phases, kinds in use and kinds of candidates must be those the specification derives from the options and the history",
     TRUST + "Solves of up to 8 loops of up to 25 moves on generated models with random option settings; user-defined moves are not exercised.")
prop("C20", "Penalty coefficients adapt in the right direction and stay in range",
     "Between two loops the penalty coefficients of the constraints are either all reset to the global one, or raised, and then only for constraints which the best penalised point of the loop violates on that side (or, with grouping, whose group contains one), or lowered, and then never for a side that point violates. They always lie between zero and the initial coefficient the user set, start at the global one, and the global one is reduced below the user's only to a value that still exceeds the range of the objective.",
     ["inputs", "histories", "configurations"], "every model, every option setting, every sequence of loops",
     "Tests do not follow coefficients through a run; degenerate situations (violations not counted yet, equality constraints, zero gaps) arise only along particular histories.",
     ["printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h", "printemps/model/model.h"],
     [("tightening, relaxing and resetting", "printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h"), ("reduction of the global coefficient", "printemps/model/model.h")],
     "TLA+ trace validation with TLC: complete solves observed loop by loop; which coefficients may rise or fall is decided by the specification from the best penalised point of the loop",
     TRUST + "Solves of up to 8 loops of up to 25 moves on generated models; only order and range of the coefficients are compared, not the amounts.")
