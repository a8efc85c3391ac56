#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids, anchors and wording stay reviewable)."""
import json, os
M = "switss/model/"; P = "switss/problem/"; U = "switss/utils/"
RF = M + "reachability_form.py"
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe, hook_needed=hook))
R = []
R.append(p("C01", "Reduction to reachability form preserves min/max reachability probabilities",
 "For every MDP or DTMC with exactly one initial state from which some target state can be reached, and any set of target states, ReachabilityForm.reduce returns a model in which, for the initial state and for every state that is kept (according to the returned state map), the minimal and the maximal probability of eventually reaching goal equal the minimal and maximal probability of eventually reaching a target-labelled state in the original model. This does not depend on how states, actions and matrix rows are numbered, on the initial state being a target, or on rows whose floating-point sum is not exactly 1.",
 ["inputs", "configurations"], "all MDPs/DTMCs, all target sets, all numberings of states, actions and rows",
 "The unit tests reduce a handful of toy models and never compare probabilities before and after; the claim quantifies over all models and numberings.",
 [RF, M + "amdp.py", U + "graph.pyx"], [("forward/backward search, masking and remapping", RF + " reduce"), ("fail/goal completion of rows", RF + " __initialize_system")],
 ["ReachabilityForm.reduce", "rf.system.P"]))
R.append(p("C02", "A reduced model is in reachability form and faithful to the original model",
 "The model returned by ReachabilityForm.reduce is in reachability form (goal and fail absorbing and last, everything else reachable from the initial state and reaching goal), and the returned state and state-action maps cover exactly the states that lie on a path from the initial state to a first target state. Between kept states transition probabilities are unchanged, every action of a kept target state moves to goal with probability 1, exactly the probability of moving to removed states goes to fail (no fail transition where none was removed), and state labels, action labels and rewards of kept states and actions are carried over unchanged; the original model is not modified.",
 ["inputs", "configurations"], "all MDPs/DTMCs with any labelling, rewards, target sets and numberings",
 "Tests only check that reduce does not crash and two MEC facts; they never compare transitions, labels, rewards or maps.",
 [RF, M + "amdp.py"], [("mapping construction", RF + " reduce"), ("label/reward copying", RF + " __initialize_system")],
 ["ReachabilityForm.reduce", "rf.system", "returned maps"]))
R.append(p("C03", "The consistency check accepts exactly the models in reachability form",
 "ReachabilityForm.assert_consistency (and constructing a ReachabilityForm from a model without disabling checks) succeeds if the model satisfies all conditions of a reachability form - exactly one initial, one goal and one fail state, goal and fail absorbing with one action each and at the documented last positions (states and rows), every state except fail reachable from the initial state, every state except fail reaching goal - and fails otherwise.",
 ["inputs"], "all labelled MDPs/DTMCs, both well-formed and malformed in every single condition",
 "Tests never call the check on malformed models; acceptance must be exact on every model.",
 [RF], [("assert_consistency", RF + " assert_consistency")], ["ReachabilityForm.assert_consistency", "ReachabilityForm(...)"]))
R.append(p("C04", "pr_min and pr_max return the exact reachability probabilities of every state",
 "For every reachability form, pr_min (max_z_state) and pr_max return for every non-goal, non-fail state the minimal resp. maximal probability of reaching goal over all schedulers, up to LP-solver precision, also when the model contains proper end components, and with every available LP solver.",
 ["inputs", "configurations"], "all reachability forms (with and without end components), solvers cbc and glpk",
 "Tests compare a few toy models without independent values; the LP has non-unique solutions exactly when end components exist, which the tests hardly touch.",
 [RF, "switss/solver/milp.py", U + "graph.pyx"], [("max_z_state / pr_max LPs, end components pinned to 0", RF)], ["rf.pr_min", "rf.pr_max", "rf.max_z_state"]))
R.append(p("C05", "Farkas constraint systems and derived vectors match their documented polytopes",
 "For every reachability form and threshold, a vector z (resp. y) satisfies the system returned by fark_z_constraints (fark_y_constraints) / fark_constraints iff it satisfies A z <= b and z(init) >= threshold (resp. y A <= delta_init and b y >= threshold), where A and b are the documented system matrix and one-step goal probabilities. max_z_state_action is the one-step image of max_z_state; max_y_state_action is a nonnegative optimal solution, i.e. one whose value b y is the maximal reachability probability of the initial state, and max_y_state sums it over the actions of each state.",
 ["inputs", "configurations"], "all reachability forms, thresholds and candidate vectors",
 "Tests print these vectors for toy models but do not compare them with an independent definition.",
 [RF], [("fark_z_constraints/fark_y_constraints", RF), ("max_y_state_action/max_y_state/max_z_state_action", RF)], ["rf.A", "rf.to_target", "rf.fark_constraints", "rf.max_y_state"]))
R.append(p("C06", "check_farkas_certificate accepts only genuine certificates, and all of them",
 "For every reachability form, mode (min/max), comparison (<=,<,>=,>) and threshold, check_farkas_certificate accepts a vector iff it satisfies the certificate conditions of that claim within the tolerance (including zero entries on proper end components for min, and nonnegativity for state-action certificates). Hence whenever it accepts a vector with a small tolerance, the claim Pr^min/Pr^max(reach goal) ~ threshold about the initial state is true up to that tolerance.",
 ["inputs"], "all reachability forms, modes, comparisons, thresholds and candidate vectors",
 "Tests only check certificates that the library generated itself for true claims; wrong vectors and false claims are never offered.",
 ["switss/certification/certificates.py", RF], [("check_farkas_certificate", "switss/certification/certificates.py")], ["check_farkas_certificate"]))
R.append(p("C07", "generate_farkas_certificate returns a valid certificate exactly for true claims",
 "For every reachability form without proper end components, mode, comparison and threshold (away from the exact value by a margin), generate_farkas_certificate returns a vector if the claim about the initial state is true and None if it is false, and every returned vector is a valid certificate of the claim (satisfies all Farkas conditions within the tolerance). With proper end components it likewise never returns a vector for a false claim, finds a certificate for every true claim of the kinds min >=, max >= and max <=, and for min <= and min < finds one whenever a scheduler that never enters a proper end component keeps the probability below the threshold (otherwise no vector satisfies the conditions).",
 ["inputs", "configurations"], "all reachability forms, modes, comparisons, thresholds, LP solvers",
 "Tests cover a few toy models and thresholds; completeness and soundness quantify over all models and claims.",
 ["switss/certification/certificates.py", "switss/solver/milp.py"], [("generate_farkas_certificate / find_interior_point", "switss/certification/certificates.py")], ["generate_farkas_certificate"]))
R.append(p("C08", "MILPExact returns a witnessing subsystem with the minimum number of states",
 "For every reachability form, mode and threshold (max mode: models without proper end components), MILPExact reports infeasible iff the min/max reachability probability of the initial state is below the threshold; otherwise it reports success with a subsystem whose own min/max probability of reaching goal is at least the threshold, whose number of states equals the reported value, and no subsystem with fewer states reaches the threshold. The returned certificate is a valid certificate for the threshold.",
 ["inputs", "configurations"], "all reachability forms, both modes, all thresholds",
 "Tests only compare solvers with each other on toy models and never enumerate all subsystems.",
 [P + "milpexact.py", P + "formulations.py", P + "subsystem.py", "switss/solver/milp.py"], [("construct_MILP (upper bounds, indicator constraints, groups)", P + "formulations.py"), ("MILPExact._solveiter", P + "milpexact.py")], ["MILPExact().solve", "ProblemResult.value/subsystem/farkas_cert"]))
R.append(p("C09", "Label-based minimisation is minimal in the number of labels",
 "Given a list of labels, MILPExact returns a witnessing subsystem such that the reported value is the minimum, over all subsystems satisfying the threshold, of the number of listed labels that occur on the states of the subsystem other than goal and fail (states carrying several listed labels pay for each, unlabelled states are free), and the returned subsystem carries at most that many listed labels; it reports infeasible iff no subsystem satisfies the threshold. QSHeur with labels returns subsystems that satisfy the threshold and its value is the number of label groups with positive weight, at least the number of listed labels that occur (up to the rounding noise of the LP solver).",
 ["inputs", "configurations"], "all reachability forms, label assignments (incl. overlapping and empty labels, labels on goal and fail), modes and thresholds",
 "Two tests with one labelling each; the claim quantifies over all labelings and thresholds.",
 [P + "formulations.py", P + "milpexact.py", P + "qsheur.py"], [("groups_from_labels, add_indicator_constraints", P + "formulations.py")], ["MILPExact().solve(labels=...)", "QSHeur().solveiter(labels=...)"]))
R.append(p("C10", "Every QSHeur iterate is a witnessing subsystem",
 "For every reachability form, mode, threshold, initializer, updater and number of iterations, QSHeur yields between one and `iterations` results; if the claim Pr >= threshold holds every one is a success whose subsystem satisfies the threshold on its own (up to the rounding noise of the LP solver) and whose reported value is its number of states (min mode) or state-action pairs (max mode) with positive weight, and if the claim does not hold it yields exactly one result, which is not a success. The heuristic never reports fewer states than the exact minimum.",
 ["inputs", "configurations", "histories"], "all reachability forms, modes, thresholds, initializers, updaters, iteration counts",
 "Tests run default parameters on toy models; each iterate depends on the previous LP solution, and nothing checks that iterates are witnesses.",
 [P + "qsheur.py", P + "qsheurparams.py", P + "formulations.py"], [("QSHeur._solveiter loop", P + "qsheur.py"), ("initializers/updaters", P + "qsheurparams.py")], ["QSHeur(...).solveiter"]))
R.append(p("C11", "A subsystem is exactly the restriction to the certificate's support",
 "For every reachability form and certificate vector, the subsystem consists of exactly the states with a positive certificate entry (min form) or with an action whose entry is positive (max form), and the materialised subsystem keeps all actions of those states, keeps transition probabilities among kept states and to goal, and redirects exactly the remaining probability to fail; state labels, action labels and rewards of kept states and actions are preserved. Its min/max reachability probability therefore never exceeds that of the supersystem, and materialising it never changes the supersystem.",
 ["inputs", "configurations"], "all reachability forms (MDP and DTMC), all supports, both certificate forms, also nested subsystems",
 "Tests only inspect state counts of results, never the materialised subsystem.",
 [P + "subsystem.py"], [("subsystem_mask, subsys", P + "subsystem.py")], ["Subsystem.subsystem_mask", "Subsystem.subsys"]))
R.append(p("C12", "Minimal and maximal expected rewards are computed exactly",
 "For every reward reachability form (model with nonnegative state-action rewards in which goal is reached almost surely and which has no proper end components), rew_min/max_z_state and rew_max return for every state the minimal resp. maximal expected reward accumulated before reaching goal, and max_y_state_action is a nonnegative solution whose weighted reward is the maximal expected reward of the initial state. Models where fail is reachable or a proper end component exists are rejected when the form is built.",
 ["inputs", "configurations"], "all such models and reward vectors (zero, integer, fractional, action dependent), any numbering",
 "One test with two toy models; no comparison with independent values.",
 [M + "reward_reachability_form.py", RF], [("Farkas LPs with reward right-hand side", M + "reward_reachability_form.py"), ("reward carry-over", RF)], ["RewardReachabilityForm.reduce", "rew_min", "rew_max"]))
R.append(p("C13", "Reward witnesses satisfy the threshold and exact ones are minimal",
 "For every reward reachability form, mode and nonnegative threshold, MILPExact reports infeasible iff the min/max expected reward of the initial state is below the threshold, and otherwise returns a set of states of minimum size among all sets whose restriction (leaving the set yields no further reward) still has min/max expected reward at least the threshold. QSHeur succeeds in the same cases with sets that satisfy the threshold. The model of a returned subsystem is the restriction to these states, with the rewards unchanged.",
 ["inputs", "configurations"], "all reward reachability forms, modes and thresholds",
 "One test compares QSHeur and MILPExact counts on toy models in one mode.",
 [M + "reward_reachability_form.py", P + "formulations.py"], [("construct_MILP with reward forms", P + "formulations.py")], ["MILPExact().solve(rewform,...)", "QSHeur().solve(rewform,...)"]))
R.append(p("C14", "The maximal end component decomposition is correct for every random treap shape",
 "For every MDP or DTMC, maximal_end_components assigns two states the same index iff they lie in a common maximal end component (or are the same trivial state), uses the indices 0..k-1 for the reported count k, and marks an index as proper iff some action set lets the system stay in it forever. The result does not depend on the pseudo-random priorities drawn internally, on numbering, or on earlier calls. A reachability form reports the same components (state_to_mec, proper_mecs, in_proper_ec, is_ec_free, and the numbers of components and of proper components apart from goal and fail).",
 ["inputs", "schedules"], "all MDPs/DTMCs, all outcomes of the internal random number generator",
 "Tests check three fixed models under one random seed per second; treap shapes depend on rand().",
 [U + "graph.pyx", U + "treaps.pyx", U + "stack.pyx"], [("Tarjan on subgraphs given by treaps, refinement stack", U + "graph.pyx maximal_end_components")], ["model.maximal_end_components", "rf.in_proper_ec", "rf.is_ec_free"]))
R.append(p("C15", "Graph queries agree with the transition matrix",
 "For every model, successors and predecessors list exactly the transitions with positive probability (once each, with the exact action and probability), reachable_mask returns exactly the states reachable forward or backward from the given set where search does not continue beyond blocked states, actions_by_state lists exactly the available actions, and strongly_connected_components assigns two states the same index iff they are mutually reachable. All of this holds independently of how the transition matrix was given (list, array, sparse with explicit zeros).",
 ["inputs", "configurations"], "all models, start sets, blocklists, directions and matrix representations",
 "Only used indirectly by tests; no test compares with a naive computation.",
 [U + "graph.pyx", M + "amdp.py", U + "casting.py"], [("adjacency arrays and iterative search", U + "graph.pyx")], ["successors", "predecessors", "reachable_mask", "strongly_connected_components", "actions_by_state"]))
R.append(p("C16", "Treaps behave as sets for every insertion order and priority sequence",
 "For every sequence of insertions (with repetitions) and every outcome of the random priorities including ties, a treap contains exactly the inserted keys, reports their number as its size, and its array dump lists each key exactly once.",
 ["histories", "schedules"], "all insertion sequences and all relative orders of priorities",
 "The treap test uses four fixed sequences under about twenty seeds.",
 [U + "treaps.pyx"], [("insert/split with size maintenance", U + "treaps.pyx")], ["treap functions used by the graph algorithms"], None))
R.append(p("C17", "Label and inverse mappings stay consistent under every history of updates",
 "After every sequence of add and remove operations and inverse look-ups, on either direction, an InvertibleDict and its inverse represent the same relation as a reference relation receiving the same operations: v is in d[k] iff k is in d.inv[v], look-ups never change the relation, and removing an absent pair is refused without effect. Models built on it (states_by_label, labels_by_state, add_label) stay consistent likewise, and building a model never changes the caller's label dictionaries, nor do later updates of one model affect another model built from the same label dictionaries or from its label maps.",
 ["histories"], "all operation histories over small key/value sets, default and non-default dictionaries",
 "No test of the class; defects need specific interleavings of updates and inverse creation.",
 [U + "invertible_dict.py", M + "amdp.py"], [("lazily built mutual inverse", U + "invertible_dict.py")], ["InvertibleDict", "model.add_label", "model.labels_by_state"]))
R.append(p("C18", "Saving and loading a model preserves it",
 "For every MDP or DTMC, saving it and loading it with from_file yields a model with the same number of states, the same transition probabilities up to floating-point round-trip precision, the same actions per state and the same labelled states; loading never fails for a valid model. A saved reachability form (also one obtained from a subsystem) can be loaded and used again as a reachability form with the same probabilities.",
 ["inputs", "configurations"], "all models: probabilities without short decimal expansion or very small, multiple/unused/shared labels, any numbering",
 "Tests save and load a few models without comparing results.",
 [M + "mdp.py", M + "dtmc.py", M + "amdp.py", "switss/prism/prism.py"], [("save / _load_transition_matrix / parse_label_file", M + "mdp.py")], ["model.save", "from_file"]))
R.append(p("C19", "Models are accepted iff they are well-formed",
 "Constructing an MDP or DTMC succeeds iff every row of the transition matrix is a probability distribution (entries in [0,1], sum 1 up to 1e-9 rounding), rewards (if given) are nonnegative, and for DTMCs the matrix is square with the single action 0; otherwise construction raises an AssertionError. Accepted models expose exactly the given matrix, index mapping, labels and rewards, for every supported matrix type.",
 ["inputs", "configurations"], "all small matrices over a grid of entries, reward vectors and matrix types",
 "Tests only construct valid models.",
 [M + "amdp.py", M + "dtmc.py", U + "casting.py"], [("__check_correctness", M + "amdp.py")], ["MDP(...)", "DTMC(...)"]))
R.append(p("C20", "Queries on a reachability form are independent of the query history",
 "For every reachability form and every sequence of queries (probabilities, Farkas constraints for different thresholds and modes, certificates, minimisation, subsystems), each query returns the same answer as on a freshly built form, and neither the form, the underlying model nor previously returned results are changed by later queries.",
 ["histories"], "all sequences of public queries up to a bounded length",
 "Tests run queries in one fixed order and never look at earlier results again; constraint systems are cached inside the form.",
 [RF, P + "formulations.py", P + "subsystem.py"], [("cached constraint systems", RF + " fark_z_constraints/fark_y_constraints")], ["all ReachabilityForm queries"]))
R.append(p("C21", "The LP/MILP layer states exactly the problem it was given",
 "For every sequence of adding variables (with domains and bounds), adding and removing constraints and setting the objective (repeatedly), and for problems given by coefficient matrices, solving an LP or MILP reports infeasible, unbounded or optimal correctly, and in the optimal case a feasible vector (variables in order of creation) that attains the true optimum value of exactly the current variables, constraints and objective.",
 ["histories", "inputs"], "all construction histories up to a bounded length over small coefficients, senses, domains and bounds; both solvers",
 "No direct tests of this layer.",
 ["switss/solver/milp.py", "switss/solver/solverresult.py"], [("MILP / LP wrapper around pulp", "switss/solver/milp.py")], ["MILP", "LP", "SolverResult"]))
R.append(p("C22", "Solver failures are reported and never turned into witnesses or certificates",
 "For every pattern of solver answers (not solved, infeasible, unbounded, undefined, at any of the solver calls made during one operation), minimisation never reports success for a step whose solver call did not report an optimum, reports a non-success status instead, stops after it, and certificate generation never returns a vector that does not pass the certificate check; an instance that can be solved is never reported as infeasible unless the solver said so; the tree algorithm wrapper never reports success without a solution.",
 ["fault_sequences"], "all sequences of solver statuses at all solver calls of an operation",
 "Tests never see a failing or timed-out solver.",
 [P + "milpexact.py", P + "qsheur.py", P + "formulations.py", P + "tree_algo.py", "switss/certification/certificates.py", "switss/solver/milp.py"], [("status propagation", P + "qsheur.py"), ("status mapping", "switss/solver/milp.py")], ["solve/solveiter results", "generate_farkas_certificate"]))
R.append(p("C23", "A benchmark run records exactly what the method returned",
 "For every behaviour of a minimisation method (sequence of success/failure results per threshold), benchmarks.run records for each threshold, in increasing order from from_thr by step to to_thr, one entry with the value of every result in order (-1 for a failed one) and as many times as results; it stops at the first infeasible threshold without recording it, stops after recording a failed one iff stop_on_timeout is set, passes mode, labels and timeout through, and writes the same data to the JSON file. Given several methods and modes it returns one such record per combination, in order.",
 ["histories", "fault_sequences", "configurations"], "all result sequences of stub methods over bounded thresholds and iterations, with all option combinations",
 "No test runs benchmarks.",
 ["switss/benchmarks/benchmarks.py"], [("run loop", "switss/benchmarks/benchmarks.py")], ["benchmarks.run", "JSON file"]))
R.append(p("C24", "The command line workflow yields valid forms, certificates and subsystems",
 "For every model stored in .tra/.lab files, `switss rf` writes a loadable reachability form with the correct probabilities and mapping, `switss minimize` on it writes certificates that are valid for the given mode and threshold (one for -s, one per iteration for -si) or reports infeasibility without producing a certificate, `switss certify` reports VALID exactly for valid certificates, and `switss subsystem` writes a model whose additional label marks exactly the states of each certificate's subsystem.",
 ["inputs", "configurations", "histories"], "all small models, methods, modes, thresholds and option combinations",
 "The command line tool has no tests at all.",
 ["bin/switss", RF, M + "mdp.py"], [("rfargs/minargs/certargs/subsysargs", "bin/switss")], ["files and output of bin/switss"]))
R.append(p("C25", "The PRISM bridge passes model, constants and labels faithfully",
 "prism_to_tra calls prism once with a file containing the model text followed by one declaration per extra label, with all constants, and the requested export destination, for constants and labels given as dictionary or as pairs; it returns True iff prism succeeds, leaves the model file untouched, and from_prism_model then yields exactly the exported model. Label files are parsed into exactly the label/state relation they denote.",
 ["inputs", "fault_sequences", "configurations"], "all combinations of constants, extra labels, model file endings, prism exit codes and label files",
 "prism is not available to the tests; nothing exercises the bridge offline.",
 ["switss/prism/prism.py", M + "amdp.py"], [("prism_to_tra, parse_label_file", "switss/prism/prism.py")], ["prism_to_tra", "from_prism_model", "parse_label_file"]))
R.append(p("C26", "Stormpy models are translated faithfully",
 "For every (duck-typed) stormpy sparse model, MDP.from_stormpy and DTMC.from_stormpy yield the same states, actions, probabilities and state/choice labels, and the choice model has, for every choice, exactly one additional state that carries the labels of that choice and behaves like it, so that every state's reachability probabilities are unchanged.",
 ["inputs"], "all small stormpy models with arbitrary state and choice labels",
 "stormpy is not installed; the import code is never executed by tests.",
 [M + "mdp.py", M + "dtmc.py", M + "amdp.py"], [("from_stormpy_model, choice_model_from_stormpy", M + "mdp.py")], ["MDP.from_stormpy", "DTMC.from_stormpy"]))
R.append(p("C27", "Renderings show exactly the model's states, actions and transitions",
 "For every model the digraph contains exactly one node per state occurring in a transition, one node per state-action pair (MDP), and one edge per transition with its probability, with attributes given by the supplied state, action and transition maps; the rendering of a subsystem greys out exactly the states outside the subsystem and shows certificate values on the remaining states or actions. Rendering does not change model or subsystem.",
 ["inputs", "configurations"], "all small models, reachability forms, subsystems, both certificate forms and weight options",
 "Rendering is untested.",
 [M + "mdp.py", M + "dtmc.py", P + "subsystem.py", RF, U + "graphviz_utils.py"], [("digraph", M + "mdp.py"), ("Subsystem.digraph", P + "subsystem.py")], ["model.digraph().source", "Subsystem.digraph().source"]))
R.append(p("C28", "The tree-decomposition algorithm finds minimal witness sizes",
 "For every DTMC in reachability form, every directed tree partition of its states, every positive threshold, every admissible order of the partition and every known upper bound that is not below the minimum (or none), TreeAlgo reports the minimum number of states of a witnessing subsystem for the threshold, and reports that there is none exactly if the threshold exceeds the probability of reaching goal. Numberings of states and rows do not matter.",
 ["inputs", "configurations"], "all DTMCs, tree partitions, thresholds, orders and upper bounds",
 "The tree algorithm's tests need packages that are not available.",
 [P + "tree_algo.py", U + "tree_decomp.pyx"], [("min_witnesses_from_tree_decomp", U + "tree_decomp.pyx")], ["TreeAlgo(...).solve"]))
R.append(p("C29", "Results obtained with Gurobi or CPLEX agree with those of the free solvers",
 "All guarantees about probabilities, certificates and minimal witnesses hold as well when gurobi or cplex is selected as solver, including exact max-minimisation for models with proper end components via gurobi indicator constraints.",
 ["inputs", "configurations"], "all models with solver gurobi or cplex",
 "Commercial solvers are not installed in the test environment.",
 ["switss/solver/milp.py"], [("GurobiMILP", "switss/solver/milp.py")], ["solver='gurobi'"]))
R.append(p("C30", "Native code stays within its memory and releases it",
 "For every model and every sequence of graph queries (construction, successors, predecessors and partially consumed iterators over them, reachability, strongly connected components, maximal end components), every sequence of insertions into treaps and every call of the tree algorithm, the compiled code reads and writes only memory that it has allocated and not yet released, releases every block at most once, and has released every block it allocated when the call has returned and the model is gone.",
 ["inputs", "histories"], "all models, treap insertion orders and priorities, tree partitions",
 "An access next to an array or a block that is not released changes no result of a test.",
 [U + "graph.pyx", U + "treaps.pyx", U + "stack.pyx", U + "tree_decomp.pyx"], [("manual memory management", U + "graph.pyx"), ("free_mem, get_point, handle_subsys", U + "tree_decomp.pyx")], ["all native entry points"]))
R.append(p("C31", "Plots of benchmark runs show exactly the recorded values",
 "For every recorded benchmark run (any number of thresholds and results per threshold, thresholds with fewer results because of a failure, empty runs) and every choice of plot options, the drawn curves consist of exactly the recorded points of the chosen kind (intermediate or last state counts, wall or processor times), scaled, capped and with timeouts replaced as documented, one labelled curve per chosen result; the record is not changed.",
 ["inputs", "configurations"], "all records and all combinations of plot options",
 "No test renders a run; a wrong index or factor gives a plausible plot.",
 ["switss/benchmarks/benchmarks.py"], [("render", "switss/benchmarks/benchmarks.py")], ["curves of the matplotlib axes"]))
R.append(p("C32", "Quotients and interfaces of state partitions are exact",
 "For every transition matrix and every partition of its states, the graph of the matrix has exactly one edge per nonzero entry, its quotient has one vertex per block and exactly one edge per pair of different blocks with an edge between them, every state is labelled with its block and marked as interface exactly if it has a predecessor in another block, and the interface matrix between two sets of states consists of exactly the probabilities between them; none of the arguments is changed.",
 ["inputs"], "all transition matrices, partitions and pairs of state sets",
 "The functions need a package that is not installed; no test calls them.",
 [U + "graph_utils.py"], [("underlying_graph, quotient, interface", U + "graph_utils.py")], ["graphs and matrices returned"]))
R.append(p("C33", "The heuristic minimises exactly the documented objective functions",
 "For every reachability form, mode and grouping, each initializer's first objective function assigns every group the documented weight (one or the given one; the inverse of the average reachability probability, of the summed expected frequency, or of both of its states or state-action pairs; a large one where this is zero), each updater's next objective function assigns every group the documented weight for the previous result (and fixes to zero exactly the groups it is documented to fix), and QSHeur's i-th iterate minimises the i-th objective function over the documented polytope with the constraints announced so far.",
 ["inputs", "configurations", "histories"], "all models, groupings, previous results, and sequences of objectives and constraints",
 "A wrong objective still yields witnessing subsystems, only larger ones: no test notices.",
 [P + "qsheurparams.py", P + "qsheur.py", P + "formulations.py"], [("initialize, update, constraints", P + "qsheurparams.py"), ("iteration", P + "qsheur.py")], ["Initializer.initialize", "Updater.update/constraints", "results of QSHeur.solveiter"]))
R.append(p("C34", "Interior points of systems of inequalities are found exactly when they exist",
 "For every system of linear inequalities (with or without nonnegative variables, with any set of variables fixed to zero), find_interior_point returns a point of it, flagged as such, whenever it is feasible and none flagged as such otherwise; it flags the point as strictly inside exactly if a point exists that satisfies all inequalities strictly (including nonnegativity of all variables, where required), and then the point is one; its arguments are not modified.",
 ["inputs", "configurations"], "all matrices, right-hand sides, sets of zero variables and solvers",
 "Tests only use it through certificate generation on a few models.",
 ["switss/certification/certificates.py", "switss/solver/milp.py"], [("find_interior_point", "switss/certification/certificates.py")], ["find_interior_point"]))
R.append(p("C35", "Requests outside the documented domain are rejected without effect",
 "For every model, a request with a threshold below 0, above 1 (for probabilities) or that is no number, with an unknown mode, comparison, solver, model type or label, with a certificate vector of the wrong length, with something that is no form of the required kind, and every building operation of the solver layer with an unknown variable, a coefficient or right-hand side that is no number, an unknown sense, domain, solver or a malformed timeout, raises an exception instead of returning an answer, and afterwards all objects are as they were and still answer correctly; requests on the boundary of the domain (thresholds 0 and 1, reward thresholds above 1) are answered. A vector with an entry that is no number is never accepted as a certificate.",
 ["inputs", "configurations", "histories"], "all models and, for every argument of every operation, all kinds of invalid values and the boundary values",
 "Tests only make well-formed requests; a validity check that is lost or off by one changes none of them.",
 ["switss/certification/certificates.py", P + "problemform.py", P + "subsystem.py", P + "formulations.py", P + "qsheurparams.py", P + "tree_algo.py", "switss/solver/milp.py", "switss/solver/solverresult.py", U + "invertible_dict.py", RF, M + "reward_reachability_form.py", M + "dtmc.py"],
 [("threshold and mode", P + "problemform.py"), ("threshold, mode, sense, dimension", "switss/certification/certificates.py"), ("_assert_expression, senses, domains", "switss/solver/milp.py")], ["exceptions of the public functions and constructors"]))
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in R: f.write(json.dumps(r) + "\n")
    print(len(R), "properties")
