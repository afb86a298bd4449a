prop("C01", "Range constraint arithmetic over-approximates field arithmetic",
 "For all elements x and y allowed by two range constraints, the constraint computed for their sum, their product, the negation or square of x, or a constant multiple of x allows the corresponding field result. This includes results that wrap around the field modulus.",
 ["inputs"], "for all pairs of range constraints, all their elements and all scaling factors",
 "Tests check hand-picked intervals; soundness must hold for every bound combination including wrap-around.",
 [CS+"range_constraint.rs"], [("combine_sum, combine_product, multiple, square, masks", CS+"range_constraint.rs")],
 "range", "All arithmetic transfer functions over p=113 / BabyBear with symbolic constraints and elements.")

prop("C02", "Range constraint set operations never lose a possible value",
 "A range constraint describes a set of field elements. Building one from a value, a bit mask, a bit width or a (possibly wrapping) interval describes exactly that set; intersecting or uniting constraints never loses an element that belongs to the result, and two constraints are reported disjoint only if they share no element. Membership, size, single-value, unconstrained and enumeration queries agree with the described set.",
 ["inputs"], "for all field elements, masks, (wrapping) intervals and combinations of them",
 "Unit tests sample a few dozen intervals; wrap-around and mask/interval interplay need all bounds.",
 [CS+"range_constraint.rs"], [("conjunction/disjunction/interval intersection", CS+"range_constraint.rs"), ("is_disjoint, size, try_to_single_value, allows_value", CS+"range_constraint.rs")],
 "range", "Constraint construction, conjunction, disjunction, disjointness and queries over p=113 (all values symbolic) and BabyBear.")

prop("C03", "Grouped symbolic expressions compute with exact field semantics",
 "Adding, subtracting, negating, multiplying, scaling and substituting into symbolic expressions yields expressions whose value under every assignment equals the field result of the same operation. Degree, constant/affine tests, listed variables and the decomposition into components describe that same function, and an expression reported as equal or constant really is.",
 ["inputs"], "for all expression shapes within bounds, all coefficients and all assignments",
 "Tests compare printed forms of a few fixed expressions with fixed coefficients; cancellation depends on coefficient values.",
 [CS+"grouped_expression.rs"], [("arithmetic operators, try_simplify_quadratic", CS+"grouped_expression.rs"), ("substitute_by_known/unknown", CS+"grouped_expression.rs")],
 "expr", "Expression shapes with symbolic coefficients over p=7.")

prop("C04", "Ranges inferred for an expression contain every attainable value",
 "Given range constraints for the variables of an expression, the range constraint inferred for the expression contains the value of the expression under every assignment that respects the variable constraints.",
 ["inputs"], "for all expressions within bounds, all variable range constraints and all assignments respecting them",
 "The inference composes sums, products and squares with wrap-around; tests sample a handful of intervals.",
 [CS+"grouped_expression.rs", CS+"range_constraint.rs"], [("expression range inference", CS+"grouped_expression.rs")],
 "expr", "Expression shapes with <=2 variables, symbolic coefficients and ranges.")

prop("C05", "Solving one constraint never drops or invents solutions",
 "Whatever is deduced from a single polynomial constraint or a single lookup interaction together with variable ranges (assignments, tighter ranges, contradictions) is true for every assignment that satisfies the constraint and the ranges. A deduction flagged as complete also implies the constraint, and rewriting a constraint as 'variable (or expression) equals expression' is an equivalence.",
 ["inputs"], "for all constraints within bounds, coefficients, variable ranges and satisfying assignments",
 "Solvability depends on coefficient values and range overlaps that tests only sample.",
 [CS+"algebraic_constraint/solve.rs", CS+"constraint_system.rs", CS+"effect.rs"], [("AlgebraicConstraint::solve", CS+"algebraic_constraint/solve.rs"), ("BusInteraction::solve", CS+"constraint_system.rs")],
 "solve", "11 constraint shapes and 12 bus interaction shapes with symbolic coefficients and ranges.")

prop("C06", "The constraint solver only derives consequences of the system",
 "Every assignment and every variable range the solver reports for a constraint system holds in each solution of the system, and a system that has a solution is never reported contradictory. This also holds when constraints, interactions and ranges are added later and solving continues.",
 ["inputs", "histories"], "for all constraint systems within bounds, all solutions, and all splits of the constraints into batches",
 "Tests solve a few fixed systems; soundness quantifies over all systems and all their solutions.",
 [CS+"solver.rs", CS+"solver/base.rs", CS+"solver/exhaustive_search.rs", CS+"solver/constraint_splitter.rs", CS+"solver/boolean_extractor.rs", CS+"solver/linearizer.rs"],
 [("solve loop, splitting, linearisation, boolean extraction, exhaustive search", CS+"solver/base.rs")],
 "solve", "35 system templates with symbolic constants, ranges and variable values; one and two rounds of solving.")

prop("C07", "Solver queries about expressions are sound",
 "After solving, the range the solver reports for an expression contains the value of the expression in every solution, an expression reported to equal a constant has that value in every solution, and two expressions reported to be different never coincide in a solution.",
 ["inputs"], "for all systems and query expressions within bounds and all solutions",
 "Optimizer passes delete constraints based on these answers; tests cover single examples.",
 [CS+"solver.rs", CS+"solver/base.rs", CS+"solver/var_transformation.rs"], [("range_constraint_for_expression, try_to_equivalent_constant, are_expressions_known_to_be_different", CS+"solver/base.rs")],
 "solve", "35 system templates x query expressions.")

prop("C08", "Inlining witness columns keeps the system equivalent and within degree",
 "Replacing variables by the expressions that a constraint defines for them yields a system that, together with the reported substitutions, has exactly the solutions of the original system and the same stateful bus messages, whatever inlining policy is used. Inlined variables no longer occur, and the degree-bounded policy never produces a constraint or bus interaction field above the bound (unless it was above already).",
 ["inputs"], "for all systems within bounds, inlining policies, degree bounds and assignments",
 "Which substitutions are possible depends on coefficient values and on the order of decisions; tests check a few printed results.",
 [CS+"inliner.rs", CS+"indexed_constraint_system.rs"], [("replace_constrained_witness_columns", CS+"inliner.rs"), ("degree bound check", CS+"inliner.rs")],
 "opt", "45 system templates, arbitrary policy decisions, all degree bounds 1..4.")

prop("C09", "Rule-based optimization preserves the solutions of a system",
 "Given range facts that hold for the variables, the system returned by the rule-based optimizer is equivalent to its input: each original solution, extended by the computed values of newly introduced variables, solves the result and satisfies the reported assignments; each solution of the result comes from a solution of the original (variables that were eliminated may take any value); stateful bus messages are unchanged. Without a degree bound degrees do not grow, with one they stay within it.",
 ["inputs"], "for all systems within bounds, range facts, degree bounds and assignments",
 "Each rule has side conditions on ranges and coefficients (no wrap-around, non-negativity, single occurrence) that tests sample at one or two points.",
 [CS+"rule_based_optimizer/rules.rs", CS+"rule_based_optimizer/driver.rs", CS+"rule_based_optimizer/environment.rs"],
 [("datalog rules", CS+"rule_based_optimizer/rules.rs"), ("action application, batch replacement, degree bound", CS+"rule_based_optimizer/driver.rs"), ("expression queries", CS+"rule_based_optimizer/environment.rs")],
 "opt", "21 systems targeting the rules and 35 general templates.")

prop("C10", "Memory optimization preserves the externally visible memory behaviour",
 "Removing matching memory accesses inside one block (a write whose value is consumed by a later read of the same address) yields a system whose solutions and remaining memory messages agree with the original whenever the memory behaves like a memory: every set value is consumed at most once and only by a get with the same address, data and timestamp. Accesses to addresses that might be equal are never merged across each other, conditional accesses are left alone, and the values connected by removed accesses remain equal.",
 ["inputs", "histories"], "for all access sequences within bounds, addresses, data values, timestamps and assignments",
 "Whether two accesses may be paired depends on whether intermediate addresses can coincide for some assignment; tests use fixed addresses.",
 [AP+"memory_optimizer.rs", AP+"constraint_optimizer.rs"], [("optimize_memory, redundant_memory_interactions_indices", AP+"memory_optimizer.rs")],
 "apc", "13 access-sequence templates with symbolic constants over p=13 and p=29.")

prop("C11", "Merging and removing range checks keeps exactly the same restrictions",
 "The range-check optimizer replaces lookups that only enforce ranges by other lookups (or by polynomial constraints for single values and booleans). The resulting system has exactly the same solutions as the original, also when the removed checks were the reason for a known range, when several checks restrict the same expression, or when a check is implied by other constraints. Stateful interactions are unchanged and the degree bound is respected.",
 ["inputs"], "for all systems with range checks within bounds, all check widths and assignments",
 "An implied check may be dropped only if it is not needed to derive the facts that imply it; tests show a few fixed widths.",
 [AP+"range_constraint_optimizer.rs"], [("optimize_range_constraints", AP+"range_constraint_optimizer.rs")],
 "apc", "12 systems with range checks over p=13 and p=29.")

prop("C12", "Replacing lookups by low-degree polynomials is an exact equivalence",
 "When a lookup interaction is replaced by a polynomial constraint because its output is a low-degree function of its inputs, the new system (including the range checks it adds for the inputs) has exactly the solutions of the original one. An interaction that is not equivalent to such a function, or whose inputs are not restricted enough, is left unchanged, and the degree bound is respected.",
 ["inputs"], "for all lookups within bounds with symbolic coefficients, input ranges and assignments",
 "The hypothesis is validated by the optimizer on sampled inputs; equivalence must hold for every input and for inputs outside of the table.",
 [AP+"low_degree_bus_interaction_optimizer.rs"], [("LowDegreeBusInteractionOptimizer::optimize", AP+"low_degree_bus_interaction_optimizer.rs")],
 "apc", "12 systems with lookups over p=13 and p=29.")

prop("C13", "The whole optimizer preserves the observable behaviour of a block's system",
 "Running the complete optimization pipeline on a block's constraint system yields a system with the same observable behaviour: every solution of the original extends to a solution of the result with the same stateful bus messages (execution state, memory not cancelled inside the block), and every solution of the result comes from a solution of the original with the same messages. Removing constraints that are disconnected from the stateful buses, free variables, trivial or duplicate constraints never changes which messages are possible, provided the removed part is satisfiable. The degree bounds are respected.",
 ["inputs"], "for all systems within bounds, coefficients, degree bounds and assignments",
 "Passes are individually plausible and unsound in combination; only fixed blocks are snapshot-tested.",
 [AP+"optimizer.rs", AP+"constraint_optimizer.rs", "constraint-solver/src/reachability.rs"], [("optimize", AP+"optimizer.rs"), ("optimize_constraints, remove_free_variables, remove_disconnected_columns, remove_trivial_constraints", AP+"constraint_optimizer.rs")],
 "apc", "20 block-like systems and 35 general templates over p=13, exact elimination of removed variables.")

prop("C16", "The OpenVM bus handler describes exactly what the OpenVM buses accept",
 "For every bus of the OpenVM configuration (bitwise lookup, variable range checker, tuple range checker, memory, execution bridge, program counter lookup) the handler's range deductions never exclude a message the bus accepts and report a violation only if no accepted message fits. Treating an interaction as pure range constraints, or implementing range constraints by interactions, is exact. Memory interactions are decoded into the right operation, address space, pointer, data and timestamp, and only stateful buses are reported as stateful.",
 ["inputs"], "for all payload ranges, multiplicities, payload expressions within bounds, tuple checker sizes and messages",
 "Tests check some byte examples; the deduction must hold for every mix of known, partially known and out-of-range fields.",
 ["openvm-bus-interaction-handler/src/lib.rs", "openvm-bus-interaction-handler/src/bitwise_lookup.rs", "openvm-bus-interaction-handler/src/memory.rs", "openvm-bus-interaction-handler/src/memory_bus_interaction.rs", "openvm-bus-interaction-handler/src/tuple_range_checker.rs", "openvm-bus-interaction-handler/src/variable_range_checker.rs"],
 [("handle_bus_interaction per bus", "openvm-bus-interaction-handler/src/lib.rs"), ("pure_range_constraints, batch_make_range_constraints", "openvm-bus-interaction-handler/src/lib.rs")],
 "ovm", "All six buses over the BabyBear prime with symbolic ranges and messages; counterexamples are replayed with the real BabyBearField.")

prop("C14", "Converting and assembling machines keeps their meaning",
 "Converting an expression between the tree form and the grouped form, normalising it as a constraint, converting a machine to a constraint system and back, or mapping its numbers into another field keeps the value under every assignment (for constraints: the set of solutions) and never raises the degree. Giving an instruction's columns block-wide ids shifts every reference by the same offset, and evaluating an expression on a trace row, through a column mapping or on a witness gives the value of the expression. Boolean constraints mean 'zero or one', and the printed form of an expression reads back as the same expression.",
 ["inputs"], "for all expressions and machines within bounds, all coefficients, offsets and assignments",
 "Folding, sign handling and parenthesisation depend on operand values and nesting that tests only sample.",
 [AP+"expression_conversion.rs", AP+"expression.rs", AP+"symbolic_machine.rs", AP+"powdr.rs", AP+"symbolic_machine_generator.rs", "expression/src/display.rs"],
 [("algebraic_to_grouped_expression, grouped_expression_to_algebraic", AP+"expression_conversion.rs"), ("symbolic_machine_to_constraint_system and back", AP+"symbolic_machine.rs"), ("globalize_references", AP+"powdr.rs"), ("evaluators", AP+"expression.rs"), ("Display", "expression/src/display.rs")],
 "conv", "All expression trees of depth 2 over two columns and arbitrary constants, shapes of degree up to 3, machines with two constraints, two interactions and derived columns.")

prop("C15", "The indexed constraint system always reflects the edits made to it",
 "After any sequence of substitutions, additions and removals the indexed system equals the plain system with the same edits, its index finds exactly the constraints that mention a variable, and the queue hands out every constraint affected by an edit or a range update before it becomes empty. Reachability returns exactly the variables connected to the start, and splitting a system yields variable-disjoint parts that together mean the original system.",
 ["inputs", "histories"], "for all edit sequences within bounds, all coefficients (including those that make a variable vanish) and all assignments",
 "A stale index or a missed queue entry shows only for particular edit orders and cancelling coefficients.",
 [CS+"indexed_constraint_system.rs", CS+"reachability.rs", CS+"system_splitter.rs"],
 [("substitute_by_known/unknown, retain, add, index", CS+"indexed_constraint_system.rs"), ("IndexedConstraintSystemWithQueue", CS+"indexed_constraint_system.rs"), ("reachable_variables", CS+"reachability.rs"), ("split_system", CS+"system_splitter.rs")],
 "conv", "Sequences of 2 to 4 edits on three start systems over p=7; five-variable graphs for reachability and splitting.")

prop("C17", "A built precompile behaves like its block of instructions",
 "The circuit built for a block (or superblock) of instructions admits exactly the observable behaviour of executing the block's instruction circuits one after another: with the validity column set, every accepted row corresponds to accepted instruction rows with the same net messages on the stateful buses, and every execution of the block (that satisfies the empirical facts it was specialised to) can be proven. A row of zeros is accepted and sends no message, the validity column is boolean, no message is sent without it, and the degree bound holds. The substitutions place every instruction column that the circuit uses, and no other, at its own column, dummy rows are taken from the right instruction's row of the right air, and the literals given for optimistic facts name the value of the column they stand for.",
 ["inputs"], "for all sequences of instructions of a small instruction set (within bounds), with all registers, immediates, circuit constants and column values symbolic",
 "The precompile replaces the original circuits in the proof: an additional behaviour is a soundness hole of the whole VM, a missing one makes valid programs unprovable; snapshot tests fix a handful of blocks.",
 [AP+"lib.rs", AP+"symbolic_machine_generator.rs", AP+"symbolic_machine.rs", AP+"optimizer.rs", AP+"trace_handler.rs", AP+"powdr.rs", AP+"optimistic/execution_literals.rs", AP+"optimistic/execution_constraint_generator.rs", AP+"empirical_constraints.rs", AP+"blocks/mod.rs"],
 [("build", AP+"lib.rs"), ("statements_to_symbolic_machines, convert_machine_field_type", AP+"symbolic_machine_generator.rs"), ("generate_trace", AP+"trace_handler.rs"), ("optimistic_literals", AP+"optimistic/execution_literals.rs"), ("ConstraintGenerator", AP+"empirical_constraints.rs")],
 "bld", "Toy instruction set of seven instructions (add immediate, branch, skip-if-zero, two-limb arithmetic with carry, ...) over memory, execution bridge, pc lookup, range and xor buses; blocks of one or two (thorough: three) instructions, superblocks of up to three; p = 13.")

prop("C18", "Optimistic constraints are judged by the states they name",
 "The evaluator accepts an execution exactly if every optimistic constraint holds for the register and program counter values at the steps it refers to. A violated constraint is reported no later than the step at which its last value is known, a constraint that can still hold is never reported, and a finished evaluation accepts only if all constraints were checked.",
 ["inputs", "histories"], "for all constraint sets within bounds, literals, and sequences of machine states",
 "Whether a constraint is checked at the right step depends on which steps its two sides name; tests use a few sequences.",
 [AP+"execution/evaluator.rs", AP+"execution/ast.rs"], [("OptimisticConstraintEvaluator::try_next_execution_step", AP+"execution/evaluator.rs"), ("OptimisticConstraints::from_constraints", AP+"execution/evaluator.rs")],
 "exec", "Up to four constraints over up to four states with symbolic register values and program counters.")

prop("C19", "Scheduling of precompile calls never breaks the execution trace",
 "Among the candidate calls that start during execution, those that are kept cover disjoint intervals of the trace, each covers exactly its number of instructions starting where it was inserted, its optimistic constraints hold on the covered states, and a candidate is discarded only because a constraint failed, it did not finish, or a conflicting candidate of higher priority (or an equal one that started earlier) was kept. Calls are reported in the order of execution.",
 ["inputs", "histories", "schedules"], "for all insertion schedules within bounds, precompile lengths, priorities and machine states",
 "The outcome depends on how overlapping candidates end, fail or win relative to each other.",
 [AP+"execution/candidates.rs"], [("ApcCandidates::check_conditions, try_insert, extract_calls", AP+"execution/candidates.rs")],
 "exec", "Two or three candidates of 1-3 instructions, insertions at any of up to 5 steps, symbolic register values in the constraints.")

prop("C20", "Combining execution evidence keeps only facts that hold everywhere",
 "Two elements are equivalent in an intersection of equivalence classes exactly if they are equivalent in every operand; combining classes on disjoint elements keeps both, and mapping elements keeps the relation. Restricting a block's facts to selected cells keeps exactly the facts about those cells, also when done repeatedly. Counting occurrences of a subsequence finds non-overlapping occurrences from the left.",
 ["inputs"], "for all partitions, predicates, column ranges and sequences within bounds",
 "Facts that are kept for the wrong column or the wrong pair become constraints of the precompile, which then cannot be proven for some executions.",
 [AP+"equivalence_classes.rs", AP+"empirical_constraints.rs", AP+"blocks/mod.rs"], [("Partition::intersect, combine, map_elements", AP+"equivalence_classes.rs"), ("BlockEmpiricalConstraints::filtered", AP+"empirical_constraints.rs"), ("find_non_overlapping", AP+"blocks/mod.rs")],
 "exec", "Partitions of up to 4 symbolic elements, superblocks of up to 4 instructions with repeated program counters, haystacks of up to 6 elements.")
