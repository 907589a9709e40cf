#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], state=state or [], hook_needed=hook)))

prop("C01", "Prime-field arithmetic equals integer arithmetic modulo the prime",
 "For each supported field (BabyBear, KoalaBear, Mersenne31, Goldilocks, Bn254), addition, subtraction, negation, multiplication, division by a non-zero element and exponentiation return exactly the canonical residue that integer arithmetic modulo the field's prime gives, whatever mix of value and in-place operators is used. Results are always canonical, so equal field values compare, order, hash and print equally, and the lower-half/signed view of an element agrees with its canonical integer.",
 ["inputs"], "all fields, all operand pairs (uniform, near 0, near p, near 2^32/2^64 carry boundaries) and all operator chains",
 "Unit tests multiply a few hand-picked constants; carry/borrow and reduction corner cases live on sparse operand pairs.",
 ["number/src/goldilocks.rs","number/src/plonky3_macros.rs","number/src/macros.rs","number/src/traits.rs"],
 [("branchy carry handling and 128-bit reduction","goldilocks.rs Add/Sub/reduce128"),("ark / plonky3 wrappers","macros.rs, plonky3_macros.rs")],
 ["FieldElement trait"])

prop("C02", "Field and fixed-width integer conversions and encodings are faithful",
 "Every conversion of a field element to and from machine integers, arbitrary-precision integers, fixed-width integers, little-endian bytes, decimal and radix strings, JSON and CBOR round-trips to the same element, and text or data that denotes a value outside the field is rejected instead of being accepted as some other element or crashing. The bit operations (and, or, xor, not, shifts, bit length, addition, subtraction, narrowing) of the field's fixed-width integer type agree with exact integers of that width.",
 ["inputs"], "all fields, all values including those at or above the modulus, all radices used for text",
 "Tests convert a handful of constants in one field; the encodings are generated by macros and derives for five fields.",
 ["number/src/plonky3_macros.rs","number/src/macros.rs","number/src/goldilocks.rs","number/src/serialize.rs","number/src/traits.rs","number/src/lib.rs"],
 [("from/into impls, serde attributes, LargeInt impls","number/src/*.rs")])

prop("C03", "Column files in CSV format read back exactly what was written",
 "Writing any set of named columns of field elements to the CSV format and reading the result back returns the same column names in the same order with the same values, in every rendering mode that the reader supports and for every column length. Values are never altered, dropped or reordered.",
 ["inputs","configurations"], "all column sets, names, lengths, fields, render modes",
 "One unit test uses one column set.",
 ["number/src/serialize.rs"], [("write_polys_csv_file / read_polys_csv_file","serialize.rs")])

prop("C04", "Range constraints never exclude a value the true operation can produce",
 "Every operation on range constraints (sum, difference, negation, scaling, product, square, intersection, union, conversion to and from bit widths, masks, values) returns a range that contains every value obtainable by applying the field operation to values allowed by the operands. Queries about a range (single value, allowed membership, size bound, disjointness, boundedness) are never contradicted by the set of values it allows.",
 ["inputs"], "all fields, all wrapping intervals and bit masks, all operand combinations",
 "Unit tests check a few hand-made intervals; soundness is about every wrap-around, overflow and mask case.",
 ["constraint-solver/src/range_constraint.rs"], [("wrapping interval plus mask arithmetic","range_constraint.rs")])

prop("C05", "Normalised expressions always denote the same polynomial function",
 "Building, adding, subtracting, multiplying, scaling, substituting into, factoring, splitting, normalising and converting an algebraic expression between its representations never changes the field value it denotes for any assignment of its variables. The reported degree is never smaller than needed to bound each variable's contribution, variables reported as absent do not influence the value, and the range reported for an expression contains its value whenever the variables lie in their ranges.",
 ["inputs"], "all expression trees, substitution sequences, assignments and variable ranges",
 "Tests compare rendered strings of a few expressions.",
 ["constraint-solver/src/grouped_expression.rs","constraint-solver/src/symbolic_expression.rs","constraint-solver/src/runtime_constant.rs","autoprecompiles/src/expression_conversion.rs","autoprecompiles/src/expression.rs","expression/src/lib.rs"],
 [("linear/quadratic/constant normal form with cancellation","grouped_expression.rs"),("conversion","expression_conversion.rs, try_to_expression")])

prop("C06", "Solving a single constraint yields only consequences of that constraint",
 "When a single algebraic constraint or bus interaction is analysed under given variable ranges, every reported consequence (a variable's value, a tightened range, an assertion) holds in every assignment that satisfies the constraint within those ranges. A constraint is reported as contradictory only if no such assignment exists, and solving a constraint for a variable or sub-expression yields an expression equal to it in every satisfying assignment.",
 ["inputs"], "all constraints, variable ranges and satisfying assignments",
 "Tests check the derived result for a few sample constraints; they never enumerate the solution set.",
 ["constraint-solver/src/algebraic_constraint/solve.rs","constraint-solver/src/algebraic_constraint/mod.rs","constraint-solver/src/constraint_system.rs","constraint-solver/src/effect.rs","constraint-solver/src/bus_interaction_handler.rs"],
 [("affine/quadratic solving, bit decomposition, try_solve_for","algebraic_constraint/solve.rs"),("bus interaction solving","constraint_system.rs")])

prop("C07", "The constraint-system solver never loses a satisfying assignment",
 "For every constraint system, each variable assignment and each range the solver reports is true in every satisfying assignment of that system, and the solver reports a contradiction only when the system has no satisfying assignment. This remains true over any history of adding constraints, bus interactions and range facts, solving again, and dropping variables.",
 ["inputs","histories"], "all systems (algebraic and lookup constraints), all interleavings of incremental additions and solve calls",
 "Tests run the solver on a few dozen hand-written systems and compare expected assignments.",
 ["constraint-solver/src/solver/base.rs","constraint-solver/src/solver/exhaustive_search.rs","constraint-solver/src/solver/boolean_extractor.rs","constraint-solver/src/solver/linearizer.rs","constraint-solver/src/solver/constraint_splitter.rs","constraint-solver/src/solver/var_transformation.rs","constraint-solver/src/indexed_constraint_system.rs"],
 [("queue-driven constraint propagation, exhaustive search, linearisation, boolean extraction","solver/*.rs")])

prop("C08", "Solver answers about expressions are never wrong",
 "Whenever the solver claims that two expressions can never be equal, that an expression is equivalent to a constant, or that an expression lies in some range, the claim is true in every satisfying assignment of the constraints it was given. This holds for answers given at any point of an incremental history.",
 ["inputs","histories"], "all systems, all query expressions, all points in a history",
 "The memory optimizer relies on these answers for arbitrary address expressions; tests ask a few.",
 ["constraint-solver/src/solver/base.rs","constraint-solver/src/solver.rs","constraint-solver/src/solver/var_transformation.rs"],
 [("are_expressions_known_to_be_different, try_to_equivalent_constant, range_constraint_for_expression","solver/base.rs")])

prop("C09", "Variable inlining preserves solutions and respects the degree bound",
 "Replacing variables by expressions derived from constraints yields a system whose satisfying assignments are exactly the restrictions of the original ones, and every removed variable's value is still determined by the remaining ones through the original system. Inlining never pushes any constraint or interaction above the configured degree bounds when the input respected them.",
 ["inputs","configurations"], "all systems, all degree bounds, all inlining policies",
 "Tests inline in a few fixed systems and compare text.",
 ["constraint-solver/src/inliner.rs","constraint-solver/src/indexed_constraint_system.rs","constraint-solver/src/reachability.rs","constraint-solver/src/system_splitter.rs"],
 [("replace_constrained_witness_columns with degree accounting","inliner.rs"),("substitution with occurrence index","indexed_constraint_system.rs")])

prop("C10", "Rule-based rewriting preserves the solution set",
 "Rule-based optimisation turns any constraint system into one with the same satisfying assignments on the variables both share: every original solution extends to a solution of the result, where each introduced variable takes the value its published derivation computes, and every solution of the result (within the variable ranges handed in) extends to an original solution with the same values and interactions; helper variables of a recognised zero check that occur nowhere else may be dropped. The optional degree bound is never exceeded by a rewritten constraint that did not exceed it before.",
 ["inputs","configurations"], "all systems, ranges and degree bounds",
 "Tests pin a few systems' textual result.",
 ["constraint-solver/src/rule_based_optimizer/driver.rs","constraint-solver/src/rule_based_optimizer/rules.rs","constraint-solver/src/rule_based_optimizer/environment.rs"],
 [("Datalog-style rules with replace actions","rule_based_optimizer/rules.rs"),("driver applies at most consistent replacements","driver.rs")])

prop("C11", "Each circuit simplification pass preserves meaning",
 "Each individual optimisation pass over a circuit (solver-based simplification, removal of free, disconnected or trivial parts, zero-check compression, exhaustive-search simplification, low-degree lookup replacement, range-check batching) keeps the set of reachable stateful bus effects the same: every satisfying assignment before maps to one after with equal stateful bus interactions, and the reverse. No pass makes a satisfiable circuit unsatisfiable or admits an effect that was impossible before.",
 ["inputs"], "all circuits over algebraic constraints, lookups and stateful buses; all satisfying assignments",
 "Pass tests compare printed constraints on a few circuits; none enumerates solutions.",
 ["autoprecompiles/src/constraint_optimizer.rs","autoprecompiles/src/low_degree_bus_interaction_optimizer.rs","autoprecompiles/src/range_constraint_optimizer.rs"],
 [("optimize_constraints pipeline","constraint_optimizer.rs"),("LowDegreeBusInteractionOptimizer","low_degree_bus_interaction_optimizer.rs"),("optimize_range_constraints","range_constraint_optimizer.rs")])

prop("C12", "The optimizer is complete: honest witnesses carry over to the optimized circuit",
 "For every satisfiable circuit and every satisfying witness that behaves consistently on the memory and execution buses, the witness obtained by keeping the values of the surviving columns and computing the derived columns by their published methods satisfies every constraint and lookup of the optimized circuit and produces the same net stateful bus effects.",
 ["inputs","programs"], "all circuits (including memory, execution and lookup buses), all honest witnesses",
 "Snapshot tests compare the printed circuit or its size only; no witness is ever evaluated.",
 ["autoprecompiles/src/optimizer.rs","autoprecompiles/src/constraint_optimizer.rs","autoprecompiles/src/memory_optimizer.rs","autoprecompiles/src/symbolic_machine.rs"],
 [("optimize pipeline","optimizer.rs"),("derived columns","symbolic_machine.rs ComputationMethod")])

prop("C13", "The optimizer is sound: it admits no behaviour the original circuit forbids",
 "For every satisfiable circuit, every witness that satisfies the optimized circuit corresponds to some witness of the original circuit with the same net effect on the stateful buses (memory and execution). In particular no lookup, range check, or memory/execution link may be dropped if that makes a previously impossible effect possible.",
 ["inputs","programs"], "all circuits and all satisfying witnesses of the optimized circuit",
 "Unit tests only compare output with a recorded snapshot; a dropped constraint elsewhere is invisible.",
 ["autoprecompiles/src/optimizer.rs","autoprecompiles/src/constraint_optimizer.rs","autoprecompiles/src/memory_optimizer.rs","autoprecompiles/src/low_degree_bus_interaction_optimizer.rs","autoprecompiles/src/range_constraint_optimizer.rs","constraint-solver/src/inliner.rs","constraint-solver/src/rule_based_optimizer/rules.rs"],
 [("optimize pipeline","optimizer.rs")])

prop("C14", "Optimized circuits respect the degree bounds and the optimizer is reproducible",
 "If a circuit's constraints and bus interactions are within the configured degree bounds, so are those of the optimized circuit. Optimizing the same circuit again, in the same or another process, gives the identical circuit and column assignment.",
 ["inputs","configurations","histories"], "all circuits and degree bounds; repeated runs with different hash seeds",
 "Tests use one degree bound and one run each.",
 ["autoprecompiles/src/optimizer.rs","constraint-solver/src/inliner.rs","constraint-solver/src/rule_based_optimizer/driver.rs"],
 [("degree check in inliner and rewriting","inliner.rs, driver.rs"),("ordered containers","optimizer.rs")])

prop("C15", "Memory-access merging preserves the block's net memory effect",
 "Removing matched memory accesses inside a block keeps, for every execution in which memory behaves consistently, exactly the same net set of memory reads-from and writes-to the outside, and forces the value read to equal the value last written at that address. Accesses to addresses that may alias are never merged across a possibly conflicting access.",
 ["inputs","programs"], "all sequences of memory accesses with symbolic addresses, values and timestamps",
 "Tests cover a few fixed access sequences.",
 ["autoprecompiles/src/memory_optimizer.rs","openvm-bus-interaction-handler/src/memory_bus_interaction.rs"],
 [("redundant_memory_interactions_indices with known-different address checks","memory_optimizer.rs")])

prop("C16", "Bus models never exclude a payload that the real lookup table admits",
 "For the OpenVM byte/xor lookup, variable range checker, tuple range checker, and memory buses, the ranges inferred for an interaction contain every payload that the actual table or memory admits within the given input ranges, an interaction is declared impossible only if no such payload exists, and only the memory and execution buses count as stateful.",
 ["inputs","configurations"], "all input ranges for every payload field, all bus kinds and table sizes",
 "Tests cover a few inputs per bus.",
 ["openvm-bus-interaction-handler/src/lib.rs","openvm-bus-interaction-handler/src/bitwise_lookup.rs","openvm-bus-interaction-handler/src/variable_range_checker.rs","openvm-bus-interaction-handler/src/tuple_range_checker.rs","openvm-bus-interaction-handler/src/memory.rs"],
 [("handle_bus_interaction per bus","openvm-bus-interaction-handler/src/*.rs")])

prop("C17", "Range-check extraction and batching enforce exactly the requested ranges",
 "When a lookup is recognised as pure range checks, the recognised ranges admit exactly the values the lookup admits; and when a set of range checks is turned back into lookups, the conjunction of those lookups admits exactly the values satisfying all requested ranges, or the request is refused. The round trip never loosens or tightens a check.",
 ["inputs","configurations"], "all range sets, lookups and expressions",
 "Tests cover a few batches.",
 ["openvm-bus-interaction-handler/src/lib.rs","openvm-bus-interaction-handler/src/bitwise_lookup.rs","openvm-bus-interaction-handler/src/tuple_range_checker.rs","openvm-bus-interaction-handler/src/variable_range_checker.rs","autoprecompiles/src/range_constraint_optimizer.rs"],
 [("pure_range_constraints / batch_make_range_constraints","openvm-bus-interaction-handler/src/lib.rs"),("optimize_range_constraints","range_constraint_optimizer.rs")])

prop("C18", "A built precompile accepts padding rows and behaves as its block on real rows",
 "For every block that is compiled, the resulting circuit accepts the all-zero row with the validity flag off; no accepted row with the flag off sends anything on any bus; the flag is boolean; and with the flag on its constraints and bus effects are those of the optimized block. Guarding never raises the degree above the bound and never drops a constraint.",
 ["programs","inputs"], "all instruction blocks of all instruction sets, all rows",
 "Snapshot tests show the guarded text only.",
 ["autoprecompiles/src/lib.rs","autoprecompiles/src/symbolic_machine_generator.rs","autoprecompiles/src/symbolic_machine.rs"],
 [("add_guards, is_valid column","lib.rs"),("statements_to_symbolic_machine","symbolic_machine_generator.rs")])

prop("C19", "Precompile trace rows are exactly the data of the original instruction rows",
 "For every block, every set of original execution rows and every call, the recorded column substitutions locate each surviving original column's value in the right instruction's row, each derived column is computed by its method from them, and the resulting row satisfies the compiled circuit with the same net bus effects as the original rows. Instructions with no surviving column consume no row data of other instructions.",
 ["programs","inputs","histories"], "all blocks with repeated instruction kinds, all witness rows, all numbers of calls",
 "Trace generation is only exercised end-to-end in builds that need network dependencies.",
 ["autoprecompiles/src/trace_handler.rs","autoprecompiles/src/lib.rs","autoprecompiles/src/expression.rs"],
 [("Apc subs and generate_trace","lib.rs, trace_handler.rs")])

prop("C20", "Basic-block discovery partitions the program at every control transfer",
 "The discovered basic blocks cover every instruction exactly once in program order, every jump target begins a block, a branching instruction only ever ends a block, an instruction that must not be precompiled stands alone, and blocks are not split anywhere else. Addresses reported for a block's instructions are the program's addresses.",
 ["programs"], "all programs, jump-destination sets and instruction classifications",
 "A few fixed programs are tested.",
 ["autoprecompiles/src/blocks/detection.rs","autoprecompiles/src/blocks/mod.rs"],
 [("collect_basic_blocks","blocks/detection.rs")])

prop("C21", "Superblock discovery reports exactly the executed sequences and their counts",
 "From an execution trace, the discovered superblocks are exactly those sequences of consecutively executed basic blocks, within the configured length and size limits and the execution-count cut-off, that occurred, each reported with its true number of non-overlapping occurrences. No discovered superblock spans a point where the execution left compilable code.",
 ["histories","programs","configurations"], "all programs, execution traces and limits",
 "A few short traces are tested.",
 ["autoprecompiles/src/blocks/mod.rs"],
 [("detect_superblocks, count_non_overlapping","blocks/mod.rs")])

prop("C22", "Profile-guided selection keeps its budget and ranks by measured benefit",
 "Selection never returns more precompiles than requested, never selects the same block twice, never exceeds the column budget, skips the requested number of best candidates, and otherwise picks candidates in order of benefit measured on the execution profile (cost-weighted, instruction-weighted or static, according to the mode), counting for each pick only executions not already covered by earlier picks. The result does not depend on hash order or on parallel evaluation.",
 ["programs","histories","configurations"], "all profiles, candidate costs and limits",
 "Integration tests that exercise this need network dependencies; few unit cases exist.",
 ["autoprecompiles/src/pgo/cell/mod.rs","autoprecompiles/src/pgo/cell/selection.rs","autoprecompiles/src/pgo/instruction.rs","autoprecompiles/src/pgo/none.rs","autoprecompiles/src/execution_profile.rs"],
 [("greedy density selection","pgo/cell/selection.rs"),("instruction / none modes","pgo/*.rs")])

prop("C23", "Run-time precompile calls never overlap and always cover whole executed blocks",
 "Over any execution history, the extracted precompile calls are pairwise disjoint in execution steps, each call corresponds to an uninterrupted execution of exactly its block whose conditions all held, and among conflicting candidates the preferred one (by priority, then length, then start) is kept. Aborting execution discards only unfinished candidates.",
 ["histories","schedules"], "all execution histories, candidate sets, priorities, aborts and snapshots",
 "Tests cover short hand-written schedules.",
 ["autoprecompiles/src/execution/candidates.rs"],
 [("ApcCandidates state machine","execution/candidates.rs")])

prop("C24", "Optimistic conditions accept an execution exactly when all of them hold",
 "For every set of run-time conditions over registers and program counters at given steps of a block and every execution history, the step-by-step evaluator accepts the run exactly if every condition evaluates to true on the full history, and it rejects at the first step at which a false condition can be decided.",
 ["histories","inputs"], "all condition sets and execution histories",
 "Tests use one or two conditions and short runs.",
 ["autoprecompiles/src/execution/evaluator.rs","autoprecompiles/src/execution/ast.rs","autoprecompiles/src/optimistic/execution_literals.rs"],
 [("OptimisticConstraintEvaluator","execution/evaluator.rs")])

prop("C25", "Merging empirical observations keeps only facts true of every run",
 "Combining observations from several runs yields the tightest column ranges that contain every observed value, equivalences that held in all runs (and every such equivalence), and execution counts that add up, independent of the order or grouping of merges and of parallelism. Restricting observations to a block attributes each fact to the right instruction.",
 ["histories","schedules"], "all collections of runs, partitions, merge orders and block positions",
 "A few small partitions are tested.",
 ["autoprecompiles/src/equivalence_classes.rs","autoprecompiles/src/empirical_constraints.rs"],
 [("Partition intersect","equivalence_classes.rs"),("combine_with / for_block","empirical_constraints.rs")])

prop("C26", "Circuit artifacts survive serialisation, field conversion and export",
 "Serialising a circuit, expression, precompile or profile artifact and reading it back yields an equal object (column names and ids included), printing an expression and evaluating the printed text by ordinary precedence rules gives the same value, and converting a circuit between field types with the same prime preserves its meaning.",
 ["inputs"], "all expressions, circuits and column names",
 "Tests round-trip few objects.",
 ["autoprecompiles/src/expression.rs","autoprecompiles/src/symbolic_machine.rs","autoprecompiles/src/export.rs","expression/src/display.rs","expression/src/lib.rs","autoprecompiles/src/powdr.rs"],
 [("serde impls, Display with minimal parentheses","expression/src/display.rs, expression.rs")])

prop("C27", "ELF loading lifts machine code without changing its meaning",
 "For every supported 32-bit RISC-V executable, the lifted program performs, instruction by instruction, the same register, memory and control-flow effects as the machine code it was loaded from (including compressed forms, fused address computations and system calls), every statically known jump target carries a label, and the initial data memory equals the file's contents with its relocations applied.",
 ["programs","inputs"], "all instruction encodings and pairs, all data contents and relocations",
 "No test of the loader is part of the stable suite.",
 ["riscv-elf/src/lib.rs"],
 [("instruction lifting, text/data separation, relocation handling","riscv-elf/src/lib.rs")])

prop("C28", "Jump-destination analysis of 64-bit binaries misses no static target",
 "For every 64-bit RISC-V executable, the set of jump destinations contains the entry point, every symbol in executable segments, and the target of every direct jump, branch and address-computed call in the executable code, and labels it attributes to an address are the binary's symbols for it.",
 ["programs"], "all 64-bit code sequences and symbol tables",
 "No test of this analysis is part of the stable suite.",
 ["riscv-elf/src/rv64.rs"],
 [("compute_jumpdests_from_buffer","riscv-elf/src/rv64.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
