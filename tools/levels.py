# property -> (technique, level note)
NOTES.update({
"C01": ("property-based testing of field operations against big-integer reference arithmetic", "Randomised and boundary-biased operands for every field; not exhaustive over the fields. Trusts num-bigint."),
"C02": ("property-based round-trip and reference testing of conversions and encodings", "Random and boundary values of every width; trusts num-bigint and serde."),
"C03": ("property-based round-trip testing of CSV columns", "Random column sets and render modes, plus malformed inputs; in-memory readers and writers only."),
"C04": ("property-based testing of range constraints against exhaustive value sets in small fields", "All values are enumerated for small prime fields (through the generic code); real fields use sampled values."),
"C05": ("property-based testing of expressions against an independent evaluator", "Random expression trees evaluated at random points; small and real fields."),
"C06": ("property-based testing of single-constraint solving against enumerated solutions", "Every solution of each generated constraint is enumerated in a small prime field."),
"C07": ("property-based, stateful testing of the solver against enumerated solutions", "Small systems over small prime fields with all solutions enumerated; real fields track one hidden witness."),
"C08": ("stateful property-based testing of solver queries against enumerated solutions", "Random histories of additions, solves, removals and queries; small prime fields."),
"C09": ("property-based testing of inlining, indexing and splitting against enumerated solutions", "Small systems over small prime fields with all solutions enumerated."),
"C10": ("property-based testing of the rewriting rules against enumerated solutions", "Random systems and systems built from the rule patterns (with mutations); soundness is relative to the range constraints handed in; real fields track one witness."),
})
NOTES.update({
"C11": ("property-based testing of the simplification passes against enumerated solutions", "Each public pass and the whole pass pipeline on random and structured systems over small prime fields, solutions enumerated within a search budget; private passes only through the pipeline."),
"C12": ("property-based testing of the optimizer with enumerated honest executions of generated circuits", "Generated instruction circuits (memory, execution, lookups) over small prime fields; all honest executions enumerated within a search budget."),
"C13": ("property-based testing of the optimizer: all solutions of the result are searched for an original counterpart", "Generated instruction circuits over small prime fields; solutions of the result enumerated within a search budget, about a third of the cases are inconclusive."),
"C14": ("property-based testing of degrees and metamorphic re-run comparison", "Random circuits and degree bounds; three runs in one process (differently seeded hash tables)."),
"C15": ("property-based testing of memory merging against enumerated executions", "Random access sequences with constant and symbolic addresses over small prime fields; solutions enumerated within a search budget."),
})
NOTES.update({
"C16": ("property-based testing of the bus models against reference tables", "Random payloads of constants, ranges and masks for every OpenVM bus; concrete interactions are drawn from the claimed input ranges and compared with an independent model of each table."),
"C17": ("property-based testing of range-check extraction and batching against reference tables", "Random sets of range checks; every value in small windows and sampled values elsewhere must be admitted by both sides."),
})
NOTES.update({
"C20": ("property-based testing of block discovery against a reference partition", "Random programs, jump targets and instruction classes for two address steps."),
"C21": ("property-based testing of superblock detection against brute-force counting", "Random programs, walks and limits; counts by dynamic programming over every run."),
"C22": ("property-based testing of selection with a stepwise reference and repeated runs", "Random profiles, costs and limits; circuits of the candidates are trivial so that only the selection varies. Ties may be broken in any fixed way."),
"C23": ("stateful model-based testing of candidate tracking over random execution histories", "Random histories of steps, insertions, aborts and extractions against a reference model of finished runs."),
"C24": ("model-based testing of the step-wise evaluator against evaluation on the full history", "Random condition sets and histories; literals are compared with executed rows of generated instruction sets."),
"C25": ("property-based testing of merges against facts computed from all runs", "Random runs, merge orders and groupings, up to 200 partitions in one parallel reduction; restriction to random superblocks."),
})
NOTES.update({
"C18": ("property-based testing of built precompiles: enumerated and perturbed rows against the block", "Generated instruction sets and (super)blocks; small prime fields with rows enumerated within a search budget, BabyBear with the OpenVM bus model on executed and perturbed rows."),
"C19": ("property-based testing of trace rows built from executed original rows", "Generated instruction sets, blocks with repeated instructions, 1-5 calls; the row is assembled as the trace generators do and evaluated with the repository's evaluators."),
})
NOTES.update({
"C26": ("property-based round-trip testing of artifacts, printed expressions and exports", "Random circuits, profiles and precompiles through JSON and CBOR, nested and flattened; printed expressions re-parsed by an independent precedence parser; nesting limited to the JSON reader's recursion limit."),
"C27": ("differential testing of lifted programs against a reference interpreter of the machine code", "Random RV32IMAC programs and ELF layouts from an independent assembler; both programs executed step by step; inputs that the loader rejects loudly are not part of the claim."),
"C28": ("property-based testing of jump destinations against the generator's list of targets", "Random RV64 executables from an independent assembler with symbols, several segments and address pairs; not real toolchain output."),
})
