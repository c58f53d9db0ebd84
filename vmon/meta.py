"""Budgets, minimum observations (below which a run is inconclusive) and descriptions of the checks. Plain data."""
CHECKS = {}


def chk(prop, technique, note, rule, required, quick=(64, 4), thorough=(1600, 4), soft=None, assumptions=(), devices=1):
    CHECKS[prop] = dict(technique=technique, note=note, rule=rule, required=required, assumptions=list(assumptions), devices=devices,
                        quick=dict(blocks=quick[0], episodes=quick[1], soft=(soft or (300, 600))[0]),
                        thorough=dict(blocks=thorough[0], episodes=thorough[1], soft=(soft or (300, 600))[1]))


T = "runtime monitoring: "
PROGRAM_RULE = ("an episode is one random ACT program (random configuration, halting pattern, updates, resets) run in one "
                "mode (eager, jit, scan, while_loop, execute_act, vmap) with the probe attached; ")
chk('C01', T + "online monitor of every iterate_act event against a float64 reference law",
    "Judges each observed iteration of seeded programs in six execution modes; exact comparison where the arithmetic is exact "
    "(dyadic programs), otherwise 4 ulp. Nothing is said about histories not generated.",
    PROGRAM_RULE + "distinct counts different (dtype, rounded probabilities before, after) batch states judged",
    dict(iterate_events=300, elements_judged=500, halting_transitions=40, exact_decisions=50), quick=(64, 5))
chk('C02', T + "online conservation monitor of every accumulator leaf, plus offline replay of whole histories",
    "Judges each leaf of each observed iteration and the totals of whole histories.",
    PROGRAM_RULE + "distinct counts different (accumulator, leaf shape, dtypes, batch probabilities) judged",
    dict(iterate_events=200, leaf_elements_judged=2000, histories_replayed=20), quick=(64, 4))
chk('C03', T + "online bitwise freeze monitor under hostile updates",
    "Judges every observed iteration that begins with halted elements, bit for bit.",
    PROGRAM_RULE + "distinct counts different (halted pattern, dtype, halting probabilities) judged",
    dict(events_with_halted_elements=150, halted_elements_judged=300, hostile_updates_seen=30), quick=(64, 4))
chk('C04', T + "online bookkeeping monitor of residuals and iteration counters",
    "Judges every observed iteration.",
    PROGRAM_RULE + "distinct counts different (dtype, probabilities, newly halted pattern, counters) judged",
    dict(iterate_events=300, newly_halted_elements=60, live_elements=200), quick=(64, 5))

chk('C05', T + "online monitor of reported status in every state, bounded-progress monitor",
    "Judges the flags of controller and viewer in every observed state; liveness is decided as halting within the computed bound.",
    PROGRAM_RULE + "or one run with halting probabilities bounded from below until everything halts; distinct counts different "
    "(dtype, epsilon, halted pattern, pending pattern) states and progress settings",
    dict(iterate_events=150, status_reports_judged=500, progress_runs=15), quick=(63, 4))
chk('C06', T + "protocol state machine over random valid and invalid call sequences",
    "Compares each call with a small protocol model (pending set); refusals must leave the controller bit-identical.",
    "an episode is a random sequence of 30 (60) valid and invalid calls on one configuration, or the traced refusals; "
    "distinct counts different (pending set, operation, batch)",
    dict(valid_commits=60, valid_caches=250, refusals=250), quick=(64, 3))
chk('C07', T + "online reset monitor, and comparison of reset elements with a fresh controller",
    "Judges every observed reset bit for bit.",
    PROGRAM_RULE + "with frequent resets; distinct counts different (halted pattern, accumulators, probabilities)",
    dict(reset_events=200, elements_reset=150, elements_kept=150, mixed_resets=50, fresh_comparisons=15), quick=(64, 4))

chk('C08', T + "offline relational monitor over pairs of recorded executions",
    "Compares the final states of two runs related by perturbing, permuting, slicing or reshaping the batch, or by changing, "
    "adding, renaming or splitting other accumulators.",
    "an episode is a pair of related runs of one random program; distinct counts different (relation, mode, batch, dtype, program)",
    dict(pairs_compared=48, elements_compared=3000), quick=(64, 3))

chk('C09', T + "offline comparison of recorded executions of one program in different compilation modes",
    "Eager execution is the reference for every other mode; programs that come closer to the halting threshold than rounding "
    "are not compared unless their arithmetic is exact.",
    "an episode is one random program run eagerly and in another mode, or seven random public operations eager and jitted; "
    "distinct counts different programs and (operation, configuration) pairs",
    dict(programs_compared=39, operations_compared=84), quick=(96, 3), devices=2)
chk('C10', T + "persistence auditor: digests of every live object re-taken after every operation",
    "Every object created in a history is digested (all fields, bit for bit) and re-audited after each later operation.",
    "an episode is a branching history of random operations over a pool of up to 40 objects; distinct counts different operations",
    dict(operations=900, objects_audited=14000, assignments_refused=70, repetitions=40), quick=(88, 2), thorough=(800, 2))

chk('C11', T + "model-based monitor of builder call sequences",
    "Compares every built controller of a random sequence with a name-to-definition model, bit for bit.",
    "an episode is a random sequence of define, redefine and delete calls; distinct counts different (batch, dtype, call, name, structure)",
    dict(builds_judged=300, direct_definitions=80, definitions_by_shape=80, redefinitions=20, deletions=15), quick=(64, 5))
chk('C12', T + "fault injection: one defect planted at a random position of a random definition, refusal monitored",
    "Each injected defect must be refused with the documented exception and leave the builder bit-identical.",
    "an episode is 24 (40) defective definitions; distinct counts different (kind, position, defect)",
    dict(refusals=1000, accepted_after_refusals=40), quick=(64, 3))

chk('C13', T + "model-based monitor of chains of editor operations",
    "Compares every field after each edit of a random chain with a model, bit for bit.",
    "an episode is a chain of up to eight valid edits on a controller in mid-process; distinct counts different (edit, mode, "
    "configuration, position)",
    dict(edits=212, states_judged=458, traced_chains=1), quick=(64, 3))
chk('C14', T + "fault injection into edits, verdict monitored eagerly and under jit with checkify",
    "Each injected defect must be refused and each valid edit (including boundary values) accepted.",
    "an episode is 14 (28) random valid or defective edits, in both error modes, and two of them jitted; distinct counts "
    "different (edit, defect, configuration)",
    dict(valid_accepted=164, invalid_refused=283, silent_edits=415, jitted_verdicts=28), quick=(64, 2))
chk('C15', T + "online monitor of every masked viewer",
    "Judges every tensor of every masked viewer element by element against the mask, bit for bit where it is true.",
    "an episode masks one random mid-process state (with special values and pending updates) in several ways and offers "
    "ill-formed masks; distinct counts different (mask, halted pattern, configuration, pending set)",
    dict(masks=96, selections=95, proper_selections=14, tensors_judged=5000, masks_refused=192, jitted=11), quick=(64, 3))
chk('C16', T + "offline comparison of the transformed viewer with the function applied leaf by leaf; fault injection into the function",
    "Judges every tensor of every transformed viewer; a function failing on one tensor anywhere must give RuntimeError.",
    "an episode is four random transformations and three functions failing on one random tensor of a random mid-process state; "
    "distinct counts different (function, configuration, pending set) and (failing tensor, exception)",
    dict(transforms=190, tensors_judged=3000, failures=144), quick=(64, 3))
chk('C17', T + "instrumented layers: iterations counted by callbacks, results compared with the documented Python loop",
    "Compares controller, state, the number of executed iterations and the calls made with the documented loop.",
    "an episode is one random layer, bound and argument list executed eagerly or jitted; distinct counts different "
    "(variant, checking, bound, iterations, batch, dtype, pattern)",
    dict(executions=42, iterations_observed=300, stopped_by_bound=13, stopped_by_halting=14, no_iterations=8), quick=(64, 3))
chk('C18', T + "fault injection into layers, refusals monitored",
    "Each planted contract violation must be refused with the documented exception; contract-keeping variants must pass.",
    "an episode plants 15 violations in a random layer, run through the wrapper and execute_act, and five valid variants; "
    "distinct counts different (violation or variant, number of accumulators, batch)",
    dict(make_refused=192, run_refused=288, executions_refused=60, passed_through=400, late_violations_refused=60, valid_accepted=150, valid_executed=30), quick=(64, 2))
chk('C19', T + "round-trip auditor at random points of processes; interrupted runs compared with the uninterrupted ones",
    "Judges every field bit for bit after each round trip; resumed runs must end bit-identical.",
    "an episode interrupts one random process between any two operations, sends three kinds of objects through four round trips "
    "each, and resumes it from stored leaves; distinct counts different (object, trip, configuration, pending set)",
    dict(round_trips=576, marked=144, resumed=48, resumed_with_pending_updates=15), quick=(64, 3))
chk('C20', T + "online stability monitor of shapes, dtypes, structure and configuration",
    "Judges every observed operation and each process from end to end.",
    PROGRAM_RULE + "distinct counts different (operation, dtypes, structures)",
    dict(iterate_events=300, reset_events=60, cache_events=300, processes_judged=59), quick=(64, 4))
chk('C21', T + "offline comparison of observed derivatives with the closed-form derivative of the weighted sum",
    "Reverse mode through unrolled and scanned processes, forward mode through while_loop and execute_act.",
    "an episode differentiates one random process for all its inputs, away from clipping and threshold or exactly on them (finiteness, weights); distinct counts "
    "different (mode, batch, dtype, halting steps, structure)",
    dict(processes_differentiated=48, derivatives_judged=1000, directional_derivatives=15, with_halted_elements=23), quick=(64, 3))
chk('C22', T + "offline comparison of observed tree operations with a recursive reference; fault injection into the structure",
    "Judges every leaf of every result; planted structural mismatches must be refused.",
    "an episode is eight random pairs of corresponding trees (like, or one a prefix of the other) and a mismatched variant of each; "
    "distinct counts different (operator, order, pair of structures) and mismatches",
    dict(operations=512, leaf_pairs_judged=1500, broadcasts=512, mismatches_refused=417, left_broadcasts=64), quick=(64, 4), thorough=(2400, 6))
chk('C23', T + "offline comparison of observed verdicts and merges with references, on single-difference pairs",
    "Judges every verdict on pairs of trees equal up to one planted difference.",
    "an episode is six random trees, each compared with copies carrying one difference; distinct counts different (difference, "
    "place, size) and pairs of shapes",
    dict(equality_verdicts=2000, structure_verdicts=1500, merges=576, broadcast_verdicts=1728, broadcastable=300), quick=(64, 3), thorough=(2400, 6))
chk('C24', T + "instrumented parameter initialisers; outputs compared with a float64 NumPy model of cell and ACT",
    "Judges parameters, their initialisation and all outputs of four kinds of layers.",
    "an episode initialises and applies one random layer (eagerly, jitted, vmapped over parameters, with mutable parameters); "
    "distinct counts different (layer, way, iterations)",
    dict(initialisations=42, applications=42, iterations_modelled=170, setup_refusals=169, stopped_by_bound=15, stopped_by_halting=15),
    quick=(64, 3), thorough=(960, 4))
chk('C25', T + "race stress: threads sharing objects, switches injected at lines of the code under test, results against running alone",
    "Judges every result of every thread bit for bit against the same operations alone; schedules are sampled (seeded yields at source lines, short "
    "switch intervals), not enumerated.",
    "an episode runs 2-6 random chains of public operations on the same objects at the same time; distinct counts different orders "
    "in which threads were observed inside the code under test",
    dict(concurrent_runs=25, results_compared=700, switches_inside_the_code=1500, layer_runs=3), quick=(64, 2))
chk('C26', T + "tracer leak sanitizer (jax.checking_leaks), retention auditor (weak references, object and live-array census), audit hook",
    "Judges traced operations with the leak checker, every object and tensor of dropped histories, and the outside effects of each operation.",
    "an episode traces random operations with the leak checker, drops the results of a random history four times, or watches a random "
    "chain of operations; distinct counts different (operation, configuration) and chains",
    dict(traced_with_leak_checker=30, dropped_objects_judged=2000, histories_dropped=45, operations_watched=100), quick=(64, 2))
chk('C27', T + "trace counter on compiled functions over whole processes, structure monitor",
    "Counts how often functions of the controller are traced while random processes run, and compares the tree structure after each operation.",
    "an episode runs one random process of 8-20 compiled operations, half of them with save/load, edits, scans and eager operations in "
    "between; distinct counts different (sequence of operations, configuration, structure)",
    dict(processes=45, states_judged=600, traces=250, functions_used=250), quick=(64, 3))
chk('C28', T + "offline comparison of ACT layers under JAX's transformations with a float64 NumPy model of layer and ACT",
    "Judges all results of execute_act under vmap, pmap, nesting, control flow, disable_jit, checkpoint, jvp, sharding and ahead-of-time compilation.",
    "an episode runs one random layer in one way; distinct counts different (way, configuration, iterations, probabilities)",
    dict(results_judged=60, iterations_modelled=350, examples_stopping_apart=8, executions_in_between=5), quick=(128, 3), devices=2)
chk('C29', T + "JAX's own sanitizers over whole processes: checkify's NaN, division and index checks in compiled code, debug_nans and debug_infs on each primitive",
    "Judges every primitive that eager processes execute and every compiled process, with the sanitizers of JAX.",
    "an episode runs one random process of finite numbers with viewers and edits on the way, and a compiled or differentiated one; distinct counts "
    "different (kind, configuration)",
    dict(eager_processes=40, iterations_under_sanitizers=150, checkified=15, compiled_processes=20), quick=(64, 3))
chk('C30', T + "fault injection at random places; names, leaf numbers and causes carried by each refusal are judged",
    "Each provoked error must name the accumulator or leaf at fault, and carry or be the exception of the user's code.",
    "an episode provokes some fifteen refusals with one culprit each, in random accumulators, leaves and user functions; distinct counts different "
    "(kind, culprit, structure)",
    dict(names_judged=600, leaf_numbers_judged=250, causes_judged=95, errors_of_layers_judged=20), quick=(64, 3))
chk('C31', T + "offline comparison of recorded executions in interpreters with other hash seeds, flags and environments; processes stored in one and resumed in another",
    "Compares all states, results, refusals and the order of leaves between interpreters, bit for bit.",
    "an episode runs three random programs here and in a fresh interpreter, where they are also resumed from leaves and pickles stored here; distinct "
    "counts different (hash seed, flags, environment, configuration)",
    dict(other_interpreters=8, states_compared=250, operations_compared=250, refusals_compared=350, resumed_elsewhere=48), quick=(32, 1), thorough=(400, 1))
chk('C32', T + "work meter: lines of the library (trace function), primitives executed (hooked evaluation of JAX) and compiled (jaxprs), sizes of intermediates",
    "Compares the work of each operation between sizes, histories, values and bounds of the same structure, and its growth with the number of tensors.",
    "an episode measures fourteen operations on one random structure in five situations, the growth of one of them and execute_act; distinct counts different "
    "(operation, structure)",
    dict(operations_measured=100, comparisons=500, growths=10, loops_measured=8), quick=(32, 1))
chk('C33', T + "invariant monitor over the fields of states and the properties of everything loaded from them",
    "Replaces random subsets of fields of reachable states and compares each field, path, accessor and continuation with the values given.",
    "an episode runs one process to a random point and replaces three random subsets of fields of its save; distinct counts different (fields replaced, batch, dtype, accumulators)",
    dict(replacements=150, windows_opened=600, fields_compared=5000, continued=150, paths_walked=1000), quick=(64, 2))
