"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
C='src/jax_act/core/controller.py'; B='src/jax_act/core/builder.py'; T='src/jax_act/core/tensoreditor.py'
V='src/jax_act/core/viewer.py'; U='src/jax_act/core/utils.py'; S='src/jax_act/core/states.py'
A='src/jax_act/layers/act.py'; L='src/jax_act/layers/core.py'; F='src/jax_act/frameworks/flax.py'; I='src/jax_act/core/immutable.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
p('C01','Cumulative halting probability law',
 "At every iteration the cumulative probability of a batch element that has not halted grows by depression_constant times its halting probability clipped to [0, 1], except that when the sum would exceed the halt threshold 1-epsilon (or reach one) it becomes exactly one. Cumulative probabilities therefore never decrease between resets and always stay in [0, 1], for any halting probabilities including ones that are negative, above one or infinite.",
 ['inputs','histories','configurations'],'every batch shape, core dtype, epsilon, depression constant, finite history of halting probabilities, in eager, jitted, scanned, while-looped and vmapped execution',
 'Tests check a few fixed probability vectors over one or two steps; the law is quantified over every history, dtype and threshold.',
 [C],[('clip, depression and clamping of halting probabilities','ACT_Controller.iterate_act / _process_probabilities')],['ACT_Controller.iterate_act'],
 [('probabilities','cumulative probability per batch element','ACTStates.probabilities')])
p('C02','Accumulation is a conserved probability-weighted sum',
 "Every leaf of every accumulator changes at an iteration by exactly (the increase of that batch element's cumulative probability) times the update cached for that leaf. Hence an accumulator always equals its starting value plus the probability-weighted sum of all updates since then, and the weights given to a batch element that has halted total one.",
 ['inputs','histories','configurations'],'every accumulator tree, leaf rank (including leaves whose dimensions coincide with the batch dimensions), leaf dtype, order of caching, and history of updates and halting probabilities',
 'Tests use one or two accumulators with constant fills and mostly distinct dimension sizes, so mis-broadcasts, swapped leaves and wrong weights that need several steps or square shapes are invisible.',
 [C,U],[('weight-and-add of each leaf','ACT_Controller._update_accumulator'),('leaf pairing','utils.merge_pytrees'),('left broadcast','utils.setup_left_broadcast')],['ACT_Controller.cache_update','ACT_Controller.iterate_act'],
 [('accumulators','weighted sums','ACTStates.accumulators'),('updates','pending updates','ACTStates.updates')])
p('C03','Halted batch elements are frozen',
 "Once a batch element has halted, no further iteration changes its accumulators, residual, iteration count or (once it is exactly one) cumulative probability, whatever updates or halting probabilities are supplied for it, including infinities and NaN in the updates. It stays frozen until it is reset or edited.",
 ['inputs','histories'],'every suffix of iterations after each element halted, with hostile updates and probabilities, in every execution mode',
 'Tests iterate halted elements once or twice with benign values.',
 [C],[('select on halted_batches','ACT_Controller._update_accumulator, iterate_act, _process_probabilities')],['ACT_Controller.iterate_act'])
p('C04','Residual and iteration bookkeeping',
 "The residual of a batch element is set exactly once, at the iteration at which it halts, to one minus the cumulative probability it had before that iteration, and is otherwise unchanged. The iteration counter of an element increases by exactly one at every iteration which begins with the element unhalted, and by nothing otherwise.",
 ['inputs','histories','configurations'],'every history of halting probabilities, also with elements halting at different steps, resets between them, and any dtype and epsilon',
 'Tests check single steps with fixed probabilities; heterogeneous halting times, resets and tiny thresholds are not exercised.',
 [C],[('newly_halting select','ACT_Controller._process_probabilities'),('iteration select','ACT_Controller.iterate_act')],['ACT_Controller.iterate_act'],
 [('residuals','probability left when halting','ACTStates.residuals'),('iterations','iterations executed while unhalted','ACTStates.iterations')])
p('C05','Halting status is reported truthfully and progress is bounded',
 "The controller and the viewer report a batch element as halted exactly when its cumulative probability is above 1-epsilon or no probability is left (it is one), for every dtype and epsilon (up to the rounding of 1-epsilon for an element exactly there); 'completely halted' and 'any halted' are the conjunction and disjunction over the batch, and the pending-update flags say whether all, respectively any, accumulators have an update cached. An element whose effective halting probability is at least d at each iteration halts within the number of iterations needed to sum d to one, and stays halted until reset or edited.",
 ['inputs','histories','configurations'],'every reachable state, including half precision cores and epsilons below the resolution of the dtype, eagerly and inside compiled loops',
 'Tests sample a handful of probabilities in float32 with a normal epsilon.',
 [C,V],[('halt_threshold / halted_batches / is_*','ACT_Controller and ACTViewer properties'),('updates_ready_to_commit, has_cached_updates','ACT_Controller properties')],['ACT_Controller properties','ACTViewer.halted_batches'])
p('C06','Update protocol: each accumulator exactly once per iteration',
 "An iteration commits exactly one cached update per accumulator and leaves no update pending; caching for an unknown accumulator (ValueError), caching twice before a commit (RuntimeError), committing with an update missing or with a leaf of another shape, even a broadcastable one, or another number of leaves (RuntimeError), halting probabilities not of the batch shape (ValueError) and resetting with updates pending (RuntimeError) are all refused. A refused operation leaves the controller unchanged and usable, and caching stores precisely the given update.",
 ['programs','histories','fault_sequences'],'every sequence of valid and invalid controller calls over any set of accumulators, eager or while tracing',
 'Tests try each error once from a fresh controller; interleavings of errors, partial caches, order of accumulators and recovery after a refusal are not covered.',
 [C],[('membership and double-set checks','ACT_Controller.cache_update'),('missing update and shape checks','ACT_Controller.iterate_act / _update_accumulator'),('pending check','ACT_Controller.reset_batches')],['cache_update','iterate_act','reset_batches'])
p('C07','Reset returns exactly the halted elements to their defaults',
 "Resetting puts every halted batch element back to zero cumulative probability, zero residual, zero iterations and to the default value of every accumulator leaf, and leaves every unhalted element, the defaults and the configuration untouched bit for bit. A reset element then behaves as in a freshly built controller.",
 ['inputs','histories','configurations'],'every reachable state (any halting pattern), accumulator tree, leaf rank and non-trivial defaults, repeated resets, in eager and compiled execution',
 'Tests reset one hand-made state with one tensor accumulator.',
 [C],[('reset select per leaf','ACT_Controller.reset_batches')],['ACT_Controller.reset_batches'],
 [('defaults','values restored by reset','ACTStates.defaults')])
p('C08','Batch elements and accumulators are independent',
 "What happens to one batch element depends only on its own halting probabilities and updates: changing, permuting, slicing or re-shaping the rest of the batch (even filling it with NaN or infinities) does not change its results. Likewise an accumulator's results do not depend on which other accumulators exist, their contents or names, nor on the order of caching.",
 ['inputs','histories','configurations'],'all pairs of histories that agree on one element or one accumulator',
 'A relational (two-run) property; the tests never compare two runs.',
 [C,U],[('element-wise operations and left broadcast','ACT_Controller.iterate_act / reset_batches, utils.setup_left_broadcast')],['ACT_Controller.iterate_act','ACT_Controller.reset_batches'])
p('C09','Same results eager, jitted, scanned, in a while loop and under vmap',
 "Running the same ACT program eagerly, under jit, in lax.scan, in lax.while_loop or vmapped over several controllers gives the same controllers up to floating point rounding, and no public controller, viewer or builder operation that succeeds eagerly on valid input fails when traced.",
 ['programs','inputs','configurations'],'every program made of controller, viewer and builder operations and every way of compiling it (also ahead of time, with fori_loop, checkpoint, unrolled scans, sharded batches, builders inside the compiled function)',
 'Tests compile a few single operations; equivalence of whole programs across compilation modes is not compared.',
 [C,V,B,S],[('pytree registrations','controller.py, viewer.py, builder.py, states.py'),('lax.select based control','ACT_Controller')],['ACT_Controller','ACTViewer','ControllerBuilder'])
p('C10','Immutability and persistence',
 "No operation changes any existing controller, builder, viewer, editor, saved state or user supplied container: every older object keeps all its values whatever is done to it or its descendants, also when the operation fails. Setting an attribute on a controller, builder, viewer or editor, however it was obtained, raises AttributeError and changes nothing; and repeating an operation on the same old object gives the same result.",
 ['programs','histories'],'every branching history of operations over all public classes',
 'Tests check one attribute assignment; aliasing between versions shows only when an old object is inspected after later operations.',
 [I,C,B,T,V,S],[('Immutable.__setattr__','immutable.py'),('copy of dictionaries before update','cache_update, iterate_act, reset_batches, _define, set_*'),('ACTStates.replace','states.py')],['all public methods'])
p('C11','The builder realises every well-formed definition',
 "Every well-formed definition is accepted, and the built controller has exactly the defined accumulators, each with the defined structure, shapes, dtypes and values as both accumulator and default, no pending updates, zero probabilities, residuals and iterations of the batch shape and core dtype, and the given epsilon and depression constant. Redefining or deleting one accumulator affects no other, nor, in a builder opened on a process under way, its probabilities, residuals, counts or other accumulators.",
 ['programs','configurations'],'every batch shape, dtype and sequence of define, redefine and delete calls over arbitrary trees of tensors or of shapes',
 'Tests define a few fixed trees.',
 [B],[('define_accumulator_directly, define_accumulator_by_shape, _define, new_builder, build','builder.py')],['ControllerBuilder'])
p('C12','The builder rejects every ill-formed definition',
 "A builder is refused with ValueError when epsilon is not strictly between zero and one or the core dtype is not floating; a definition is refused when any leaf, wherever it is in the tree, has a non-floating dtype (TypeError), fewer dimensions than the batch, or leading dimensions other than the batch shape (ValueError), and a tree of shapes when any leaf is not a list of ints (ValueError). The refusing builder is left unchanged.",
 ['inputs','configurations'],'every position of every kind of defect in every tree, batch shape and dtype',
 'Tests place one defect in one small definition each.',
 [B],[('_validate_definition_pytree, is_leaf, new_builder checks','builder.py')],['ControllerBuilder'])
p('C13','An edit replaces exactly the edited field',
 "In either error mode, setting a field of the editor to a valid value gives a controller in which that field has exactly that value and every other field, including those of other accumulators, is unchanged bit for bit; a sequence of edits gives the last value set for each field. The error mode is kept along the sequence.",
 ['programs','histories'],'every sequence of edits on every reachable state and either error mode',
 'Tests set one field at a time to one value and look at that field only.',
 [T,S],[('set_* methods, replace','tensoreditor.py, states.py')],['TensorEditor'])
p('C14','The editor rejects invalid values and only those',
 "In standard mode every edit is refused that has another shape or dtype, a probability or residual outside [0, 1] or NaN in any element, a negative iteration count, an epsilon outside [0, 1], an undefined accumulator name, or another tree structure, leaf shape, leaf dtype or a missing leaf; every valid edit including the boundary values, also of NumPy arrays and numbers, is accepted, and the verdict is the same when the edit is jitted under checkify. In silence mode edits raise nothing about values, and unknown error modes are refused with ValueError.",
 ['inputs','configurations'],'every defect at every position, boundary values, eager and jitted, standard and silence',
 'Tests give one example of some of the defects.',
 [T,U],[('_validate_* and _execute_validation','tensoreditor.py'),('jit_and_checkify','utils.py')],['TensorEditor'])
p('C15','Viewer masking keeps exactly the selected batch elements',
 "Masking a viewer leaves every tensor (probabilities, residuals, iterations, accumulators, defaults, pending updates) bit for bit unchanged where the mask is true and exactly zero where it is false, keeping shapes, dtypes, structure, epsilon and absent updates; halted_only and unhalted_only are the masks of the halted and the unhalted elements and so partition the data. A mask that is not boolean or not of the batch shape is refused with ValueError.",
 ['inputs','histories','configurations'],'every state including infinities and NaN in masked data, every mask and leaf rank, eager and jitted',
 'Tests mask one state with one tensor accumulator.',
 [V],[('mask_data, halted_only, unhalted_only','viewer.py')],['ACTViewer'])
p('C16','Viewer transform reaches every tensor',
 "Transforming a viewer with a function gives a viewer in which every tensor (probabilities, residuals, iterations, every leaf of accumulators, defaults and pending updates) is the function of that same tensor, also when shapes or dtypes change, with structure, names, absent updates, epsilon and depression constant kept. If the function fails on any of them, RuntimeError is raised and the viewer is unchanged.",
 ['inputs','programs','configurations'],'every state, with and without pending updates, and every function, eager and jitted',
 'Tests transform states without distinguishing the tensors from one another.',
 [V],[('transform','viewer.py')],['ACTViewer.transform'])
p('C17','execute_act is the documented loop',
 "Executing an ACT layer gives the same controller and state as the documented Python loop: make the controller once from the initial state, the depression constant and all further arguments, let lazy parameters be set up once, then repeat the layer's iteration while some batch element is unhalted and fewer than max_iterations have been run. Options that are not given are a depression constant of one, at most ten iterations and checking for errors, and a layer's new_builder gives the builder of ControllerBuilder with the same arguments. This holds with error checking on and off, for any number of iterations including none, eagerly and under jit.",
 ['programs','inputs','configurations'],'every conforming layer, state tree, argument list, iteration bound and halting behaviour',
 'Tests run two small layers to completion.',
 [A,L],[('execute_act, _is_act_not_complete, _while_loop_adapter_factory','act.py'),('ContractValidationWrapper','layers/core.py')],['AbstractACTTemplate.execute_act'])
p('C18','Layer contract violations are always detected, valid layers never accused',
 "With error checking on, a layer is refused when make_controller returns something that is not a controller (TypeError) or has no accumulators (RuntimeError), or when an iteration returns something that is not a tuple or whose first item is not a controller (TypeError), a tuple not of length two, the very controller it was given, or a controller with some or all updates uncommitted (RuntimeError). A layer that keeps the contract, also with controllers of a subclass, is never refused, and with checking off the layer's results are passed through untouched.",
 ['programs','fault_sequences'],'every layer and every way and call at which it may break the contract',
 'Tests call the validators on hand-made values, not through whole runs with partly committed controllers.',
 [L,A],[('ContractValidationWrapper._validate_*','layers/core.py')],['ContractValidationWrapper','AbstractACTTemplate.execute_act'])
p('C19','Save, load and pytree round trips are exact and resumable',
 "Saving and loading, flattening and unflattening as a pytree, mapping the identity, copying (copy, deepcopy), pickling and passing through a compiled identity all reproduce every field of a controller, builder, viewer, editor or state bit for bit, at every point of an ACT process including while updates are pending, and the leaves of a pytree may be anything (shapes, axes, shardings, names). A process interrupted at any point, stored as plain arrays and restored into the structure of a newly built controller or a loaded save continues exactly like the uninterrupted one. Objects with the same accumulators, pending pattern and settings have the same tree structure, whatever the order of definition. A process whose tensors of one or more dimensions were moved to the host as NumPy arrays does everything it does otherwise.",
 ['histories','crash_points'],'every interruption point of every history',
 'Tests flatten one state of a few classes and never continue from a restored one.',
 [S,C,V,B,T],[('register_pytree_* functions','states.py, controller.py, viewer.py, builder.py, tensoreditor.py'),('save/load','controller.py, viewer.py, tensoreditor.py')],['save','load','jax.tree_util'])
p('C20','Shapes, dtypes, structure and configuration never drift',
 "No controller operation changes the shape, dtype or tree structure of probabilities, residuals, iterations, accumulators or defaults, nor the set of accumulator names, the defaults, epsilon or depression constant. A controller can therefore be carried through loops of any length.",
 ['histories','configurations'],'every history of operations, with mixed dtypes of core, accumulators, updates and halting probabilities',
 'Tests use float32 nearly everywhere and do not check the fields an operation should not touch.',
 [C,S],[('state.replace with only the changed fields; astype of weights','controller.py, states.py')],['ACT_Controller.iterate_act','reset_batches','cache_update'])
p('C21','Gradients match the weighted-sum semantics',
 "Differentiating through an ACT process gives finite derivatives equal to those of the probability-weighted sum: an accumulator's derivative with respect to each update is the weight of that update (zero after halting), and with respect to each halting probability before the halting iteration depression_constant times the update minus the halting update; a residual's derivative with respect to each of those is minus the depression constant. Derivatives with respect to the depression constant, where a state carries it as a tensor, follow likewise.",
 ['inputs','histories'],'every finite history; values away from clipping and threshold boundaries, where the derivative is unique, finiteness and the weights of the updates also on them; reverse mode through unrolled and scanned programs, forward mode through while loops',
 'No test differentiates anything.',
 [C],[('differentiable select/clip formulation','ACT_Controller.iterate_act')],['jax.grad, jax.jvp of iterate_act'])
p('C22','PyTree binary operations pair and broadcast leaves correctly',
 "Applying a binary operator to two trees gives the tree of the operator applied, in argument order, to every corresponding pair of leaves, where a single tensor (or a subtree prefix) on either side is paired with every leaf below the corresponding node of the other and tensors of lower rank are broadcast from the left. Trees that do not correspond (other node types, keys or numbers of children) raise RuntimeError.",
 ['inputs','programs'],'every pair of trees, prefix relations on either side, and leaf ranks',
 'Tests use a few fixed trees.',
 [U],[('broadcast_pytree_shape, execute_binary_operator, _replicate_leaves, setup_left_broadcast','utils.py')],['utils.execute_binary_operator','utils.broadcast_pytree_shape','utils.setup_left_broadcast'])
p('C23','PyTree merge, comparison and broadcast tests are exact',
 "Merging two like trees applies the function to every corresponding pair of leaves and rebuilds the first tree; two trees are reported equal exactly when structure, leaf types, shapes and values (exactly, or within the allclose tolerance) agree at every leaf, structure equality ignores leaf contents, and the right-broadcast test agrees with NumPy's broadcasting rule.",
 ['inputs'],'every pair of trees and every position of a single difference',
 'Tests use a few fixed trees; each single-difference position is a separate case.',
 [U],[('merge_pytrees, are_pytrees_equal, are_pytree_structure_equal, can_right_broadcast','utils.py')],['utils'])
p('C24','Flax layers run ACT with their own parameters',
 "A Flax ACT layer initialises exactly the parameters its iteration uses, before the loop is compiled and once, and applying it gives the results of iterating its cell with those parameters by hand until all batch elements have halted or the bound is reached, also under jit and vmap over parameters; application never changes the parameters. A subclass that does not define setup is refused with NotImplementedError.",
 ['programs','inputs','configurations'],'every cell, parameter value, batch and number of iterations',
 'The repository\'s Flax tests do not run.',
 [F,A],[('FlaxACTLayer.setup, setup_lazy_parameters','frameworks/flax.py'),('execute_act','layers/act.py')],['FlaxACTLayer.init/apply'])
p('C25','Threads may share objects',
 "Controllers, builders, viewers, editors, saved states and ACT layers may be used by several threads at the same time: each thread obtains bit for bit what its operations give when they run alone, refusals included, whatever the interleaving. Nothing a thread does, such as an operation that is refused, an edit in silence mode or a trace, changes what another thread sees.",
 ['schedules','programs','histories'],'every interleaving of any number of threads performing public operations on shared or separate objects',
 'No test starts a thread.',
 [I,C,B,T,V,S,U],[('no shared mutable state; copies before updates','all classes of core')],['all public methods'])
p('C26','Nothing is retained and nothing else is touched',
 "No tracer outlives the traced function it belongs to, and once the last reference to the results of any operations is dropped all their tensors and objects are freed. Valid operations print nothing, emit no warnings, read or write no files, start no processes or threads, and leave every global setting (of Python, NumPy, warnings, random generators and JAX) as it was.",
 ['histories','programs'],'every history of public operations, eager or traced, successful or refused',
 'Tests look at return values only; leaks and side effects show in what is left behind.',
 [C,B,T,V,S,U,A],[('pure functions without module level state','all modules of core and layers')],['all public methods'])
p('C27','One compilation serves the whole process',
 "The tree structure of a controller, including its static data, is the same at every point of its life (before and after iterations, resets, saves, loads and edits, with the same updates pending), and so are the dtypes of its tensors. A function of controllers compiled once is therefore never compiled again as a process goes on.",
 ['histories','programs'],'every process of iterations, resets, saves, loads, edits, scans and compiled functions',
 'Tests never call one compiled function on the successive states of a process.',
 [S,C,V,T],[('pytree registrations and static data','states.py, controller.py'),('dtype-preserving operations','controller.py')],['jax.jit of functions of a controller'])
p('C28','execute_act composes with transformations, control flow and nesting',
 "Executing an ACT layer inside vmap, pmap, scan, fori_loop, while_loop, cond, checkpoint, jvp, sharded, donated or ahead-of-time compiled functions, with compilation disabled, or inside the iteration of another ACT layer gives each example the same controller, state and number of iterations as executing it alone, also when examples stop after different numbers of iterations. A layer object keeps nothing from one execution to the next.",
 ['programs','inputs','configurations'],'every conforming layer, batch of examples and composition of transformations',
 'Tests run execute_act once, directly.',
 [A,L],[('execute_act, _is_act_not_complete, _while_loop_adapter_factory','act.py'),('ContractValidationWrapper','layers/core.py')],['AbstractACTTemplate.execute_act'])
p('C29','Clean under the sanitizers of JAX',
 "For finite inputs of moderate size no operation of a controller, viewer, editor, builder or layer computes a NaN or an infinity in any intermediate step or derivative, divides by zero or indexes out of bounds. Whole ACT processes, eager, compiled, looped or differentiated, therefore run clean with jax_debug_nans, jax_debug_infs and under checkify's float, index and user checks, so that users can debug their own models with them.",
 ['inputs','histories','configurations'],'every process of finite moderate numbers, eager or compiled, with checkpoints, edits, resets and viewers on the way, and its derivatives',
 'Hidden NaNs, infinities and divisions in branches that are masked away afterwards leave no trace in results, and the tests run without sanitizers.',
 [C,V,T],[('select based halting, reset and masking','controller.py, viewer.py')],['every primitive executed, via jax_debug_nans/infs and checkify'])
p('C30','Refusals name the culprit and keep the cause',
 "What an error says is right: errors of cache_update, of commits, of edits of undefined names and of definitions by shape name the accumulator at fault and no other, errors about a leaf of a definition or edit give the number of the offending leaf, and the context given to execute_binary_operator is in its error together with the number of the leaf. Exceptions raised by the user's own layer methods reach the caller of execute_act as the same object; those of functions given to transform and of binary operators are in the chain of causes of the RuntimeError raised.",
 ['inputs','fault_sequences'],'every accumulator, leaf, kind of defect and type of exception',
 'Tests only look at the type of the error raised for one fixed defect.',
 [C,B,T,V,U,A],[('messages with names and leaf numbers; raise ... from err','controller.py, builder.py, tensoreditor.py, viewer.py, utils.py')],['exceptions raised by the public methods'])
p('C31','The same in every interpreter',
 "Whatever the hash seed, interpreter flags (including -O), locale, time zone, encoding mode and working directory, the same program gives bit-identical controllers, viewers and saves, the same order of accumulators and leaves, and the same refusals with the same messages. A process stored in one interpreter, as plain leaves or pickled, continues in another exactly like the uninterrupted one.",
 ['configurations','crash_points','histories'],'every program and every pair of interpreters',
 'The tests run in one interpreter with one hash seed and assertions switched on.',
 [C,S,U,B],[('order of names and leaves, checks of arguments, registration of pytrees','controller.py, states.py, utils.py, builder.py')],['digests of states, results and refusals in each interpreter'])
p('C32','Work and memory of operations are bounded',
 "The work of each operation of controllers, viewers, editors and builders (library code run, primitives executed) depends only on the structure of the process - growing at most linearly with the number of tensors - and never on batch or feature sizes, on the values, or on how many iterations were done before; no intermediate is much larger than the tensors of the process together. execute_act traces a layer's iteration a constant number of times and compiles to a program of the same size whatever max_iterations is; run without compilation, later iterations cost what the earlier ones did.",
 ['inputs','histories','configurations'],'every operation on every structure, batch size and history',
 'Tests use tiny tensors, where work that grows with the batch or the history goes unnoticed.',
 [C,B,T,V,U,A],[('vectorised updates, _while_loop_adapter_factory','controller.py, viewer.py, act.py')],['lines of the library executed, primitives bound, sizes of intermediates'])
p('C33','Saved states and every window on them agree',
 "ACTStates.replace gives a state in which exactly the named fields, false and zero values included, are the given ones and all others including the error mode are those of the original, which is unchanged; in one call or several, in any order, eager or compiled. What controllers, viewers, builders and editors opened on a state show through each property, indexing or save is the value of that field of the state (indexing by a name that is not defined raises KeyError), and the halting threshold is one minus its epsilon. The path of each leaf of a state begins with its field. A process continued from a replaced state equals one continued after setting the same values with the editor.",
 ['programs','histories'],'every reachable state, every subset of fields and every class opened on it',
 'Tests load a state and compare one or two fields; fields the library itself never replaces are not exercised at all.',
 [S,C,V,T,B],[('ACTStates.replace, state_flatten','states.py'),('properties of the classes','controller.py, viewer.py, builder.py, tensoreditor.py')],['ACTStates.replace, load, save and all properties'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
