#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = "app/tenncor/include/"; S = "app/tenncor/src/"; R = "app/rocnnet/"

prop("R01", "Evaluations always reflect the current leaf values",
 "After any history of building expressions and assigning, initialising or updating leaves, evaluating any unfrozen expression (in any order, through any handle, repeatedly, also after unrelated parts of the graph were destroyed) returns the shape and values that the mathematical expression has on the leaves' current values. An evaluation never changes a leaf and evaluating twice without an intervening assignment gives the same result.",
 ["histories", "programs", "inputs"], "All interleavings of expression construction, leaf assignment and evaluation over all DAG shapes (shared subexpressions, repeated arguments, deep and wide graphs, subgraphs joined after having been built separately).",
 "Tests build one small graph and mutate one leaf once; stale-cache bugs depend on the order of queueing, joining and evaluating over many histories.",
 [S+"graph/connector/iconnector.ipp", S+"graph/connector/immutable/base_immutable.ipp", S+"graph/react/subject.cpp", S+"graph/leaf/variable.ipp"],
 [("depth-ordered update queue per connected graph", "iconnector<T>::graph_manager"), ("change notification", "subject::notify / iobserver::update"), ("push updates of single-argument nodes", "base_immutable<T>::update")],
 ["inode<T>::eval", "inode<T>::get_shape", "expose"])

prop("R02", "Frozen graphs give one snapshot; thawing loses no update",
 "While a graph is frozen every evaluation of its multi-argument nodes returns the snapshot taken when it was frozen, whatever is assigned to the leaves in the meantime. After thawing, every evaluation reflects all assignments made meanwhile exactly as if the graph had never been frozen, for any number of freeze/thaw cycles on any node of the graph.",
 ["histories", "programs"], "All sequences of freeze, thaw, assign, evaluate, build and destroy on any node of a connected graph.",
 "No existing test freezes a graph; training loops depend on it implicitly and a lost queued update only shows as a slightly wrong weight.",
 [S+"graph/connector/iconnector.ipp", S+"graph/connector/immutable/base_immutable.ipp", R+"src/models/gd_net.cpp"],
 [("freeze flag and queue", "iconnector<T>::freeze_status, graph_manager::update")],
 ["inode<T>::eval"])

prop("R03", "Observer links are symmetric, ordered and survive any rewiring",
 "In any history of attaching, replacing, removing, copying, moving and destroying subjects and observers, every observer receives exactly one notification per change of each subject it currently depends on, naming exactly the argument positions at which it depends on that subject, and none from subjects it no longer depends on. When a subject dies, every observer that depends on it (and nobody else) is told exactly once with exactly the positions it held, and audience counts always equal the number of distinct live dependents.",
 ["histories"], "All sequences of add/remove/replace dependency, on-death dependency, copy, move, assignment, steal and destroy over several subjects and observers, including repeated subjects and self-replacement.",
 "test_react drives a few fixed sequences on one or two subjects; index shifting, stale entries and double notifications need multi-step rewirings.",
 [S+"graph/react/subject.cpp", S+"graph/react/iobserver.cpp"],
 [("audience map with position sets", "subject::attach/detach/notify"), ("dependency vector and trailing trim", "iobserver::add_dependency/remove_dependency/replace_dependency")],
 ["subject::n_audience", "iobserver::update", "iobserver::death_on_broken"])

prop("R04", "Destruction cascades exactly and touches no dead or leaked node",
 "Destroying a leaf or node destroys exactly the expressions that (transitively) depend on it, leaves every other expression alive with unchanged results, and empties every handle that pointed at a destroyed node. Whatever the order of creation, sharing, derivation, evaluation, freezing and destruction, no freed memory is touched, nothing is freed twice and no memory remains once all leaves and handles are gone.",
 ["histories", "programs"], "All construction/destruction orders over shared DAGs including gradients, pending updates, frozen graphs and joined subgraphs.",
 "Tests free a handful of nodes in creation order and are not run under a memory checker; lifetime bugs need particular orders.",
 [S+"graph/react/subject.cpp", S+"graph/react/iobserver.cpp", S+"graph/connector/iconnector.ipp", S+"graph/connector/immutable/base_immutable.ipp", S+"graph/varptr.ipp", S+"graph/leaf/constant.ipp"],
 [("death broadcast", "subject::~subject -> notify(UNSUBSCRIBE)"), ("suicide of broken connectors", "death_on_broken"), ("self-deletion of unowned constants", "constant<T>::death_on_noparent"), ("graph manager hand-over", "graph_manager::suicide/consume")],
 ["varptr<T>::get", "AddressSanitizer shadow", "allocator balance"])

prop("R05", "Copied, cloned, moved and assigned nodes are equal and independent",
 "A clone or copy of a leaf or expression has the original's shape, value, label, metadata, initialisation status and (for expressions) arguments, reacts to the shared arguments like the original, and keeps its own data: later changes to the one are never visible in the other. A move or move-assignment transfers all of that together with the dependents, so that everything that depended on the source now follows the destination, and the source can be destroyed or reassigned without effect.",
 ["histories", "programs"], "All node kinds (variable, placeholder, constant, operation, generator, shape node) x clone/copy/move/assign x initialised or not x before and after dependents, evaluation and gradients exist.",
 "Tests clone freshly made nodes; they hardly look at what happens to dependents, pending updates and later assignments.",
 [S+"graph/inode.ipp", S+"graph/leaf/ileaf.ipp", S+"graph/leaf/ivariable.ipp", S+"graph/leaf/variable.ipp", S+"graph/leaf/placeholder.ipp", S+"graph/connector/iconnector.ipp", S+"graph/connector/immutable/base_immutable.ipp", S+"graph/connector/immutable/immutable.ipp", S+"graph/connector/immutable/generator.ipp", S+"graph/connector/immutable/shape_dep.ipp"],
 [("copy_helper/move_helper of each level", "ileaf, ivariable, iconnector, base_immutable, immutable, generator, shape_dep"), ("audience transfer", "subject move constructor / move assignment")],
 ["eval", "get_label", "get_metadata", "get_arguments", "good_status"])

prop("R06", "Sharing, simplification and constant folding never change meaning",
 "Two constructions may be merged into one node, simplified or folded only if they denote the same function: for every pair of operation calls the result evaluates to what that call denotes, no matter which similar nodes (same operation with other argument order, swapped scalar and tensor operands, other parameters such as bounds, exponents, axes, indices or nearly equal constants) were built before on the same operands. A scalar result may stand for a tensor filled with that value.",
 ["programs", "inputs"], "All ordered sets of operation calls with related parameters over common operands, including constants 0, 1, equal operands, double negation and repeated transposition.",
 "Tests never build two near-identical nodes on the same operands; merging is keyed by printed labels, so a collision shows only for particular pairs.",
 [S+"graph/operations/operation_utils.ipp", S+"graph/operations/elementary.ipp", S+"graph/operations/transform.ipp", S+"graph/operations/matmul.ipp", I+"utils/utils.hpp", S+"utils/utils.cpp"],
 [("parent search by label", "unary_parent_search, ordered_binary_parent_search, unordered_binary_parent_search"), ("algebraic shortcuts", "elementary.ipp operators")],
 ["eval"])

prop("R07", "A failed evaluation is reported and leaves the graph usable",
 "Evaluating an expression whose arguments have incompatible shapes or uninitialised leaves either reports the error by an exception or yields no value - it never returns wrong or uninitialised data, corrupts memory or changes a leaf. Once the leaves are given compatible, initialised values, every expression of the graph evaluates correctly again, as if the failure had never happened.",
 ["histories", "fault_sequences", "inputs"], "All histories in which shape conflicts and uninitialised leaves occur and are later repaired, at any place of any graph, with other updates pending.",
 "Tests check that a throw happens, never what the graph computes afterwards.",
 [S+"graph/connector/iconnector.ipp", S+"graph/connector/immutable/immutable.ipp", S+"graph/connector/immutable/base_immutable.ipp", S+"graph/operations/elementary.ipp", S+"graph/operations/matmul.ipp"],
 [("shape checks before allocation", "shaper functions"), ("queue handling on error", "graph_manager::update")],
 ["eval", "get_shape"])

prop("O01", "Elementwise operations compute their function for every shape",
 "For every shape, every elementwise operation (arithmetic, trigonometric, exponential, power, rounding, clipping by value and by norm, comparison, conditional) yields at each position the operation applied to the operands' values at that position, a single-element operand being used for all positions, with the non-scalar operand's shape as result shape. Operands of different non-scalar shapes are rejected, and constant, variable and expression operands in either position give the same result.",
 ["inputs", "programs"], "All elementwise operations x shapes of rank 1..5 x operand kinds (constant scalar, constant tensor, variable, placeholder, expression) x values of the domain.",
 "Tests use one random 3-d shape and mostly variable operands; scalar operands on either side, constant operands and single-element tensors are barely reached.",
 [S+"graph/operations/elementary.ipp", S+"utils/futils.ipp"],
 [("elementwise shaper and transfer functions", "elementary.ipp")], ["eval"])

prop("O02", "Axis-aligned arithmetic broadcasts along exactly the named axis",
 "Axial addition, subtraction, multiplication and division combine, for every shape and axis, each element of the larger operand with the element of the smaller operand whose coordinate is obtained by dropping the named axis, with the operand order preserved and the larger operand's shape as result. Operands whose remaining dimensions do not match are rejected.",
 ["inputs"], "All shapes of rank 1..4, all axes, both operand orders, all four operations, repeated on shared operands.",
 "Tests sample very few shapes; an axis mix-up shows only when dimensions differ and rank is at least 3.",
 [S+"graph/operations/elementary.ipp"], [("axial helper", "add_axial_a .. div_axial_b")], ["eval"])

prop("O03", "Matrix multiplication equals the defining sum in every mode",
 "For every pair of compatible shapes the matrix product equals the defining sum, for vectors, matrices and batches of matrices, with either operand transposed or not, constant or not, and for every size whether computed by the direct or by the divide-and-conquer method. Incompatible shapes are rejected without touching memory outside the operands.",
 ["inputs", "configurations"], "All shapes (including sizes around powers of two and around the switch-over size, single rows/columns, batches), all transposition flags.",
 "Tests use small matrices with one random seed and one large size; off-by-one padding, transposed batches and vector cases depend on exact sizes.",
 [S+"graph/operations/matmul.ipp"], [("direct product", "matmul transfer function"), ("divide-and-conquer", "strassen, cubic_mul, padding helpers")], ["eval"])

prop("O04", "Rearranging operations move every element to its defined place",
 "Transpose, fit, extend and flip place, for every shape, axis pair, index, multiplier or watched shape, every source element exactly where the operation's definition says and produce exactly the defined shape. Axes, indices or watched shapes that make no sense for the operand are rejected or treated as missing unit dimensions, never by reading or writing outside the operand or by returning undefined values.",
 ["inputs"], "All shapes of rank 1..4, all axis pairs, indices, multipliers and axis lists, also out-of-range ones, on variables and constants.",
 "Tests take a few axes of one random shape.",
 [S+"graph/operations/transform.ipp", S+"tensor/tensor.ipp", S+"graph/operations/matmul.ipp"], [("index mapping", "transform.ipp, fit_toshape, transpose")], ["eval"])

prop("O05", "Reductions collapse exactly the named dimension",
 "Sum, mean and maximum reductions, the arg-max and their general forms combine, for every shape and every dimension (or all dimensions), exactly the elements that share the remaining coordinates, each once, and deliver them in the defined result shape and order. Ties, negative values, dimensions of size one and the first and last dimension are handled alike, and a dimension the operand does not have is rejected or treated as a unit dimension.",
 ["inputs"], "All shapes of rank 1..4 x all dimensions or none x value patterns with ties and negative values.",
 "Tests reduce a couple of dimensions of one random positive tensor.",
 [S+"graph/operations/transform.ipp"], [("compress / arg_compress", "transform.ipp")], ["eval"])

prop("O06", "2-d correlation and convolution equal their defining sums",
 "The two-dimensional cross-correlation and convolution of any input with any filter that fits over any chosen pair of dimensions equals the defining sliding-window sum, with result extent input - filter + 1 along the two dimensions and all other dimensions kept. A filter that does not fit is rejected without touching memory outside the operands.",
 ["inputs"], "All input shapes of rank 2..4, filters, and dimension pairs.",
 "No existing test executes the operation at all.",
 [S+"graph/operations/transform.ipp", R+"src/layers/conv_layer.cpp"], [("sliding window", "cross_corr2d, conv2d")], ["eval"])

prop("O07", "Random data is in range, independent between draws and reproducible",
 "Random initialisers, generators and binomial sampling only yield values in their declared range or distribution (uniform bounds, normal moments, integer counts between 0 and n with the right mean), consecutive draws and different leaves get different data, and the same seed reproduces the same sequence. Initialising never leaves an element unset.",
 ["inputs", "configurations", "histories"], "All distribution parameters, shapes and seeds; any sequence of draws.",
 "Tests draw once per initialiser and only check bounds; repeated draws and seed behaviour are never compared.",
 [S+"tensor/tensor_handler.ipp", S+"graph/connector/immutable/generator.ipp", S+"graph/operations/elementary.ipp", S+"utils/utils.cpp"], [("initialisers", "rand_uniform, rand_normal, const_init"), ("global engine", "nnutils::get_generator"), ("sampling", "binomial_sample")], ["eval", "expose"])

prop("D01", "Derivatives of elementwise expressions match the calculus",
 "For every composition of elementwise operations, the derivative with respect to any variable evaluates at every position to the analytic derivative of the expression at the current values (zero when the expression does not depend on it), and stays correct after variables change. Deriving never changes the value of the expression or of other derivatives.",
 ["programs", "inputs", "histories"], "All elementwise expressions (products of shared factors, repeated variables, nested chains), all variables, histories of updates between derivation and evaluation.",
 "Tests derive single operations at one sampled point; chain-rule mistakes with sharing, repeated variables or non-derivative order show only in compositions.",
 [S+"graph/operations/elementary.ipp", S+"graph/connector/immutable/base_immutable.ipp", S+"graph/connector/immutable/immutable.ipp", S+"graph/leaf/variable.ipp"],
 [("back maps", "elementary.ipp"), ("gradient cache and adjoint propagation", "base_immutable<T>::derive/get_gradient/backward_pass")], ["derive", "eval"])

prop("D02", "Gradients through matrix products and reductions match finite differences",
 "For scalar losses composed of elementwise operations, matrix products in every transposition mode, axis-aligned operations and sum/mean reductions - in particular any layered network - the derivative with respect to every weight equals the numerical derivative of the loss in shape and value, and remains equal after any sequence of weight and input changes and for several derivatives built on the same graph.",
 ["programs", "inputs", "histories"], "All network-like graphs: layer sizes, batch sizes, transposition flags, shared weights, several losses on a graph, updates in between.",
 "The tests check shapes of matmul gradients on isolated products; weight gradients of composed networks are never compared with a reference.",
 [S+"graph/operations/matmul.ipp", S+"graph/operations/elementary.ipp", S+"graph/operations/transform.ipp", S+"graph/connector/iconnector.ipp", S+"graph/connector/immutable/base_immutable.ipp"],
 [("jacobian lists", "iconnector<T>::set_jacobian_front/back, jacobian_call"), ("back maps", "matmul.ipp, elementary.ipp, transform.ipp")], ["derive", "eval"])

prop("T01", "Shape algebra is consistent with its definition",
 "For all shapes, element counts, rank, definedness, compatibility, merging, trimming, concatenation, rank adjustment and rank assertions follow their documented definitions, where 0 marks an unknown dimension. On defined shapes the conversion between coordinates and flat positions is a bijection in storage order, visited completely and in order by iteration, with out-of-range requests rejected or clamped as documented rather than read out of bounds.",
 ["inputs"], "All shapes of rank 0..5 with zero, unit and larger dimensions and pairs thereof.",
 "Tests use a handful of fixed shapes; partially defined pairs of different rank are sampled rarely.",
 [S+"tensor/tensorshape.cpp", I+"tensor/tensorshape.hpp"], [("shape algebra", "tensorshape")], ["tensorshape member functions"])

prop("T02", "Tensors keep exactly their data through every data operation",
 "Through any history of allocation, resizing, copying, moving, assignment, element access and shape guessing, a tensor's contents are exactly those its operations define: growing or shrinking keeps each surviving element at its coordinate and fills the rest with zero, copies are independent, moved-from tensors are empty, and shape guesses fit the data they were asked for. Requests that do not fit (wrong size, undefined shape, out-of-range coordinates, unallocated tensor) are refused by error or false result without side effect.",
 ["histories", "inputs"], "All sequences of tensor operations over shapes of rank 0..4, allowed shapes with unknown dimensions, data vectors of fitting and unfitting size.",
 "Tests sample a few operations on fixed shapes; the combinations of allowed shape, allocated shape and resize are not covered.",
 [S+"tensor/tensor.ipp", S+"tensor/tensor_handler.ipp", I+"tensor/tensor.hpp"], [("copy/move helpers, allocate, set_shape, copy_from", "tensor<T>"), ("assignment", "assign_func<T>")], ["expose", "get", "get_shape", "is_alloc"])

prop("T03", "Every allocated byte is returned exactly once to its own allocator",
 "Whatever sequence of tensor and leaf operations runs, including failing ones and ones that switch allocators, each block obtained from an allocator is returned exactly once, to the same allocator, with the size it was requested with, and is never used afterwards. Each allocator identifier denotes one allocator, and registering an identifier twice does not replace it.",
 ["histories"], "All sequences of allocate, deallocate, copy, move, set-allocator, set-shape, serialise and destroy over several allocators and element types.",
 "Tests count bytes for a single allocation; switching allocators, failing copies and moves are not followed.",
 [S+"tensor/tensor.ipp", S+"memory/alloc_builder.cpp", S+"memory/default_alloc.cpp", S+"memory/iallocator.cpp", I+"memory/alloc_builder.hpp", I+"memory/iallocator.hpp"], [("allocator ownership", "tensor<T>::alloc_, alloc_builder::registertype")], ["recording allocator registered under a private identifier"])

prop("V01", "Variables and placeholders hold exactly what was assigned",
 "After any history of initialisation, direct data assignment, and assign / add-assign / subtract-assign from any expression (including ones that depend on the variable itself), each variable and placeholder holds exactly the value that history defines, its dependents see the change if and only if notification was requested, and its initialisation status is correct. Data that does not fit the declared shape is refused and leaves the old value in place. Constants hold the data they were made from, filled up with zeros or cut to their shape.",
 ["histories", "inputs"], "All interleavings of leaf writes over variables and placeholders with fully and partly declared shapes and several sources.",
 "Tests do single assignments; self-referencing sources, scalars into tensors, repeated placeholder feeding with changing batch size are not explored.",
 [S+"graph/leaf/variable.ipp", S+"graph/leaf/placeholder.ipp", S+"graph/leaf/ileaf.ipp", S+"graph/leaf/ivariable.ipp", S+"tensor/tensor_handler.ipp"], [("variable updaters", "variable<T>::assign, assign_add, assign_sub"), ("placeholder feeding", "placeholder<T>::operator =")], ["eval", "good_status"])

prop("S01", "Saving and loading restores every tensor exactly",
 "Writing any set of initialised variables and reading them back into variables of the same names restores shape and every value bit for bit, whatever their number, shape, values (including infinities, signed zero, denormals) and the order of leaves, and reports success. Several groups saved under different names in one file stay separate, a later save replaces only the tensors it writes, and dependents of the restored variables see the restored values.",
 ["inputs", "histories"], "All sets of variables with distinct labels, shapes and values; sequences of save and load over several files and groups.",
 "One test writes one file with fixed leaves.",
 [S+"memory/tensor_io.ipp", S+"tensor/tensor.ipp", S+"graph/leaf/ileaf.ipp", "app/tenncor/proto/serial/tenncor.proto"], [("protobuf round trip", "write_inorder, read_inorder, tensor<T>::serialize/from_proto")], ["eval after read_inorder"])

prop("S02", "Bad or mismatched save files are refused without damage",
 "Loading from a missing, truncated, corrupted or hostile file, or from one whose group, number of tensors, names, shapes or data sizes do not match the receiving variables, reports failure or loads only what matches; it never crashes, reads or writes out of bounds, or leaves a variable with a shape and data that disagree. Variables that were not restored keep their previous value.",
 ["inputs", "fault_sequences"], "All byte-level truncations and mutations of valid files, and structurally valid files with inconsistent contents.",
 "No test feeds an invalid file.",
 [S+"memory/tensor_io.ipp", S+"tensor/tensor.ipp", S+"graph/leaf/ileaf.ipp"], [("validation on load", "read_inorder, tensor<T>::from_proto, ileaf<T>::read_proto")], ["return value, variable state, AddressSanitizer"])

prop("G01", "Gradient-descent updates move every trainable variable as defined",
 "An update computed for an expression yields exactly one update per variable it depends on, except the variables of ignored subtrees, and running it changes each such variable by minus learning rate times its (post-processed) gradient at the current values, and nothing else. Running updates repeatedly, together or in any order on a frozen graph uses the gradients of the frozen state, and changed learning rates and ignore sets apply to updates computed afterwards.",
 ["programs", "histories", "inputs"], "All expressions with several variables, ignore sets, learning rates and post-processing functions, sequences of updates and input changes.",
 "No test runs an updater except through two demos that only print an error.",
 [S+"utils/gd_utils.cpp", I+"utils/gd_utils.hpp", S+"graph/leaf/variable.ipp"], [("leaf collection and updater construction", "gd_updater::calculate, vgb_updater::process_update")], ["variable values"])

prop("G02", "RMSprop follows its recurrence for every variable",
 "The RMS-propagation updater keeps one running average per variable, starting at one, updated once per step with the discounted squared gradient, and moves each variable by minus learning rate times gradient divided by the root of that average (plus machine epsilon), for any number of variables, shapes, steps and interleavings. Copies of an updater work independently of it, and destroying updater, variables or graph in any order touches no freed memory.",
 ["programs", "histories"], "All graphs with several variables, learning rates, discount factors and step counts, and copies/moves of updaters.",
 "Only reached through one demo that prints an error value.",
 [S+"utils/gd_utils.cpp", I+"utils/gd_utils.hpp"], [("recurrence", "rmspropupdater::process_update")], ["variable values after each step"])

prop("N01", "Layers and networks compute the function they describe",
 "A fully connected layer maps every batch of its inputs to the sum over its inputs of input times weight plus bias, a convolution layer (one input and output channel) to the convolution with its filter plus bias, and a multi-layer network to the composition of its layers with their activation functions, for all layer sizes, batch sizes and activations; networks report their own input and output sizes and list exactly their own variables. Softmax, sigmoid and tanh equal their definitions.",
 ["inputs", "configurations"], "All layer sizes, batch sizes, activations, multi-input layers and input changes.",
 "Tests contain no layer or network check at all; demos only print errors.",
 [R+"src/layers/fc_layer.cpp", R+"src/layers/conv_layer.cpp", R+"src/compounds/mlp.cpp", R+"src/compounds/icompound.cpp", S+"utils/futils.ipp"], [("forward construction", "fc_layer::operator(), mlp::prop_up")], ["eval of the built output"])

prop("N02", "Network training performs exactly one gradient step per call",
 "Each training call on a gradient-descent network changes every weight exactly as one step of its updater on the squared error of the given batch prescribes, starting from the weights before the call, and prediction afterwards uses the new weights; prediction itself changes nothing. Input that does not fit the batch shape is rejected without effect on the weights, and the reported error is the squared error of the last batch.",
 ["histories", "inputs", "configurations"], "All sequences of train and predict calls with all batch sizes and network sizes and both updaters.",
 "gd_demo trains one network and only its exit status is observed.",
 [R+"src/models/gd_net.cpp", R+"src/compounds/mlp.cpp", S+"utils/gd_utils.cpp"], [("training loop", "gd_net::train")], ["weights before/after, predictions"])

prop("N03", "Q-learning agent stores, samples and trains as parameterised",
 "The Q-learning agent returns an action index below the number of actions, acts greedily exactly when exploration does not apply, keeps at most the configured number of most recent stored experiences (one per store interval), and trains once per training interval when a mini-batch is available. Each training step changes the online network as one gradient step on the temporal-difference error of the sampled batch with clipped gradients, and moves the target network towards it by the update rate.",
 ["histories", "configurations"], "All sequences of act/store/train with all parameter settings.",
 "dqn_demo runs one parameter setting and checks nothing but termination.",
 [R+"src/models/dq_net.cpp"], [("replay and target update", "dq_net::store/train/variable_setup")], ["weights via network handle, action results"])

prop("N04", "Boltzmann machines and belief nets compute and train as defined",
 "A restricted Boltzmann machine's upward and downward passes equal the sigmoid of the affine maps with its (transposed) weights, reconstructions are binary samples with those probabilities, and one training step moves weights and biases by learning rate times the difference between data and reconstruction free-energy gradients; the monitored cost is the cross entropy of the reconstruction or, for persistent chains, the pseudo-likelihood with the first unit flipped. A deep belief net's forward pass is the softmax of the stacked machines followed by the output layer, and its pre-training and fine-tuning functions update exactly the parameters of the layers concerned.",
 ["inputs", "configurations", "histories"], "All layer sizes, batch sizes, chain lengths and training histories.",
 "The demos for these models cannot start in this environment and no test covers them.",
 [R+"src/models/rbm.cpp", R+"src/models/db_net.cpp"], [("passes and contrastive divergence", "rbm::prop_up/prop_down/train"), ("stacking", "db_net::prop_up/pretraining_functions/build_finetune_functions")], ["eval, weights"])

prop("N05", "Copying, moving, saving and restoring networks keeps them equal and separate",
 "A clone, copy, assignment or move of a layer, network or trainer computes the same function as its source had at that time, has its own parameters (training the one never changes the other) and can outlive it or die before it in any order without touching freed memory or leaking. Saving a network and initialising another one of the same structure from the file reproduces its function exactly, and a failed restore still leaves a usable initialised network.",
 ["histories", "configurations", "fault_sequences"], "All model kinds x clone/copy-assign/move/move-assign/self-assign x trained/untrained x destruction order x save/restore.",
 "No test copies or destroys a network; demos save and load only their own file.",
 [R+"src/layers/ilayer.cpp", R+"src/layers/fc_layer.cpp", R+"src/layers/conv_layer.cpp", R+"src/compounds/icompound.cpp", R+"src/compounds/mlp.cpp", R+"src/models/gd_net.cpp", R+"src/models/dq_net.cpp", R+"src/models/rbm.cpp", R+"src/models/db_net.cpp"], [("copy_helper / move_helper / clean_up", "each model class")], ["outputs, parameters, AddressSanitizer, allocation balance"])

prop("C01", "The shared cache delivers every latest value once, without races or stalls",
 "Every consumer of the shared cache has its own position. It receives the pending items (the newest value of every key that it has not received yet) in the order they were added, each exactly once, never an item superseded before it asked, nothing older after something newer. It waits only while nothing is pending for it; adding an item or releasing waiters wakes every waiting consumer, and the item is then available to each of them, however far behind or at whichever superseded item its position is. No number of producers and consumers and no schedule produces a data race, a lost, duplicated or stale item, a stall or an access to freed memory, and a destroyed cache leaves no memory behind.",
 ["schedules", "histories"], "All interleavings of adding, superseding, taking, waiting and releasing by several threads, and all sequential histories.",
 "Nothing in the test-suite uses the cache; interleavings need stress and injected delays.",
 [I+"thread/shareable_cache.hpp", S+"thread/shareable_cache.ipp"], [("mutex, condition variable and recency list", "shareable_cache<K,V>")], ["returned items with timestamps"])

prop("C02", "Stoppable threads start, observe stop requests and never hang or dangle",
 "A stoppable thread runs its function exactly once with its arguments; a stop request issued at any moment after construction is seen by the running function (checking the flag, stop_throw, or waiting in stop_wait), and joining afterwards terminates; no thread sees a stop that was not requested of it. Thread objects can be empty, moved, assigned, detached, and stopped (by several threads) before, during or after the run and after joining; destroying or overwriting one joins its thread. None of this races, loses a wake-up, hangs or touches freed memory.",
 ["schedules", "histories"], "All interleavings of start, stop, wait, join, detach and move.",
 "Used only by the visualisation server which no test starts.",
 [I+"thread/stoppable_thread.hpp", S+"thread/stoppable_thread.cpp", I+"thread/stop_flag.hpp", S+"thread/stop_flag.cpp"], [("stop flag with condition variable", "stop_flag"), ("thread-local flag pointer", "stoppable_thread")], ["event log of start/stop/wait/exit"])

prop("E01", "The exported edge list equals the live graph",
 "With edge recording enabled, an export lists exactly the edges of the live expression graph - one row per dependent, argument and argument position, with repeated arguments listed per position - after any history of building, rewiring, moving and destroying nodes, and refers to no destroyed node. Restricting the export to one graph lists exactly the edges among that connected graph.",
 ["histories"], "All histories of building, deriving, moving and destroying expressions with recording on.",
 "Recording is compiled out in the default build and no test enables it.",
 [I+"edgeinfo/csv_record.hpp", S+"edgeinfo/adjlist_record.cpp", S+"edgeinfo/igraph_record.cpp", S+"graph/react/iobserver.cpp", S+"graph/react/subject.cpp"], [("adjacency record", "adjlist_record::edge_capture/edge_release/node_release"), ("export", "csv_record::to_csv")], ["exported file"])

prop("E02", "Subscribers of the visualisation service always learn the live graph",
 "While the visualisation service records, every subscriber of edges is sent the status changes of every edge (dependent, argument, position) recorded so far, in order, each once and without superseded ones, so that once it has received everything it knows exactly the edges of the live graph, whenever it subscribed; every subscriber of nodes is told of every node whose value was updated and of every node destroyed. Any number of subscribers may come, read slowly or not at all, disconnect or end their subscription at any moment: ending a subscription ends its streams promptly even if nothing happens any more and leaves others alone, a disconnected client is left at the next message, and closing the recorder ends every stream and returns. An address that can't be used doesn't end the program. No race, hang or use of freed memory.",
 ["schedules", "histories"], "All graph histories with recording on, all numbers of subscribers and all interleavings of their calls with the program and with closing.",
 "The service is compiled out in the default build; no test starts it.",
 ["app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp", S+"edgeinfo/grpc_vis/gui_notifier.cpp", S+"edgeinfo/grpc_vis_record.cpp", I+"thread/shareable_cache.hpp", S+"thread/shareable_cache.ipp", S+"thread/stoppable_thread.cpp", S+"graph/react/subject.cpp", S+"graph/react/iobserver.cpp"], [("subscriptions", "gui_notifier::subscribe/is_subscribed/clear_subscriptions"), ("latest status per node and edge", "shareable_cache"), ("service thread", "spawn_server")], ["messages of every stream, their end, the live graph"])

prop("M01", "No workload triggers memory errors or undefined behaviour",
 "No sequence of library calls with arguments the interface accepts - well-formed, extreme or ill-fitting - makes the library read or write outside its objects, use freed or uninitialised memory, overflow signed integers, or invoke other undefined behaviour, and completed workloads leave no memory behind.",
 ["inputs", "histories", "programs"], "All call sequences over tensors, graph nodes, operations, gradients, serialisation, networks and trainers.",
 "The regular build has no sanitizer, so such errors pass silently when the observable result happens to be right.",
 ["app/tenncor/src", "app/tenncor/include", "app/rocnnet/src"], [("bounds and lifetime discipline", "all modules")], ["AddressSanitizer, UndefinedBehaviorSanitizer, poisoned allocations, allocation balance"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import sys
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch)
except ImportError: pass
for p in P:
    n = len(p["title"]);
    if n > 80: print("title too long", p["id"], n)
print(len(P))
