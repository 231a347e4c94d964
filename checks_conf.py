# which harness decides which property, how many cases each tier runs, and what the evidence says about them
HARNESS = {
    "ops": {"src": "ops.cpp"},
    "graph": {"src": "graph.cpp"},
    "tensor": {"src": "tensor.cpp"},
    "react": {"src": "react.cpp"},
    "leaf": {"src": "leaf.cpp"},
    "deriv": {"src": "deriv.cpp"},
    "gd": {"src": "gd.cpp"},
    "net": {"src": "net.cpp", "rocnnet": True},
    "agent": {"src": "agent.cpp", "rocnnet": True},
    "boltz": {"src": "boltz.cpp", "rocnnet": True},
    "copies": {"src": "copies.cpp", "rocnnet": True},
    "threads": {"src": "threads.cpp", "libs": False, "only": ["app/tenncor/src/thread/*.cpp"], "proto": False, "san": "tsan"},
    "threadsA": {"src": "threads.cpp", "libs": False, "only": ["app/tenncor/src/thread/*.cpp"], "proto": False},
    "edges": {"src": "edges.cpp", "cflags": ["-DEDGE_RCD", "-DCSV_RCD"], "grpc": True},
    "vis": {"src": "vis.cpp", "cflags": ["-DEDGE_RCD", "-DRPC_RCD"], "grpc": "real", "exclude": [], "ldlibs": ["-lgrpc++", "-lgrpc", "-lgpr", "-labsl_synchronization"]},
    "visF": {"src": "vis.cpp", "cflags": ["-DEDGE_RCD", "-DRPC_RCD", "-DVIS_FAKE"], "grpc": "fake", "exclude": [], "san": "tsan"},
    "findings": {"src": "findings.cpp"},
    "findingsN": {"src": "findings.cpp", "rocnnet": True, "cflags": ["-DWITH_NETS"]},
    # the same sessions on a default allocator that keeps a ledger
    "graphT": {"src": "graph.cpp", "extra": ["track_alloc.cpp"], "exclude": ["grpc", "memory/default_alloc.cpp"]},
}
# the same sources without sanitizers under memcheck, which follows every uninitialised bit into stack objects, flags and enums
for h in ("ops", "graph", "tensor", "react", "leaf", "gd", "net", "agent", "boltz", "copies"):
    HARNESS[h + "V"] = dict(HARNESS[h], san="plain", prefix=["valgrind", "-q", "--error-exitcode=44", "--exit-on-first-error=yes", "--num-callers=25", "--leak-check=no"])
NOT_APPLICABLE = {}
def run(h, quick, thorough, dq=20, dt=600, **kw):
    d = {"harness": h, "cases": (quick, thorough), "deadline": (dq, dt)}
    d.update(kw)
    return d
GEN = "Cases are generated from VERIF_SEED (weighted round-robin over the generator groups counted in `counters`, 8 processes). "
NT = "A case is non-trivial when an oracle compared at least one value or state the library produced; distinct counts different case traces (operations, operands and values hashed). "
SANNOTE = "The real code is compiled from /repo's working tree with ASan+UBSan (asserts on); uninitialised heap memory is filled with NaN bytes so that unset elements show in comparisons. "
CONF = {}
def check(pid, runs, rule, note, **kw):
    CONF[pid] = dict({"runs": runs, "rule": GEN + rule + " " + NT, "note": SANNOTE + note}, **kw)

REF = "Oracle: an independent reference evaluator on plain arrays (harness/ref.hpp). Exploration only: shapes up to rank 5 and a few hundred elements, sampled values. "
check("O01", [run("ops", 60000, 1500000)],
    "Unary, binary and divide-by-zero elementwise calls over random shapes, operand kinds (variable, placeholder, constant, expression, scalar in either position), re-evaluated after assignments; incompatible shapes must be rejected.",
    REF + "Floating point compared to 1e-9 relative, ill-conditioned results (reference perturbed by 1e-11) are counted and skipped.")
check("O02", [run("ops", 60000, 1500000)],
    "Axis-aligned + - * / with the small operand on either side, every axis, square shapes, scalars and mismatched shapes.", REF)
check("O03", [run("ops", 30000, 600000, dq=30)],
    "Products in the four transposition modes, batched and vector operands, thin and odd sizes, sizes above the Strassen threshold (257..300), mismatching operands.", REF + "Large products compared to 1e-7 relative.")
check("O04", [run("ops", 60000, 1500000)],
    "transpose, fit, extend and flip along every axis including axes beyond the rank, alone and stacked, re-evaluated after assignments.", REF)
check("O05", [run("ops", 60000, 1500000)],
    "reduce_sum/mean/max, arg_max, compress and arg_compress (order-dependent collectors) over every dimension, all dimensions and missing dimensions, with ties, negatives and unit dimensions.", REF)
check("O06", [run("ops", 60000, 1500000)],
    "cross_corr2d and conv2d for every pair of dimensions, asymmetric filters, filters of full size, filters that do not fit.", REF)
check("R06", [run("ops", 24000, 600000, dq=30)],
    "Families of related calls on the same operands (swapped operands, scalar left or right, nearly equal parameters, other axes, zero/one constants); every result keeps being compared with what its own call denotes.",
    REF + "A scalar may stand for a filled tensor. tanh is compared within the range of the exponentials it is built from.")
check("R01", [run("graph", 16000, 400000, dq=30)],
    "Sessions of building expressions (shared, merged, folded, nested), assigning leaves directly or from expressions, deriving, and evaluating any node at any time, compared with the reference value of the leaves at that moment; long alternations on deep graphs.", REF)
check("R02", [run("graph", 20000, 400000, dq=30)],
    "Freeze/thaw cycles over random graphs: while frozen every node of the frozen graph keeps its snapshot, other graphs follow their leaves, after thawing everything follows; updates executed on a frozen graph in random order.", REF)
check("R04", [run("graph", 30000, 400000)],
    "Sessions with destruction of leaves, expressions and derivatives in any order (also with queued updates while frozen); exactly the handles of what was built on the destroyed node empty, survivors evaluate right, memory is balanced.", REF + "Memory balance by repetition of the same case.")
check("R05", [run("graph", 40000, 400000), run("deriv", 6000, 100000, dq=10)],
    "Copies, clones, moves and assignments of variables, placeholders and connectors of every generated kind inside live graphs, before and after evaluation, derivation, freezing; source and copy keep being compared with their own reference value, moved sources hand over dependents; copies and moved nodes keep the derivatives of what they copy.",
    REF + "Moved-from nodes are deleted at the end of the session; copies must not react to their source's leaves unless they depend on them.")
check("R07", [run("graph", 20000, 500000, dq=30)],
    "Evaluations that must fail (incompatible or unallocated operands, throwing element functions) interleaved with valid ones: the failure is reported, unrelated nodes keep following their leaves, a repaired operand heals its dependents, rejected constructions leave no trace and no memory behind.",
    REF + "Memory balance by repetition of the same case.")
check("T01", [run("tensor", 150000, 2000000)],
    "Pairs of related and unrelated shapes (unknown dimensions, unit dimensions at the ends, other ranks) through every operation of the shape algebra; every coordinate of defined shapes in both directions and through iteration; rank assertions in forked children.",
    "Oracle: the definitions on plain lists. With unknown dimensions and different ranks only soundness of compatibility is decided (the code documents its matching as incomplete). ")
check("T02", [run("tensor", 90000, 500000)],
    "Histories of up to 50 operations on up to 8 tensors with three allocators; after every operation every tensor is compared with a model (allocation, shape, contents at each coordinate). Includes refused requests, corrupted messages and allocators that run dry.",
    "Oracle: a model of each tensor as a map from coordinates to values. ")
check("T03", [run("tensor", 40000, 300000), run("graphT", 12000, 150000)],
    "The histories of T02 on tracking allocators, and graph sessions (copies, moves, destruction, failing operations) with a default allocator that keeps a ledger of blocks and sizes.",
    "Oracle: ledger of every block (owner, size, returned once) in the allocators themselves, and memory balance by repetition. ")
check("R03", [run("react", 70000, 1000000)],
    "Histories of up to 60 operations on subjects, observers and nodes that are both (add/remove/replace of dependencies at any position, also empty ones, notification with observers that propagate, throw, rewire or destroy others, copies, moves, assignments, stolen audiences, subjects bound to the death of an observer, destruction in any order).",
    "Oracle: a model of who depends on whom at which position; after every operation both ends of every link, deliveries of every notification and deaths are compared with it. ")
check("V01", [run("leaf", 120000, 1000000)],
    "Histories of up to 45 operations on variables and placeholders (constant, random and no initializer, fully and partly declared shapes, initialization to shapes, feeding vectors and tensors, assign/assign_add/assign_sub from constants, leaves and expressions with and without notification, repeated updaters, refused operands) with dependents over them.",
    "Oracle: a model of every leaf (initialized, shape, contents) and of what its dependents last followed, compared after every operation. With partly open shapes only equal ranks are decided (the library documents its matching as incomplete); adding to a variable before it is initialized is not exercised.")
check("S01", [run("leaf", 70000, 300000)],
    "Histories of saves and loads of groups of variables and placeholders (several labels and groups per file, uninitialized members, special values, changed and new receivers, permuted receivers, missing files and labels).",
    "Oracle: a model of what each file holds; restored contents are compared bit for bit, the reported leftovers exactly. Files live in a private scratch directory.")
check("S02", [run("leaf", 90000, 300000)],
    "Saved files truncated, bit-flipped, cut, extended and spliced; crafted entries (impossible, contradicting or huge shapes, wrong amounts of data, unknown fields, foreign labels); unreadable and existing foreign files when saving.",
    "Oracle: the protobuf parser's own reading of the bytes decides what fits; everything that doesn't fit must be reported and leave its receiver (status, shape, bits, dependents) alone.")
check("O07", [run("leaf", 70000, 300000)],
    "Uniform, normal, constant and binomial data drawn by initializers, clones, variables, generators and binomial_sample nodes of all shapes and parameter kinds, for repeated and different seeds.",
    "Oracle: range, size, reproducibility for the seed, no repeated draws, generous statistical bounds (6+ sigma) on mean and variance.")
check("D01", [run("deriv", 16000, 400000)],
    "Compositions of up to a dozen elementwise operations with shared factors, repeated variables, scalars, constants, as_constant and l2norm; first and second derivatives by several variables in any order, evaluated before and after assignments; the expressions themselves keep being compared.",
    "Oracle: five-point numerical differentiation with an error estimate over the reference evaluator, compared element by element; ill-conditioned points are skipped and counted. Derivatives of round, clip_val, clip_norm and of conditionals are known findings and not built into the compositions.")
check("D02", [run("deriv", 4000, 60000, dq=30)],
    "Layered networks of one to three layers (matrix products in every transposition mode with the weight on either side, biases through every axis-aligned operation, activations, squared errors, sum/mean reductions, several losses per graph); gradients by every weight derived in any order and compared after changes of weights and inputs.",
    "Oracle: five-point numerical differentiation (three step sizes, error estimate) of the reference evaluator for each element of each weight. Weights entering through several products are a known finding and not generated.")
check("G01", [run("gd", 5000, 150000, dq=30)],
    "Elementwise and layered problems with one to six variables; updaters with different rates, ignored subtrees, post-processing (scaling, clipping, decay, negation, squaring), clones and moves; updates run one at a time, several times, in random order, and together on frozen graphs, with input changes in between.",
    "Oracle: numerical gradients of the reference evaluator give the step each variable must make; all other variables must keep their bits. Gradients over leaves only are not frozen (known finding), so frozen rounds use squared errors.")
check("G02", [run("gd", 5000, 150000, dq=30)],
    "The problems of G01 with RMSprop updaters: several variables and sessions, discount factors (also 0 and 1), copies and moves of updaters, changed rates, sequential and frozen rounds, destruction of updaters before the graph and of the graph before the updaters.",
    "Oracle: the recurrence evaluated on numerical gradients with error bounds, one running average per variable and calculate call.")
check("N01", [run("net", 50000, 400000)],
    "Fully connected layers with one to three inputs, convolution layers, multilayer perceptrons of one to five layers with seven activations, softmax/sigmoid/tanh; inputs of every batch size fed before and after building, several outputs per network, weights changed and re-initialized in between, inputs of the wrong size.",
    "Oracle: the networks computed on plain arrays from the weights the library holds. ")
check("N02", [run("net", 8000, 200000, dq=30)],
    "Sessions of predictions and training steps (gradient descent and RMSprop with random rates) on random perceptrons, with different batch sizes for training and prediction and batches of the wrong size in between.",
    "Oracle: the network on plain arrays differentiated exactly (dual numbers) gives the weights after each step; predictions must leave the weights alone. A network's batch size is fixed by its first batch (accepted behaviour). Steps with weights or gradients too large to compare are skipped.")
check("N03", [run("agent", 6000, 200000, dq=30)],
    "Sessions of acting, storing, scoring and training with random perceptrons, optimizers and parameters (intervals, batch and memory sizes, discount, update rate, schedule); dedicated sessions count the actions taken along the exploration schedule and how often each experience is drawn.",
    "Oracle: a model of the memory and both networks; the batch drawn is recovered by enumerating every subset of the memory and must explain the step of all weights at once (exact dual-number gradients, clipped); the target network is read back through save(). Exploration and sampling are compared statistically (6.5 sigma).")
check("N04", [run("boltz", 8000, 250000, dq=30)],
    "Upward, downward and stacked passes of random machines; distributions of the states behind reconstructions; training steps with and without persistent chains of one to three steps, saturated machines whose samples are certain, distributions of the chain's end; belief nets of up to two machines with pre-training, fine-tuning, changed weights and inputs in between.",
    "Oracle: the definitions on plain arrays; the sampled state is recovered by enumerating every binary state and one state must explain all three updates at once; probabilities, independence of units and chains compared statistically (6.5 sigma) with exact distributions. The gradient of normalized outputs is a known finding, so fine-tuning steps are compared with the library's own derivative (which parameters move, by which rate, on one snapshot).")
check("N05", [run("copies", 8000, 250000, dq=30), run("agent", 6000, 100000, dq=15)],
    "Histories of cloning, copying, moving, assigning (also to itself, to moved-from objects and between different structures), training or re-weighting, saving, restoring (also from missing files and labels) and destroying up to five layers, networks or trainers of the same kind, in random order; every live object is compared after every operation, with outputs that were built before and outputs built now. Agents copied, assigned and moved in the middle of a session, each then acting, storing and training on its own.",
    "Oracle: each object's weights and function on plain arrays; outputs over destroyed or replaced parameters must be gone. Memory balance by repetition of the same case except for trainers (known finding: gradients keep constants).")

THR = "Both ThreadSanitizer and ASan+UBSan builds run the real sources; delays come from seeded yields and sleeps in the items' copies, the hash function (both inside the cache's critical sections) and the workers. A case that does not finish within 40 s is a stall (watchdog). Schedules are sampled, not enumerated: absence of a race is shown for the schedules run (happens-before analysis covers their reorderings). "
check("C01", [run("threads", 6000, 400000, dq=25, confirm=False), run("threadsA", 6000, 400000, dq=15, confirm=False)],
    "Sequential histories of one to four consumers over up to five keys against a model (waiting consumers woken by additions or released), one to three producers and up to five consumers in parallel (consumers that start late, slow ones, everybody waiting for the last item), simultaneous release of all waiters, histories of 10^5 items with consumers that stay behind.",
    THR + "Oracle: a model of the pending items; in parallel runs an offline check of the time-stamped logs (exactly once, per-key order, nothing superseded before the call, nothing pending skipped or waited for, newest value of every key delivered).")
check("C02", [run("threads", 6000, 400000, dq=25, confirm=False), run("threadsA", 6000, 400000, dq=15, confirm=False)],
    "Random lives of up to five thread objects (empty ones too) over workers that return, work, poll, wait, wait twice or loop: stops at once, late, concurrent, after joining, after detached threads ended; joins, moves, assignments over running threads, detaching and destruction; stop requests raced against the moment the worker begins to wait; functors, arguments and containers of threads.",
    THR + "Oracle: each worker's own log (starts, ends, arguments, interrupted only when asked) against what was requested, after every operation and join.")
check("E01", [run("edges", 10000, 200000, dq=40)],
    "The graph sessions of R01, R02, R04, R05 and R07 (building, merging, assigning, freezing, deriving, failing, copying, moving, assigning, destroying) on a library that records its edges; exports at random points and at the end, repeated exports, exports after everything ended.",
    "Oracle: the arguments every live connector itself reports (subject, position, connector) at the moment of the export; nothing less, nothing more, nothing of destroyed nodes. Built with EDGE_RCD and CSV_RCD defined, as the repository's own options do.")
check("E02", [run("visF", 4000, 400000, dq=40, confirm=False, optional=True), run("vis", 4000, 400000, dq=25, confirm=False)],
    "Random lives of user-made observers and subjects (looking, turning away, replacing, notifying, destroying) and graph sessions of R01, R02, R04 and R05 under a recording visualisation service, while clients open node and edge streams early or late, read slowly, end their subscription, disconnect, come back under their name; crowds of clients coming and going while the recorder closes; clients that never read; services closed at once or without a usable address.",
    "Two builds: ThreadSanitizer over the service with an in-process stand-in for gRPC (harness/fakegrpc, every call a thread, bounded streams, seeded delays), and ASan+UBSan over the installed gRPC through a unix socket. Oracle: per stream, the statuses received up to a marker (itself sent through the recorder) against the live graph - each node's dependents, each connector's arguments and positions, nodes whose value changed, nodes destroyed; streams end when and only when they should; whatever does not finish within 40 s is a stall (watchdog). Schedules are sampled, not enumerated. A subscription that is ended before the service saw it is unspecified.")
check("M01", [run(h, 60000, 3000000, dq=7, dt=300) for h in ("ops", "graph", "tensor", "react", "leaf", "deriv", "gd", "net", "agent", "boltz", "copies", "threadsA")]
    + [run(h + "V", 60000, 3000000, dq=7, dt=300) for h in ("ops", "graph", "tensor", "react", "leaf", "gd", "net", "agent", "boltz", "copies")],
    "The workloads of every other check under seeds of their own, with their behavioural oracles muted: operations, graph sessions, tensors, reactive nodes, leaves and files, derivatives, training, networks, copies and threads.",
    "Oracle: AddressSanitizer, UndefinedBehaviorSanitizer, asserts, memory balance by repetition of the same case; a second build of the same sources without sanitizers runs under valgrind memcheck (uninitialised stack memory, flags and enums).")
