prop("C01", "Running a circuit returns its exact statevector",
     "Executing any digital or digital-analog circuit on the default simulator returns, for every parameter value, batch "
     "element, initial state and backend option, exactly the normalised state obtained by applying the circuit's gates in "
     "order to the initial state (all-zero by default). Qubit 0 is the most significant bit of the result. The result is the "
     "same through every entry point (run function, backend, model).",
     ["programs", "inputs", "configurations"],
     "all circuits over the gate set (incl. controlled, multi-controlled, matrix and Hamiltonian-evolution blocks), all "
     "parameter expressions/values, batches, initial states, option combinations",
     "Tests run a few fixed circuits; gate x nesting x parameter-expression x batch x option combinations are unbounded.",
     ["qadence/execution.py", "qadence/model.py", "qadence/backends/pyqtorch/backend.py",
      "qadence/backends/pyqtorch/convert_ops.py", "qadence/blocks/embedding.py", "qadence/operations/*"],
     [("block to native conversion", "qadence/backends/pyqtorch/convert_ops.py"), ("parameter embedding", "qadence/blocks/embedding.py"),
      ("state shape and endianness handling", "qadence/backends/utils.py")],
     ["qadence.run", "QuantumModel.run", "Backend.run"],
     design='Each circuit spec is executed through run, the backend, the model and lists of circuits with random backend options; the oracle multiplies dense numpy matrices of the spec. Every amplitude, the shape and the norm are compared.')
prop("C02", "The matrix of a block is the operator the block denotes",
     "Converting any block to a matrix gives the operator it denotes: products for chains, tensor products for krons, sums, "
     "scalings, controlled operators, projectors |ket><bra|, exponentials exp(-iHt), padded with identities on every qubit "
     "of the requested support, ordered by qubit index (reversed for little endian), one matrix per batch element. The "
     "sparse-diagonal representation of a diagonal Pauli operator equals the dense one.",
     ["programs", "inputs", "configurations"],
     "all blocks, supports (sparse, shuffled, enlarged), parameter batches, endianness, tensor types",
     "Tests compare a few blocks on contiguous supports; the block grammar and the support choices are unbounded.",
     ["qadence/blocks/block_to_tensor.py", "qadence/blocks/matrix.py", "qadence/operations/*"],
     [("recursive matrix construction", "qadence/blocks/block_to_tensor.py")],
     ["block.tensor", "block_to_tensor"],
     design='block.tensor/block_to_tensor on blocks with shuffled, sparse and enlarged supports; the oracle builds the operator from its definition.')
prop("C03", "Expectation values are exact",
     "The expectation of any list of Hermitian observables (sums and products of Pauli/number operators with numeric or "
     "parametric coefficients) on any circuit is the tensor of shape (batch size, number of observables) whose entries "
     "are <psi|O|psi> for the exact final state, in the order the observables were given. It is independent of the entry point, the "
     "differentiation mode and the performance-related backend options.",
     ["programs", "inputs", "configurations"],
     "all circuits, observables, parameter batches (circuit and/or observable), initial states, options",
     "Tests use a handful of circuit/observable pairs.",
     ["qadence/execution.py", "qadence/model.py", "qadence/backends/pyqtorch/backend.py", "qadence/engines/torch/differentiable_expectation.py"],
     [("batched and looped expectation", "qadence/backends/pyqtorch/backend.py"), ("observable conversion", "qadence/backends/pyqtorch/convert_ops.py")],
     ["qadence.expectation", "QuantumModel.expectation", "Backend.expectation"],
     design='expectation through every entry point and option; the oracle is <psi|O|psi> of the reference state and operator, compared entrywise including shape and order.')
prop("C04", "Derivatives of expectation values are exact in every differentiation mode",
     "For automatic differentiation, generalized parameter shift rules and adjoint differentiation, the gradient of any "
     "combination of expectation values with respect to every feature parameter (per batch element) and every variational "
     "parameter (summed over the batch) equals the mathematical derivative, including chain rules through parameter "
     "expressions and parameters shared by several gates; automatic differentiation and parameter shift also give correct "
     "second derivatives. Parameters that do not influence the result get zero gradient.",
     ["programs", "inputs", "configurations"],
     "all parametric circuits, expressions, observables, batches, cotangents and differentiation modes",
     "Tests check a few circuits per mode; sharing, expression and gate combinations are unbounded.",
     ["qadence/engines/torch/differentiable_expectation.py", "qadence/engines/torch/differentiable_backend.py",
      "qadence/backends/parameter_shift_rules.py", "qadence/backends/agpsr_utils.py", "qadence/extensions.py", "qadence/blocks/utils.py"],
     [("PSR expectation autograd function", "qadence/engines/torch/differentiable_expectation.py"),
      ("shift rules", "qadence/backends/parameter_shift_rules.py"), ("generator eigenvalues", "qadence/blocks/utils.py uuid_to_eigen")],
     ["torch.autograd.grad of QuantumModel.expectation / qadence.expectation"],
     design='torch.autograd.grad of random cotangents in ad, gpsr and adjoint modes; oracle: adaptive fourth-order finite differences of the numpy reference.')
prop("C05", "The dagger of a block or circuit is its adjoint",
     "For every block and circuit, dagger() denotes the conjugate transpose of the original operator for all parameter "
     "values, keeps its qubit support, does not modify the original, undoes a unitary when run after it, and applied twice "
     "gives the original operator.",
     ["programs", "inputs"], "all blocks and circuits, all parameter values and batches",
     "Tests check daggers of a list of gates, not of nested, shared-parameter or scaled compositions.",
     ["qadence/blocks/abstract.py", "qadence/blocks/composite.py", "qadence/blocks/primitive.py", "qadence/operations/*", "qadence/circuit.py"],
     [("dagger methods", "qadence/blocks/composite.py, qadence/blocks/primitive.py, qadence/operations/*")],
     ["AbstractBlock.dagger", "QuantumCircuit.dagger", "block_to_tensor", "run"],
     design='dagger of blocks and circuits compared with the conjugate transpose of the reference; undo runs; the original is observed again afterwards.')
prop("C06", "Transpilation passes preserve the operator and do not modify their input",
     "Flattening (for any subset of block types), pushing scales into sums, exchanging chain-of-krons for kron-of-chains, "
     "filling with identities, digital decomposition of Hamiltonian evolutions with commuting Pauli generators, "
     "moving qubits to another support, endianness inversion "
     "and any composition of passes give a block or circuit that denotes the same operator (moved or bit-reversed where that is the "
     "pass's purpose), executes to the same state, keeps the circuit's qubits, and leave the given block or circuit as it was.",
     ["programs", "inputs", "configurations"], "all nested blocks, parameter values and pass pipelines",
     "Tests compare the structure of small examples; equality of operators over all nestings is not sampled.",
     ["qadence/transpile/*", "qadence/blocks/manipulate.py", "qadence/operations/ham_evo.py", "qadence/decompose.py"],
     [("passes", "qadence/transpile/*"), ("Lie-Trotter decomposition", "qadence/decompose.py, qadence/operations/ham_evo.py")],
     ["qadence.transpile functions", "block_to_tensor", "run"],
     design='every pass and random pipelines; matrix, execution and a textual snapshot of the input before and after.')
prop("C07", "Bit ordering is consistent across states, samples, matrices and integers",
     "In big-endian mode qubit 0 is the leftmost bit of every bitstring and the most significant bit of every state index; "
     "little-endian mode is exactly the bit reversal of it. This holds for states, samples, "
     "block matrices, product states, bit/integer conversions and basis enumerations, and inverting the endianness of an array, "
     "counter, block or circuit is an involution that agrees with the two modes.",
     ["inputs", "programs", "configurations"], "all circuits, states, counters, integers, both endiannesses",
     "Tests use symmetric or few-qubit examples where orderings coincide.",
     ["qadence/utils.py", "qadence/states.py", "qadence/transpile/invert.py", "qadence/backends/utils.py", "qadence/backends/pyqtorch/backend.py"],
     [("endianness conversion", "qadence/transpile/invert.py, qadence/utils.py")],
     ["run", "sample", "block_to_tensor", "product_state", "basis_to_int/int_to_basis", "invert_endianness"],
     design='every API that takes or returns a bit order, in both modes, on workloads not invariant under bit reversal; the oracle is explicit bit reversal.')
prop("C10", "Sampling draws exactly n_shots outcomes from the Born distribution",
     "Sampling any circuit returns one counter per batch element whose counts are positive integers on bitstrings of length "
     "n_qubits adding up to exactly the number of shots; outcomes of probability zero never occur, frequencies follow the "
     "squared amplitudes of the exact final state, and separate calls draw independently.",
     ["programs", "inputs", "histories"], "all circuits, parameter batches, initial states, shot counts",
     "Tests check sums and one or two distributions.",
     ["qadence/backends/pyqtorch/backend.py", "qadence/execution.py", "qadence/model.py", "qadence/backends/utils.py"],
     [("sampling", "qadence/backends/pyqtorch/backend.py")],
     ["sample", "QuantumModel.sample", "Backend.sample"],
     note="Statistical exploration: per-outcome exact binomial tests at 1e-10 with fixed seeds; a bias smaller than the "
     "resolution of 20000 shots is not visible.",
     design='counters are checked structurally on every execution and by exact binomial tests per outcome against the reference distribution.')
prop("C14", "Registers have the announced geometry and derived data agree with it",
     "For every register constructor, size, spacing and device: the number of qubits, the shape, and the edges are the announced ones, "
     "the closest pair of qubits is exactly `spacing` apart, distances/edge distances/min distance/pairs equal those computed from the "
     "coordinates, rescaling multiplies every distance and nothing else, equality distinguishes different geometry, "
     "serialization preserves everything, and the caller's graph or coordinates are never modified.",
     ["inputs", "configurations"], "all constructors x sizes x spacings x custom graphs x devices",
     "Tests check a few sizes.",
     ["qadence/register.py", "qadence/analog/device.py"],
     [("lattice constructors and rescaling", "qadence/register.py")],
     ["Register API"],
     design='coordinates are the observed state; all derived data are recomputed from them in numpy; the announced shape is checked by its own definition.')
prop("C15", "Hamiltonian and observable constructors build the announced operator",
     "hamiltonian_factory and the predefined Hamiltonians equal the sum over the register's edges (or all pairs) "
     "and nodes of strength times interaction/detuning term, with the given strength for each edge/node in register order "
     "(default one; parametric strengths get one parameter per term named as announced), are Hermitian, and observables "
     "built from a configuration equal scale * H + shift.",
     ["inputs", "configurations"], "all registers, interactions, detunings, strength kinds, scales and shifts",
     "Tests check a few registers with default strengths.",
     ["qadence/constructors/hamiltonians.py", "qadence/constructors/utils.py", "qadence/constructors/daqc/*", "qadence/ml_tools/config.py", "qadence/ml_tools/constructors.py", "qadence/types.py"],
     [("hamiltonian_factory", "qadence/constructors/hamiltonians.py"), ("create_observable", "qadence/ml_tools/constructors.py")],
     ["hamiltonian_factory", "total_magnetization/zz_hamiltonian/ising_hamiltonian", "create_observable/observable_from_config"],
     design="the constructed block's matrix is compared with a numpy sum over the register's edges and nodes.")
prop("C19", "State constructors and state functions return the states and numbers they name",
     "Named states, their preparation blocks and product states are the announced vectors for every size and batch; random "
     "states are normalised, distinct within a batch and across calls; density matrices, partial traces, purity, entropy, "
     "fidelity, overlap, normalisation checks and probability mass functions equal their mathematical definition for all pure and mixed batched states.",
     ["inputs"], "all sizes, batches, pure and mixed states, subsystems, exponents",
     "Tests check a few states.",
     ["qadence/states.py"], [("state functions", "qadence/states.py")], ["qadence.states"],
     design='every function is compared with its definition computed by numpy (eigendecompositions, explicit partial traces).')
prop("C08", "Serialization round trips preserve the object and its behaviour",
     "Serializing any block (any gate, controlled and multi-controlled operations, projectors, matrix and Hamiltonian-evolution blocks, "
     "compositions, scales, tags), parameter, parameter expression, circuit (with its register), quantum model or QNN to a dictionary, "
     "JSON text or a .json/.pt file and deserializing it gives an object that equals the original and behaves like it: same operator for all "
     "parameter values, same states, same expectation values, same trainable parameters and inputs, same tags, same trained parameter values where they are "
     "saved. Serialization does not modify the original.",
     ["programs", "inputs", "configurations"], "all serializable objects, parameter expressions and formats",
     "Tests round-trip a handful of objects and mostly compare with the library's own equality.",
     ["qadence/serialization.py", "qadence/serial_expr_grammar.py", "qadence/blocks/*", "qadence/operations/*", "qadence/model.py", "qadence/ml_tools/models.py"],
     [("to_dict/from_dict of blocks", "qadence/blocks/*, qadence/operations/*"), ("expression (de)serialization", "qadence/parameters.py, qadence/serialization.py"),
      ("model serialization", "qadence/model.py")],
     ["serialize", "deserialize", "save", "load", "QuantumModel.save/load", "run", "expectation"],
     design="Round trips of random objects; the restored object is executed and compared with the numpy reference of the spec, not only with the library's own equality. The original is serialized a second time to observe that it was not modified.")
prop("C09", "Deserialization of expressions never executes code",
     "Deserializing an expression, block, circuit or model from untrusted text either rejects it with an exception or builds a symbolic "
     "expression; it never calls Python builtins, imports modules, opens files, runs commands, exits, prints, or returns anything but a sympy "
     "expression. Genuine serialized expressions are always accepted.",
     ["inputs"], "all strings offered as serialized expressions, directly or inside dictionaries and files",
     "Tests try a few malicious strings; the space of strings that a permissive grammar accepts is unbounded.",
     ["qadence/serialization.py", "qadence/serial_expr_grammar.py"],
     [("grammar check", "qadence/serial_expr_grammar.py"), ("restricted evaluation", "qadence/serialization.py")],
     ["parse_expr_fn", "deserialize", "load"], technique="interpreter audit hook (sanitizer) with canaries under hostile input generation",
     design="A sys.addaudithook monitor plus canary files, captured output, environment and result-type checks watch deserialization of generated hostile strings; genuine expressions are interleaved and must be accepted.")
prop("C12", "One value per parameter name, everywhere, and nothing else is trainable",
     "In a model, the set of trainable parameters is exactly the set of distinct trainable parameter names of the circuit and observables, "
     "each counted once and shared by all its uses; constants and feature parameters are never trainable. Resetting, "
     "optimising, or modifying in place a parameter changes every use of it and nothing else; a value given at call time overrides the "
     "stored one for that call only; order and extra entries of the given values are irrelevant; a missing feature value is reported. "
     "Fixing a parameter makes it an input, making it variational makes it trainable again. Evaluating a parameter expression numerically "
     "gives its mathematical value.",
     ["programs", "inputs", "histories"], "all models, parameter sharing patterns and sequences of parameter updates",
     "Tests check single updates on fixed circuits.",
     ["qadence/parameters.py", "qadence/model.py", "qadence/blocks/embedding.py", "qadence/circuit.py", "qadence/blocks/utils.py"],
     [("embedding", "qadence/blocks/embedding.py"), ("model parameter handling", "qadence/model.py"), ("evaluate", "qadence/parameters.py")],
     ["QuantumModel.vparams/num_vparams/reset_vparams/named_parameters/inputs", "set_as_fixed/set_as_variational", "evaluate", "run", "expectation"],
     design="A shadow store of parameter values is updated along a random sequence of updates; after each step the listing and the executed states and expectations are compared with the reference evaluated on the shadow values.")
prop("C11", "Evaluations are pure and independent of history",
     "Running, sampling, differentiating, transpiling, adjoining, printing, copying, composing or serializing a circuit, block or model never "
     "modifies the blocks, circuits, parameter values, states, value dictionaries and configurations that were given, nor the parameters of "
     "any other model. Every deterministic result depends only on the inputs of the call: it is the same after any history of other calls, "
     "for models sharing blocks, for the same block object used several times, and when several threads evaluate at once; sampling with the "
     "same seed gives the same samples.",
     ["histories", "schedules", "programs"], "all call histories over shared objects (a noise model given to a call is excluded: it stays set on the circuit by design)",
     "Tests evaluate freshly built objects once; histories of interleaved calls are unbounded.",
     ["qadence/model.py", "qadence/backends/pyqtorch/backend.py", "qadence/blocks/*", "qadence/transpile/*", "qadence/engines/torch/*"],
     [("in-place state and parameter handling", "qadence/backends/pyqtorch/backend.py"), ("transpilation copies", "qadence/transpile/*")],
     ["QuantumModel.run/expectation/sample", "run/expectation/sample", "dagger", "transpile", "serialize", "copy"],
     technique="runtime monitor: snapshots of shared state plus reference oracle along random call histories and concurrent threads",
     design="Structural snapshots of every shared object are compared after every step of a random history, and both models are evaluated against the reference; threads evaluate the models concurrently with a 10 us switch interval.")
prop("C16", "Analog blocks evolve the Rydberg Hamiltonian of the register and its device",
     "Running a circuit with analog rotations (global or local: AnalogRX/RY/RZ/Rot), waits (AnalogInteraction) and digital gates gives the "
     "state evolved for the block's duration (in ns) under H = sum_i [Omega/2 (cos(phi) X_i - sin(phi) Y_i) - delta N_i] over the addressed "
     "qubits, plus the addressing-pattern terms, plus the interaction of all pairs of qubits of the register: C6/R^6 N_i N_j with the coefficient of the "
     "device's Rydberg level, or C3/R^3 (X_i X_j + Y_i Y_j), R being the register distance of the pair in micrometers. Chains add "
     "durations and act in order; the rotations of a kron are executed one after the other. Settings may be parametric and are differentiable.",
     ["programs", "inputs", "configurations"], "all registers, devices, addressing patterns, analog programs and parameter values",
     "Tests compare fixed blocks on two- or three-qubit registers with the same code's Hamiltonian.",
     ["qadence/analog/*", "qadence/blocks/analog.py", "qadence/operations/analog.py", "qadence/register.py", "qadence/constructors/rydberg_hea.py"],
     [("analog to digital conversion", "qadence/analog/parse_analog.py"), ("Hamiltonian terms", "qadence/analog/hamiltonian_terms.py"),
      ("addressing patterns", "qadence/analog/addressing.py")],
     ["run", "expectation", "add_background_hamiltonian", "AddressingPattern", "RydbergDevice"],
     design="Random analog programs run on random registers and devices; the oracle exponentiates the documented Hamiltonian built in numpy from the spec (coordinates, device, pattern).")
prop("C17", "Circuit constructors build the announced unitary",
     "For all sizes, depths, supports, operations, entanglers, ranges, scalings and parameter values: qft is the discrete Fourier transform "
     "(with or without inverse, output swaps, input reversal, digitally or by sDAQC); daqc_transform evolves exactly the target Hamiltonian using "
     "only the build Hamiltonian and single-qubit gates; feature maps put one rotation per support qubit with the announced basis function, "
     "range mapping, re-upload scaling and multiplier of the non-trainable feature; hea and ala consist of the announced layers of rotations "
     "and entanglers with one distinct trainable parameter per parametric gate; the identity-initialised ansatz is the identity at its initial "
     "values; Rydberg feature maps and ansatz layers generate the documented evolutions.",
     ["inputs", "configurations"], "all constructor arguments and parameter values",
     "Tests check the block structure or one instance; argument combinations (support, order, scaling, inverse) are unbounded.",
     ["qadence/constructors/*"],
     [("QFT", "qadence/constructors/qft.py"), ("DAQC", "qadence/constructors/daqc/daqc.py"), ("feature maps", "qadence/constructors/feature_maps.py"),
      ("ansatze", "qadence/constructors/hea.py"), ("ALA", "qadence/constructors/ala.py"), ("IIA", "qadence/constructors/iia.py")],
     ["qft", "daqc_transform", "feature_map", "exp_fourier_feature_map", "hea", "ala", "identity_initialized_ansatz", "rydberg_hea", "rydberg_feature_map"],
     design="The constructed block's matrix and its execution on random states at random parameter values are compared with a reference built from the documented construction; trainable and feature parameter sets are compared by name.")
prop("C22", "The training loop follows its configuration, step by step and exactly once",
     "Trainer.fit runs max_iter + 1 epochs from its starting step; each epoch processes the batches of the training data in order (the number "
     "of batches of the finite data loader, limited by max_batches; one for infinite or absent data), performing one optimizer step per batch on "
     "the loss of that batch, with the model in training mode. Validation runs once before training and after every epoch that is a multiple of "
     "val_every, in evaluation mode and without gradients or changes to the model. Hooks and callbacks fire in that order at every stage start "
     "and end, each at its period and condition (never at iteration 0 except at the start and end of training), and see the iteration, the mean "
     "loss and metrics of the phase that just ended, named train_/val_/test_; metrics are written, printed and plotted at their periods between "
     "the opening and the closing of the writer. An interrupt ends the training after the current epoch, gracefully. Gradient-free training "
     "tells the optimizer, for every batch, the loss of exactly the parameters it proposed and leaves the model with the last proposal. test() "
     "evaluates the test data batch by batch. The final parameters equal those of the plain loop.",
     ["histories", "configurations", "crash_points"], "all configurations, data sets, optimizers, callbacks and interrupt points in a single process",
     "Tests count a few loss calls or check convergence; the order of events over all configurations and interrupt points is unbounded.",
     ["qadence/ml_tools/trainer.py", "qadence/ml_tools/train_utils/base_trainer.py", "qadence/ml_tools/callbacks/*", "qadence/ml_tools/optimize_step.py",
      "qadence/ml_tools/data.py", "qadence/ml_tools/parameters.py"],
     [("training loop", "qadence/ml_tools/trainer.py"), ("stage callbacks", "qadence/ml_tools/train_utils/base_trainer.py"),
      ("callback schedule", "qadence/ml_tools/callbacks/callback.py"), ("optimization steps", "qadence/ml_tools/optimize_step.py")],
     ["Trainer.fit", "Trainer.test", "TrainConfig", "Callback", "to_dataloader"],
     technique="runtime monitor: ordered event log of hooks, callbacks, loss calls and writes checked against an executable trace specification",
     design="Every hook, callback, loss evaluation (with mode, batch and parameters) and writer call of a run is logged in one ordered log and compared event by event with the log of an independent loop (vf/train.py:Loop) run on a copy of the model; interrupts are injected at random events.")
prop("C23", "Checkpoints capture the training state and training resumes from the latest",
     "A checkpoint is written at every multiple of checkpoint_every (not 0), at the end of training (if checkpoint_every is set) and before "
     "training when validating; it holds the model, optimizer state and iteration of that moment. A run over a log folder that has checkpoints "
     "continues from the one with the highest iteration, whatever the initial state of the given model and optimizer, exactly as if training had "
     "not stopped there, after a normal end, an interrupt or a crash at any event. With checkpoint_best_only the single best checkpoint is the "
     "one of the validation that last met the criterion. Loading a named checkpoint restores that one; loading from a new folder restores "
     "nothing and creates it.",
     ["histories", "crash_points"], "all sequences of runs over one log folder, end points, periods, models and torch optimizers",
     "Tests check that files exist or load one checkpoint; sequences of crashed and resumed runs are unbounded.",
     ["qadence/ml_tools/callbacks/saveload.py", "qadence/ml_tools/callbacks/callback.py", "qadence/ml_tools/callbacks/callbackmanager.py",
      "qadence/ml_tools/train_utils/config_manager.py", "qadence/model.py", "qadence/ml_tools/models.py"],
     [("latest checkpoint", "qadence/ml_tools/callbacks/saveload.py"), ("resume", "qadence/ml_tools/callbacks/callbackmanager.py")],
     ["Trainer.fit", "load_checkpoint", "write_checkpoint", "TrainConfig"],
     technique="runtime monitor: crash injection at logged events, resumed runs compared with an executable specification keeping its own checkpoints",
     design="Histories of up to three runs with injected crashes and interrupts; the event log, parameters, optimizer state and every file on disk are compared with the specification loop's own checkpoints.")
prop("C29", "Learning-rate schedules, early stopping and gradient monitoring",
     "During training, step decay multiplies every learning rate by gamma at each of its calls; the cyclic schedule is the triangular wave "
     "between base_lr and max_lr of half period step_size; cosine annealing follows the half cosine from the initial learning rate of each "
     "group to min_lr over t_max iterations; early stopping ends training after the epoch in which the monitored metric has not improved for "
     "patience calls (min or max mode), and not earlier; gradient monitoring records mean, standard deviation, maximum and minimum of each "
     "parameter's gradient. Each acts only at its stage and period and the optimizer uses the scheduled rate from then on.",
     ["histories", "configurations"], "all schedules, stages, periods, optimizers (several parameter groups) and metric sequences",
     "Tests call each callback once by hand.",
     ["qadence/ml_tools/callbacks/callback.py"],
     [("schedulers and early stopping", "qadence/ml_tools/callbacks/callback.py")],
     ["LRSchedulerStepDecay", "LRSchedulerCyclic", "LRSchedulerCosineAnnealing", "EarlyStopping", "GradientMonitoring"],
     technique="runtime monitor: learning rate, stop decision and gradient statistics observed at every training event against an executable specification",
     design="The learning rates of all groups are observed at every stage event of a training run and compared with the closed-form schedules; the stopping epoch is derived from the observed metric history.")
prop("C24", "A QNN is the function of its inputs that its circuit and observables define",
     "For every circuit, observable list, input order, batch of inputs and differentiation mode: calling a QNN with a tensor assigns column i to "
     "the i-th name of inputs (a vector when there is one input), gives the same result as calling it with the dictionary of those values, and "
     "returns one row per batch entry and one column per observable, each the expectation value. run and sample accept the same inputs. "
     "in_features, out_features and inputs report what was declared; an ambiguous input order or a tensor with the wrong number of columns is "
     "rejected. derivative(qnn, x, indices) is the (mixed, higher-order) partial derivative with respect to the named columns, by automatic and "
     "by finite differences; gradients flow to the input tensor. A given initial state or observable is used. Serialization keeps outputs, "
     "input order and input differentiation mode.",
     ["inputs", "programs", "configurations"], "all circuits, observables, input orders, batches and derivative indices",
     "Tests evaluate a few QNNs built from constructors and check shapes or one analytic derivative.",
     ["qadence/ml_tools/models.py", "qadence/model.py", "qadence/backends/utils.py", "qadence/serialization.py"],
     [("QNN", "qadence/ml_tools/models.py"), ("finite differences", "qadence/backends/utils.py")],
     ["QNN", "derivative", "serialize"],
     design="Random circuits with up to three features in random input order are evaluated through every entry point and compared with the numpy reference; derivatives with high-order finite differences of the reference.")
prop("C18", "Overlaps of parametric states are the squared inner product",
     "For every pair of parametric circuits on the same number of qubits and all parameter values, Overlap with the exact, compute-uncompute, "
     "swap-test and Hadamard-test methods gives |<bra|ket>|^2 of the two prepared states (the first within floating-point error, all within "
     "statistical error when shots are used), as a matrix over the batch of bra values by the batch of ket values; the Jensen-Shannon method "
     "gives the documented kernel of the two measured distributions. Values lie in [0, 1], are 1 for identical states, symmetric under exchange "
     "of bra and ket, and their gradients with respect to trainable parameters are those of the squared inner product. Initial states given for "
     "bra or ket are used.",
     ["inputs", "programs", "configurations"], "all pairs of unitary circuits with at most one feature parameter each, batches, initial states and methods",
     "Tests compare methods on a couple of circuits.",
     ["qadence/overlap.py", "qadence/model.py", "qadence/divergences.py", "qadence/states.py"],
     [("overlap methods", "qadence/overlap.py")], ["Overlap", "OverlapMethod", "fidelity"],
     design="Every method runs on random circuit pairs, batches of unequal size and initial states; a numpy reference prepares both states and gives the matrix of squared inner products (and the Jensen-Shannon kernel); with shots the deviation is bounded by six standard deviations. Feature parameters shared by bra and ket are an open known finding.")
prop("C20", "Measurement protocols estimate the expectation value they stand for",
     "For every circuit, non-parametric observable made of scaled Pauli strings (factors in any order, explicit identities, nested and scaled "
     "sums), batch and initial state: expectation with the tomography protocol and with classical shadows is an unbiased estimate of the exact "
     "expectation value, equal to it for terms of which the state is an eigenstate (tomography) and within statistical error otherwise, with one row per batch "
     "element and one column per observable; the same holds for shift-rule gradients measured by tomography. Expectation values computed from "
     "given samples equal the mean of the observable over the samples, and observables not diagonal in the measured basis are rejected.",
     ["inputs", "programs", "configurations"], "all circuits and Pauli observables, protocols, batches and numbers of shots",
     "Tests compare protocols on a few fixed observables with loose tolerances.",
     ["qadence/measurements/*", "qadence/measurements/tomography.py", "qadence/measurements/shadow.py", "qadence/measurements/samples.py", "qadence/measurements/utils.py", "qadence/engines/torch/differentiable_expectation.py"],
     [("tomography", "qadence/measurements/tomography.py"), ("shadows", "qadence/measurements/shadow.py"), ("samples", "qadence/measurements/samples.py")],
     ["Measurements", "QuantumModel.expectation", "QNN"],
     design="Product stabiliser states make most Pauli terms deterministic, so tomography must reproduce them exactly; general states are judged within six standard deviations of the term variances known from the numpy reference.")
prop("C21", "Noise acts exactly where and as declared",
     "For every circuit whose gates carry digital noise (given per gate, by set_noise on a block or circuit for all gates or one class, by the "
     "model, or by the call), the density matrix, expectation values, their gradients in every supported mode and the sampled distribution are "
     "those of applying, after each noisy gate, its channels in order to the gate's target; the density matrix keeps unit trace, in either "
     "endianness, and serialization (also through JSON) keeps the noise. Readout noise transforms the distribution of samples by its confusion "
     "matrix (independent or correlated), conserves the number of shots and does nothing at probability zero. Time-dependent evolutions with "
     "jump operators follow the Lindblad equation. A NoiseHandler holds its sources in order, accepts exactly the documented combinations, is "
     "unchanged by a rejected append, never changes the handlers appended to it, compares equal exactly to handlers of the same sources, and "
     "filters and serializes without loss.",
     ["inputs", "programs", "histories"], "all digital circuits (CSWAP and Hamiltonian evolutions excepted) with the seven digital channels, readout noise and sequences of handler operations",
     "Tests check that noisy and noiseless outputs differ, on two gates.",
     ["qadence/noise/protocols.py", "qadence/transpile/noise.py", "qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/pyqtorch/backend.py", "qadence/blocks/primitive.py", "qadence/model.py", "qadence/operations/*"],
     [("handler rules", "qadence/noise/protocols.py"), ("conversion", "qadence/backends/pyqtorch/convert_ops.py"), ("set_noise", "qadence/transpile/noise.py")],
     ["NoiseHandler", "NoiseProtocol", "set_noise", "QuantumModel", "HamEvo"],
     design="Noisy circuits run through every way of declaring noise and are compared with a numpy density-matrix simulation with explicit Kraus operators; handler histories are compared step by step with a list model; permutation confusion matrices make readout outcomes exact.")
prop("C30", "Models built from configurations are the documented circuits and observables",
     "QNN.from_configs (feature map, ansatz and observable configurations) and QCNN build the model the configuration describes: for every "
     "number of features, basis set, scaling, feature and target range, support, multivariate strategy (series or parallel), number of repeats "
     "and trainable prefix, every ansatz type and strategy and every observable configuration (interaction, detuning, scale and shift as number, "
     "trainable parameter or feature), the input order, the set of trainable parameters and the outputs are those of the documented construction.",
     ["configurations", "inputs"], "all valid combinations of the configuration fields",
     "Tests instantiate some combinations and check shapes; the cross product of options is far larger.",
     ["qadence/ml_tools/config.py", "qadence/ml_tools/constructors.py", "qadence/ml_tools/models.py", "qadence/ml_tools/qcnn_model.py", "qadence/constructors/*"],
     [("constructors", "qadence/ml_tools/constructors.py"), ("configurations", "qadence/ml_tools/config.py"), ("QCNN", "qadence/ml_tools/qcnn_model.py")],
     ["QNN.from_configs", "FeatureMapConfig", "AnsatzConfig", "ObservableConfig", "create_fm_blocks", "create_ansatz", "QCNN"],
     design="Random configurations are turned into a spec by an independent implementation of the documentation, evaluated by the numpy reference and compared with the model's outputs for random inputs and parameter values.")
prop("C25", "The JAX backend computes the same results as the definition",
     "For every circuit of the gates the horqrux backend supports, every observable, parameter value (batched for expectations) and initial state, "
     "states, expectation values, samples and matrices of the JAX backend are those of the definition; gradients and second derivatives of "
     "expectation values by automatic differentiation, and gradients by parameter shifts (for uncontrolled rotations), with respect to every trainable "
     "and feature parameter are exact and have the shape of the parameter. A gate or block it does not support is refused, never ignored.",
     ["programs", "inputs", "configurations"], "all circuits of Pauli, Hadamard, swap, rotation, controlled gates and Hamiltonian evolutions with numeric and parametric settings, all Pauli observables",
     "Tests use a few circuits with one parameter.",
     ["qadence/backends/horqrux/backend.py", "qadence/backends/horqrux/convert_ops.py", "qadence/backends/jax_utils.py", "qadence/engines/jax/differentiable_backend.py",
      "qadence/engines/jax/differentiable_expectation.py", "qadence/blocks/embedding.py"],
     [("conversion", "qadence/backends/horqrux/convert_ops.py"), ("expectation and sampling", "qadence/backends/horqrux/backend.py"),
      ("parameter shifts", "qadence/engines/jax/differentiable_expectation.py")],
     ["backend_factory(HORQRUX)", "jax.grad", "block_to_jax"],
     design="Random circuits are converted for the JAX engine in the AD and GPSR modes; results are compared entrywise with the numpy reference, gradients with finite differences of the reference, samples with the Born distribution at six standard deviations.")
prop("C26", "The Pulser backend plays the program",
     "For every register, device, addressing pattern and sequence of global and local analog rotations and interactions, and for digital rotations of "
     "distant qubits, the Pulser backend returns the state of the documented Rydberg evolution within the time resolution of its pulses (1 ns), for "
     "numeric and parametric settings, batches, initial states and both endiannesses, and its expectation values, gradients and samples are those of "
     "that state; it agrees with the emulation on the default backend. With analog noise it returns density matrices (unit trace, positive, one per "
     "noise level) whose deviation vanishes with the rate.",
     ["programs", "inputs", "configurations"], "all analog programs with positive durations, amplitudes and angles within the device's limits, one to three qubits",
     "Tests compare a few fixed programs with loose overlaps.",
     ["qadence/backends/pulser/backend.py", "qadence/backends/pulser/pulses.py", "qadence/backends/pulser/channels.py", "qadence/backends/pulser/convert_ops.py",
      "qadence/backends/pulser/devices.py", "qadence/blocks/analog.py", "qadence/operations/analog.py"],
     [("pulses", "qadence/backends/pulser/pulses.py"), ("execution", "qadence/backends/pulser/backend.py"), ("observables", "qadence/backends/pulser/convert_ops.py")],
     ["run(backend='pulser')", "QuantumModel(backend='pulser')", "AnalogRot", "AnalogInteraction", "RydbergDevice"],
     design="Random programs are played through Pulser's simulator; the oracle exponentiates the documented Hamiltonian block by block; the allowed infidelity is that of rounding every pulse to 1 ns.")
prop("C28", "Readout mitigation inverts readout noise and conserves shots",
     "Readout error mitigation, with both optimisation types, maps counts to counts: non-negative, with the same number of shots, over bitstrings of "
     "the same length, without changing its input. Applied to the exact image of a distribution under the confusion matrices of the noise it returns "
     "that distribution (up to rounding), it leaves counts of ideal readout alone, and in general it returns the distribution nearest to the inverted "
     "table (mle) or the least-squares solution on the probability simplex (constrained). It is applied whether it comes from the model, the backend "
     "or the sample function, survives serialization, and an unknown protocol is refused. The zero-noise extrapolation recovers the value at zero "
     "noise of polynomial data.",
     ["inputs", "configurations"], "all count dictionaries, confusion matrices (from a probability or given per qubit) and methods",
     "Tests check one two-qubit circuit per method with a loose tolerance.",
     ["qadence/mitigations/protocols.py", "qadence/mitigations/readout.py", "qadence/mitigations/analog_zne.py", "qadence/model.py", "qadence/backends/pyqtorch/backend.py"],
     [("corrections", "qadence/mitigations/readout.py"), ("protocols", "qadence/mitigations/protocols.py"), ("extrapolation", "qadence/mitigations/analog_zne.py")],
     ["Mitigations", "Mitigations.mitigation()", "QuantumModel.sample", "readout.mitigation_minimization"],
     design="Counts are images of chosen distributions under chosen confusion matrices, so that the corrected counts are known; methods are compared with an independent numpy projection on the simplex; totals, signs and keys are monitored in every case.")
prop("C27", "Block arithmetic, equality and structural queries mean what they say",
     "Every arithmetic operation on blocks (products, tensor products, sums, differences, scalings by numbers and parameters, division, powers, unary "
     "and in-place forms, sum, generators) builds the block whose operator is the same expression of the operands' operators, leaves the operands "
     "unchanged, and refuses what has no meaning (overlapping tensor products, sums with numbers, division by blocks). Equality is symmetric, holds "
     "for blocks built alike and never for blocks that denote different operators; circuits compare like their blocks and registers. Supports are the "
     "unions of the parts. Queries (primitive blocks, Pauli blocks, parameters, expressions, tags, containment, iteration, unrolled sums, commutation "
     "and Hamiltonian predicates) report exactly what the structure contains.",
     ["programs", "histories", "inputs"], "all digital blocks and sequences of operations on them",
     "Tests check single operations on two or three fixed blocks.",
     ["qadence/blocks/abstract.py", "qadence/blocks/composite.py", "qadence/blocks/primitive.py", "qadence/blocks/utils.py", "qadence/qubit_support.py", "qadence/circuit.py",
      "qadence/operations/ham_evo.py"],
     [("operators", "qadence/blocks/abstract.py"), ("equality and containment", "qadence/blocks/composite.py"), ("queries", "qadence/blocks/utils.py")],
     ["AbstractBlock", "chain", "kron", "add", "QuantumCircuit", "QubitSupport", "unroll_block_with_scaling"],
     design="Random histories of operations with shared operands are mirrored by numpy matrices, compared after every step, operands included; pairs of specs that differ in one place decide equality; queries are compared with a traversal of the spec.")
prop("C31", "Distributed training is the training of the averaged loss",
     "Training distributed over processes (Trainer.fit with nprocs > 1, or a function wrapped by Accelerator.distribute) runs the user's loop in "
     "every process. In each epoch the rows of a finite data set are partitioned over the processes: every row is used, none more often than the "
     "padding to equal shares requires; infinite loaders give every process its own passes. All processes hold the same parameters at every "
     "evaluation: those after the optimizer steps on the gradients averaged over the processes, also when training resumes from a checkpoint "
     "(in the same epoch and optimizer state everywhere), and the model of the caller ends with them. Metrics are those of the process, or the "
     "average over the processes with all_reduce_metrics; all_reduce_dict and broadcast give every process the same reduction and object. Only "
     "the main process writes files, and its checkpoints load into the model. A process that fails or is killed fails the training, with its "
     "error, instead of hanging it or passing unnoticed; no process is left behind.",
     ["schedules", "configurations", "fault_sequences", "histories"],
     "all numbers of processes, relative speeds, data set and batch sizes, loaders, optimizers, validation and checkpoint periods, repeated fits and failing processes (CPU, gloo)",
     "Tests run one or two processes and look at shapes; interleavings of the processes, resumption and faults are not tested.",
     ["qadence/ml_tools/train_utils/accelerator.py", "qadence/ml_tools/train_utils/distribution.py", "qadence/ml_tools/train_utils/execution.py",
      "qadence/ml_tools/trainer.py", "qadence/ml_tools/callbacks/*"],
     [("processes and data", "qadence/ml_tools/train_utils/accelerator.py"), ("process group", "qadence/ml_tools/train_utils/distribution.py"),
      ("aggregated results", "qadence/ml_tools/trainer.py")],
     ["Trainer.fit", "Accelerator.distribute", "Accelerator.prepare", "Accelerator.all_reduce_dict", "TrainConfig.nprocs"],
     technique="runtime monitor: event logs recorded in every process under random delays, failing and killed processes; offline checker replays the merged logs",
     design="Each scenario runs in a process of its own (vf/dist_worker.py); every spawned process logs parameters, samples, metrics, reductions, and files opened for writing (an audit hook); random delays before every step change the relative speed of the processes, and a random process raises or is killed at a random step. The offline checker (vf/props/c31.py) replays the merged logs: partition, averaged-gradient steps with the same optimizer in one process, metrics, files, final parameters and left-over processes.")
prop("C13", "Data loaders and parameter vectors deliver exactly the user's numbers",
     "A finite loader of to_dataloader yields, in every pass of every iterator, each row once, in order, in batches of the batch size (the last "
     "one shorter); an infinite one yields full batches forever, every n consecutive rows of an iterator being a full pass over the data, in "
     "shuffled order, whatever other iterators do; the tensors of a batch show the same rows with their dtype and shape, and data of different "
     "lengths is refused. A DictDataLoader yields the batches of all its loaders under their keys until the shortest ends, and again on the next "
     "iteration. data_to_device and prepare_batch move tensors, containers, datasets and loaders without changing values, structure, batch size or "
     "sampling. get_parameters and set_parameters read and write exactly the trainable parameters, in order, in place.",
     ["inputs", "histories"], "all data sets, batch sizes, loader settings, interleavings of iterators and modules",
     "Tests look at the shape of a first batch.",
     ["qadence/ml_tools/data.py", "qadence/ml_tools/parameters.py", "qadence/ml_tools/tensors.py", "qadence/ml_tools/train_utils/accelerator.py"],
     [("loaders", "qadence/ml_tools/data.py"), ("parameter vectors", "qadence/ml_tools/parameters.py")],
     ["to_dataloader", "DictDataLoader", "data_to_device", "get_parameters", "set_parameters"],
     technique="runtime monitor: rows tagged with their index, an online checker follows every pass of interleaved iterators; model-based checker of parameter histories",
     design="Every row carries its index and tensor number, so each delivered batch identifies its rows; an online checker per iterator follows the passes while iterators are interleaved, abandoned and restarted; random get/set histories of parameter vectors are compared with a model.")
prop("C32", "Information content describes the sampled loss landscape",
     "InformationContent evaluates the user's loss once at each of the requested number of random points of [0, 2 pi], varying the trainable "
     "parameters only and leaving the model as it found it. Its finite differences are those of consecutive losses over their distance; for each "
     "threshold the symbols are the signs outside the threshold, the transition probabilities are the frequencies of changes between consecutive "
     "symbols, and the information content is their entropy in base 6, in the order of the thresholds given. Maximum, sensitivity and the "
     "bounds on the average gradient norm follow from them by their formulas, also when Trainer calls it.",
     ["inputs", "configurations"], "all models, losses, data, thresholds and numbers of variations",
     "Tests check ranges and shapes on one model.",
     ["qadence/ml_tools/information/*", "qadence/ml_tools/trainer.py"],
     [("information content", "qadence/ml_tools/information/information_content.py")],
     ["InformationContent", "Trainer.gradient_information_content", "Trainer.get_ic_grad_bounds"],
     technique="runtime monitor: hooked loss evaluations, offline recomputation of the landscape statistics from the log",
     design="A hook in the model logs the parameters of every loss evaluation. The offline checker recomputes points, finite differences, symbols, transition probabilities, entropies and bounds from the log in numpy, and checks that frozen parameters, constants, features and the model itself are untouched.")
prop("C33", "Gates announce their true spectrum, generator and parameters",
     "For every gate with a matrix, `eigenvalues` is the spectrum of that matrix (with multiplicity); the generator G of a rotation reproduces it as "
     "exp(-i theta G / 2) (up to sign for phase gates), and `eigenvalues_generator` is the spectrum of the generator, Hamiltonian or logarithm of the "
     "matrix. The table of spectra and shifts for the parameter-shift rule lists for every parameter of a block the spectrum of its gate. "
     "`evaluate` of a parameter expression gives its value at the parameters' values or the given ones, and changes none of them.",
     ["inputs", "programs"], "all gates, qubits, angles, expressions, Hamiltonians and matrices",
     "Tests compare single gates at single angles.",
     ["qadence/operations/*", "qadence/blocks/primitive.py", "qadence/blocks/matrix.py", "qadence/blocks/utils.py", "qadence/utils.py", "qadence/parameters.py"],
     [("spectra", "qadence/operations/"), ("table for parameter shifts", "qadence/blocks/utils.py"), ("evaluation", "qadence/parameters.py")],
     ["AbstractBlock.eigenvalues", "generator", "eigenvalues_generator", "uuid_to_eigen", "evaluate"],
     technique="runtime monitor: differential oracle with reference matrices of random gates",
     design="Random gates are built next to their numpy reference matrix; announced spectra are matched as multisets with those of the reference, generators are exponentiated, the table is compared with the gates it lists, and expressions are evaluated independently.")
prop("C34", "Evolutions under time-dependent Hamiltonians solve the Schroedinger equation",
     "A circuit with evolutions under Hamiltonians whose terms have coefficients of time, features and variational parameters maps every state to the "
     "solution of the Schroedinger equation (of the Lindblad equation with jump operators) over the duration: in states, samples, expectation values and "
     "their derivatives, matrices, daggers, serialized copies, looped batches and networks. The time is no input; parameters may have any name and number "
     "and be shared with gates.",
     ["inputs", "programs", "configurations"], "all Hamiltonian trees, coefficient expressions, durations, parameter names and values, qubits",
     "Tests run two Hamiltonians at fixed values.",
     ["qadence/operations/ham_evo.py", "qadence/backends/pyqtorch/convert_ops.py", "qadence/blocks/block_to_tensor.py", "qadence/blocks/embedding.py", "qadence/model.py", "qadence/parameters.py"],
     [("conversion of time-dependent generators", "qadence/backends/pyqtorch/convert_ops.py"), ("matrix and dagger", "qadence/operations/ham_evo.py"), ("inputs of a model", "qadence/model.py")],
     ["HamEvo", "TimeParameter", "run", "expectation", "sample", "QuantumModel", "block_to_tensor", "dagger"],
     technique="runtime monitor: differential oracle, fourth-order Magnus integration in numpy",
     design="Random Hamiltonian trees with random coefficient expressions are built next to a numeric evaluator; the oracle integrates them with commutator-free fourth-order steps (matrix exponentials of Liouvillians for jump operators), independent of the solver of the code.")
