# The property records: one dict each.  q(over, text), a(files, mechanism...) build the nested fields.
def q(text, *over):
    return dict(over=list(over) or ["inputs", "programs"], text=text)


def a(files, *mech):
    return dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])


BOUNDS = "Bounded: see DESIGN.md section 3 for the sizes and value ranges of each obligation. "

PROPS = [
    dict(
        id="C01",
        title="Dense and sparse matrices of a block are the operator it denotes",
        statement="For every block and all parameter values, the matrix that qadence reports for the block (dense, or sparse/diagonal where offered, on its own or a larger qubit support, in either endianness) is the mathematical operator the block denotes: gates by their textbook matrices, sequences as products in application order, parallel blocks as tensor products, sums and scalings linearly, Hamiltonian evolutions as exp(-i t H).",
        quantifier=q("every gate, composition and qubit support up to 3-4 qubits, all parameter values and batch sizes, both endiannesses", "inputs", "programs", "configurations"),
        why_tests_cant="tests compare a few gates at sampled parameter values against the same simulator; supports that are unsorted or have gaps, batched parameters inside compositions and the identities over all angles are never quantified over",
        anchors=a(["qadence/blocks/block_to_tensor.py", "qadence/blocks/matrix.py", "qadence/operations/control_ops.py", "qadence/operations/ham_evo.py"],
                  ("dense matrix construction and embedding in a larger support", "qadence/blocks/block_to_tensor.py:_block_to_tensor_embedded, _fill_identities"),
                  ("diagonal/sparse construction", "qadence/blocks/block_to_tensor.py:block_to_diagonal, _block_to_tensor_embedded"),
                  ("gate matrices", "qadence/operations/*.py, qadence/blocks/block_to_tensor.py:OPERATIONS_DICT")),
        note=BOUNDS + "Complete over all parameter values inside the bounds for each enumerated block shape.",
    ),
    dict(
        id="C02",
        title="Running a circuit applies the operator it denotes to the initial state",
        statement="For every circuit, initial state and assignment of values to its parameters, running the circuit returns the state obtained by applying the circuit's operator to the initial state, for every element of a batch of parameters or states. Qubits that the circuit does not touch are left unchanged, and the amplitudes are ordered with qubit 0 as most significant bit unless little-endian output is requested.",
        quantifier=q("every gate and composition (sequence, parallel, sum, scaling, Hamiltonian evolution, projector, arbitrary matrix) on 1-4 qubits, every initial amplitude vector, all parameter values, batch sizes 1-3", "inputs", "programs"),
        why_tests_cant="tests run random circuits at random values against another route through the same library; linearity in the state, all angles and all supports are universal statements",
        anchors=a(["qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/pyqtorch/backend.py", "qadence/execution.py", "qadence/operations/parametric.py", "qadence/operations/ham_evo.py"],
                  ("conversion of blocks to simulator operations", "qadence/backends/pyqtorch/convert_ops.py:convert_block"),
                  ("run entry points and parameter embedding", "qadence/execution.py:run; qadence/backends/pyqtorch/backend.py:Backend.run; qadence/blocks/embedding.py:embedding")),
        note=BOUNDS + "All amplitudes and parameters symbolic; circuit shapes enumerated.",
    ),
    dict(
        id="C03",
        title="Expectation values equal <psi|O|psi> of the prepared state",
        statement="For every circuit, observable, initial state and parameter values, the reported expectation value equals the inner product of the prepared state with the observable applied to it. Several observables yield one column each in the given order, parametric observables use their own parameter values, and batches are evaluated element by element.",
        quantifier=q("observables as Pauli sums, scalings, products and parametric combinations on up to 3 qubits; all parameter values and initial states; batch sizes 1-2", "inputs", "programs"),
        why_tests_cant="tests compare sampled values for particular observables; ordering, broadcasting between circuit and observable batches and linearity must hold for every value",
        anchors=a(["qadence/backends/pyqtorch/backend.py", "qadence/execution.py", "qadence/backends/utils.py", "qadence/engines/torch/differentiable_expectation.py"],
                  ("expectation computation", "qadence/backends/pyqtorch/backend.py:Backend.expectation"),
                  ("observable conversion", "qadence/backends/pyqtorch/backend.py:Backend.observable"),
                  ("entry points", "qadence/execution.py:expectation; qadence/model.py:QuantumModel.expectation")),
        note=BOUNDS,
    ),
    dict(
        id="C04",
        title="The adjoint of a block denotes the conjugate transpose of its operator",
        statement="For every block, the block returned as its adjoint denotes the conjugate transpose of the operator of the block, for all parameter values, and taking the adjoint twice gives back the original operator. Taking the adjoint does not modify the original block.",
        quantifier=q("every gate and composition kind, all parameter values, including parametric scalings and evolutions", "inputs", "programs"),
        why_tests_cant="tests check that gate followed by adjoint is the identity for a handful of gates with fixed values",
        anchors=a(["qadence/blocks/abstract.py", "qadence/blocks/primitive.py", "qadence/blocks/composite.py", "qadence/operations/parametric.py", "qadence/operations/ham_evo.py", "qadence/parameters.py"],
                  ("adjoint of every block class", "qadence/blocks/*.py and qadence/operations/*.py: dagger methods"),
                  ("adjoint of parameters", "qadence/parameters.py:dagger_expression, extract_original_param_entry")),
        note=BOUNDS,
    ),
    dict(
        id="C05",
        title="Circuit rewrites preserve the operator",
        statement="Every rewriting that qadence offers or applies on its own (flattening, pushing scalings to the leaves, merging single-qubit gates, filling idle wires with identities, decomposing evolutions into gates where the terms commute, relabelling qubits and inverting the wire order) yields a circuit that denotes the same operator, with wires permuted where relabelling was requested, for all parameter values. The rewritten circuit is a new object: the original still denotes the same operator.",
        quantifier=q("each rewrite and composition of rewrites on a set of nested programs covering every composition kind, all parameter values and input states", "inputs", "programs", "configurations"),
        why_tests_cant="tests compare the structure of the output for a few hand-written blocks; equality of the denoted operators for all parameters and for any nesting is not tested",
        anchors=a(["qadence/transpile/flatten.py", "qadence/transpile/block.py", "qadence/transpile/digitalize.py", "qadence/transpile/invert.py", "qadence/transpile/circuit.py", "qadence/decompose.py", "qadence/transpile/apply_fn.py"],
                  ("rewrites", "qadence/transpile/*.py"), ("Pauli exponential decomposition", "qadence/decompose.py:decompose_pauli_exp, lie_trotter_suzuki")),
        note=BOUNDS,
    ),
    dict(
        id="C06",
        title="One bit-order convention everywhere; endianness only mirrors the qubits",
        statement="Bit i of every index, bit string, basis state and sample refers to qubit i with qubit 0 most significant, in all entry points. Requesting little-endian output yields exactly the big-endian result with the qubit order mirrored (amplitudes, density matrices, bit strings) and leaves expectation values unchanged; mirroring twice is the identity.",
        quantifier=q("every entry point returning states, samples or expectation values, all amplitudes and parameters on up to 3 qubits, all bit strings of 1-4 bits", "inputs", "configurations"),
        why_tests_cant="tests use symmetric or basis states on a few circuits; that every amplitude lands on the mirrored index, for all states and batches, is a universal statement",
        anchors=a(["qadence/transpile/invert.py", "qadence/utils.py", "qadence/backends/pyqtorch/backend.py", "qadence/states.py"],
                  ("mirroring of states, counters, blocks", "qadence/transpile/invert.py:invert_endianness"),
                  ("integer and bit string conversion", "qadence/utils.py:basis_to_int, int_to_basis, nqubits_to_basis, samples_to_integers")),
        note=BOUNDS,
    ),
    dict(
        id="C07",
        title="Reported derivatives of expectation values are the mathematical derivatives",
        statement="For every circuit, observable and parameter values, the derivatives that automatic, adjoint and generalised parameter-shift differentiation report for expectation values (with respect to feature and trainable parameters, through parameter expressions, for shared parameters, several observables and batches) equal the mathematical derivative. First derivatives hold in all modes, second derivatives where the mode offers them.",
        quantifier=q("every parametric gate and evolutions under commuting terms on up to 3 qubits, all angles, all cotangents, batch sizes 1-3, all modes and shift magnitudes", "inputs", "programs", "configurations"),
        why_tests_cant="tests compare modes with each other or finite differences at sampled points; equality with the derivative as a function of all parameters is not sampled",
        anchors=a(["qadence/engines/torch/differentiable_expectation.py", "qadence/backends/parameter_shift_rules.py", "qadence/engines/torch/differentiable_backend.py", "qadence/blocks/utils.py"],
                  ("shift rules", "qadence/backends/parameter_shift_rules.py:general_psr, single_gap_psr, multi_gap_psr"),
                  ("custom autograd functions", "qadence/engines/torch/differentiable_expectation.py:PSRExpectation, DifferentiableExpectation"),
                  ("spectra per parameter", "qadence/blocks/utils.py:uuid_to_eigen")),
        note=BOUNDS + "Three known findings (adjoint mode, reversed controlled rotations) come from the simulator dependency.",
    ),
    dict(
        id="C09",
        title="Parameter values and expressions reach the gates exactly as written",
        statement="Every gate receives the value of its parameter expression, evaluated as ordinary mathematics with the values given in the call, or else the stored trainable values, or else the fixed number written in the program. Distinct names and distinct numbers are never confused, one name is one value wherever it occurs, copying or rewriting a program does not change the values of its parameters, and models do not share or leak values.",
        quantifier=q("expressions built from the supported functions, all parameter values in their domain, fixed numbers of any size and sign, sequences of calls, resets and trainability switches", "inputs", "programs", "histories"),
        why_tests_cant="tests use a few expressions at a few values; collisions between names or numbers and evaluation of expressions over whole ranges cannot be sampled",
        anchors=a(["qadence/blocks/embedding.py", "qadence/parameters.py", "qadence/model.py", "qadence/backends/pyqtorch/convert_ops.py"],
                  ("embedding of parameters", "qadence/blocks/embedding.py:embedding"),
                  ("names of expressions and numbers", "qadence/parameters.py:stringify, evaluate, make_differentiable"),
                  ("stored values", "qadence/model.py:QuantumModel.reset_vparams, set_as_fixed, set_as_variational")),
        note=BOUNDS,
    ),
]
PROPS += [
    dict(
        id="C08",
        title="What is saved and loaded again means the same",
        statement="Serializing a block, circuit, register, observable, noise handler or model (to a dictionary, to JSON text or to a file) and deserializing it yields an object that denotes the same thing: the same operator for all parameter values, the same parameter names, trainability and stored values, the same register graph, coordinates, spacing and device, the same observables, differentiation mode and protocols. Loading does not change the saved object nor share state with it.",
        quantifier=q("every serializable block kind, composition, parameter expression, register shape and model configuration in the enumerated set, all parameter values", "inputs", "programs", "configurations"),
        why_tests_cant="tests round-trip a few circuits and compare with the library's own equality, which is itself weak; that the loaded program denotes the same operator for all parameter values is not tested",
        anchors=a(["qadence/serialization.py", "qadence/serial_expr_grammar.peg", "qadence/blocks/abstract.py", "qadence/blocks/primitive.py", "qadence/blocks/composite.py", "qadence/parameters.py", "qadence/register.py", "qadence/model.py"],
                  ("entry points", "qadence/serialization.py:serialize, deserialize, save, load"),
                  ("per-class encoders", "_to_dict/_from_dict of blocks, circuits, registers, models, noise and measurement protocols"),
                  ("expressions", "qadence/serial_expr_grammar.peg, qadence/parameters.py:ParamMap._to_dict")),
        note=BOUNDS + "Analog blocks are not serializable in this repository and are outside.",
        method="Round trips (dictionary, JSON text, files) of every block kind and composition, registers, models and protocols; the reloaded program is run on a symbolic state with symbolic parameters and compared with the oracle of the original program, so that equality is equality of the denoted operators and not the library's own `==`. Bounds: the enumerated ~70 shapes on up to 3 qubits, batch 2.",
    ),
    dict(
        id="C10",
        title="Programs that compare equal mean the same",
        statement="Two blocks or circuits that compare equal with == denote the same operator for all parameter values on the same qubits, and building the same program twice gives objects that compare equal. A block never compares equal to one with a different gate, qubit support, order of a sequence, parameter expression, number or matrix.",
        quantifier=q("all pairs inside families of similar programs (gates, supports, orders, parameter expressions, numbers, scalings, evolutions, matrices, circuits with registers), all parameter values", "inputs", "programs"),
        why_tests_cant="tests check equality for a few hand-written pairs; an unsound == shows only for pairs nobody thought of",
        anchors=a(["qadence/blocks/abstract.py", "qadence/blocks/primitive.py", "qadence/blocks/composite.py", "qadence/blocks/matrix.py", "qadence/operations/ham_evo.py", "qadence/parameters.py", "qadence/circuit.py"],
                  ("equality of blocks", "__eq__ of the block classes"), ("equality of expressions", "qadence/parameters.py:same_expression"), ("equality of circuits", "qadence/circuit.py:QuantumCircuit.__eq__")),
        note=BOUNDS + "Noise attached to gates is ignored by equality (existing behaviour) and outside.",
        method="Families of similar programs (about 250 programs): for each pair `==` is evaluated; where it says equal, the two oracle operators must agree for all parameter values (solver); where the two programs were built identically it must say equal; matrix blocks with symbolic entries (the comparison itself becomes a path condition).",
    ),
    dict(
        id="C11",
        title="Every overlap method returns |<bra|ket>|^2",
        statement="For every pair of circuits and all parameter values, the overlap computed exactly, by compute-uncompute, by the SWAP test and by the Hadamard test (from probabilities) is |<bra|ket>|^2 for every pair of bra and ket values of the batches, in the documented order. The result does not depend on the method, on which side has parameters, or on the batch sizes.",
        quantifier=q("bra/ket circuits on 1-3 qubits, all parameter values, bra and ket batch sizes 1-3, all four methods, exact probabilities", "inputs", "programs", "configurations"),
        why_tests_cant="tests compare methods at a few values for one or two circuits; position of every element of the kernel matrix for all batch sizes and one-sided parameters is not covered",
        anchors=a(["qadence/overlap.py"], ("methods", "qadence/overlap.py:overlap_exact, overlap_compute_uncompute, overlap_swap_test, overlap_hadamard_test, Overlap.forward")),
        note=BOUNDS + "Finite-shot estimates are outside (random). Three known findings: the same feature name with different bra and ket values in the three circuit-based methods.",
        method="`Overlap` in each method with symbolic bra and ket parameters (batches 1-3), against |<bra|ket>|^2 from the oracle entry by entry of the kernel matrix; one-sided features, wider circuits, symbolic initial states for the exact method, trainable parameters.",
    ),
    dict(
        id="C12",
        title="State constructors and functions of states compute what they are named after",
        statement="Basis, product, uniform, GHZ and block-based state constructors return the named state in the documented bit order, random constructors return normalised states, and the functions of states (density matrix, partial trace, purity, von Neumann entropy, fidelity, normalisation tests, probabilities, equivalence) return the mathematically defined quantity for every state or density matrix and every element of a batch.",
        quantifier=q("all bit strings on 1-4 qubits, all amplitudes and density matrices on 1-2 qubits (symbolic), batches 1-3", "inputs", "configurations"),
        why_tests_cant="tests evaluate the functions on basis or random states; the defining identities over all states are universal",
        anchors=a(["qadence/states.py", "qadence/overlap.py", "qadence/utils.py"],
                  ("constructors", "qadence/states.py:product_state, uniform_state, ghz_state, random_state and *_block"),
                  ("functions of states", "qadence/states.py:density_mat, partial_trace, normalize, is_normalized, pmf, equivalent_state; qadence/overlap.py:fidelity")),
        note=BOUNDS,
        method="Constructors for all bit strings; functions of states on symbolic amplitudes and on density matrices with symbolic eigenvalues (spectral decomposition with numeric eigenvectors, all eigenvalues; closed form for general 2x2), including both branches of every predicate through path exploration.",
    ),
]
PROPS += [
    dict(
        id="C13",
        title="Hamiltonian and observable constructors build the requested operator",
        statement="For every register, interaction, detuning and strength specification, hamiltonian_factory, the named Hamiltonians (total magnetization, zz, ising, xy-type interactions) and ObservableConfig build exactly the sum of detuning terms on every qubit and interaction terms on every edge (or node pair) of the register, each multiplied by the strength given for it, by the named parameter, or one.",
        quantifier=q("registers up to 4 qubits of every topology, all interactions and detunings, all strengths (symbolic), given as names, arrays, tensors, per node and per edge", "inputs", "configurations"),
        why_tests_cant="tests compare the block structure for a few registers; which strength lands on which edge for every register and interaction is universal",
        anchors=a(["qadence/constructors/hamiltonians.py", "qadence/ml_tools/constructors.py", "qadence/ml_tools/config.py"],
                  ("factory", "qadence/constructors/hamiltonians.py:hamiltonian_factory"), ("named", "qadence/constructors/hamiltonians.py:total_magnetization, zz_hamiltonian, ising_hamiltonian"), ("configs", "qadence/constructors/hamiltonians.py:ObservableConfig and *_config; qadence/ml_tools/constructors.py:observable_from_config")),
        note=BOUNDS + "Known finding: ising_hamiltonian_config lacks the Z terms on registers that are not all-to-all with three or more qubits.",
        method="The operator (dense matrix and expectation value on a symbolic state) of every constructed Hamiltonian with symbolic strengths, against the sum of Pauli terms over the edges of the register; registers line, circle, all-to-all, coordinates without edges and plain integers; interactions ZZ, NN, XY, XYZ and a user function; detunings X, Y, Z, N.",
    ),
    dict(
        id="C14",
        title="Feature maps apply the documented rotation to every value of the feature",
        statement="For every feature value inside the feature range, a feature map rotates qubit i of its support by scaling(i) times multiplier times basis(affine rescaling of the feature from the feature range to the target range), with the given rotation gate; trainable prefactors enter multiplicatively, the exponential feature maps and hyperbolic variants apply their documented products, and the parameter has the requested name and role.",
        quantifier=q("all feature values in the range, both basis sets and custom functions, all scalings, ranges in either order, every support, batches", "inputs", "configurations"),
        why_tests_cant="tests evaluate maps at sample points; the scaling and rescaling formula is a statement over all feature values and ranges",
        anchors=a(["qadence/constructors/feature_maps.py"], ("feature_map", "qadence/constructors/feature_maps.py:feature_map, fm_parameter_scaling, fm_parameter_func, fm_reupload_scaling_fn"), ("exponential", "qadence/constructors/feature_maps.py:exp_fourier_feature_map")),
        note=BOUNDS + "Chebyshev features are taken 5% inside the range (acos has no bounded derivative at the ends).",
        method="Each map is built for every basis, scaling, range, multiplier, support and gate and run on a symbolic state with a symbolic feature batch; the oracle writes out the rotation angle in torch on the same symbols.",
    ),
    dict(
        id="C15",
        title="Ansatz, QFT and digital-analog constructors build the named unitary",
        statement="For all parameter values hea, ala and the identity initialised ansatz apply the documented layers of rotations and entanglers in order on the given support, with one parameter of the documented name per gate; the identity initialised ansatz is the identity at its initial values, whatever was drawn; qft is the (inverse) discrete Fourier transform in the requested qubit order, digitally and digital-analog; daqc_transform implements the evolution under the target Hamiltonian.",
        quantifier=q("1-4 qubits (5 thorough), depth 1-2, every entangler and operation list of the zoo, periodic and not, all parameter values, initial draws and states", "inputs", "configurations"),
        why_tests_cant="tests check the depth, the parameter count or one random evaluation; that the circuit is the right unitary for every parameter value, size and option is not sampled",
        anchors=a(["qadence/constructors/hea.py", "qadence/constructors/ala.py", "qadence/constructors/iia.py", "qadence/constructors/qft.py", "qadence/constructors/daqc/daqc.py"],
                  ("ansatz", "hea_digital, hea_sDAQC, ala_digital, identity_initialized_ansatz"), ("qft", "qft, qft_digital, qft_sDAQC"), ("digital-analog", "daqc_transform")),
        note=BOUNDS + "Ansatz with more than a dozen parameters: three parameters symbolic at a time, the rest at generic values. Digital-analog transforms are computed by the code in single precision; tolerance 3e-5. Known finding: parameter names of the identity initialised ansatz collide beyond ten layers and rotations.",
        method="The constructed block is run on a symbolic state with symbolic parameters and compared with an independent list of gates; initial draws of the identity initialised ansatz are symbolic; QFT against the DFT matrix for every combination of inverse, reversal, swaps and strategy; daqc_transform against the diagonal evolution of the target.",
    ),
]
PROPS += [
    dict(
        id="C16",
        title="QNNs, QCNNs, losses, optimisation steps and loaders compute what is described",
        statement="A QNN returns, for every input batch, the expectation of its observables on its circuit with the columns of the input assigned to its inputs in the given order, followed by the configured rescaling; building it from configurations gives the same function as building it by hand; derivatives by AD and by finite differences are those of that function; getting, setting and reloading parameters reproduces it; losses, optimisation steps, data loaders and the quantum convolutional network compute the documented quantity.",
        quantifier=q("all input batches, parameter values, observables and configurations of the zoo, every order of the inputs, all loader contents", "inputs", "histories", "configurations"),
        why_tests_cant="tests train a few models and look at the loss; which column drives which gate, what a configuration means and that a step is a step of the documented rule must hold for every value",
        anchors=a(["qadence/ml_tools/models.py", "qadence/ml_tools/constructors.py", "qadence/ml_tools/config.py", "qadence/ml_tools/qcnn_model.py", "qadence/ml_tools/optimize_step.py", "qadence/ml_tools/parameters.py", "qadence/ml_tools/loss/loss.py", "qadence/ml_tools/data.py"],
                  ("model", "qadence/ml_tools/models.py:QNN"), ("configurations", "qadence/ml_tools/constructors.py:create_fm_blocks, create_ansatz, build_qnn_from_configs"), ("training step", "qadence/ml_tools/optimize_step.py:optimize_step"), ("data", "qadence/ml_tools/data.py:data_to_device, DictDataLoader, R3Dataset")),
        note=BOUNDS + "Training loops (Trainer, callbacks, trackers, checkpoints) are outside; one optimisation step with plain gradient descent is inside.",
        method="Models are built and called on a symbolic input batch with symbolic parameters; oracle: the feature map and ansatz gates written out with the builders of C14/C15 and the expectation value; derivatives against symbolic differentiation (AD) and the difference quotients of the documented stencil (FD); loss, step and loader outputs against their formula on the same symbols.",
    ),
    dict(
        id="C17",
        title="Registers have the described geometry, edges and distances",
        statement="For every spacing the register constructors place the qubits in the described shape with nearest neighbours at that spacing, connect exactly the described pairs, and report distances, edge distances and coordinates consistently; rescaling multiplies every distance; registers are independent of each other and of the graph they were built from; equality distinguishes registers that differ in coordinates, edges or device.",
        quantifier=q("all spacings in [0.2, 30], all coordinates of up to 4 qubits (symbolic), every shape of the library up to 12 qubits, rescalings in sequence", "inputs", "histories"),
        why_tests_cant="tests count nodes and edges for one spacing; every interaction strength depends on every distance for every spacing and coordinate",
        anchors=a(["qadence/register.py"], ("constructors", "qadence/register.py:Register.line, circle, square, rectangular_lattice, triangular_lattice, honeycomb_lattice, from_coordinates, all_to_all"), ("metrics", "qadence/register.py:Register.distances, edge_distances, min_distance, rescale_coords"), ("equality", "qadence/register.py:Register.__eq__")),
        note=BOUNDS + "Circular layouts are computed by networkx in single precision: distances up to 5e-5.",
        method="Constructors, distances and rescaling run with a symbolic spacing and symbolic coordinates; every distance is compared with that of the unit shape times the spacing, edges with the described set.",
    ),
]
PROPS += [
    dict(
        id="C18",
        title="Analog programs evolve under the Rydberg Hamiltonian of their register",
        statement="Analog rotations, waits and their sequences and parallel compositions evolve the qubits, for all durations, drives, detunings and phases, under the documented Rydberg Hamiltonian of the register: the drive and detuning on the addressed qubits, the distance-dependent (or XY) interaction between every pair, and the semi-local addressing pattern of the device with its weights and limits. Rewriting an analog program into Hamiltonian evolutions does not change what it does.",
        quantifier=q("all durations, drive amplitudes, detunings, phases, pattern amplitudes and initial states; registers of 1-3 qubits; every composition kind and interaction of the zoo", "inputs", "programs", "configurations"),
        why_tests_cant="tests compare a few drives against each other at chosen values; the Hamiltonian of every qubit subset for every drive, phase and pattern is a universal statement",
        anchors=a(["qadence/analog/parse_analog.py", "qadence/analog/hamiltonian_terms.py", "qadence/analog/addressing.py", "qadence/analog/device.py", "qadence/blocks/analog.py", "qadence/operations/analog.py"],
                  ("rewriting into evolutions", "qadence/analog/parse_analog.py:add_background_hamiltonian"), ("Hamiltonian terms", "qadence/analog/hamiltonian_terms.py:rydberg_interaction_hamiltonian, rydberg_drive_hamiltonian, rydberg_pattern_hamiltonian"), ("patterns", "qadence/analog/addressing.py:AddressingPattern")),
        note=BOUNDS + "Qubit coordinates concrete (registers enumerated); circular layouts (single precision) and the Pulser backend are outside.",
        method="Programs run through the real rewriting and simulator with symbolic durations, drives, phases, pattern weights and initial amplitudes; the matrix exponential is an uninterpreted function of the symbolic generator matrix, so the obligation is that the generator handed to it equals the documented Hamiltonian (times the documented time) and that the resulting operators are applied in the documented order; single-qubit drives are also decided against the closed form.",
    ),
    dict(
        id="C19",
        title="Noise acts as the documented channel on exactly the noisy gates and readouts",
        statement="A gate with digital noise applies the gate followed by the documented channel on its target for every error probability, initial state and angle; noise set on a block or circuit reaches exactly the gates it names, survives copies, adjoints and rewriting, and several noises act in order; expectation values and samples are those of the resulting density matrix; readout noise transforms the outcome distribution by the given confusion matrices; noise given to one call does not stay in the program.",
        quantifier=q("all error probabilities in [0, 1], all confusion matrices, all states and angles, every gate, channel and composition of the zoo on 1-2 qubits", "inputs", "programs", "histories"),
        why_tests_cant="tests compare a handful of channels at sampled probabilities with the simulator's own channels; that each gate carries each channel for every probability and state, and that no call leaves anything behind, is universal",
        anchors=a(["qadence/noise/protocols.py", "qadence/transpile/noise.py", "qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/pyqtorch/backend.py", "qadence/operations/primitive.py", "qadence/operations/parametric.py", "qadence/operations/control_ops.py"],
                  ("noise handlers", "qadence/noise/protocols.py:NoiseHandler"), ("setting noise on blocks", "qadence/transpile/noise.py:set_noise"), ("conversion", "qadence/backends/pyqtorch/convert_ops.py:convert_digital_noise, convert_readout_noise")),
        note=BOUNDS + "Random readout noise matrices (scalar error probability), noise operators of HamEvo (ODE solver) and analog noise (Pulser) are outside.",
        method="Noisy circuits run on symbolic states with symbolic probabilities; oracle: sum of K rho K^dagger with the textbook Kraus operators of each channel on the gate's target; sampling compares the weights handed to the sampler with the diagonal of that density matrix, multiplied by the symbolic confusion matrix for readout noise.",
    ),
]
PROPS.append(
    dict(
        id="C20",
        title="Measured estimates are estimates of the observable's expectation value",
        statement="Expectation values obtained by tomography, from counts or by classical shadows estimate <psi|O|psi> for every observable: with the exact outcome distribution in place of the finite sample the estimate is the exact expectation value of each observable, column and batch entry, also under readout noise and for parametric observables; shadow snapshots are drawn from the Born distribution of random Pauli bases and combined by the documented median of means; differentiating a measured model by parameter shifts gives the derivative of that expectation.",
        quantifier=q("all states, angles and observable coefficients, every observable of the zoo (all Pauli strings, unordered and nested products, sums, identities, occupation numbers) on 1-3 qubits, batches 1-2, both sampling endiannesses", "inputs", "programs"),
        why_tests_cant="tests compare finite-sample estimates of a few observables with loose statistical tolerances; unbiasedness for every state and observable is an identity between the outcome weights and the expectation value",
        anchors=a(["qadence/measurements/protocols.py", "qadence/measurements/tomography.py", "qadence/measurements/samples.py", "qadence/measurements/shadow.py", "qadence/measurements/utils.py", "qadence/backend.py"],
                  ("tomography", "qadence/measurements/tomography.py:compute_expectation"), ("counts", "qadence/measurements/samples.py:compute_expectation"), ("shadows", "qadence/measurements/shadow.py:classical_shadow, estimations"), ("Pauli decomposition", "qadence/measurements/utils.py:pauli_decomposition")),
        note=BOUNDS + "Sampling noise itself is outside (the sampler's weights are what is decided); digital noise given at call level together with shadows, mitigation and the Pulser backend are outside.",
        method="The sampler is replaced by a stand-in returning the symbolic outcome weights it was handed (an exact, infinite sample); the real post-processing combines them and the result is compared with <psi|O|psi> of the oracle. For shadows the basis choice is enumerated and the snapshot arithmetic (inverse channel, median of means) is compared with its definition on symbolic weights.",
    )
)
PROPS.append(
    dict(
        id="C21",
        title="Training performs exactly the configured steps and can be resumed",
        statement="Trainer.fit performs one optimiser step per batch over all batches (capped by max_batches) of max_iter+1 epochs and nothing else changes the parameters, so they follow the gradient of the loss on exactly the given data; validation and testing evaluate their own data with the parameters of that moment, without gradients and without effect; reported losses and metrics are those of the batch, or their average over the epoch, under train_/val_/test_ names; callbacks run at their stage in every called_every-th epoch; learning-rate schedules follow their documented curves; early stopping stops exactly when the metric has not improved for `patience` epochs; checkpoints restore parameters, optimiser state and iteration, the latest (or best) is the one loaded, and resumed training equals uninterrupted training; gradient-free training reports the loss of the candidate the model held.",
        quantifier=q("all parameters, data, metric sequences, learning rates and decay factors, for models with 2-3 parameters (a line, a quantum model, a QNN), 1-4 rows, batch sizes 1-5, up to 5 epochs, validation and callback intervals 1-3, patience 1-3, checkpoint iterations of 1 to 6 digits", "inputs", "histories", "crash points"),
        why_tests_cant="tests train on one random data set and check that files exist or the loss fell; that every step, metric, stop and restored value is the right one for every data set and every sequence of losses is an identity",
        anchors=a(["qadence/ml_tools/trainer.py", "qadence/ml_tools/optimize_step.py", "qadence/ml_tools/data.py", "qadence/ml_tools/train_utils/base_trainer.py", "qadence/ml_tools/train_utils/config_manager.py", "qadence/ml_tools/train_utils/accelerator.py", "qadence/ml_tools/callbacks/callback.py", "qadence/ml_tools/callbacks/callbackmanager.py", "qadence/ml_tools/callbacks/saveload.py"],
                  ("fit", "qadence/ml_tools/trainer.py:Trainer.fit, _train_epochs, run_training, run_validation"), ("step", "qadence/ml_tools/optimize_step.py:optimize_step"), ("callbacks", "qadence/ml_tools/callbacks/callback.py:Callback, EarlyStopping, LRScheduler*"), ("checkpoints", "qadence/ml_tools/callbacks/saveload.py:write_checkpoint, load_checkpoint")),
        note=BOUNDS + "The tracking tool (TensorBoard, MLflow) is replaced by a recorder, the gradient-free optimiser by a scripted one; torch.save/load run for real, the symbolic values travel with the bytes of the file; multi-process training and GPUs are outside.",
        method="The real training loop runs on symbolic data and parameters with plain gradient descent (momentum for resumption); the final parameters and every reported loss are compared with the iterated update formula. Metric sequences are symbolic, so every order of improvements is a path through EarlyStopping and SaveBestCheckpoint, and the solver shows the explored paths to be all of them.",
    )
)
PROPS.append(
    dict(
        id="C22",
        title="Readout mitigation inverts the readout errors and keeps the shots",
        statement="Mitigating a measured histogram under independent readout noise with confusion matrices T_1..T_n returns, for every histogram, positive whole counts of n-bit strings that add up to the measured number of shots; they are the counts of the probability vector closest to the inverse of T_1 x ... x T_n (pseudo-inverse where singular) applied to the measured frequencies, so that counts which the errors make of some true whole counts are mitigated to those; the constrained method minimises the squared residual over exactly the probability vectors; the matrices are the ones given or the ones estimated by the simulator's noise for that number of shots; sample applies mitigation to the noisy counts in either bit order, with call-level or model-level noise and mitigation; mitigation protocols survive conversion to dictionaries; a request without readout noise, or with an unknown method, is refused.",
        quantifier=q("all histograms (real-valued counts) of 2-9 shots on 1-2 qubits (3 in the thorough tier), all real vectors of 2-4 entries with unit sum for the closest probability vector, 5 confusion matrices, symmetric, asymmetric and singular", "inputs"),
        why_tests_cant="the repository has no test of mitigation; random sampling compares averages within tolerances, and the loss of all shots when every count is rounded up needs particular frequencies",
        anchors=a(["qadence/mitigations/readout.py", "qadence/mitigations/protocols.py", "qadence/backends/pyqtorch/backend.py", "qadence/backends/pyqtorch/convert_ops.py"],
                  ("mitigation_minimization", "qadence/mitigations/readout.py:mitigation_minimization"), ("mle", "qadence/mitigations/readout.py:mle_solve"), ("renormalisation", "qadence/mitigations/readout.py:renormalize_counts"), ("sample", "qadence/backends/pyqtorch/backend.py:Backend.sample")),
        note=BOUNDS + "numpy works on object arrays of the symbolic numbers, roundings are case splits over integers; scipy's minimiser and the simulator's estimate of the matrices are replaced by recorders, whose problem and result are judged; correlated readout noise (refused loudly) and analog zero-noise extrapolation (needs the QuTiP emulator) are outside.",
        method="The histogram's counts are symbolic and add up to the shots; sorting, the search for the break point, clipping and rounding are branches of the real code, and the solver decides each: KKT conditions of the nearest probability vector on every path, totals, signs and recovery of the true counts on every path of the whole pipeline.",
    )
)
NA = []

METHOD = {'C01': 'Obligation per gate/composition: `block_to_tensor` (dense, sparse diagonal, both endiannesses, own and larger support) against the oracle operator, all parameters '
        'symbolic, batch 1-3; matrix blocks with fully symbolic 2x2 and 4x4 entries; evolutions under involutions and commuting sums. Bounds: 1-4 qubits, every placement of every '
        'gate on 3 qubits (4 in thorough), nesting depth 3. Why beyond tests: all angles, unsorted supports and gaps, batches in compositions.',
 'C02': '`run` in all entry points on a fully symbolic initial state (all 2^n complex amplitudes) and symbolic parameters against operator-times-state; each optional simulator '
        'configuration is compared with the same oracle. Bounds: 1-4 qubits, batch 1-3, depth 3, evolutions under involutions, commuting Pauli sums and their matrices; '
        'coefficient ranges as in section 6.',
 'C03': '`expectation` (execution function, model, looped and batched, adjoint/gpsr/ad) against <psi|O|psi> from the oracle with symbolic amplitudes, angles and observable '
        'coefficients; several observables, parametric and nested ones. Bounds: up to 3 qubits, batch 1-2.',
 'C04': '`dagger()` of every gate and composition: its operator (via running on a symbolic state and via its dense matrix) against the conjugate transpose of the oracle operator; '
        'twice; and the original afterwards. All parameters symbolic, complex matrix entries symbolic.',
 'C05': 'Each transpilation pass and pairs of passes applied to a zoo of nested programs; the result is run on symbolic states and compared with the oracle of the original '
        'program; backend configurations switch the built-in passes. Evolution decompositions for commuting Pauli sums. Bounds: 3 qubits, about 40 program shapes x passes.',
 'C06': 'Little- and big-endian calls on the same symbolic state: amplitude by amplitude comparison with the bit-reversed oracle; expectation values equal; samples with the '
        "sampler's draw made symbolic through the probabilities handed to it; bit-string utilities for every value of 1-4 bits.",
 'C07': 'Backward passes are executed symbolically with a symbolic cotangent and symbolic parameters; oracle: symbolic differentiation of the oracle expectation value (exact '
        'derivative of the expression, `symq.expr.diff`). Modes ad, adjoint, gpsr; second order for ad and gpsr. Bounds: 2-3 qubits, batch 1-3, every parametric gate, evolutions '
        'under involutions and commuting sums with coefficient ratios up to 25, shift prefactors 0.3/0.5/1.',
 'C09': 'Expressions from the supported grammar evaluated through gates, scales, evolution times, observables; oracle: the same function written in torch on the same symbols. '
        'Number and name collisions, precedence of call values over stored ones, resets, trainability switches, several models alive at once. Bounds: the enumerated expressions, '
        'domains restricted to where the function is defined and smooth.'}
PROPS.sort(key=lambda p: p["id"])
for _p in PROPS:
    _p.setdefault("method", METHOD.get(_p["id"], ""))
