PROPS, NA = [], []
LN = ("Decides the structural rules listed in the evidence file on every path of the analysed functions, from the source alone. Trusts the abstract evaluator's model of Python "
      "(no reflection, no monkey-patching) and third-party libraries' documented behaviour; shapes it cannot follow are reported as undecided in the evidence, never as violations.")


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why_tests_cant=why, files=files, mech=mech, observe=observe,
                      technique=technique, level_note=(note + " " + LN).strip()))


def na(id, title, statement, over, quant, why, files, mech, observe, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why_tests_cant=why, files=files, mech=mech, observe=observe, reason=reason))


prop("P01", "Every execution option supplied by the user reaches the backend",
     "Whatever option a user supplies to an execution call (parameter values, initial state, observable, number of shots, noise, measurement protocol, error mitigation, bit order, backend name, "
     "backend configuration, differentiation mode), through the functional interface, a model or a QNN, takes effect in the backend that executes the circuit, on every path and for every combination of options. "
     "An option fixed when a model is built applies to every call that does not override it.",
     ["inputs", "configurations"], "all combinations of supplied/omitted options, all overloads of run/sample/expectation, all backends and differentiation modes",
     "Tests call a few option combinations; a silently dropped option still returns a plausible number, so only a check over every combination and path can settle it.",
     ["qadence/execution.py", "qadence/model.py", "qadence/ml_tools/models.py", "qadence/engines/differentiable_backend.py", "qadence/engines/torch/differentiable_backend.py",
      "qadence/engines/torch/differentiable_expectation.py", "qadence/engines/jax/differentiable_backend.py", "qadence/backends/pyqtorch/backend.py", "qadence/backends/pulser/backend.py",
      "qadence/backends/horqrux/backend.py", "qadence/backends/api.py", "qadence/measurements"],
     [("singledispatch overloads of run, sample and expectation", "qadence/execution.py"), ("QuantumModel / QNN methods", "qadence/model.py, qadence/ml_tools/models.py"),
      ("engine expectation per differentiation mode", "qadence/engines"), ("backend run/sample/expectation", "qadence/backends")],
     ["arguments of the backend calls made by the public entry points"],
     "gated value-dependence analysis from each option to the backend call's argument slot")

prop("P02", "Results come back in the requested bit order, reversed exactly once",
     "For every backend, circuit and state, run and sample return wavefunctions and bitstrings in the bit order the user requested: reversed exactly once when the request differs from the backend's native order, not at all otherwise. "
     "The bit-order conversion helpers reverse complete bitstrings and cover every basis state, every counter entry with its count, and every (nested, controlled) gate's qubits.",
     ["inputs", "configurations"], "all backends, both bit orders, all circuits and noise settings",
     "Palindromic bitstrings and symmetric states hide a missing or doubled reversal, and tests only sample some noise/backend combinations.",
     ["qadence/backends/pyqtorch/backend.py", "qadence/backends/pulser/backend.py", "qadence/backends/horqrux/backend.py", "qadence/transpile/invert.py", "qadence/utils.py", "qadence/blocks/block_to_tensor.py"],
     [("endianness handling of run/sample", "qadence/backends/*/backend.py"), ("invert_endianness overloads and reassign", "qadence/transpile/invert.py"), ("basis_to_int, int_to_basis, nqubits_to_basis", "qadence/utils.py")],
     ["return values of run and sample", "return values of the conversion helpers"],
     "constant propagation of the requested bit order, counting reversal operators on the returned data path")

prop("P05", "Operator algebra on blocks and dagger() mean what the mathematics says",
     "Composing blocks with +, -, *, @, ** and the in-place forms yields the block of the corresponding operator expression: no operand, sign, scale factor or noise is lost, products keep their order, "
     "and no operand object is modified. For every gate, composite block and circuit, dagger() is the adjoint operator: composite order reversed, angles negated, scales kept, controls, noise, qubit support and register unchanged; "
     "dagger applied twice gives back an equal operator.",
     ["inputs"], "all pairs of block kinds under every operator; every gate class and every nested block under dagger()",
     "Tests apply operators to a few gate pairs; commuting or self-adjoint examples hide swapped order, lost signs and aliasing.",
     ["qadence/blocks/abstract.py", "qadence/blocks/composite.py", "qadence/blocks/primitive.py", "qadence/blocks/matrix.py", "qadence/blocks/utils.py", "qadence/operations/primitive.py",
      "qadence/operations/parametric.py", "qadence/operations/control_ops.py", "qadence/operations/ham_evo.py", "qadence/circuit.py"],
     [("operator dunder methods", "qadence/blocks/abstract.py"), ("chain, kron, add and _construct", "qadence/blocks/utils.py"), ("dagger methods", "qadence/blocks, qadence/operations")],
     ["the block returned by an operator or by dagger()", "the operands after the operation"],
     "abstract evaluation of every operator/dagger method on each block kind; results compared with the algebraic specification as normalised operator words, heap effects tracked")

prop("P10", "block_to_tensor yields the matrix of the operator the block denotes",
     "For every gate, the entry in the matrix tables and the formula used for parametric, controlled and phase gates is the gate's textbook unitary; scaling multiplies, chain multiplies matrices in circuit order, "
     "kron is the tensor product and add the sum of its parts; parameter values, endianness, qubit support and the full-support flag reach every nested block, both in the torch and in the JAX version.",
     ["inputs"], "all gates, all nested blocks, all parameter values and supports",
     "Tests compare a few gates and sizes; a wrong entry, a transposed chain or an option lost below the top level shows only for particular nestings.",
     ["qadence/blocks/block_to_tensor.py", "qadence/backends/jax_utils.py", "qadence/operations/primitive.py", "qadence/operations/parametric.py"],
     [("OPERATIONS_DICT and matrix constants", "qadence/blocks/block_to_tensor.py"), ("_block_to_tensor_embedded", "qadence/blocks/block_to_tensor.py"), ("block_to_jax", "qadence/backends/jax_utils.py")],
     ["the matrix returned by block_to_tensor / block_to_jax"],
     "constant folding of the matrix tables and parametric formulas against textbook unitaries; dataflow of values and options through the recursion")

prop("P12", "Every gate parameter receives its own value",
     "For every circuit and observable, the embedding gives each gate parameter the value of its own expression, evaluated on the user's inputs first and on the stored parameters second, whether inputs are merged or separate; "
     "constants and constant matrices keep their value, an input never silently overrides or loses another, and a symbol without a value raises an error. Trainable symbols (and only those) start from their own value and require gradients. "
     "The traversal finds every parameter of every nested block, each gate parameter has its own identifier, and copying a Parameter keeps its name, trainability, value and time flag.",
     ["inputs"], "all parameter expressions, all nestings of blocks, merged and separate inputs, gate-level and expression-level parameters",
     "Tests use few symbols and expressions; a value taken from the wrong table, a stale default or an unvisited nested block shows only for particular combinations of shared symbols, constants and inputs.",
     ["qadence/blocks/embedding.py", "qadence/parameters.py", "qadence/blocks/utils.py", "qadence/backend.py"],
     [("embedding and embedding_fn", "qadence/blocks/embedding.py"), ("Parameter, ParamMap, evaluate", "qadence/parameters.py"), ("uuid_to_block, uuid_to_expression", "qadence/blocks/utils.py"),
      ("Backend.convert, BackendConfiguration.get_param_name", "qadence/backend.py")],
     ["the embedded parameter dictionary handed to the backend", "the initial parameters of a converted circuit"],
     "abstract evaluation of the embedding on opaque symbols and expressions; each entry of the resulting dictionary compared with the value it has to be")

prop("P03", "Serialization round-trips blocks, circuits, registers and models",
     "For every block, circuit, register, noise, measurement or mitigation protocol, QuantumModel and QNN that can be serialized, deserialize(serialize(x)), also through JSON text, and load after save in either file format give back an "
     "object of the same class with the same structure: qubits, controls and their order, states, children, generators, noise, tags at every level, parameter expressions with their identifiers, the names, values and trainability of "
     "their symbols, register coordinates, edges and device, and for models also observables, backend, differentiation mode, configuration, protocols, inputs and, in .pt files, the values and trainability of the parameters.",
     ["inputs", "histories"], "all operation classes, all nestings, all parameter expressions, both file formats",
     "Tests round-trip some blocks and compare some fields; a field lost for one class, or only when a block is nested, scaled, tagged or noisy, needs exactly that object.",
     ["qadence/serialization.py", "qadence/blocks", "qadence/operations", "qadence/parameters.py", "qadence/circuit.py", "qadence/register.py", "qadence/analog/device.py", "qadence/model.py", "qadence/ml_tools/models.py", "qadence/noise/protocols.py", "qadence/measurements/protocols.py", "qadence/mitigations/protocols.py"],
     [("serialize, deserialize, save, load", "qadence/serialization.py"), ("_to_dict, _from_dict of every serializable class", "qadence/blocks, qadence/operations, qadence/parameters.py, qadence/model.py, qadence/register.py")],
     ["the object obtained by deserializing"],
     "abstract evaluation of deserialize(serialize(x)) over symbolic objects of every class (opaque expressions, graphs, matrices and configurations, modelled JSON, files and eval-of-srepr), compared field by field",
     "analog blocks and addressing patterns are outside (the repository does not serialize them to JSON); eval(srepr(e)) == e is assumed of sympy")

prop("P14", "Block queries and equality describe the block that is executed",
     "For every block, qubit_support is the set of qubits it acts on, n_qubits the highest of them plus one, and depth, length, indexing, iteration and the lists of primitive and Pauli blocks follow its tree in order, "
     "also when iterations are nested or interrupted. Two blocks compare equal exactly if class, qubits, parameters and children agree (order matters in a chain, not in a kron or a sum, and repeated children count). "
     "`in` finds blocks at any nesting level; krons with overlapping qubits and circuits too large for their register are rejected; a circuit keeps its blocks in order and its register.",
     ["inputs"], "all operation classes, all nestings of chain/kron/add/scale, all qubit orders",
     "Tests compare a handful of blocks; a comparison that ignores one field or a support that loses one qubit only shows for the particular pair or nesting that differs there.",
     ["qadence/blocks/abstract.py", "qadence/blocks/primitive.py", "qadence/blocks/composite.py", "qadence/blocks/matrix.py", "qadence/blocks/utils.py", "qadence/operations", "qadence/qubit_support.py", "qadence/circuit.py"],
     [("qubit_support, n_qubits, depth, __eq__, __contains__, __iter__ of the block classes", "qadence/blocks, qadence/operations"), ("QubitSupport", "qadence/qubit_support.py"), ("QuantumCircuit", "qadence/circuit.py")],
     ["the values of block queries and comparisons"],
     "abstract interpretation (object semantics, class-hierarchy dispatch) of client programs covering every operation class, composite kind and field on which two blocks can differ")

prop("P08", "Each backend executes the gate, qubits and parameters the block says",
     "For every operation and block, conversion to the pyqtorch and horqrux backends yields the native operation of the same operator: the right native gate on the same control and target qubits, reading the gate's own parameter "
     "(its name when parametric, its value when constant) and carrying its noise; composite blocks keep all children in order, scales apply once with their own expression, evolutions keep generator, time, duration, qubits, solver "
     "settings and noise operators. Gates a backend does not support are rejected with an error.",
     ["inputs", "configurations"], "all operation classes, all nestings, both backends, constant and symbolic parameters, with and without noise",
     "Tests convert some gates with some qubit orders; a swapped control and target or a lost parameter is invisible for symmetric gates or states.",
     ["qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/horqrux/convert_ops.py", "qadence/backends/pyqtorch/backend.py", "qadence/backends/horqrux/backend.py", "qadence/operations/__init__.py"],
     [("convert_block", "qadence/backends/pyqtorch/convert_ops.py, qadence/backends/horqrux/convert_ops.py"), ("sympy_to_pyq, noise conversion", "qadence/backends/pyqtorch/convert_ops.py"), ("Backend.circuit, Backend.observable", "qadence/backends/*/backend.py")],
     ["the native circuit and observable built for a block"],
     "abstract evaluation of the conversion on every operation class with symbolic qubits, parameters and noise; the native constructor call compared with a table of native gates")

prop("P07", "Transpilation passes and digital decompositions preserve the operator",
     "For every block and circuit, flatten, scale_primitive_blocks_only, chain_single_qubit_ops, fill_identities and digitalize return a block of the same operator (no child, scale, order or repetition lost or added), "
     "reach the form they exist for, do not modify the block they are given, and in their circuit version keep the register. transpile applies the passes right to left, each once. apply_fn_to_blocks visits every leaf once and rebuilds the tree; "
     "set_noise, set_as_variational and set_as_fixed change exactly the selected leaves or symbols. The digital decomposition of a Hamiltonian evolution applies, for every Pauli term (any qubits, order, scale), "
     "the exponential of that term for its full time, in the requested product formula (first order, symmetric second order, fourth order) unless the terms commute; that of U is its Euler form. "
     "unroll_block_with_scaling lists terms that add up to the block.",
     ["inputs"], "all parent/child combinations of block kinds up to depth 4 with opaque leaves and symbolic scales; all Pauli letters, adjacency, order and scale placements on up to 4 qubits",
     "Tests transpile a few blocks; a scale dropped under one particular parent, or a ladder touching a qubit outside the term, shows only for particular nestings and non-adjacent qubits.",
     ["qadence/transpile", "qadence/decompose.py", "qadence/blocks/utils.py", "qadence/operations/ham_evo.py", "qadence/operations/parametric.py"],
     [("block and circuit passes", "qadence/transpile"), ("lie_trotter_suzuki, decompose_pauli_exp", "qadence/decompose.py"), ("unroll_block_with_scaling, block_is_commuting_hamiltonian", "qadence/blocks/utils.py")],
     ["the block or circuit returned by a pass", "the input block after the pass", "the gate sequence of a decomposition"],
     "abstract evaluation of the passes on block trees with opaque leaves and symbolic scales, results read as non-commutative operator polynomials modulo commutation on disjoint qubits; Pauli-frame propagation through decompositions",
     "Bounded to the listed tree shapes and Hamiltonians; leaves, scales and times are symbolic.")

prop("P04", "Deserializing an expression can only build parameter expressions",
     "For every text, deserializing it as an expression either raises ValueError without evaluating anything, because the text is not exactly one constructor-form expression (names, calls, quoted identifiers, numbers and flags; no attribute access, "
     "operators, subscripts, keywords, dunder names or trailing text), or evaluates it in a namespace without builtins where only sympy expressions and Parameter can be reached. "
     "Every expression the library itself writes is accepted. No other code of the library evaluates text.",
     ["inputs"], "all texts; all code paths from deserialize, load and _from_dict to an evaluation",
     "Tests try a few malicious strings; whether one unvalidated path, one name or one loosened token lets code through is a question about all texts and all paths.",
     ["qadence/serialization.py", "qadence/serial_expr_grammar.peg", "qadence/parameters.py"],
     [("deserialize, has_valid_expression, parse_expr_fn", "qadence/serialization.py"), ("expression grammar", "qadence/serial_expr_grammar.peg")],
     ["ValueError or the expression returned by deserialize", "names reachable by the evaluated text"],
     "dominance analysis from every evaluation sink to its validation, namespace analysis of the evaluation, and language analysis of the grammar (token classes of its regular expressions, and acceptance of fixed corpora of valid and invalid texts by an interpreter of the grammar)")

prop("P11", "Gradients follow the shift rule of each gate, for every parameter",
     "For every circuit, observable list and batch, differentiating an expectation with generalised parameter shift gives each parameter the derivative: the rule of a gate is built from exactly the distinct positive gaps of its own generator "
     "(rotations, phases, controlled gates, evolutions), shifts only that gate's parameter symmetrically, and equals gap (F(x+s)-F(x-s))/(4 sin(gap s/2)) or, with several gaps, the solution of the corresponding linear system, per batch element and observable. "
     "The backward pass combines each parameter's own rule with the upstream gradient, summed over observables, in parameter order, and only for parameters that need it. Each differentiation mode runs its own implementation with the user's settings; "
     "every mode returns one row per batch element and one column per observable.",
     ["inputs", "configurations"], "all parametric gates, spectra, shifts, numbers of observables, batch sizes and subsets of parameters requiring gradients",
     "Tests compare gradients at sample points with a tolerance; a wrong gap for one gate family, a mixed-up parameter order or a transposed batch axis shows only for particular circuits and shapes.",
     ["qadence/backends/parameter_shift_rules.py", "qadence/backends/agpsr_utils.py", "qadence/engines/torch/differentiable_expectation.py", "qadence/engines/jax/differentiable_expectation.py", "qadence/engines/torch/differentiable_backend.py", "qadence/blocks/utils.py", "qadence/operations"],
     [("general_psr, single_gap_psr, multi_gap_psr", "qadence/backends/parameter_shift_rules.py"), ("PSRExpectation, DifferentiableExpectation", "qadence/engines/torch/differentiable_expectation.py, qadence/engines/jax/differentiable_expectation.py"), ("uuid_to_eigen, eigenvalues_generator", "qadence/blocks/utils.py, qadence/operations")],
     ["gradients", "shape of expectation values"],
     "abstract evaluation of the rules on symbolic expectation values, gaps, shifts and gradients, and comparison of the resulting tensor expressions as rational functions with the shift formula",
     "Decides that the implemented formula is the shift rule with the right gaps; floating-point error, singular shift choices and pyqtorch's adjoint are outside.")

prop("P20", "Measurement protocols estimate exactly the observable they are given",
     "For every circuit, list of observables, batch, initial state and noise, the tomography and classical-shadow protocols and the expectation of given samples estimate the supplied observables: every Pauli word (with identity factors, nested products, sums, scales, "
     "repeated factors, N) is measured after the circuit in its own basis on its own qubits, weighted with its own coefficient, per batch element and observable in the given order, on the user's backend and register with the requested shots, state, parameters and noise. "
     "Classical shadows average exactly the snapshots taken in the basis of the word, in equal consecutive groups, with a shot budget that reaches the requested accuracy and confidence. Missing options, non-diagonal observables for given samples and unknown protocols raise.",
     ["inputs", "configurations"], "all observables made of Paulis, sums, products and scales, all batch sizes, backends, options",
     "Sampled estimates are compared with loose tolerances on a few observables; an estimator of a slightly different operator (wrong qubit order, dropped identity factor, sign of Y, samples of another batch element) passes for symmetric states.",
     ["qadence/measurements/utils.py", "qadence/measurements/tomography.py", "qadence/measurements/shadow.py", "qadence/measurements/samples.py", "qadence/measurements/protocols.py"],
     [("pauli_decomposition, rotate, empirical_average, iterate_pauli_decomposition", "qadence/measurements/utils.py"), ("classical_shadow, estimators, estimations, number_of_samples", "qadence/measurements/shadow.py"), ("Measurements.get_measurement_fn", "qadence/measurements/protocols.py")],
     ["estimated expectation values", "the circuits, shots, states and noise handed to backend.sample"],
     "abstract evaluation of the protocols on symbolic sample counts; the estimate, as a function of the counts, together with the basis rotations of the sampled circuits denotes an operator, which is compared with the observable",
     "The statistical error of a finite number of shots is not decided.")

prop("P13", "Noise handlers keep the valid sources given, and noise reaches its gates",
     "For every sequence of noise sources, building a NoiseHandler (constructor, append, builder methods) either keeps the sources, their options and their order, or raises and leaves the existing handler as it was: readout comes once and last, analog noise comes alone and is not followed by digital noise, "
     "missing error probabilities raise (zero is a value). Handlers do not share their lists; equality compares protocols and options; filter keeps exactly the requested category. set_noise puts the noise on exactly the primitive gates (of the requested class), at any nesting, scaled ones included, and nowhere else. "
     "Conversion to the backend keeps type, probabilities and order of the gate noise, and readout noise reaches the backend with its own options. Readout mitigation inverts the confusion matrices of the qubits in order, per sample.",
     ["inputs", "histories"], "all sequences of up to 3 protocols of all types (constructor, append, builders), all nestings of blocks, all options",
     "Tests build a few handlers; whether one rejected append leaves a half-updated handler, or noise misses the gates in one kind of composite, needs that history or nesting.",
     ["qadence/noise/protocols.py", "qadence/transpile/noise.py", "qadence/mitigations", "qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/pyqtorch/backend.py"],
     [("NoiseHandler", "qadence/noise/protocols.py"), ("set_noise", "qadence/transpile/noise.py"), ("mitigation_minimization, renormalize_counts", "qadence/mitigations/readout.py"), ("convert_digital_noise, convert_readout_noise", "qadence/backends/pyqtorch/convert_ops.py")],
     ["the handler's protocols and options, or the error raised", "noise of each gate of the block", "noise handed to the backend"],
     "abstract interpretation of client programs that build handlers from every combination of protocols and set noise on block trees, with symbolic options; typestate of the handler before and after a rejected append")

prop("P18", "Constructed Hamiltonians and observables are the documented operators",
     "For every register, interaction (ZZ, NN, XY, XYZ or a function), detuning, array or name of strengths, and choice of node pairs, hamiltonian_factory is the sum over the nodes of strength times the detuning and over the edges (or all pairs) of strength times the interaction, with one strength per node and pair in order; strings give one trainable parameter per term with distinct names. "
     "total_magnetization, zz_hamiltonian, ising_hamiltonian and the observable configurations are the documented sums, with scale and shift (numbers, ranges or parameters) applied as documented. Arrays of the wrong length, unknown interactions, detunings and wrong types raise.",
     ["inputs", "configurations"], "registers of one to four qubits, every interaction and detuning, every form of strengths, node pairs, scales, shifts and ranges",
     "Observables and analog generators are built with these functions; tests compare a few of them, so a strength on a wrong pair or a lost coefficient in one form of the arguments goes unnoticed.",
     ["qadence/constructors/hamiltonians.py", "qadence/ml_tools/constructors.py", "qadence/ml_tools/config.py", "qadence/blocks/utils.py"],
     [("hamiltonian_factory, _preprocess_strengths", "qadence/constructors/hamiltonians.py"), ("create_observable, observable_from_config", "qadence/ml_tools/constructors.py")],
     ["the matrix of the returned block; names of its parameters"],
     "abstract evaluation of client programs; the resulting block terms are read as Pauli sums with generic values of the free parameters and compared with the documented Hamiltonian",
     "Free parameters stand for generic fixed numbers. random_strength is not judged. ising_hamiltonian configurations of two qubits are not judged.")

prop("P19", "Circuit constructors build the documented circuits",
     "For every size, depth, support, set of operations, entangler, prefix and basis: feature_map rotates the i-th qubit of the support by multiplier * scaling(i) * transform(w_i * scaled feature) with the feature mapped linearly between the given ranges; hea and ala alternate the rotations and entanglers of every layer on the documented pairs, each parameter with its own name; iia is the identity at the initial values of its parameters; "
     "qft is the discrete Fourier transform for every order of qubits, inverted or not, digitally or with digital-analog evolutions; daqc_transform equals the evolution under the target generator; Rydberg feature maps and ansatze are the documented evolutions. Unknown strategies, entanglers, bases and wrong supports raise.",
     ["inputs", "configurations"], "all argument forms with small sizes, several depths and permuted supports; parameters symbolic",
     "Models are made of these circuits; tests look at a few sizes and default supports, so a shared parameter, a wrong pair in a later layer or a lost range under other arguments goes unnoticed.",
     ["qadence/constructors"],
     [("feature_map, fm_parameter_scaling, exp_fourier_feature_map", "qadence/constructors/feature_maps.py"), ("hea, hea_digital, hea_sDAQC", "qadence/constructors/hea.py"), ("ala", "qadence/constructors/ala.py"), ("iia", "qadence/constructors/iia.py"), ("qft", "qadence/constructors/qft.py"), ("daqc_transform", "qadence/constructors/daqc/daqc.py"), ("rydberg_hea, rydberg_feature_map, analog_feature_map", "qadence/constructors/rydberg_hea.py")],
     ["the matrix of the returned block; names of its parameters"],
     "abstract evaluation of client programs; the resulting block terms are read as matrices with generic values of the free parameters and compared with the documented circuit",
     "Free parameters stand for generic fixed numbers. Periodic entanglers for an odd number or two qubits, blocks of one qubit, and the interaction coefficient of rydberg_hea are not judged.")

prop("P24", "Registers place the qubits of every lattice at the requested spacing",
     "For every constructor (line, circle, square, rectangular, triangular, all-to-all, coordinates, graph), size, spacing and device, the register has the qubits 0..n-1 at the positions of that lattice, up to one common factor, in the documented order, with the lattice's edges; the smallest distance is the requested spacing; coordinates given without spacing are kept as given. "
     "distances lists every pair once with its Euclidean distance, edge_distances the connected pairs, min_distance the smallest. rescale_coords multiplies all coordinates, keeps edges and device and leaves the original register unchanged. The device is kept. Registers are equal exactly if coordinates and graph are.",
     ["inputs"], "all constructors with several sizes, spacings, factors and devices",
     "Interaction strength scales with the sixth power of the distance; tests look at a few registers, so a wrong scale, order or edge for one lattice or one spacing goes unnoticed.",
     ["qadence/register.py"],
     [("Register", "qadence/register.py"), ("line_graph, triangular_lattice_graph, all_to_all_graph", "qadence/register.py")],
     ["coords, edges, distances, device_specs of a register"],
     "abstract evaluation of the constructors on client programs, with a model of the graph library, and comparison of positions, edges and distances with the geometry of each lattice",
     "The graph library is represented by a model (qsa/stubs/networkx.py). Positions chosen by networkx.spring_layout (all-to-all registers of one or more than three qubits) are not modelled.")

prop("P25", "Analog blocks evolve the register's atoms under the stated Hamiltonian",
     "The Hamiltonian of a register and its device is the sum over all pairs of C6/R^6 N N, or C3/R^3 (XX + YY), with the distance of the pair and the coefficient of the device; the drive of an analog rotation is the sum over its qubits of omega/2 (cos(phase) X - sin(phase) Y) - delta N; the addressing pattern adds amp/2 w X and |det| w N inside its limits and nothing outside. "
     "Preparing a circuit for simulation replaces every analog block, wherever it is nested, by the evolution under interaction + drive + pattern (unless disabled) for its duration in microseconds, and keeps all other blocks, the order and the register. AnalogRX, AnalogRY, AnalogRZ rotate every qubit of a register without interaction by the angle about their axis. Compositions accept exactly the allowed supports and durations.",
     ["inputs", "configurations"], "every interaction, device, drive, pattern, support, nesting of analog and digital blocks; symbolic and numeric parameters",
     "Analog programs are only meaningful if the simulated Hamiltonian is the documented one; tests compare a few expectation values of small registers, where a wrong pair, sign, unit or a lost pattern can hide.",
     ["qadence/analog", "qadence/blocks/analog.py", "qadence/operations/analog.py", "qadence/constructors/rydberg_feature_maps.py"],
     [("rydberg_interaction_hamiltonian, rydberg_drive_hamiltonian, rydberg_pattern_hamiltonian", "qadence/analog/hamiltonian_terms.py"), ("add_background_hamiltonian, _analog_to_hevo", "qadence/analog/parse_analog.py"), ("AddressingPattern", "qadence/analog/addressing.py"), ("AnalogRot, AnalogRX, AnalogRY, AnalogRZ, AnalogInteraction", "qadence/operations/analog.py")],
     ["the evolutions a circuit is converted to; the state it prepares"],
     "abstract evaluation of client programs; the resulting block terms are read as Pauli sums with generic values of the free parameters and compared with the documented Hamiltonian",
     "Free parameters stand for generic fixed numbers (equality of the Pauli sums then decides equality up to coincidence). Analog rotations by negative angles (negative durations) are not judged.")

prop("P26", "Pulser runs the pulses that implement the circuit, its pattern and initial state",
     "For every supported block (RX, RY, RZ, AnalogRot, AnalogRX/RY/RZ, AnalogInteraction; global or local; positive or negative phase and detuning; constant or parametrised), the pulses added to the Pulser sequence generate the operator of the block up to the time and amplitude resolution of the device, on exactly its qubits; composites become the pulses of their blocks in order; other blocks and XY interactions raise. "
     "The device has the level and limits of the register and the atoms its coordinates. run, sample and noisy runs simulate the converted sequence with the addressing pattern over the whole duration, from the given initial state in Pulser's basis order, return the state in qadence's order, and leave the converted circuit as it was, so that it can run again.",
     ["inputs", "configurations", "histories"], "supported blocks and nestings, angles of both signs, both devices, patterns, initial states, repeated runs",
     "The hardware path cannot be compared with a reference cheaply: a sign, unit, target or forgotten pattern yields plausible but wrong physics.",
     ["qadence/backends/pulser"],
     [("add_pulses, analog_rot_pulse, digital_xy_rot_pulse, digital_z_rot_pulse", "qadence/backends/pulser/pulses.py"), ("Backend.run, sample, _run_noisy, make_sequence", "qadence/backends/pulser/backend.py"), ("SquareWaveform", "qadence/backends/pulser/waveforms.py")],
     ["the pulser.Sequence of a circuit; the state or samples of a run"],
     "abstract evaluation of the backend on client programs with a recording model of the pulser library; the recorded pulses are read as Pauli generators and compared with those of the blocks",
     "pulser is represented by a model (qsa/stubs/pulser_small.py): what its emulator does with a sequence is trusted. Overriding amplitudes or detunings in the configuration, entangling pulses and negative analog angles are not judged.")
