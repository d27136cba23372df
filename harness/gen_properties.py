#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))

prop("W01", "Wires compose like typed tensor-network legs",
     "Composing two sets of wires keeps exactly the uncontracted wires, contracts an output with an input exactly when mode and ket/bra side agree, reports the wire ordering of the result as a permutation that is consistent with the operands' index order, and is refused exactly when two surviving wires would coincide. "
     "Adjoint swaps bra and ket, dual swaps input and output, both are involutions that commute with each other and distribute over composition (dual reversing the order), composition is associative whenever it is defined, and composition, views, sums and copies never change their operands. "
     "Equality of wires is an equivalence that agrees with hashing, and slicing views (input, output, ket, bra, per-mode) select exactly the wires they name with the indices those wires have in the full ordering.",
     ["inputs"], "All pairs and triples of wire sets over any modes, with every combination of bra/ket, input/output (and classical) wires.",
     "Tests check a handful of hand-written mode sets; composition laws quantify over all pairs and triples of wire sets.",
     ["mrmustard/physics/wires.py"],
     [("Wires.__matmul__", "mrmustard/physics/wires.py"), ("Wires.contracted_indices/contracted_labels", "mrmustard/physics/wires.py"),
      ("Wires.adjoint/dual/views", "mrmustard/physics/wires.py")],
     ["Wires @ Wires", "Wires.adjoint", "Wires.dual", "Wires.__getitem__", "Wires.indices", "hash/eq"],
     [("wire", "mode, ket/bra side, input/output direction, index", "QuantumWire")])

prop("C02", "Connecting components computes the tensor-network contraction",
     "For components given by Fock arrays, `a >> b` and `a.contract(b)` return the component whose array is exactly the sum over all connected wires (each truncated to the smaller of the two dimensions) of the product of the operands' entries, with the result's axes in the standard wire order. "
     "When only one side carries bra wires, `>>` supplies the missing adjoint so that the result equals the full ket-bra network (a fully closed network giving |amplitude|^2 or the trace as a plain number), and adjoint, dual, `.dm()`, `.on()` and scalar multiples act on the array as the corresponding index relabelling, conjugation and scaling. "
     "Chained contractions are associative: any bracketing of a chain that connects the same wires gives the same component.",
     ["programs", "inputs"], "All finite chains of Fock-array states, operations, maps, channels and duals on any modes with any wire dimensions.",
     "Tests contract fixed small circuits; which wires connect, how axes are permuted and when an adjoint is inserted depend on the combination of wires, which the tests sample only sparsely.",
     ["mrmustard/lab/circuit_components.py", "mrmustard/physics/ansatz/array_ansatz.py", "mrmustard/physics/wires.py", "mrmustard/lab/states/ket.py", "mrmustard/lab/states/dm.py"],
     [("CircuitComponent.__rshift__/contract", "mrmustard/lab/circuit_components.py"), ("ArrayAnsatz.contract", "mrmustard/physics/ansatz/array_ansatz.py")],
     ["component.ansatz.array, component.wires after >>, contract, adjoint, dual, dm, on"])

prop("C03", "Every valid contraction order of a circuit gives the same result",
     "Contracting a circuit along any complete contraction path whose steps join directly connected components without bypassing a component in between gives the same component as applying the components one after another. "
     "The path chosen by optimising a circuit is always such a complete valid path, and optimising (including its adjustment of Fock shapes) never changes the value that contracting the circuit yields. "
     "Optimisation is refused only for circuits that are disconnected or have dangling wires.",
     ["schedules", "programs"], "All circuits of Fock-array and Gaussian components, all contraction orders, all random choices made by the optimiser.",
     "Tests optimise one or two linear circuits; the optimiser draws random orders, and a wrong order only shows on networks where two components are connected both directly and through a third one.",
     ["mrmustard/lab/circuits.py", "mrmustard/path/branch_and_bound.py", "mrmustard/path/optimize.py"],
     [("optimal_contraction / random_solution / children / reduce_first", "mrmustard/path/branch_and_bound.py"), ("Circuit.contract / Circuit.optimize", "mrmustard/lab/circuits.py")],
     ["Circuit.path after optimize", "Circuit.contract() value"])

prop("C04", "Optimised contraction paths have minimal and correctly reported cost",
     "Without heuristic simplifications, the contraction path search returns a path whose total cost is the minimum over all complete valid contraction orders of the network, whatever initial random orders it draws. "
     "The cost reported for a path is the sum of the per-step costs defined in the cost model (the product of the uncontracted and contracted dimensions for Fock contractions, plus the conversion of Bargmann operands, and the cubic Gaussian-integral cost between Bargmann operands), and is never lower than that minimum. "
     "Shape optimisation only ever lowers Fock shapes, makes connected wires agree on the smaller shape, and respects photon-number conservation of beamsplitters.",
     ["schedules", "inputs"], "All connected component networks, all shapes, all seeds of the random initial bound.",
     "Tests look at one graph's children and one shape propagation; optimality quantifies over all contraction orders of all networks.",
     ["mrmustard/path/branch_and_bound.py"],
     [("GraphComponent.contraction_cost", "mrmustard/path/branch_and_bound.py"), ("optimal_contraction", "mrmustard/path/branch_and_bound.py"), ("optimize_fock_shapes", "mrmustard/path/branch_and_bound.py")],
     ["optimal_contraction(graph).solution/.costs/.cost", "graph node shapes after optimize_fock_shapes"])

prop("E05", "mm_einsum equals the plain Einstein sum in any order",
     "Einsum over ansatze returns, for every assignment of integer wire labels and string batch labels, the ansatz obtained by summing over all labels not in the output, with output batch and core axes in the requested order. "
     "The result does not depend on the contraction path given, nor on whether operands are held as Fock arrays or as Gaussian (Bargmann) objects describing the same tensors.",
     ["programs", "schedules"], "All label assignments, output orders and contraction paths for any number of operands in mixed representations.",
     "Tests use a few fixed label strings; mispaired or misordered axes show only for label patterns where the contracted labels appear in different orders in the two operands.",
     ["mrmustard/physics/mm_einsum.py", "mrmustard/physics/ansatz/base.py", "mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/physics/ansatz/array_ansatz.py"],
     [("mm_einsum", "mrmustard/physics/mm_einsum.py"), ("PolyExpAnsatz.contract / ArrayAnsatz.contract", "mrmustard/physics/ansatz")],
     ["mm_einsum(...) result array / evaluated values"])

prop("G06", "Gaussian circuits evolve covariance and means exactly",
     "For every circuit of Gaussian states, unitaries, channels, partial traces and homodyne or heterodyne projections on any modes, the resulting state's covariance matrix, mean vector and norm in phase space are those of the exact symplectic calculus (V -> X V X^T + Y, mu -> X mu + d, partial trace = sub-blocks, projection = Schur complement with its probability density, homodyne densities being per sqrt(HBAR)), in the units set by HBAR and in ascending mode order. "
     "Purity, symplectic matrices, channel X/Y matrices, inverses and duals of unitaries agree with the same calculus.",
     ["programs", "inputs", "configurations"], "All finite programs of Gaussian components with any parameters, mode assignments, parameter batches and HBAR values, on both numerical backends.",
     "Tests check gates one at a time on mostly one- and two-mode states; ordering and sign mistakes show only for particular compositions and mode orders.",
     ["mrmustard/physics/triples.py", "mrmustard/physics/symplectics.py", "mrmustard/physics/bargmann_utils.py", "mrmustard/physics/gaussian_integrals.py", "mrmustard/lab/transformations", "mrmustard/lab/states"],
     [("triples and symplectics of every component", "mrmustard/physics/triples.py"), ("complex_gaussian_integral_*", "mrmustard/physics/gaussian_integrals.py"), ("State.phase_space", "mrmustard/lab/states/base.py")],
     ["State.phase_space(s)", "Unitary.symplectic", "Channel.XY", "State.purity", "probability"])

prop("F07", "All Fock-amplitude algorithms produce the same exact amplitudes",
     "The Fock array computed for a Bargmann triple (A, b, c) holds at every index exactly the renormalised Taylor coefficient of c*exp(zAz/2 + bz), whichever recurrence pivots, algorithm (vanilla, stable, batched, diagonal, single-leftover-mode, binomial) or backend computes it, for every shape including length-one axes. "
     "Restricting to a smaller shape gives the corresponding sub-array of the larger one, and the dedicated displacement, squeezer, squeezed-state and beamsplitter routines agree with the general recurrence. "
     "The gradients registered for these routines are the exact derivatives of the amplitudes.",
     ["inputs", "schedules"], "All triples, all shapes, all pivot choices, both backends, batched or not.",
     "Tests compare a few random triples at one shape; boundary shapes (axes of length one, unequal cutoffs, small output cutoffs) select different code paths.",
     ["mrmustard/math/lattice", "mrmustard/math/backend_numpy.py", "mrmustard/math/backend_jax.py", "mrmustard/math/backend_manager.py", "mrmustard/math/jax_vjps"],
     [("vanilla/stable/batch recurrences", "mrmustard/math/lattice/strategies/vanilla"), ("fast_diagonal, compactFock, binomial", "mrmustard/math/lattice/strategies"), ("displacement/squeezer/beamsplitter", "mrmustard/math/lattice/strategies")],
     ["math.hermite_renormalized*", "math.displacement/squeezer/squeezed/beamsplitter", "fock_array()"])

prop("A08", "Ansatz algebra respects pointwise meaning of superpositions",
     "An ansatz denotes a function of its variables (a linear superposition being the sum of its terms): adding, subtracting, negating, scaling, dividing, multiplying, tensoring, conjugating, reordering, simplifying and partially evaluating ansatze yields ansatze that denote the pointwise sum, difference, product, tensor product, conjugate, relabelling, same function and restriction. "
     "Contracting two ansatze or tracing index pairs yields the Gaussian integral of the product over the chosen pairs of variables, term by term, independent of the order in which the pairs are listed. "
     "Equality holds between a superposition and any reordering of its terms.",
     ["inputs", "programs"], "All superpositions with any number of terms, core and derived variables, batch shapes, and any operation sequences on them.",
     "Tests mostly use single-term or equally sized operands; term order, polynomial (derived) variables and batch axes interact combinatorially.",
     ["mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/physics/ansatz/array_ansatz.py", "mrmustard/physics/gaussian_integrals.py", "mrmustard/physics/utils.py"],
     [("PolyExpAnsatz operators", "mrmustard/physics/ansatz/polyexp_ansatz.py"), ("complex_gaussian_integral_1/2, join_Abc", "mrmustard/physics/gaussian_integrals.py")],
     ["ansatz evaluated at points before and after each operation"])

prop("B09", "Batched components behave element-wise like unbatched ones",
     "A component built from arrays of parameters behaves, at every batch index, exactly like the component built from the parameters at that index, for every operation: composition, adjoint, dual, conversion, traces, probabilities, phase-space, arithmetic. "
     "Combining two batched components pairs equal batches element by element in zip mode, forms all pairs in (self, other) order in kron mode, and broadcasts an unbatched operand; the batch shape of the result is the one these rules predict.",
     ["inputs", "programs"], "All batch shapes (including multi-dimensional ones and size one), both contraction modes, all components and operations.",
     "Tests use few batch shapes, usually equal on both operands, and rarely compare with element-wise evaluation of whole programs.",
     ["mrmustard/lab/circuit_components.py", "mrmustard/physics/utils.py", "mrmustard/physics/ansatz", "mrmustard/physics/triples.py"],
     [("zip/kron batch strings", "mrmustard/physics/utils.py"), ("batched triples", "mrmustard/physics/triples.py")],
     ["ansatz.batch_shape and the slices of result arrays/values"])

prop("R10", "Changing representation never changes the object described",
     "Converting a component between Bargmann and Fock representation preserves its amplitudes up to the requested truncation, converting back restores the original, and composing components in mixed representations gives the same amplitudes as composing them in one. "
     "The Fock shape used is the explicit request if given, else the shape stored on the component's wires, else the automatic one (for a Gaussian state the levels that hold the requested share of each mode's photon numbers), padding with zeros or truncating as needed without altering the entries kept. "
     "The Bargmann function, the quadrature wave function and the Fock amplitudes of the same object are mutually consistent.",
     ["inputs", "programs"], "All components, target shapes, stored shapes, and orders of conversion and composition.",
     "Tests convert a few states at generous cutoffs; shape precedence and mixed-representation composition are hardly covered.",
     ["mrmustard/lab/circuit_components.py", "mrmustard/physics/ansatz/array_ansatz.py", "mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/lab/states/base.py", "mrmustard/math/lattice/autoshape.py", "mrmustard/lab/circuit_components_utils"],
     [("to_fock / to_bargmann / fock_array / auto_shape", "mrmustard/lab/circuit_components.py"), ("BtoQ, BtoPS, BtoChar", "mrmustard/lab/circuit_components_utils")],
     ["fock_array, ansatz.array, manual_shape, quadrature, wigner values"])

prop("S11", "Settings changes are scoped, restored and reproducible",
     "Leaving a settings context, normally or by an exception and at any nesting depth, restores every setting named in that context to the value it had when the context was entered, and leaves settings not named in it as they are. "
     "Unknown settings are rejected without changing anything. "
     "Setting SEED to a value makes all subsequent library randomness a function of that value and of the draws made since.",
     ["histories", "fault_sequences"], "All interleavings of nested contexts, direct assignments, rejected assignments, exceptions and random draws.",
     "Tests enter a single context once; restoration depends on the history of nested contexts and assignments.",
     ["mrmustard/utils/settings.py"],
     [("Settings.__call__/__enter__/__exit__", "mrmustard/utils/settings.py"), ("Settings.__setattr__, SEED", "mrmustard/utils/settings.py")],
     ["settings.<name> after each step, settings.rng draws"],
     [("saved values", "values to restore, one frame per open context", "Settings")])

prop("P12", "Parameter sets keep a consistent registry of named parameters",
     "A parameter set lists every parameter added to it under its name exactly once, split into constants and variables, keeps insertion order within each group, makes each reachable by its name with its current value, and refuses a second parameter of the same name without changing anything. "
     "Assigning to a variable is seen by every holder of that variable, constants cannot be assigned, and gates built from parameters expose the same values, bounds and trainability they were given. "
     "Components recompute their representation from the current parameter values.",
     ["histories"], "All sequences of additions, assignments, copies and component constructions.",
     "Tests add a few parameters once; consistency is a property of arbitrary histories of additions, updates and copies.",
     ["mrmustard/math/parameters.py", "mrmustard/math/parameter_set.py", "mrmustard/lab/utils.py", "mrmustard/lab/circuit_components.py"],
     [("ParameterSet.add_parameter", "mrmustard/math/parameter_set.py"), ("Variable/Constant", "mrmustard/math/parameters.py"), ("Ansatz.from_function", "mrmustard/physics/ansatz/base.py")],
     ["parameters.names/constants/variables/all_parameters/to_dict", "component.ansatz after assignment"])

prop("O13", "The optimizer updates only what it may and keeps its history honest",
     "Minimising a cost changes only the trainable parameters reachable from the optimised objects, never constants or the objects passed in, respects parameter bounds, and keeps symplectic, orthogonal and unitary parameters on their manifolds after every step. "
     "The recorded history is the cost of the parameters at each step in order, training stops at the requested number of steps or earlier exactly when the documented stability criterion holds, and the returned objects carry the parameters of the last step. "
     "The same seed and inputs give the same history.",
     ["histories", "schedules"], "All training runs: any mix of trainable and constant parameters, manifolds, learning rates and step counts.",
     "Tests check that particular trainings converge; they do not check each step for leakage into constants, bounds or history consistency.",
     ["mrmustard/training/optimizer.py", "mrmustard/training/parameter_update.py"],
     [("Optimizer.minimize/_optimization_loop/should_stop", "mrmustard/training/optimizer.py"), ("update_*", "mrmustard/training/parameter_update.py")],
     ["opt_history", "returned objects' parameters, inputs after the call"])

prop("Z14", "Saving and loading restores an equal object and manages files safely",
     "Saving any component or circuit and loading the file restores an equal object: same wires, representation tags and shapes, same ansatz with its batch and superposition structure, parameters with their names, values, bounds and trainability (and the same class, except that a representation its parameters no longer determine may come back as the generic class of its kind), and for circuits the same components and path. "
     "A file is a snapshot of the moment of saving, can be loaded any number of times, is created only inside the current cache directory under the requested name, and is touched afterwards only by a later save under the same name or by a load told to remove it; refused operations leave the directories as they were. "
     "A file holding arrays written under one backend is refused by the other.",
     ["histories", "inputs"], "All serialisable objects (any representation, batch, modes, trainability) and all sequences of save and load operations.",
     "Tests round-trip a default instance of each class; non-default states (Fock arrays, superpositions, batches, stored shapes) and file life-cycles are not enumerated.",
     ["mrmustard/utils/serialize.py", "mrmustard/lab/circuit_components.py", "mrmustard/lab/circuits.py", "mrmustard/physics/ansatz"],
     [("save/load", "mrmustard/utils/serialize.py"), ("_serialize/deserialize", "mrmustard/lab/circuit_components.py")],
     ["loaded object vs original", "contents of the cache directory after each step"])

prop("I15", "Operations never modify their operands",
     "Applying any public operation (composition, arithmetic, adjoint, dual, conversion, normalisation, indexing, measurement, evaluation, building a circuit and contracting it) leaves every existing object exactly as observable as before: same wires, representation, stored shape, name and parameters. "
     "Later changes made to the result through its public setters, or to parameters it alone owns, are never visible through the objects it was made from (an operation that has nothing to do may return its operand itself).",
     ["histories"], "All sequences of operations on a pool of components, each object being re-observed after every step.",
     "Tests observe the result of an operation, not the operands afterwards; aliasing only shows after a particular history of operations.",
     ["mrmustard/lab/circuit_components.py", "mrmustard/lab/states", "mrmustard/physics/wires.py", "mrmustard/physics/ansatz", "mrmustard/lab/circuits.py"],
     [("_from_attributes/_light_copy", "mrmustard/lab/circuit_components.py"), ("Wires copies", "mrmustard/physics/wires.py")],
     ["fingerprint (wires, shapes, arrays, parameters, names) of every object in the pool"])

prop("M16", "Measurement samplers follow the Born rule and their seed",
     "A photon-number or homodyne sampler only returns outcomes that have non-zero probability jointly over all modes, in mode order and in the requested number, with frequencies converging to the joint Born probabilities of the state, which its probability method returns normalised. "
     "Multi-mode sampling agrees with conditioning the state on each earlier outcome, whatever the correlations, for kets and density matrices alike. "
     "Given a seed (explicit or global), the samples are reproducible.",
     ["inputs", "schedules"], "All states on any number of modes, all samplers, seeds and sample counts.",
     "Tests look at means of a few product states; joint support and conditional collapse of correlated states are not checked.",
     ["mrmustard/lab/samplers.py", "mrmustard/lab/states/base.py"],
     [("Sampler.sample / sample_prob_dist / probabilities", "mrmustard/lab/samplers.py"), ("State.fock_distribution / quadrature_distribution", "mrmustard/lab/states/base.py")],
     ["sampler.sample(...), sampler.probabilities(...)"])

prop("V19", "Physicality, purity and separability are reported correctly",
     "is_positive, is_physical, is_pure and is_separable of a state and is_CP, is_TP and is_physical of a map are true exactly when the object has the property: a positive operator of unit trace, a normalised ket, a completely positive and trace-preserving map, a product of its modes (whatever the phase space, modes, displacement, normalisation and units of hbar), and conditions that are not implemented (Fock arrays, superpositions) are refused rather than answered. "
     "Constructors that require a pure state refuse mixed ones, states and channels drawn at random are physical, on the requested modes and within the requested squeezing, and symplectic eigenvalues and entropies agree with the covariance matrix.",
     ["inputs"], "All Gaussian states and channels and kernels obtained from them by changing parts of their (A, b, c).",
     "Tests assert that a few library states are physical; almost nothing checks that an unphysical object is reported as such, nor states with particular structure (nilpotent A, replacer channels, non-Hermitian kernels).",
     ["mrmustard/lab/states", "mrmustard/lab/transformations/base.py", "mrmustard/physics/gaussian.py"],
     [("is_physical/is_positive/is_pure/is_separable", "mrmustard/lab/states/base.py"), ("is_CP/is_TP", "mrmustard/lab/transformations/base.py"), ("random", "mrmustard/lab/states/dm.py")],
     ["values of the predicates", "Ket.from_phase_space on mixed states", "symplectic_eigenvals, von_neumann_entropy"])

prop("D18", "Stellar decompositions rebuild the state from a core state",
     "A stellar decomposition of a state over a set of core modes (formal or physical, of kets and of density matrices, single or batched) returns a core state and an operation on exactly the core modes whose composition is the original state. "
     "When the other modes of the core state are found in the vacuum, its core modes are in the vacuum. A physical decomposition returns a normalised physical core and a unitary (a trace-preserving completely positive channel for density matrices), and one whose conditions are not met is refused.",
     ["inputs"], "All Gaussian states, pure or mixed, correlated or not, displaced or not, and all choices of core modes.",
     "Tests decompose randomly drawn undisplaced states with generic correlations and equally many core and other modes; displaced, product, pure-as-density-matrix and unequal cases are not reached.",
     ["mrmustard/lab/states/ket.py", "mrmustard/lab/states/dm.py"],
     [("Ket.formal/physical_stellar_decomposition", "mrmustard/lab/states/ket.py"), ("DM.formal/physical/physical_mixed", "mrmustard/lab/states/dm.py")],
     ["core, operation, core >> operation, operation on the vacuum"])

prop("X17", "What is read off a state is the trace it stands for",
     "For any state with finitely many photons (pure, mixed, superposed, subnormalised; held as a Fock array, a Bargmann polynomial or a sum of them; any modes and cutoffs), every quantity read off it is the trace that defines it: probability, L2 norm and purity, normalisation, Fock and quadrature distributions, Wigner function (the state's own and the discretised one, by either method), reduced states, and expectation values of ket-like, density-matrix-like and unitary-like operators on any subset of its modes. "
     "Fidelities are squared overlaps when one state is pure and (tr sqrt(sqrt(a) b sqrt(a)))^2 otherwise, whichever representation holds the states. Composition, operators, partial traces, projections, sums and multiples give the state of the same definition; phase noise damps the coherences it should.",
     ["inputs", "histories"], "All finite superpositions and mixtures, all subsets and labels of modes, unequal cutoffs of states and operators, all representations, settings of the default representation and of hbar.",
     "Tests evaluate these on named Gaussian states and a few number states with small mode labels; unnormalised non-Gaussian mixtures, unequal cutoffs and colliding labels are not reached.",
     ["mrmustard/lab/states/base.py", "mrmustard/lab/states/ket.py", "mrmustard/lab/states/dm.py", "mrmustard/physics/wigner.py", "mrmustard/physics/fock_utils.py", "mrmustard/lab/circuit_components_utils/trace_out.py"],
     [("State.expectation/fidelity/purity/L2_norm/probability", "mrmustard/lab/states/ket.py"), ("DM.expectation/fidelity", "mrmustard/lab/states/dm.py"), ("State.wigner, fock_distribution, quadrature_distribution", "mrmustard/lab/states/base.py"), ("wigner_discretized", "mrmustard/physics/wigner.py")],
     ["numbers and arrays returned by the state's methods"])

prop("N21", "Array operations mean the same on every backend",
     "Every structural and linear-algebra operation of mrmustard.math (moving, joining, cutting, repeating, padding, gathering, updating, summing and multiplying axes; products, contractions and einsum; diagonals, traces, determinants, inverses, solutions, square roots, exponentials, eigenvalues; real and complex parts; comparison; maps and gradients) returns the array its index map defines, for arrays of any rank, shape and entries, axes counted from either end and given as any sequence: the same on numpy and jax, inside and outside compiled functions, and whether or not a compiled function was found in the on-disk cache. "
     "The type of the result follows the operands' and operands are not changed, except where an update is documented as in place.",
     ["inputs", "histories"], "All ranks and shapes including length-1 axes and scalars, all axis choices, integer, real and complex entries, batch axes that broadcast, both backends, traced or not, cold and warm compilation cache.",
     "Tests call each operation once or twice on small square arrays, mostly with default axes, each in a fresh process.",
     ["mrmustard/math/backend_manager.py", "mrmustard/math/backend_numpy.py", "mrmustard/math/backend_jax.py"],
     [("BackendManager methods", "mrmustard/math/backend_manager.py"), ("BackendNumpy", "mrmustard/math/backend_numpy.py"), ("BackendJax", "mrmustard/math/backend_jax.py")],
     ["arrays returned by math.<operation>"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
