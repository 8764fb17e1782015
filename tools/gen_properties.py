"""Writes /verif/properties.jsonl (one JSON object per line). Run by hand when a property changes."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe_at, hook_needed=None)))
CT, OT, OP, UT, PA, EC, PL = ['oranssi/%s.py' % m for m in
    ('circuit_tools', 'opt_tools', 'optimizers', 'utils', 'pauli', 'edge_coloring', 'plot_utils')]

prop('C01', 'A local operator is promoted to exactly its action on the chosen qubits',
 'Promoting a k-qubit operator to the full register, for any distinct wires in any order, gives the matrix that applies that operator to those qubits (first wire = first tensor factor, wire 0 = most significant bit) and the identity to every other qubit. The promotion is linear, preserves products and adjoints, leaves the operator it was given untouched, and rejects a wire outside the register or an operator whose size does not match the number of wires.',
 ['inputs', 'configurations'], 'every operator (unitary or not, real or complex), every ordered tuple of distinct wires, every register size',
 'Tests embed a handful of named gates on a few adjacent wires; permuted, non-adjacent, 3+ qubit and non-symmetric operators are a product space no list of examples covers.',
 [CT], [('get_full_operator', CT)], ['return value of get_full_operator, called directly and from layers/optimizers'])

prop('C02', 'Gate extraction reproduces the state the circuit really prepares',
 'The list of gate matrices and wires extracted from a user circuit, multiplied out in order on |0...0>, gives the same state as executing the circuit on the device, for every gate type, parameter value and wire pattern, including circuits that begin with a state preparation. The extraction reports operations in circuit order, one wire tuple per matrix, and executes nothing on the device.',
 ['programs', 'inputs'], 'every parametrised circuit built from the PennyLane gate set on any device size',
 'The tests extract one or two fixed circuits and compare gate-by-gate; arbitrary programs (depth, wires order, controlled/multi-qubit gates, state preparation) are unbounded.',
 [CT, OP], [('get_ops_from_qnode', CT)], ['lists returned by get_ops_from_qnode', 'first cost/state/unitary of the optimizers'])

prop('C03', 'Hamiltonian matrix, states and expectation values agree with each other',
 'The Hamiltonian matrix of a list of observables with coefficients (all one by default) is Hermitian, is linear in the coefficients, and its expectation value in any state equals the coefficient-weighted sum of the measured expectation values of the observables. Running a given unitary returns exactly its first column as the state, and measuring an observable on it returns <0|U^dagger O U|0>; a call without the unitary (or observable) is rejected.',
 ['inputs'], 'every list of Pauli-word/Hermitian observables (repeats and any wire order), coefficients, unitary, register size',
 'Tests compare one Hamiltonian and one state; agreement must hold for all observables, wire orders, coefficient vectors and unitaries.',
 [CT], [('get_hamiltonian_matrix', CT), ('circuit_state_from_unitary', CT), ('circuit_observable_from_unitary', CT)],
 ['return values; QNode results for circuit_*_from_unitary'])

prop('C04', 'Pauli operator bases are complete, orthogonal and correctly labelled',
 'For n qubits the operator basis contains exactly the Pauli words over {X,Y,Z} (3^n of them), or over {I,X,Y,Z} (4^n) when the identity is requested, each exactly once, each matrix being the tensor product spelled by its label in the same position of the list. The matrices are Hermitian, involutory and mutually orthogonal, the one-, two- and n-qubit constructors agree with each other, the lists with and without names are the same, and each call returns fresh matrices that later mutation cannot corrupt. The operator norm helper returns sqrt(tr(R^dagger R)) and is unitarily invariant.',
 ['configurations', 'inputs'], 'every register size, identity/name flag combination, position in the basis; every matrix for the norm',
 'Tests compare a few entries; label/matrix correspondence and completeness concern every position at every size.',
 [UT], [('get_su_2_operators / get_su_4_operators / get_su_n_operators', UT), ('operator_2_norm', UT)], ['returned lists'])

prop('C05', 'Local Lie algebras enumerate every allowed direction on every qubit set once',
 'A freshly enumerated SU(2), SU(4) (optionally with SU(2)) or SU(8) (optionally with SU(2) and SU(4)) local algebra on n qubits contains, for every allowed Pauli word and every set of that many distinct qubits in increasing order, exactly one generator labelled (word, qubits), whose matrix is that word acting on those qubits. Enumerating again, or after random draws, changes no generator; random draws only ever add generators that are correct for their label.',
 ['configurations', 'histories'], 'every algebra, flag combination, register size and order of enumeration and random draws',
 'No test looks at the algebras; layers silently optimise over whatever generators they find there.',
 [OT], [('AlgebraSU2 / AlgebraSU4 / AlgebraSU8', OT)], ['full_paulis mapping after enumeration'], [('full_paulis', '(word, *qubits) -> 2^n matrix', OT)])

prop('C06', 'Reported Lie-algebra gradients are the true Riemannian gradient of the energy',
 'For every unitary U and list of observables with sum H, the reported value for each Pauli word P (all 4^n, keyed by the word, wire 0 first) equals Im<psi|[P,H]|psi>/2^n, that is, minus the derivative at t=0 of the energy of exp(-itP)U divided by 2^n; the value for the identity word is zero. Every layer reports the same numbers for its observables, and an optimizer asked for them returns the gradient at the unitary reached after each step.',
 ['inputs', 'configurations'], 'every unitary, observable list, register size, layer type',
 'Tests check the existence of the keys or a single value; the relation is to the derivative of the energy at every point of SU(2^n).',
 [CT, OT, OP], [('get_all_su_n_directions', CT), ('LieLayer.get_lie_algebra_directions', OT), ('return_omegas', OP)], ['returned dictionaries'])

prop('C07', 'The operator-space parameter-shift rule yields the exact commutator',
 'For every density matrix rho and every involutory observable O, shifting with gate(t)=exp(-itO/2) returns exactly i[rho,O] up to numerical precision: a traceless Hermitian operator that vanishes if and only if rho and O commute. rho is not modified.',
 ['inputs'], 'every density matrix (pure or mixed), every Pauli-word (or rotated Pauli) generator, every size',
 'Tests sample one random state per observable.',
 [CT], [('param_shift_comm', CT)], ['return value'])

prop('C08', 'The exact optimizer follows the Riemannian gradient flow step by step',
 'Each step of the exact optimizer updates the state by, for each observable O in list order, psi -> exp((eta/2)[rho,O]) psi with rho=|psi><psi| re-evaluated before each observable, starting from the state prepared by the user circuit; the returned final unitary generates the last returned state and is the circuit unitary multiplied by those updates (when no perturbation is requested). This holds for any number and kind of Pauli-word observables, in any order, with repeats, on any register.',
 ['inputs', 'histories'], 'every circuit, observable list, step size in [0,1] and step count',
 'Tests check that the cost ends near a known minimum for a few circuits, which many wrong flows also satisfy.',
 [OP, CT], [('exact_lie_optimizer', OP), ('param_shift_comm', CT)], ['costs, states, unitary returned'])

prop('C09', 'Exact optimization of one Pauli observable is monotone and converges',
 'For a single Pauli-word observable with expectation cos(a) the exact optimizer yields costs following a -> a + eta sin(a): never increasing, always within [-1,1], constant at eigenstates and at eta=0, and with sufficiently many steps and no early stop arbitrarily close to -1 from every non-stationary start. For any observable list every reported cost lies between the smallest and largest eigenvalue of the summed observable, for all optimizers and layers.',
 ['inputs', 'histories'], 'every initial state, Pauli word, eta in [0,1], number of steps',
 'Tests only look at final costs of hand-picked starts.',
 [OP], [('exact_lie_optimizer', OP), ('approximate_lie_optimizer', OP), ('parameter_shift_optimizer', OP)], ['cost lists'])

prop('C10', 'Costs, states and unitaries of a trajectory describe the same run',
 'In every optimizer the lists of costs, states, unitaries, gradients, parameters and phases line up: cost k is the summed expectation value of the observables in state k, state k is unitary k applied to |0...0>, entry 0 is the user circuit, there is one more cost/state/unitary than steps taken and one gradient/phase entry per step. Without extra return flags the bare cost list is returned; with flags a tuple in the documented fixed order (costs, states, gradients, unitaries, gates, perturbations, phases) containing exactly what was asked for, and the requested flags never change the trajectory itself.',
 ['configurations', 'inputs', 'histories'], 'every optimizer, layer sequence, circuit, observable list and subset of return flags',
 'Each test asks for one flag combination and looks at one end of one list.',
 [OP], [('returnables bookkeeping', OP)], ['tuples returned by the three optimizers'])

prop('C11', 'Every layer and optimizer step stays on the unitary group',
 'Whatever the layer, observables, options and number of steps, the unitaries produced are unitary to numerical precision when the input is, and the gradient-step and line-search layers only act by left multiplication, so composing with a fixed unitary that leaves |0...0> alone commutes with the step. With the unitary error check enabled this holds even for step sizes so large that the matrix exponential loses precision; projecting any invertible matrix yields the nearest unitary and leaves unitaries unchanged, and the unitarity test behind it accepts exactly the matrices that are unitary to 1e-8.',
 ['inputs', 'histories', 'configurations'], 'every layer type and option, unitary, eta, run length',
 'Tests never check unitarity of a layer output; drift needs long or extreme runs.',
 [OT, OP], [('layer __call__ methods', OT), ('_is_unitary / _project_onto_unitary', OT)], ['unitaries returned by layers and optimizers'])

prop('C12', 'Local layers apply precisely the projected Riemannian gradient step',
 'One application of a local layer left-multiplies the unitary by, for each observable O in order and then each qubit (locality 1) or qubit pair (locality 2, increasing order), exp(-(eta/2^n) sum_P <[P,O]> P) over the layer\'s directions P, all expectation values taken in the state on entry; with Trotterization the exponential is split into one factor per direction in order. The custom-direction layer does the same with all its generators on all qubits in one exponential per observable; restricting the directions restricts the motion to those words, invalid directions are rejected, eta=0 or a stationary state leaves the unitary unchanged, and setting a new step size affects all later applications and nothing else.',
 ['inputs', 'configurations'], 'every unitary, observable list, locality, direction subset, eta, Trotter flag, register size',
 'Tests only check final costs after many steps on fixed examples, or that construction succeeds.',
 [OT], [('LocalLieAlgebraLayer', OT), ('CustomDirectionLieAlgebraLayer', OT)], ['unitary returned by layer call'])

prop('C13', 'Stochastic layers take correct random single-direction gradient steps',
 'Each application of the stochastic layer left-multiplies the unitary by exp(-(eta/2^n) <[P,H]> P) for one randomly drawn one- or two-qubit Pauli word P, H being the summed observable and the expectation taken in the state on entry. No qubit is used again before every qubit has been used, nor a direction before every direction with the same number of qubits has been used; every direction and qubit is reachable, every word on every qubit or pair already as the first step of a fresh layer, draws depend only on the global numpy seed, and runs with the same seed coincide.',
 ['inputs', 'histories'], 'every unitary, observable list, eta, register size, seed and number of steps',
 'The only test of this layer merely runs it (and failed at the pinned commit).',
 [OT], [('StochasticLieAlgebraLayer', OT), ('AlgebraSU4.get_random_direction_and_qubits', OT)], ['unitary before/after each call'])

prop('C14', 'Line-search layers move to the exact minimum along the steepest direction',
 'Each application of a line-search layer (SU(2)+SU(4), SU(8) and the first phase of the Zassenhaus layer) applies a rotation generated by a single allowed Pauli word whose absolute gradient is maximal (for the SU(2)+SU(4) layer: maximal among the words other than the one used in its previous step), with the angle that globally minimises the energy along that one-parameter curve. Consequently the energy never increases from step to step and the gradient along the chosen word is zero afterwards.',
 ['inputs', 'histories'], 'every unitary, observable list, register size and call history',
 'Tests check a final cost on one Hamiltonian; optimality along the direction must hold at every point.',
 [OT], [('rotosolve', OT), ('SquaredLieAlgebraLayer', OT), ('SU8_AlgebraLayer', OT), ('ZassenhausLayer', OT)], ['unitary before/after each call'], [('previous_pauli', 'word used in the previous step', OT)])

prop('C15', 'Commuting layers act on disjoint qubits and report the gates they applied',
 'In commuting mode the line-search layer rotates about one Pauli direction of maximal gradient on a non-empty set of pairwise disjoint qubit sets that all carry (to 1e-3) that maximal gradient, does not end above the energy of its starting angle as long as its internal gradient-descent step size is stable, and reports exactly the (word, qubits, angle) gates whose product with the old unitary gives the new one. Through the optimizer these gate lists are returned one per step.',
 ['inputs', 'histories'], 'every unitary, observable list and register size, including many degenerate gradients',
 'No test exercises the commuting mode.',
 [OT, OP, CT], [('SquaredLieAlgebraLayer commute=True', OT), ('get_commuting_set', CT), ('return_gates', OP)], ['unitary and gate list returned'])

prop('C16', 'Adaptive VQE layers grow one ansatz and report parameters that reproduce it',
 'Each call of the adaptive VQE layer appends exactly one layer - all single-qubit rotations of one axis, or one two-qubit word on the even bonds or on the odd bonds plus the closing bond - with the largest summed absolute gradient among directions different from the previous one, re-optimises all parameters from the previous ones plus new ones at 0.1, and returns a unitary equal to the whole ansatz (Hadamards on all qubits, then the layers in order) at the returned parameters. The energy it reports is the energy of that ansatz, and the caller\'s parameter list is not modified.',
 ['inputs', 'histories'], 'every observable list, register size, starting unitary and number of growth steps',
 'Tests only check that the final cost is low for one model.',
 [OT, OP], [('AdaptVQELayer', OT)], ['circuit handed to the supplied optimizer, returned unitary and parameters'], [('layers', 'sequence of appended (direction, pattern)', OT)])

prop('C17', 'The Zassenhaus layer alternates its two phases on schedule and never fails',
 'The layer performs ratio[0] line-search steps, then ratio[1] second-phase steps, cyclically, and reports the phase of each step; a second-phase step is a rotation about one allowed word B of non-vanishing gradient that overlaps the previously used word A on exactly one qubit, with AB a word of the SU(8) algebra whose gradient exceeds 1e-3, by the angle prescribed by eta, the gradient of AB and the angle of A. When no such word exists, or the angle of A is below 1e-3, the step leaves the unitary unchanged and line search resumes; no reachable state makes the layer raise.',
 ['inputs', 'histories', 'configurations'], 'every unitary, observable list, ratio, eta, number of steps, including stationary states',
 'Only one Hamiltonian is ever run and nothing about the phases is asserted.',
 [OT, OP], [('ZassenhausLayer', OT), ('return_zassenhaus', OP)], ['unitary before/after each call; returned phase list'], [('su_state/counter', 'phase machine', OT)])

prop('C18', 'Optimizers obey their step budget, early-stopping rule and layer schedule',
 'A run takes at most nsteps steps and stops early exactly at the first eligible step whose cost differs from the reference cost by at most the tolerance (up to numpy\'s relative slack of 1e-5): the exact optimizer from its 5th and the parameter-shift optimizer from its 4th step against the previous cost, the layered optimizer from its 10th step against the cost five steps before; with the tolerance disabled it always uses the whole budget. Layers are applied cyclically in list order. With perturbation enabled a run never stops early, lists exactly the (zero-based) steps at which the rule fired, and applies at each of them a small real orthogonal rotation scaled by eta.',
 ['configurations', 'histories'], 'every nsteps, tol, eta, perturbation flag, layer list and cost trajectory',
 'Tests use runs that never reach, or always reach, the stopping rule; the boundary steps are not observed.',
 [OP], [('early stopping and perturbation blocks', OP)], ['lengths of returned lists, perturbation list, layer calls'])

prop('C19', 'The parameter-shift optimizer performs exact gradient descent on the energy',
 'Consecutive returned parameters satisfy p(k+1) = p(k) - eta * grad E(p(k)), E being the summed expectation value of the observables in the state of the user circuit, for every circuit structure, parameter sharing and flat or rectangularly nested parameters, observable list and learning rate; reported costs are E(p(k)) and reported states are the circuit states at p(k).',
 ['inputs', 'programs'], 'every differentiable circuit, parameter structure, observable list, eta in [0,1]',
 'Tests check only the final energy of two circuits.',
 [OP], [('parameter_shift_optimizer', OP)], ['costs, states, params lists'])

prop('C20', 'Invalid arguments are rejected before anything is executed',
 'Every optimizer and layer raises an error - and executes nothing on the device - for out-of-range or wrongly typed eta, tolerance, step count, flags, layer lists, directions, localities, register sizes, or a circuit with the wrong return; all documented boundary values (eta 0 and 1, tolerance 0 and infinity, one step, disabled tolerance for the layered optimizer) are accepted.',
 ['inputs', 'configurations'], 'every argument of every public entry point, alone and combined with otherwise valid arguments',
 'Tests probe a few invalid values; the guarantee is per argument and per value class, and that nothing ran.',
 [OP, OT, CT], [('assertions at entry', OP), ('assertions in constructors', OT)], ['exceptions, device execution counter'])

prop('C21', 'Runs are pure and reproducible: no input mutation, no hidden memory',
 'No optimizer, layer call or helper modifies the parameters, observables, layer list, unitary or arrays it is given, or previously returned results; repeating a run with fresh layers on a new or already used device gives the same result whatever ran before in the same process and whatever the hash seed of the interpreter; runs without randomness neither consume nor depend on the global random state, and runs with randomness are a function of the seed. Memoryless layers give the same output for the same input regardless of their call history, and layers sharing a device do not influence each other.',
 ['histories', 'inputs'], 'every sequence of optimizer/layer calls interleaved in one process',
 'Each test starts from a fresh process state and does not compare inputs before and after.',
 [OP, OT, CT], [('absence of shared mutable state', OP), ('self.op scratch buffers', OT)], ['snapshots of all arguments and results; repeated runs'])

prop('C22', 'Symbolic Pauli products and commutators agree with matrix algebra',
 'For Pauli operators and monomials with arbitrary complex (or symbolic) coefficients on arbitrary sites, the product, commutator, commutation test and conjugation represent exactly the corresponding matrix products, AB-BA, whether AB=BA, and coefficient conjugation - including for operands that are themselves results of earlier operations. Multiplication is associative, multiplication and commutator never modify their operands, and multiplication requires equal sites for single operators; the (word, sites) label of a monomial lists exactly its non-identity factors in site order.',
 ['inputs', 'histories'], 'every expression tree over Paulis/monomials with any coefficients, sites and factor order',
 'There are no tests of the symbolic algebra.',
 [PA], [('Pauli.__mul__ / PauliMonomial.__mul__ / commutator', PA)], ['results mapped to matrices'])

prop('C23', 'Sums of Pauli monomials form a faithful, non-mutating algebra',
 'Adding, subtracting, multiplying and scaling sums of Pauli monomials represents exactly the matrix operation; sums of terms on common sites with numeric coefficients are kept simplified (repeated terms merged, cancelled duplicates dropped) without changing the operator they represent. Neither constructing a sum nor adding, subtracting or multiplying sums changes the operator represented by any operand, so operands can be reused in any order.',
 ['inputs', 'histories'], 'every expression over sums, with repeated, cancelling and complex terms, reusing operands',
 'There are no tests of the sums; the failures need operand reuse after an operation.',
 [PA], [('PauliSum', PA)], ['matrix represented by every live object after every operation'])

prop('C24', 'Equality, hashing and ordering of Pauli objects are mutually consistent',
 'Equality of Paulis ignores coefficients and equality of monomials ignores all of the coefficient but whether it is real; both are equivalence relations, equal objects have equal hashes and therefore behave in sets and dictionaries, and unequal-length monomials refuse comparison. The ordering of equal-length monomials used for sorting is a strict weak order: irreflexive, antisymmetric and transitive, grouping first by word, then complex before real, then by coefficient, so sorting is independent of input order.',
 ['inputs'], 'every pair and triple of Paulis/monomials',
 'There are no tests; contracts quantify over pairs and triples.',
 [PA], [('__eq__/__hash__/__lt__', PA)], ['results of ==, hash, <, sorted, set'])

prop('C25', 'Commuting-set selection returns disjoint edges taken from the input',
 'For every non-empty simple graph given as a list of distinct two-qubit edges, or list of distinct single qubits, the selection returns a non-empty list of the input\'s own edges (same orientation, no repeats) that pairwise share no qubit, terminating on every graph; if the input is already disjoint it is returned whole. Edge colouring with at least as many colours as the maximal degree reports success exactly when no two edges at a vertex share a colour and all colours are within the allowed number.',
 ['inputs', 'schedules'], 'every edge list (paths, cycles, stars, complete and random graphs) and every random choice of the heuristic',
 'There is no test; failures appear on odd cycles and vertices of degree three or more, depending on random choices.',
 [CT, EC], [('get_commuting_set', CT), ('applyHeuristic', EC)], ['returned edge list and colours'])

prop('C26', 'Bloch-sphere coordinates and states convert into each other without loss',
 'Every pair of angles gives a pure, trace-one, Hermitian density matrix with Bloch vector (sin t cos p, sin t sin p, cos t); converting a pure single-qubit state to angles gives finite angles with 0<=t<=pi, 0<=p<2pi that reproduce the state (to the 1e-3 snapping tolerance), including at and within rounding distance of the poles and the branch cut. A matrix whose trace is not one is rejected.',
 ['inputs'], 'every angle pair and every single-qubit pure state, including rounding-level perturbations',
 'Tests use a grid away from the poles; the failures are at rounding distance from them.',
 [PL], [('spherical_to_state / state_to_spherical', PL)], ['returned values'])

prop('C27', 'Direction plots show exactly the gradients they claim to show',
 'Each plot of the Lie-algebra directions along a trajectory draws one curve per promised quantity with one point per unitary: individual curves equal the reported gradient of the Pauli word in their label (words with identically zero gradient may be omitted), aggregate curves equal the sum of absolute gradients over the words with the corresponding number of non-identity factors. The plotting helpers work for every number of unitaries and observables and do not modify them.',
 ['inputs'], 'every list of unitaries and observables at the supported register sizes',
 'The tests do not look at the plotted data; one of the plot functions could not even run.',
 [PL], [('plot_su16_directions, plot_su16_directions_separate, plot_su8_directions, plot_su8_directions_individually', PL)], ['matplotlib line data and labels'])

prop('C28', 'Result directories are created once and safely under concurrent runs',
 'Creating a save path returns path/experiment_name, the directory exists afterwards, an existing directory and its contents are left alone, and any number of processes creating the same or nested paths at the same time all succeed, under every interleaving of their file-system calls. A path component (the last included) that is a file is reported as an error and nothing is deleted.',
 ['schedules', 'inputs'], 'every path, existing content and interleaving of concurrent creators',
 'There is no test; the race between checking and creating needs a specific interleaving.',
 [UT], [('save_path_creator', UT)], ['return value, file system state, exceptions in every process'])

prop('C29', 'The expansion-matching Zassenhaus layer returns its ansatz at fitted angles',
 'On a two-qubit register each application of the second Zassenhaus layer returns exactly the circuit Hadamards, RX(x0) on qubit 0, RX(x1) on qubit 1, then the ZZ rotation by z, where (x0,x1,z) locally minimise (to optimizer precision) the mean squared difference between the coefficients of the second-order expansion of that circuit, (-x0, -x1, -z, x0 z, x1 z) on the words X0, X1, ZZ, YZ, ZY, and eta times the gradients Im<[P,H]> of these words in the entry state, H being the summed observable. It depends on the state only, not on its call history; a vanishing target gives the plain Hadamard circuit; a new step size takes effect at the next call.',
 ['inputs', 'histories'], 'every two-qubit unitary, observable list, step size and call history',
 'No test applies the layer; the fitted angles depend on all gradients at once and wrong ones still give a valid unitary.',
 [OT], [('ZassenhausLayerV2.__call__', OT)], ['return value of the layer, unitaries recorded by the layered optimizer'])

prop('C30', 'Printed forms and direction listings identify the objects they describe',
 'The printed and TeX forms of a Pauli operator or monomial - including results of earlier operations and symbolic coefficients - can be read back to exactly its factors (site and letter, in site order) and its coefficient (omitted in the plain form only when it is one); the forms without coefficient are equal exactly for equal words on equal sites. The directions a layer lists, and names in its printed row, are exactly the directions it was built with, each generator once, and do not change however often the layer is used.',
 ['inputs', 'histories'], 'every Pauli object, coefficient and operation history; every layer, direction subset and call history',
 'Tests print nothing and compare no listing; a wrong site or lost coefficient in a form, or a listing consumed by random draws, goes unnoticed.',
 [PA, OT], [('__repr__, __tex__, tex', PA), ('get_lie_algebra_directions_strings, __repr__ of the layers', OT)], ['strings and lists returned'])

prop('C31', 'The cost landscape plot shows each cost at its point, labels resize alone',
 'The Bloch-sphere landscape drawn from K angles phi, L angles theta and an L-by-K array of costs (row l, column k: the cost at phi_k, theta_l) shows phi horizontally and theta vertically over their whole range, and the colour at every point, read with the accompanying colour bar (exactly one), stands for the cost handed over for that point, for square and non-square, evenly and unevenly spaced grids. Changing the label size sets the font size of both axis labels and all tick labels of the given axes. Neither changes data, other axes or other text.',
 ['inputs'], 'every grid, cost array, figure layout and label size',
 'There is no test; a transposed or shifted landscape looks plausible and goes unnoticed.',
 [PL], [('plot_bloch_sphere_2d, change_label_fontsize', PL)], ['pixels of the rendered figure, text artists'])

prop('C32', 'Closing Pauli words under commutators yields the algebra they generate',
 'Starting from any set of Pauli words with unit coefficients, adding halved symbolic commutators to a set or graph until nothing new appears terminates and contains exactly the words of the Lie algebra they generate (real and imaginary ones counted separately, the identity aside), each once and with unit modulus. The undirected algebra graph joins each word to exactly its non-zero commutators, the directed one records the number of commutator rounds after which each word first appears, and the two local algebras of the three-qubit example are the nine two-qubit words on its two bonds.',
 ['inputs', 'histories'], 'every set of generating words and every order in which commutators are taken',
 'There is no test; the closure combines products, equality, hashing and coefficients over hundreds of chained results.',
 [PA, 'experiments_paper/algebra_graphs.py'], [('generate_product_algebra_graph, generate_product_algebra_digraph, SU4_to_SU8_algebra', 'experiments_paper/algebra_graphs.py'), ('PauliMonomial.commutator, __eq__, __hash__', PA)], ['nodes, edges and depths of the graphs; members of sets of monomials'])

prop('C33', 'Edge-colouring repair keeps exact books and respects its limits',
 'For every simple graph and every number of colours not below its maximal degree: the conflict level of a vertex is its degree minus the number of distinct colours on its edges; the conflict table lists exactly the vertices with conflicts, each at its level, when created and after every recolouring of an edge, repair chain and round of the heuristic, and the reported changes, totals and highest level agree with it. Pre-colouring takes the edges in graph order and gives each an allowed colour, one that is free at both ends if there is one. A round starts at a vertex of highest level and recolours a connected set of edges with allowed colours. The heuristic reports success exactly when no conflict is left and gives up exactly when more than repetition_limit rounds in a row brought no improvement on the best count; applying it restarts from a fresh pre-colouring after each failure, at most iteration_limit times, stops at the first success, and judges every colouring (also improper, incomplete or out-of-range ones) correctly.',
 ['inputs', 'schedules'], 'every graph, colouring, number of colours, pair of limits and every random choice',
 'There is no test; a table that drifts from the colours only shows as a rare endless loop, crash or wrong verdict.',
 ['oranssi/edge_coloring.py'], [('conflictLevel, createConflictDictionary, updateConflictDictionary, colorEdgeAndUpdate, maxConflictLevel, totalNumberOfConflicts', 'oranssi/edge_coloring.py'), ('KempeStart, preColoring, heuristic, applyHeuristic, properlyColored, checkEdgeColoring', 'oranssi/edge_coloring.py')], ['colours on the graph and the conflict table after every operation and inside the running heuristic'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
