import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Numpy simulators compute exactly the all-zero-outcome branch of the pattern",
 "For a circuit whose measured nodes are all in the X, Y or XY planes, and for any input state, angles, schedule and accepted window size for which no outcome 0 has vanishing probability (below 1e-4), running the numpy state-vector or density-matrix backend in its default mode yields exactly the normalised state obtained by putting the input state on the input nodes (in their listed order) and |+> on all others, applying one controlled-Z per edge of the graph, and projecting every measured node onto its outcome-0 eigenvector at its own angle, with the remaining qubits listed in the circuit's quantum-output order. A run never silently omits or repeats an edge, a measurement or a qubit: it either returns that state or raises an error. Resetting the simulator, with or without a new input state, makes the next run equivalent to a run of a freshly built simulator.",
 ["inputs","configurations","histories"],"all graphs, input/output lists, schedules, window sizes, angles and input states; all run/reset sequences",
 "tests run one-wire teleportation and three templates at random angles with |+> inputs, and only compare backends with each other",
 ["mentpy/simulators/np_simulator_sv.py","mentpy/simulators/np_simulator_dm.py","mentpy/simulators/pattern_simulator.py"],
 [("sliding window of simulated qubits","NumpySimulatorSV/DM.__init__, measure, run"),("qubit reordering by swaps","find_swaps, reorder_qubits")],
 [("schedule","order in which nodes enter the window","np_simulator_*.py"),("qstate","current state over the window","np_simulator_*.py")],["PatternSimulator.run return value"])
p("C02","The PennyLane backend executes the deterministic adaptive pattern of the circuit",
 "For every circuit with a causal flow and X/Y/XY measurements, the PennyLane backend prepares the given input state on the input nodes, puts |+> on every non-input node, applies one controlled-Z per edge, and then measures each non-output node exactly once, in an order compatible with the flow, at the angle that belongs to that node, correcting outcome 1 by X on its flow successor and Z on the successor's other neighbours. The returned density matrix lists the output nodes in order and equals the numpy backends' result for the same angles, for every order in which the measurements were declared.",
 ["inputs","configurations"],"all circuits with causal flow, all angle vectors and input states, all declaration orders of measurements",
 "tests compare on a few templates where node order, declaration order and measurement order coincide",
 ["mentpy/simulators/pennylane_simulator.py"],[("extended angle list","PennylaneSimulator.run"),("adaptive circuit","mbqcircuit_to_circuit")],None,["PatternSimulator(backend='pennylane').run"])
p("C03","Causal-flow search is sound and complete",
 "For every simple graph and equally sized input and output lists, the causal-flow search returns either no flow, exactly when no causal flow exists, or a successor function and an order such that every non-output node u is a neighbour of its successor, no successor is an input, and u comes strictly before its successor and before every other neighbour of that successor. Distinct nodes get distinct successors, the reported layers strictly decrease along the order and outputs have layer 0, and the reported depth is the number of measurement layers.",
 ["inputs"],"all finite simple graphs with input and output lists of equal size",
 "no test asserts anything about flow; it is only exercised indirectly through templates",
 ["mentpy/mbqc/flow.py"],[("layer by layer corrector search with counters","find_cflow, causal_flow_aux")],[("past","number of unprocessed neighbours of a candidate corrector","flow.py causal_flow_aux")],["find_cflow return","MBQCircuit.flow, partial_order, depth"])
p("C04","Generalised-flow search is sound",
 "Whenever the generalised-flow search succeeds, every non-output node u has been given a correction set of non-input nodes, all of strictly later layer than u, whose odd neighbourhood among the nodes not yet assigned a later layer is exactly {u}; the layers are exactly those of the layer-by-layer construction and every node has one. When it reports failure, no node left unassigned has such a correction set.",
 ["inputs"],"all finite simple graphs with input and output sets",
 "no test reaches generalised flow","mentpy/mbqc/flow.py".split(),[("linear systems over GF(2) per layer","find_gflow, gflowaux")],None,["find_gflow return, Flow.layers"])
p("C05","Measurement orders respect the flow",
 "For every circuit with a flow, the measurement order lists every node exactly once, and no node appears after a node that the partial order says it must precede; the layers partition the nodes, outputs in the last one, and follow the order. Assigning a measurement order succeeds exactly when it does not contradict the partial order, and with controlled measurements a controlled node is ordered after every node its condition depends on.",
 ["inputs","histories"],"all circuits with flow, all candidate orders, all condition sets",
 "no test reads the measurement order","mentpy/mbqc/mbqcircuit.py mentpy/mbqc/flow.py".split(),[("calculate_order / layers","mbqcircuit.py, flow.py"),("order validation","_check_measurement_order"),("controlled order","_create_new_partial_order")],None,["MBQCircuit.measurement_order, ordered_layers"])
p("C06","Circuit bookkeeping always matches its measurements",
 "After construction and after any sequence of setting, replacing or deleting measurements or adding edges, the trainable, controlled, quantum-output and classical-output node lists and the planes are exactly those determined by the current measurement of each node, every stored measurement knows its own node, and every node has an entry. Invalid nodes or values are rejected without changing the circuit, and neither the caller's graph nor its measurement objects are modified by relabelling construction; adding edges keeps all measurements.",
 ["histories","inputs"],"all constructor arguments and all sequences of updates",
 "tests check only the number of trainable nodes of one template","mentpy/mbqc/mbqcircuit.py".split(),[("attribute recomputation","MBQCircuit._update_attributes"),("constructor relabelling and defaults","MBQCircuit.__init__")],[("_measurements","measurement per node","mbqcircuit.py")],["trainable_nodes, controlled_nodes, planes, quantum_output_nodes, classical_output_nodes"])
p("C07","Stacking and merging circuits compose exactly the given wires",
 "Horizontal stacking, vertical stacking and merging of circuits (with the default relabelled indices) produce the disjoint union of the graphs in which exactly the named output/input pairs are identified: every other node keeps its edges and its measurement, identified nodes keep the second circuit's measurement and the edges of both, and nothing else is connected. The inputs and outputs of the result are the remaining inputs and outputs in the documented order, and the operand circuits are left unchanged.",
 ["inputs","programs"],"all pairs/lists of circuits and all identification lists",
 "tests use hstack only to build one Lie-algebra example","mentpy/mbqc/mbqcircuit.py".split(),[("disjoint union and edge contraction","_hstack2, _vstack2, merge")],None,["hstack, vstack, merge results"])
p("C08","Templates build exactly the documented circuits",
 "For all valid sizes, the linear, many-wire, grid (open and cylindrical) and single-Pauli templates have exactly the documented nodes and edges, inputs at the first and outputs at the last node of each wire in wire order, and the stated measurement planes; the Pauli template joins the ancilla to the middle node of wire q exactly when the operator acts with X or Y there and to the first node exactly when it acts with Z or Y. The MuTA and SPT templates have the documented number of wires with one input and one output each, MuTA circuits have a causal flow, and invalid sizes are rejected.",
 ["inputs"],"all template sizes and Pauli operators",
 "tests count nodes of a few templates for two sizes","mentpy/mbqc/templates.py".split(),[("edge enumeration","linear_cluster, many_wires, grid_cluster, from_pauli")],None,["template return values"])
p("C09","Pauli operators: text, tableau and algebra agree",
 "A Pauli operator built from text, a list of strings or a binary tableau always shows the same operator in both forms, row by row and qubit by qubit, for any number of rows and qubits. Products, commutators, symplectic products, subsets, appends, membership, indexing and equality agree with the Pauli group modulo phase: the product adds tableaux mod 2, two operators have symplectic product 1 exactly when they anticommute, and equal operators have equal hashes; rows of unequal length are rejected.",
 ["inputs"],"all sets of Pauli strings and all binary tableaux","tests use single examples of up to three qubits",
 "mentpy/operators/pauliop.py".split(),[("text/tableau conversion","_mat_to_txt, _txt_to_mat"),("GF(2) arithmetic","__mul__, commutator, symplectic_prod")],None,["PauliOp.txt, PauliOp.matrix"])
p("C10","The binary linear solver finds a solution whenever one exists",
 "For every binary matrix A and vector b (square or not, any rank) for which A x = b has a solution modulo 2, the solver returns a 0/1 vector that satisfies every equation modulo 2. It never modifies its arguments.",
 ["inputs"],"all binary matrices and right-hand sides","no test calls the solver directly",
 "mentpy/calculator/linalg2.py mentpy/mbqc/flow.py".split(),[("elimination and back substitution","solve, binary_gaussian_elimination")],None,["mentpy.calculator.solve"])
p("C11","Lie-algebra completion is the exact commutator closure",
 "Completing a set of Pauli operators returns a list that contains every generator and the identity, is closed under commutators of any two of its members, contains nothing that is not generated from the generators by commutators (apart from the identity), and has no operator twice if the generators have none. It either returns this closure or raises an error when the iteration limit is hit; the generators passed in are not modified.",
 ["inputs"],"all generator sets and iteration limits","tests check only the size of the result for a few grids",
 "mentpy/utils/lie_algebra.py".split(),[("work-list of unprocessed pairs","lie_algebra_completion"),("duplicate removal","remove_repeated_ops")],[("queue","pairs still to be commuted","lie_algebra.py")],["lie_algebra_completion, remove_repeated_ops, calculate_lie_algebra"])
p("C12","Lie-algebra generators are the flow-corrected stabiliser products",
 "For each measured node j the operator used as generator is a product of graph-state stabilisers that contains only stabilisers of non-input nodes strictly after j in the circuit's partial order, and that acts with a Z component on j and on no other measured node; if no such product exists an error is raised. The returned generators are the distinct restrictions of these operators to the output nodes in order, and they do not depend on how the user labelled or in which order the user inserted the nodes.",
 ["inputs"],"all circuits with flow, all labelings","tests check only the size of the completed algebra on grids with sorted labels",
 "mentpy/utils/lie_algebra.py mentpy/mbqc/mbqcircuit.py".split(),[("constraint system","_constrains, _find_solution"),("restriction to outputs","calculate_gens_lie_algebra")],None,["calculate_complete_gens_lie_algebra, calculate_gens_lie_algebra"])
p("C13","Measurement operators are valid two-outcome projective measurements",
 "For every plane and angle, a measurement's operator is Hermitian, traceless and squares to the identity, and equals the documented combination of Pauli matrices for that plane (XY, XZ, YZ, XYZ with two angles, or a fixed X, Y or Z); the two measurement effects are complementary orthogonal projectors summing to the identity, effect 0 being the +1 eigenspace. A measurement is trainable exactly when it has a variable plane and no angle; a fixed angle cannot be overridden, a missing one must be supplied, and unsupported planes or angles on X/Y/Z are rejected.",
 ["inputs"],"all planes, all angles, all argument orders of the constructor","tests evaluate two angles",
 "mentpy/operators/ment.py mentpy/operators/gates.py".split(),[("operator construction","Ment.__init__, Ment.matrix, Ment.get_povm")],None,["Ment.matrix, Ment.get_povm, Ment.is_trainable"])
p("C14","Classical outcome expressions evaluate mod 2 and track their dependencies",
 "Any expression built from measurement outcomes, constants and callables with the arithmetic, comparison and logical operators evaluates, for every assignment of outcomes, to the operator applied to the values of its operands, with the result reduced mod 2 to a boolean, negation included. The set of nodes an expression depends on is the union of those of its outcome operands, and the value never depends on the outcome of any other node; building an expression leaves its operands unchanged.",
 ["inputs","programs"],"all expression trees and all outcome assignments","no test builds an outcome expression",
 "mentpy/operators/ment.py".split(),[("operator overloading","MentOutcome._binary_operation and the operator methods")],None,["MentOutcome call and cond_nodes"])
p("C15","Controlled measurements behave as the selected branch",
 "For every condition, branch pair and outcome assignment, a controlled measurement's operator, effects, angle and plane are exactly those of the branch selected by the condition, with a supplied angle used only by a branch that is trainable. It is trainable exactly when one of its branches is, a copy behaves identically, and a condition that is neither a boolean nor an outcome is rejected by assignment.",
 ["inputs"],"all branch planes/angles, conditions and outcome assignments","no test covers controlled measurements",
 "mentpy/operators/controlled_ment.py mentpy/simulators/np_simulator_dm.py".split(),[("branch selection","ControlMent.matrix/get_povm/angle/plane/copy")],None,["ControlMent.matrix, get_povm, copy"])
p("C16","Multi-qubit gate builders act on exactly the addressed qubits",
 "For every number of qubits and every valid choice of qubits, the embedding of a one-qubit gate, the controlled-Z, the SWAP and the CNOT builders (for distinct qubits) return the 2^n-dimensional matrix that acts as that gate on the addressed qubits (qubit 0 most significant; CNOT counts qubits from 1) and as the identity on all others. Swapping two qubits of a state vector exchanges exactly those two tensor factors.",
 ["inputs"],"all n, all qubit indices, all one-qubit matrices","no test covers the gates module (the file is a TODO)",
 "mentpy/operators/gates.py".split(),[("Kronecker-product loops","arbitrary_qubit_gate, controlled_z, swap_ij, cnot_ij, swap_qubits")],None,["gates.*"])
p("C17","Density-matrix conversion and partial trace",
 "The density matrix of a pure state has entries psi_a times the conjugate of psi_b. For every number of qubits and every list of distinct traced-out qubits in any order, the partial trace of a density matrix is the sum over all basis states of the traced qubits of the corresponding blocks, with the remaining qubits in their original order; for a pure state that is a product across the cut, the result is the normalised state of the remaining qubits up to a global phase, for every state of the removed qubits. The argument is not modified and other shapes are rejected.",
 ["inputs"],"all states, qubit counts and index lists","tests use product states of two qubits with one index",
 "mentpy/calculator/state_ops.py".split(),[("projection loop","partial_trace_mixed_state"),("tensor reshape","partial_trace_pure_state")],None,["calculator.partial_trace, pure2density"])
p("C18","Gradients and Hessians are exact on the functions their rule is exact for",
 "The parameter-shift gradient and Hessian equal the true derivatives for every cost that is a first-order trigonometric polynomial in each parameter, for every point, dimension and shift that is not a multiple of pi. The finite-difference gradient is exact for every affine cost with each variant and for every quadratic cost with the central variant, the finite-difference Hessian is exact for every quadratic cost, for every nonzero step; method names select the stated rule, unknown names are rejected, and the evaluation point is never modified.",
 ["inputs"],"all dimensions, points, shifts/steps and costs of the stated classes (real arithmetic)","no test calls the gradients",
 "mentpy/gradients/_parameter_shift.py mentpy/gradients/_finite_difference.py mentpy/gradients/grad.py".split(),[("difference quotients","psr_gradient, psr_hessian, fd_gradient, fd_hessian"),("dispatch","get_gradient, get_hessian")],None,["gradients.get_gradient, get_hessian"])
p("C19","Optimisers follow their update rule from the given starting point",
 "From a fresh or reset optimiser, every iterate of Adam and SGD (plain, momentum and Nesterov) is the documented update of the previous one, for every cost, starting point and hyper-parameters, and random coordinate descent changes one coordinate per step by minus the step size times the partial derivative. The variant that also records gradient norms visits the same points as the plain one for Adam and SGD, callbacks see every iterate in order, and the caller's starting point is never modified.",
 ["inputs","histories"],"all costs, starting points, hyper-parameters and iteration counts (real arithmetic)","no test runs an optimiser",
 "mentpy/optimizers/adam.py mentpy/optimizers/sgd.py mentpy/optimizers/rcd.py".split(),[("update rules","step, optimize, optimize_and_gradient_norm")],[("m, v","moments","adam.py, sgd.py")],["optimize results and callbacks"])
p("C20","Reported local-Clifford equivalences are genuine",
 "Whenever two graphs on the same nodes are reported local-Clifford equivalent, the returned single-qubit Cliffords are invertible over GF(2) and map the stabiliser group of the first graph state onto that of the second, and both output forms describe the same operation. Every circuit is reported equivalent to itself and to every connected graph obtained from it by local complementation, and graphs of different size are never equivalent.",
 ["inputs"],"all pairs of graphs","no test calls the equivalence check",
 "mentpy/utils/lc_equivalence.py".split(),[("binary constraint system","lc_constraint_system"),("null space and determinant search","nullspace_basis, search_nullspace")],None,["are_lc_equivalent"])
p("C21","The flow space enumerates every graph once and classifies it by flow",
 "For any node count, the flow space has exactly one vertex per labelled simple graph on those nodes, marked as having flow exactly when that graph with the given inputs and outputs has a causal flow; the with-flow and without-flow parts partition it. Two vertices are adjacent exactly when their graphs differ in one edge.",
 ["inputs"],"all node counts, inputs and outputs (enumeration for up to 4 nodes when run)","no test builds a flow space",
 "mentpy/utils/flow_space.py".split(),[("enumeration","FlowSpace.generator_all_graphs, all_graphs_graph")],None,["FlowSpace graphs"])
p("C22","Random datasets pair every input with its image and split without loss",
 "Splitting a dataset returns the samples in order, the training part first, with every sample and its target in exactly one part at the same position, and the test part having the rounded-down requested fraction. Generated datasets pair every input with the unitary's action on it for any number of samples, and noisy datasets leave test targets noiseless; noise levels outside [0,1] are rejected.",
 ["inputs"],"all sample counts, fractions, unitaries and dimensions","no test generates a dataset",
 "mentpy/utils/generate_data.py".split(),[("split and mapping","train_test_split, generate_random_dataset, generate_random_dataset_noisy")],None,["dataset functions"])
p("C23","Graph-state stabilisers are X on a node and Z on its neighbours",
 "For every graph and every node insertion order, the i-th stabiliser acts with X on the i-th node, Z on exactly its neighbours and identity elsewhere. The stabilisers commute pairwise and are independent, and the index mapping gives each node its position.",
 ["inputs"],"all graphs","tests only use stabilisers indirectly",
 "mentpy/mbqc/states/graphstate.py".split(),[("tableau [I | adjacency]","_get_stabilizers")],None,["GraphState.stabilizers"])
p("C24","Drawing colours and labels describe every node's role",
 "For every circuit, each node gets exactly one colour: controlled before quantum-output before fixed (untrainable) before trainable, with the black-and-white and blue-input styles overriding as named, and unknown styles rejected. Plane, arrow and angle labels are defined for every node of every circuit, including those with controlled measurements, and the drawn flow arrows are exactly node-to-successor for every measured node.",
 ["inputs","configurations"],"all circuits, styles and label options","tests look for one colour in one template",
 "mentpy/mbqc/view.py".split(),[("colour selection","get_node_colors"),("label selection","process_labels"),("flow digraph","_graph_with_flow")],None,["get_node_colors, process_labels, draw"])
p("C25","Random unitaries and Haar states are uniformly distributed",
 "Random special unitaries and random states are distributed according to the Haar measure, and expressivity estimates converge to the divergence between the circuit's fidelity distribution and the Haar one.",
 ["inputs"],"the distribution over all random draws","a distributional claim; tests only use draws as inputs",
 "mentpy/operators/gates.py mentpy/utils/generate_data.py mentpy/utils/expressivity.py".split(),[("sampling","random_su, _generate_haar_random_state, expressivity_with_histogram")],None,None)
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+"\n")
print(len(P))
