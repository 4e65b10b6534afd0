import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)
S="src/plaquette/"
p("P01","Pauli products, phases and commutators agree with matrix algebra",
 "For any sequence of Pauli operators, the product operator and its overall phase (sign included) equal those of the corresponding product of matrices, and two operators (or lists of operators) are reported as commuting exactly when their matrices commute. Applying a Pauli operator to a tableau flips exactly the signs of the operators that anticommute with it, signs carried by the operands are honoured, and inputs are never modified.",
 ["inputs"],"All signed Pauli operators on any number of qubits; any number of factors.",
 "Tests multiply a few fixed pairs on 1-3 qubits; the phase of a product depends on every factor, position and sign, an exponential space.",
 [S+"pauli.py"],[("multiply",S+"pauli.py"),("commutator",S+"pauli.py"),("commutator_sign",S+"pauli.py")],["returned row and phase","returned commutators"])
p("P02","Pauli operators survive conversion between all their representations",
 "Text, factor-dictionary and binary-tableau forms of a Pauli operator convert into each other without loss, including identity factors, padding to more qubits, tensoring/unpacking of halves and ordering of factors. Malformed text, and arrays that lack the sign, are rejected with an error instead of being silently read as another operator.",
 ["inputs"],"All Pauli operators (identity included) on any number of qubits, every permitted textual order, every number of padding qubits, and arbitrary malformed strings.",
 "Tests convert a few fixed strings; the identity, sparse and malformed inputs are not sampled.",
 [S+"pauli.py"],[("string/dict/tableau conversions",S+"pauli.py")],["returned operators","raised errors"])
p("P03","Clifford gates transform Pauli operators as conjugation by the gate",
 "Applying a Clifford gate (Hadamard, phase gate, controlled-X, controlled-Z, X, Y, Z) to a list of Pauli operators replaces every one of them, sign included, by its conjugation with that gate's unitary, for any choice of target qubits. No other operator or qubit is affected, and applying a gate's inverse restores the original.",
 ["inputs","programs"],"Any signed tableau on any number of qubits (with or without destabilisers), any gate, any valid target list.",
 "Tests check each gate on a few states starting from |0..0>; the sign rules depend on the operators already in the tableau.",
 [S+"pauli.py"],[("hadamard/cx/cz/x/y/z/apply_operator",S+"pauli.py")],["tableau after the gate"])
p("P04","Stabiliser measurement, reset and qubit insertion follow quantum mechanics",
 "For any stabiliser state, measuring any Pauli operator gives a random outcome exactly when the operator does not commute with the state's stabilisers and otherwise the predicted outcome, and the post-measurement state is the projected state; resets, destructive measurements, removal, insertion and appending of qubits equally produce the state quantum mechanics prescribes. After each operation the state remains a valid stabiliser/destabiliser tableau.",
 ["inputs","histories"],"Any reachable stabiliser state and any history of gates, measurements (with forced or random outcomes), resets, insertions, appends and removals.",
 "Tests run a handful of short fixed histories; correctness of the random/deterministic branch depends on the whole history of the tableau.",
 [S+"pauli.py"],[("measure, measure_x/z, reset, insert_qubit_at, append_qubit, string_to_state",S+"pauli.py")],["returned outcomes","state after each operation"],
 state=[("tableau","stabilisers, destabilisers and signs",S+"pauli.py")])
p("P05","The built-in simulator samples circuits as quantum mechanics prescribes",
 "Running any valid circuit on the built-in Clifford simulator yields measurement records consistent with an independent quantum simulation of the same circuit: deterministic outcomes are right, random outcomes occur with both values, and Pauli, depolarising, correlated (conditional on earlier ones not firing) and erasure error instructions act on their stated targets with their stated probabilities. Stepping through a circuit, running it whole and running it repeatedly give the same kind of result, with one record entry per measured qubit in program order, and every erasure that happened is recorded.",
 ["programs","histories"],"All circuits over the documented gate, measurement, reset and error instructions, with any targets and probabilities, for any random seed.",
 "Tests run a few hand-written circuits with fixed seeds; program space and interactions between consecutive instructions are unbounded.",
 [S+"device/__init__.py",S+"device/_circuitsim.py",S+"pauli.py"],[("CircuitSimulator",S+"device/_circuitsim.py"),("Device",S+"device/__init__.py")],["samples","erasure records","state after a step"])
p("P06","Device backends agree, are reproducible by seed and carry nothing over",
 "For any circuit both simulator backends accept, the set of possible measurement records is the same on the two backends, and records have the documented shape and order. With the same global seed a run gives the same records again, and running further circuits on the same device (also a circuit extended in the meantime) gives results of the circuit that was passed in, never of an earlier one.",
 ["programs","histories"],"All circuits in the instruction set common to both backends; any sequence of runs, circuits and shot counts on one device.",
 "Tests run one circuit per device object, mostly once, and compare averages on a few circuits.",
 [S+"device/__init__.py",S+"device/_circuitsim.py",S+"device/_stimsim.py",S+"__init__.py"],[("Device.run / backends",S+"device/__init__.py"),("StimSimulator",S+"device/_stimsim.py")],["samples","erasure records"])
p("P07","Circuits survive their text form and builders validate what they accept",
 "Any circuit built from valid instructions can be turned into text and read back as an equal circuit, with the same instruction list, number of qubits and number of measurements, whether it is built by text, by appending, through the builder or by concatenation. Invalid instructions (unknown names, qubit indices that are not integers, wrong number of arguments of Pauli-channel and erasure errors, conditional-error probabilities outside 0 to 1, conditional errors of gates that are not supported) are rejected with an error and never become part of the circuit.",
 ["inputs","programs","histories"],"All instruction sequences, argument formats, comments and white space in the text format, and all malformed instruction lines.",
 "Tests parse a few circuit strings; grammar and argument checks have unbounded input.",
 [S+"circuit/__init__.py"],[("Circuit.from_str/append/extend, CircuitBuilder",S+"circuit/__init__.py")],["parsed instruction list","text form","raised errors"])
p("P08","OpenQASM export preserves the meaning of the circuit",
 "The OpenQASM 2 program exported for a circuit is valid, uses as many qubits and classical bits as the circuit has qubits and measurements, and has the same effect as the circuit's gates, resets and measurements in the same order, with measurement k written to classical bit k. Instructions OpenQASM cannot express are refused with an error unless the caller asks to leave them out, which never changes the meaning of the others.",
 ["programs"],"All circuits of gates, resets and measurements, with multi-target instructions.",
 "Tests compare the text for one or two circuits.",
 [S+"circuit/openqasm.py"],[("circuit_to_openqasm2",S+"circuit/openqasm.py")],["exported program text"])
p("P09","Every built-in code is a valid code of the promised size and distance",
 "For every built-in code and every size it accepts, stabilisers commute with each other and with all logical operators, generate a group of the rank that leaves exactly the promised logical qubits, and logical X and Z operators pair up with the Pauli commutation relations; number of data qubits, number of logical qubits and code distance (against bit flips for the repetition code) are the documented ones. Sizes for which the code does not exist are rejected.",
 ["configurations"],"All built-in codes and all admissible sizes and round numbers.",
 "Tests check a few sizes, and mostly counts; distance and commutation hold or fail per size.",
 [S+"codes/__init__.py",S+"codes/latticeinstances.py",S+"codes/latticebase.py"],[("LatticeCode.make_*, StabilizerCode.make_*",S+"codes/__init__.py"),("lattice instances",S+"codes/latticeinstances.py")],["stabilisers, logical operators, counts of a code object"])
p("P10","Codes built from operators are accepted exactly when they are valid",
 "A code built from user-given stabilisers and logical operators passes the validity check exactly when stabilisers commute with each other and with all logical operators and the logical operators pair up as X and Z (optionally, also only when the number of independent stabilisers fits). It reports exactly the given operators, qubit counts and ancilla layout, translates selections of logical operators (text or indices) to the operators they name, and refuses selections the code does not have. Two codes compare equal exactly when they have the same stabilisers and logical operators.",
 ["inputs"],"All lists of Pauli operators given as text, dictionaries or tableaux, valid or not, on any number of qubits.",
 "Tests construct two or three valid codes and one or two invalid ones.",
 [S+"codes/__init__.py"],[("StabilizerCode construction and validation",S+"codes/__init__.py")],["constructed code","raised errors"])
p("P11","Fabrication defects leave a valid planar code or are refused",
 "With default settings, removing any set of defective data qubits, gates or stabilisers from a planar code either is refused because a logical operator can no longer avoid the removed qubits, or yields a valid code on the remaining qubits: stabilisers commute with each other and with logical operators that still anticommute with their partners, come from products of old stabilisers (factors on removed qubits left out), and every product of old stabilisers that avoids the removed qubits is still a product of the new ones. The code object, its lattice and the circuits generated from it all describe that same new code. The experimental setting that keeps half of the gauge operators gives valid codes likewise, and, like the one that joins stabilisers at boundaries, no additional logical qubit where it avoids the one of the default for a single removed qubit.",
 ["inputs","fault_sequences"],"All subsets of data/ancilla defects on planar codes of any size.",
 "Tests remove one or two chosen qubits; merging of stabilisers depends on the full defect pattern.",
 [S+"codes/__init__.py",S+"codes/latticebase.py",S+"codes/latticeinstances.py"],[("apply_fabrication_errors",S+"codes/__init__.py"),("super stabiliser construction",S+"codes/latticebase.py")],["stabilisers and logical operators after defects","measurement records of the generated circuit"])
p("P12","Without errors a memory experiment measures the code and preserves its state",
 "For every code, number of rounds, logical basis and ancilla mode, the generated error-free circuit measures every stabiliser once per round in the code's order, gives identical stabiliser outcomes in all rounds, and gives the same final and initial logical outcomes, whatever state the qubits are in. The circuit uses exactly the code's qubits, and its measurement count is the documented one. Codes with Y factors, and selections without ancillas that need one qubit in two bases, are refused with an error.",
 ["configurations","programs"],"All built-in codes and valid user-defined codes, sizes, rounds, logical operator choices, ancilla modes and sampling seeds.",
 "Tests run selected codes with one basis; a wrong gate can be invisible for one basis, size or seed.",
 [S+"circuit/generator.py"],[("generate_qec_circuit / QECCircuitGenerator",S+"circuit/generator.py")],["generated circuit","simulated samples"])
p("P13","Configured errors appear in the circuit exactly where and as specified",
 "Each configured qubit, measurement, gate or erasure error appears in the generated circuit on exactly the configured qubits, with exactly the configured probabilities, once per round or gate application as documented; nothing else of the circuit changes, so deleting the error instructions gives the error-free circuit, and a generator that is used again makes the same circuits as a new one. The error description passed in by the caller is not modified; unknown keys, qubits of the wrong kind and values outside 0 to 1 are refused with an error.",
 ["inputs","configurations"],"All error dictionaries (any mix of Pauli, measurement, gate-induced and erasure errors on any qubits) for all codes and rounds.",
 "Tests use uniform errors on one or two codes and compare some text.",
 [S+"circuit/generator.py",S+"errors/__init__.py"],[("error insertion in the QEC circuit generator",S+"circuit/generator.py")],["generated instruction list","caller's dictionaries"])
p("P14","Raw measurement results are unpacked into the right syndromes and outcomes",
 "Splitting a raw record of a memory experiment assigns every bit to the initial logical outcomes, the stabiliser outcomes per round, or the final logical outcomes it belongs to, computes each syndrome as the change from one round to the next, and assigns every erased qubit to its round; none is lost or mixed. A record whose length fits no choice of logical operators is rejected with an error.",
 ["inputs","configurations"],"All codes, rounds, logical operator choices, ancilla modes and raw records.",
 "Tests unpack a few records with one logical operator of one code.",
 [S+"device/__init__.py"],[("MeasurementSample / from_code_and_raw_results",S+"device/__init__.py")],["fields of the unpacked sample"])
p("P15","The decoding graph mirrors how errors flip syndrome bits",
 "In the graph built for a code and number of rounds, each error location is joined to exactly those stabiliser measurements that its error flips, so for any combination of data and measurement errors the syndrome the graph predicts equals the one the circuit shows. Codes in which an error flips more than two stabilisers of a kind are refused. Erased qubits and measured syndromes are marked on exactly the corresponding places, and loading a new sample forgets the previous one.",
 ["inputs","configurations","histories"],"All matchable codes, rounds, all error combinations, all sequences of samples loaded one after another.",
 "Tests compare small graphs with drawn ones; the relation must hold for each edge of each graph and any history of samples.",
 [S+"syngraph/__init__.py",S+"decoders/decoderbase.py",S+"codes/latticebase.py"],[("decoding graph / syndrome manager",S+"syngraph/__init__.py")],["edges, vertices, syndrome and erasure marks"])
p("P16","Edge weights are the log-likelihoods of the configured error rates",
 "The weight of every enabled edge of a decoding graph is the log-likelihood -log(p/(1-p)) of the total rate p at which the configured errors flip that edge (p_x + p_y or p_y + p_z for a data qubit, the measurement error rate between two rounds), and is the default weight if none is configured; erasure rates do not contribute unless the weight computation is told so by its documented switch (then an erasure counts as an X and as a Z error of half its rate). Weights never depend on the order of the configuration and the less likely error never has the smaller weight. Contradictory or unsuitable weights are refused with an error.",
 ["inputs","configurations"],"All error dictionaries and user-given weights on all matchable codes and rounds.",
 "Tests check a few probabilities on a single code.",
 [S+"syngraph/weights.py",S+"syngraph/__init__.py"],[("log-likelihood weights",S+"syngraph/weights.py")],["edge weights"])
p("P17","Every decoder's correction explains the syndrome it was given",
 "For any syndrome and any set of erased qubits a decoder accepts, the correction returned by each decoder produces exactly the given syndrome (closed up through the boundary where the code has one), and decoding terminates without error; syndromes no error can cause, and erasures given to a decoder that cannot use them, are refused with an error. The answer depends only on the given sample: previous decodings on the same decoder, and other decoders, do not influence it. The same holds for the decoder backends on bare components of any shape.",
 ["inputs","histories","configurations"],"All matchable codes, sizes, rounds, weights, arbitrary (also physically unlikely) syndromes, erasure patterns and sequences of decodings.",
 "Tests decode a few syndromes; union-find growth, merging and peeling have input-dependent paths.",
 [S+"decoders/__init__.py",S+"decoders/decoderbase.py",S+"decoders/matching.py",S+"decoders/fusionblossom.py",S+"decoders/unionfind_decoder.py",S+"decoders/unionfind_erasure.py",S+"syngraph/__init__.py"],
 [("decoders",S+"decoders/")],["returned correction"])
p("P18","Matching decoders return a correction of minimal total weight",
 "The correction returned by the matching-based decoders (PyMatching and Fusion Blossom) has the least total weight among all corrections with the same syndrome, up to the integer rounding of the libraries, where erased locations count as free for the decoder that takes erasures. This holds with default as well as with error-derived weights, and for the backends on bare components of any shape (also with several boundary edges at one vertex).",
 ["inputs","configurations"],"All syndromes, weights and erasures on matchable codes.",
 "Tests compare one or two corrections by eye; optimality is a statement over all alternatives.",
 [S+"decoders/matching.py",S+"decoders/fusionblossom.py",S+"decoders/decoderbase.py",S+"syngraph/__init__.py"],[("PyMatching / FusionBlossom interfaces",S+"decoders/")],["returned correction and its weight"])
p("P19","Decoders correct every error within the code's guarantee",
 "For a matchable code of distance d, with uniform weights, every combination of at most (d-1)/2 data or measurement errors is corrected by each decoder to a logical success, every erasure of at most d-1 qubits (and any larger one in which no error without a syndrome has a logical effect) by each decoder that takes erasures, and mixed patterns of t errors and e erasures with 2t + e < d as well (for the repetition code: bit flips).",
 ["inputs","fault_sequences","configurations"],"All error combinations within the guarantee, on all matchable codes, sizes, rounds, logical bases.",
 "Tests sample a few random errors and look at average success; the guarantee quantifies over all low-weight errors.",
 [S+"decoders/",S+"syngraph/__init__.py",S+"codes/latticeinstances.py",S+"frontend/__init__.py"],[("decoders",S+"decoders/"),("decoding graph",S+"syngraph/__init__.py")],["success of the corrected experiment"])
p("P20","Success is reported exactly when the correction undoes the logical effect",
 "For any errors injected in a simulated memory experiment and any correction consistent with the syndrome, the experiment is reported as a success exactly when the errors together with the correction act trivially on the measured logical operators. The verdict follows from the measured record, so injecting a stabiliser never changes it and injecting a logical operator always flips it for the logical operator it anticommutes with. Selections and sizes that do not fit the code are refused with an error.",
 ["inputs","fault_sequences","configurations"],"All codes, errors, corrections, logical bases.",
 "Tests look at success for a few samples; a sign or index mistake in the comparison shows only for particular error/logical pairs.",
 [S+"decoders/decoderbase.py",S+"codes/__init__.py",S+"device/__init__.py"],[("check_success / correction operators",S+"decoders/decoderbase.py")],["success flags"])
p("P21","Error data keeps every configured error and refuses invalid ones",
 "Every error entered into the error data (per qubit, per gate, erasure, measurement, fabrication) with its probabilities is found again, once and unchanged, in the dictionaries used to generate circuits and to weigh decoding graphs; missing values mean no error, a later row for the same gate and qubits replaces the earlier one, and disabled kinds do not appear. Checking the data against a code rejects entries with probabilities outside 0 to 1, unknown error kinds or keys, and qubits or gates the code does not have.",
 ["inputs","configurations"],"All tables of errors on any code, any enabled subset, any order of rows.",
 "Tests use one uniform table; several rows per qubit/gate, zero and missing values are not sampled.",
 [S+"errors/__init__.py"],[("ErrorData, QubitErrorData, GateErrorData",S+"errors/__init__.py")],["error dictionaries","raised errors"])
p("P22","Error data survives saving, loading, updating and random generation",
 "Saving error tables to file and loading them again gives equal tables (to 12 digits); adding entries or columns updates exactly those and keeps the others, missing values keep the earlier ones, whatever the order of the updates. Randomly generated error tables contain one entry per requested qubit or gate with probabilities in 0 to 1, following the requested distribution parameters, and are reproducible by seed.",
 ["inputs","histories"],"All error tables, update sequences, distribution parameters and seeds.",
 "Tests save and load nothing or a fixed file; histories of updates are not explored.",
 [S+"errors/__init__.py"],[("CSV, update, assimilate, generators",S+"errors/__init__.py")],["error data tables","files"])
p("P23","Experiment configurations round-trip and invalid ones are refused",
 "A valid experiment configuration read from a dictionary or file, written out and read again gives an equal configuration, objects built from it match what it says, and reading does not modify the input. Invalid values (unknown codes, decoders, backends, distributions, sizes or probabilities out of range, missing mandatory parts) are refused with an error, at construction as well as on update, at the latest when the experiment is built.",
 ["inputs","configurations","histories"],"All configuration dictionaries, valid or with any one field spoiled, and all update sequences.",
 "Tests use a few configuration files and a list of chosen bad values.",
 [S+"frontend/__init__.py",S+"frontend/schemas.py"],[("ExperimentConfig and its parts",S+"frontend/__init__.py")],["configuration objects","files","raised errors"])
p("P24","An experiment run from a configuration does what the pieces do by hand",
 "Running an experiment built from a configuration is reproducible by seed, in any process and whatever ran before, also where error rates are drawn at random; it returns the fraction of shots that failed, never fails without errors, gives the same result as building the code, circuit, device and decoder by hand from the same configuration, and the fraction follows from the configured error rates. Errors configured with certainty (probability 1) have their exact, predictable effect on every shot.",
 ["configurations","inputs"],"All valid configurations and seeds.",
 "Tests run the quick-start and a few others and compare averages.",
 [S+"frontend/__init__.py",S+"decoders/",S+"device/"],[("Experiment.run",S+"frontend/__init__.py")],["logical error rate","measurement samples"])
p("P25","Drawings show every element of codes and circuits exactly once",
 "The figures drawn for a code lattice contain every data qubit, stabiliser, logical operator and edge exactly once, at its own coordinates and labelled with its own index, operator or state, and exactly the given syndrome, error and correction, for any code, also with defects or user-defined. Circuits are drawn with exactly their operations in order, and those with errors are refused. Drawing does not modify what is drawn.",
 ["inputs","configurations"],"All codes, sizes, user lattices, syndromes, errors, corrections and drawing options; all circuits.",
 "Tests only check that drawing does not raise for one or two codes.",
 [S+"visualizer/__init__.py"],[("LatticeVisualizer",S+"visualizer/__init__.py"),("CircuitVisualizer",S+"visualizer/__init__.py")],["traces in the returned figure"])
p("P26","Union-find clusters grow only as far as they must, and peeling stays inside them",
 "On any graph, with or without boundary edges, weights and erasures, union-find returns a set of edges that contains all erased edges and whose every connected part can explain its lit vertices (an even number of them, or a boundary edge). Edges are completed one after another and only next to a cluster that cannot explain its lit vertices yet; growth ends as soon as all can, and with equal weights a single lit vertex reaches the nearest boundary edge evenly in all directions, with unequal ones it is joined with the nearer end of a line. Peeling picks, among the selected edges only, a set without cycles that has exactly the given syndrome. The result depends only on the given erasure, syndrome and weights up to their unit, inputs are not modified, and impossible syndromes and unsupported arguments are refused with an error.",
 ["inputs", "histories", "configurations"],"All graphs, weights, erasures, syndromes and sequences of runs on one decoder object.",
 "Tests run a few syndromes of two codes; merging of clusters at the boundary, growth from erasures and peeling of forests depend on the shape of the graph and on the order of events.",
 [S+"decoders/unionfind_decoder.py",S+"decoders/unionfind_erasure.py"],[("UnionFindNoWeights / UnionFind / Cluster",S+"decoders/unionfind_decoder.py"),("ErasureDecoder",S+"decoders/unionfind_erasure.py")],["grown edges","picked edges"])
p("P27","Hand-built and edited code lattices describe exactly the code they say",
 "A lattice built vertex by vertex and factor by factor, or from operators as text, gives a code with exactly these data qubits, stabilisers and logical operators in the order in which they were added, numbered consecutively. Removing factors, vertices and stabilisers, merging two stabilisers to their product and multiplying a logical operator with a stabiliser change exactly what they say. A second vertex at one position, a second factor on one qubit, removal of connected vertices, and missing or malformed parts are refused with an error.",
 ["inputs","histories"],"All lattice shapes, all sequences of valid and invalid edits, all lists of operators given as text.",
 "Tests use the built-in lattices; arbitrary lattices and sequences of edits are not sampled.",
 [S+"codes/latticebase.py",S+"codes/__init__.py"],[("CodeLattice",S+"codes/latticebase.py"),("CodeLatticeFromStab",S+"codes/latticebase.py"),("StabilizerCode.from_codelattice",S+"codes/__init__.py")],["vertices, edges and operators of the lattice","operators of the code","raised errors"])
p("P28","Decoders follow every announced update of weights or of the graph",
 "When a syndrome-graph manager announces new weights or a new graph before a decoding run, the correction is the one a decoder newly made with that graph and these weights finds, also when weights are added or dropped; nothing of earlier graphs, weights or samples stays behind. Without an announcement nothing changes. Weights a decoder cannot use (negative, missing for some edges, any for decoders without weights), weights set on a complete graph, and decoding before a graph is set are refused with an error. Selections of the connected components are combined edge by edge.",
 ["inputs","histories","configurations"],"All codes and graphs, decoders, weights, and histories of updates and samples.",
 "Tests never announce an update; the result depends on the history of graphs, weights and samples.",
 [S+"decoders/decoderbase.py",S+"decoders/unionfind_interfaces.py",S+"decoders/matching.py",S+"decoders/fusionblossom.py",S+"syngraph/__init__.py"],[("DecoderInterface / ComponentDecoder",S+"decoders/decoderbase.py"),("update_weights",S+"decoders/unionfind_interfaces.py"),("SyndromeGraphManager.update_for_decoding",S+"syngraph/__init__.py")],["corrections and selected edges","raised errors"])
p("P29","Schedules of stabiliser measurements are as ordered and fault tolerant",
 "Planar, rotated planar and toric lattices assign every gate between an ancilla and a data qubit the time step that the given order of directions says (also across periodic boundaries; tiles of one colour of the rotated code exchange the two middle steps as documented), and circuits apply the gates of each round in that order, so every order in which neighbouring stabilisers do not disturb each other measures them correctly. With the default orders no combination of fewer errors than the code distance, wherever they happen in the circuit (gates, also two-qubit errors, resets, measurements, data qubits), has a logical effect without a syndrome. Orders that leave out a needed direction are refused with an error.",
 ["configurations","fault locations"],"All sizes, orders of the directions, logical bases, rounds and combinations of circuit errors.",
 "Tests compare circuits with snapshots of one or two sizes; whether single errors spread along a logical operator is a statement on all combinations of errors.",
 [S+"codes/latticebase.py",S+"codes/latticeinstances.py",S+"circuit/generator.py"],[("assign_stab_edge_order",S+"codes/latticebase.py"),("inverted_order",S+"codes/latticeinstances.py"),("measure_stabgens_pl",S+"circuit/generator.py")],["time steps of edges","generated circuit","effects of circuit errors"])
p("P30","Plugin backends are reached through Device exactly as the caller asks",
 "A backend that an installed plugin provides (entry points of the group plaquette.device) can be used by its name like the built-in ones, also from device settings and experiment configurations; names nobody provides are refused with an error. The backend is made once per device with the caller's arguments, and every run (with its circuit and number of shots, 1 by default), request for the sample, state of jobs, quantum state, number of qubits, circuit, iteration and reset reaches exactly that backend once, with what the caller gave, and its answer or error reaches the caller; devices never mix. Simulators have no jobs, and complain about unknown options when a circuit is run. Classes derived from the simulator base class run a circuit and then process its results when asked for a sample.",
 ["histories","inputs"],"All histories of calls on any number of devices with plugin backends and simulators; all arguments, names and errors of backends.",
 "No test uses a backend other than the two built-in ones.",
 [S+"device/__init__.py",S+"frontend/__init__.py"],[("Device, recognized_devices",S+"device/__init__.py"),("DeviceConfig.instantiate",S+"frontend/__init__.py")],["calls that reach the backend","answers of the device","raised errors"])
p("P31","Calls leave alone what they are given and what earlier calls returned",
 "Operators, codes, lattices, dictionaries and tables of errors, circuits, weights, records, syndromes, erasure information, corrections, selections of logical operators, lists of qubits and configurations that are passed to plaquette only to be read have the same contents after the call, also when the call fails. What plaquette returned earlier (circuits, records, samples, syndromes, corrections, Pauli frames, operators, tableaux of reading functions, dictionaries and texts) is not changed by later calls on the same or another device, decoder, generator, table, graph or code; editing one code or table never changes another one, and changing a correction, record, circuit or dictionary that was returned does not affect what comes later. Objects whose own methods are documented to change them (append, update, remove), and states passed to gates and measurements, are the exceptions.",
 ["histories"],"All sessions of calls on shared objects.",
 "Tests look at the result of one call; whether anything else changed is a statement on every object and every history.",
 [S+"pauli.py",S+"codes/__init__.py",S+"errors/__init__.py",S+"circuit/generator.py",S+"device/__init__.py",S+"decoders/decoderbase.py",S+"syngraph/__init__.py",S+"frontend/__init__.py"],[("DecoderInterface.decode/from_code",S+"decoders/decoderbase.py"),("QECCircuitGenerator",S+"circuit/generator.py"),("ErrorData",S+"errors/__init__.py"),("MeasurementSample",S+"device/__init__.py")],["contents of arguments","contents of earlier results"])
p("P32","Samples of noisy memory experiments follow the configured errors",
 "Running the circuit generated for a code with configured errors and reading the outcomes gives syndromes, logical outcomes and erasure flags with the joint distribution that the configuration says: every configured error (Pauli errors and erasures of data qubits, faulty measurements and resets, errors of one- and two-qubit gates) happens independently in every round with its rates, spreads through the rest of the round as the gates say, and flips exactly the detectors and logical outcomes it reaches; nothing else is random. Shots are independent of each other, whatever the backend and the size of its batches.",
 ["inputs","schedules"],"All codes, tables of errors, rates, numbers of rounds, selections of logical operators, backends and batch sizes.",
 "Tests look at the text of circuits or at certain errors; that rates and correlations of all parities are right is a statement on distributions.",
 [S+"circuit/generator.py",S+"errors/__init__.py",S+"device/_circuitsim.py",S+"device/_stimsim.py",S+"device/__init__.py"],[("generate_qec_circuit",S+"circuit/generator.py"),("StimSimulator",S+"device/_stimsim.py"),("CircuitSimulator",S+"device/_circuitsim.py")],["raw outcomes and erasure flags of many shots"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
