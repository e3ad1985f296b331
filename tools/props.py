"""Source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
CLOCK = "std::random_device, uniform_int_distribution and high_resolution_clock are replaced at compile time by a chooser"
P = []


def prop(id, title, statement, over, text, why, files, mech, state, observe, technique, note, hook=None, thorough=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, hook=hook, thorough=thorough, na=na))


prop("P01", "UFDecoder estimates reproduce the measured syndrome, for every growth variant",
     "For every parity check matrix, every syndrome that some error has, every cluster growth variant and every outcome of the decoder's random choices, decoding terminates. The returned estimate has one entry per qubit and exactly the given syndrome, and its index form and its bit form describe the same set.",
     ["inputs", "schedules"], "all parity check matrices, achievable syndromes, growth variants and outcomes of the random choices",
     "A unit test checks a handful of codes and syndromes with one outcome of the random growth each; wrong estimates, endless growth loops and lost components only show for particular matrices and decision sequences.",
     ["src/UFDecoder.cpp", "include/UFDecoder.hpp", "src/Utils.cpp", "src/GF2.cpp", "include/Code.hpp"],
     [("cluster growth and validity", "UFDecoder::decode, standardGrowth, isValidComponent"), ("solution extraction", "UFDecoder::getEstimateForComponent, PluDecomposition::luSolve")],
     [("components", "currently grown components", "UFDecoder::decode")], ["DecodingResult.estimBoolVector", "DecodingResult.estimNodeIdxVector"],
     "exhaustive enumeration of codes x syndromes x random decisions on the compiled decoder",
     "Every matrix up to 4x3 (thorough 5x4) with every syndrome and every decision prefix is executed on the real code; larger families by low-weight syndromes. Not covered: larger irregular codes.")
prop("P02", "Cluster heuristic terminates, and recovers isolated errors exactly",
     "For every parity check matrix and achievable syndrome, the cluster heuristic terminates with a well-formed estimate (one entry per qubit, index form equal to bit form, empty for the zero syndrome). Errors whose checks are pairwise disjoint, and such that no other qubit has only flipped checks, are returned exactly by every deterministic growth variant. No two qubits of an estimate share a check.",
     ["inputs", "schedules"], "all parity check matrices, achievable syndromes, growth variants and outcomes of the random choices",
     "The heuristic is only sampled on a few codes; non-terminating growth and clusters wrongly declared valid depend on the exact graph and on the order in which clusters meet.",
     ["src/UFHeuristic.cpp", "include/UFHeuristic.hpp", "include/TreeNode.hpp"],
     [("cluster growth and merging", "UFHeuristic::decode, handleFusionEdges"), ("validity and erasure", "UFHeuristic::isValidComponent, erasureDecoder")],
     [("clusters", "union-find forest of graph nodes", "UFHeuristic members")], ["DecodingResult.estimBoolVector", "DecodingResult.estimNodeIdxVector"],
     "exhaustive enumeration of codes x syndromes x random decisions on the compiled decoder",
     "Every matrix up to 5x3 with every syndrome on the real code, plus low-weight errors on structured and shipped codes. The exact-recovery condition was validated exhaustively; syndrome reproduction is not promised for the heuristic and not checked.")
prop("P03", "A decoder object answers independently of what it decoded before",
     "Whatever sequence of setting a code, choosing a growth variant, decoding and resetting a decoder object has gone through, and whatever other decoders exist, decoding gives the same result as a freshly constructed decoder with the same code, growth variant and syndrome.",
     ["histories"], "all histories of setCode / setGrowth / decode / reset operations of a decoder object",
     "Tests construct a new decoder per case; state leaking from one run to the next (caches, node state, growth settings) needs particular histories.",
     ["src/UFDecoder.cpp", "src/UFHeuristic.cpp", "include/Decoder.hpp", "include/Code.hpp"],
     [("state reset", "Decoder::setCode, UFDecoder::reset, UFHeuristic::reset"), ("adjacency cache", "ParityCheckMatrix::getNbrs")],
     [("decoder state", "code, growth, result and node forest", "Decoder / UFHeuristic members")], ["DecodingResult"],
     "explicit-state exploration of all operation histories of the compiled decoder objects",
     "All histories up to depth 5 (thorough 6) over several codes and syndromes are replayed on the real objects and compared with a pristine process.")
prop("P04", "Decoding X and Z syndromes together equals decoding each side alone",
     "For a CSS code, the syndrome of an X and Z error pair is laid out as the two one-sided syndromes, and decoding it gives in the X half and the Z half exactly what a decoder for that side alone gives, in the layout of an error vector of twice the number of qubits, with indices equal to the set bits.",
     ["inputs"], "all orthogonal pairs of check matrices and all X and Z errors",
     "The symmetric codes of the tests cannot distinguish the X from the Z matrix, nor do they cover different numbers of X and Z checks.",
     ["src/UFDecoder.cpp", "src/UFHeuristic.cpp", "include/Decoder.hpp", "include/Code.hpp"],
     [("split of the syndrome", "UFDecoder::decode, UFHeuristic::decode"), ("code halves", "Decoder::setCode")],
     [("code", "the X and Z check matrices", "Decoder::code")], ["DecodingResult", "Code::getXSyndrome", "Code::getZSyndrome", "Code::getSyndrome"],
     "exhaustive enumeration of CSS codes x error pairs on the compiled decoders", "All pairs up to 3 (thorough 4) qubits plus families with different Hx and Hz; compares with one-sided runs of the same decoders.")
prop("P05", "GF(2) linear algebra is exact",
     "For every binary matrix, rank, reduced echelon form, row-space membership, solving linear systems, transposition, row swapping, products and sparse conversion return exactly what their definitions over GF(2) say, and a solution is returned precisely when it satisfies the system.",
     ["inputs"], "all binary matrices and right-hand sides",
     "Tests use one or two matrices per routine; rank-deficient, non-square, zero-row and pivot-swap cases are not sampled.",
     ["src/Utils.cpp", "include/Utils.hpp", "src/GF2.cpp", "include/GF2.hpp"],
     [("PLU decomposition", "PluDecomposition"), ("vector and matrix helpers", "Utils")], [], ["return values of Utils and PluDecomposition"],
     "exhaustive enumeration of small matrices x vectors against brute-force linear algebra", "Every matrix with at most 16 (thorough 20) entries and every vector on the compiled routines; larger fixed matrices.")
prop("P06", "Codes answer from their own matrices: syndromes, stabilizers, neighbours, files",
     "For every code, syndromes are the products of the check matrices with the errors, an error pair counts as stabilizer exactly when both halves lie in the row spaces, neighbours of a node are exactly the incident nodes, and a code read from files equals the code built from the same matrices; inconsistent matrices are rejected.",
     ["inputs"], "all pairs of check matrices, all X and Z errors, and their serialisations",
     "Tests cover two fixed codes; wrong sides, stale caches and parsing mistakes only show for asymmetric matrices and layouts.",
     ["include/Code.hpp", "include/QeccException.hpp", "src/Utils.cpp"],
     [("syndrome and stabilizer queries", "Code::getSyndrome, isXStabilizer, isStabilizer"), ("matrix import", "Code(filenames), Utils::importGf2MatrixFromFile")],
     [("adjacency cache", "neighbours by node", "ParityCheckMatrix")], ["Code", "ParityCheckMatrix::getNbrs"],
     "exhaustive enumeration of codes x errors x file layouts on the compiled classes", "All matrices up to 4x3 (thorough 5x3), all errors; three file layouts.")
prop("P07", "Cluster union and find keep an exact partition with correct bookkeeping",
     "After every sequence of union and find operations the clusters are exactly the connected components of the performed unions; every member finds the same representative, and the representative's size, boundary and check sets are those of its component.",
     ["histories"], "all sequences of union and find operations on a node set",
     "Path compression and union by size corrupt bookkeeping only for particular orders of operations, which the single test does not reach.",
     ["include/TreeNode.hpp"], [("find with path compression and union by size", "TreeNode::Find, TreeNode::Union")],
     [("forest", "parents, sizes, boundaries and checks of the clusters", "TreeNode members")], ["TreeNode::Find", "TreeNode members"],
     "explicit-state exploration of all operation histories on the compiled class", "All histories up to depth 3-5 (thorough 4-7) on 2-6 nodes against a reference partition.")
prop("P08", "Simulation reports exactly the counted failure rate and runtimes",
     "For every outcome of the noise, the word error rate that the simulator reports equals the number of runs whose residual error is not a stabilizer, divided by runs and logical qubits, at each of the requested noise rates; the per-run statistics files are valid JSON with these numbers, and average runtimes cover exactly the measured runs.",
     ["schedules", "configurations"], "all outcomes of the random noise and the clock, for all small configurations",
     "The tests only check that the simulator runs through; rates are random, so off-by-one counts are invisible to them.",
     ["src/DecodingSimulator.cpp", "include/DecodingSimulator.hpp", "include/DecodingRunInformation.hpp"],
     [("word error rate loop", "DecodingSimulator::simulateWER"), ("average runtime loop", "DecodingSimulator::simulateAverageRuntime")],
     [("counters", "failed runs per rate", "DecodingSimulator::simulateWER")], ["output files of the simulator"],
     "enumeration of every noise outcome of the compiled simulator with a controlled random source and clock", "Every outcome of every coin for small codes and few runs. " + CLOCK + ".")
_ECC = ["src/ecc/Ecc.cpp", "include/ecc/Ecc.hpp", "src/ecc/Q3Shor.cpp", "src/ecc/Q5Laflamme.cpp", "src/ecc/Q7Steane.cpp", "src/ecc/Q9Shor.cpp", "src/ecc/Q9Surface.cpp", "src/ecc/Q18Surface.cpp"]
prop("P09", "Encoded circuits measure exactly what the original circuits measure",
     "For every error correcting code and every circuit of the gates the code supports, at every correction frequency, the encoded circuit without errors gives the original classical bits of the circuit the same joint probability distribution as the original circuit. This includes idle qubits, several classical registers, several measurements, and identities or barriers in between.",
     ["inputs", "configurations", "histories"], "all circuits of supported gates, codes, correction frequencies, measurement layouts and measurement outcomes",
     "The tests simulate a few circuits with a tolerance of 20 percent on sampled counts; wrong phases, wrong classical bits, ancillas left entangled and shifted qubits need particular gate sequences, wirings or frequencies.",
     _ECC, [("encoding, gate mapping, correction and decoding", "Ecc::apply, Ecc::mapGate, writeEncoding, measureAndCorrect, writeDecoding")],
     [("isDecoded, gatesSinceCorrection", "whether code words are decoded, and when the next correction is due", "Ecc members")], ["mapped circuit as OpenQASM"],
     "exhaustive enumeration of circuits; every measurement branch of the mapped circuit is followed by an exact simulator",
     "All gate sequences up to length 2-4 (thorough 3-5) on one qubit and 1-2 (2-3) on two, all codes, frequencies 0-3; exact distributions. Known findings are listed by circuit.")
prop("P10", "One error per block between corrections never changes a measurement",
     "If a single error of a kind the code corrects hits any data qubit of a block between two gates, and a correction step follows before the measurement, then the encoded circuit still measures what the original circuit measures. The same holds for one such error in each of several blocks or correction rounds.",
     ["inputs", "schedules"], "all fault positions, error kinds, code blocks and gate boundaries, and all circuits of supported gates",
     "The tests inject random noise on one small circuit and compare with a wide tolerance, so a wrong syndrome-to-correction entry for one qubit and one Pauli kind can go unnoticed.",
     _ECC, [("syndrome extraction and correction", "measureAndCorrect of every code")], [("ancillas and syndrome bits", "reset and reused in every round", "measureAndCorrect")],
     ["mapped circuit as OpenQASM"], "fault injection at every gate boundary x qubit x Pauli kind, all measurement branches followed exactly",
     "Every single fault (and pairs of faults in different blocks or rounds) for circuits of up to 2 gates; quick takes a fixed third of the pairs for the larger codes.")
prop("P11", "Gates a code cannot encode are rejected, and the layout is as announced",
     "For every gate, code and wiring, mapping either rejects the circuit with an explanatory exception or produces an encoded circuit with the original measurement distribution. An accepted circuit uses the announced number of physical qubits, keeps all classical registers, leads with the data qubits, and mapping leaves the gates of the original circuit unchanged.",
     ["inputs", "configurations"], "all gates with up to two controls, all codes, wirings, register sizes and sets of idle qubits",
     "The tests check rejection for one or two gates per code; a gate that is accepted but not transversal gives wrong results silently.",
     _ECC, [("supported gates", "mapGate of every code, gateNotAvailableError"), ("register layout", "Ecc::initMappedCircuit, getDataQubits")],
     [("qcOriginal, qcMapped", "the circuit before and after", "Ecc members")], ["exception of Ecc::apply", "mapped circuit as OpenQASM"],
     "exhaustive enumeration of gates x codes x wirings x Pauli frames, exact simulation of every accepted circuit",
     "42 gates with phase sensitive surroundings on all codes; registers of up to 3 (thorough 5) qubits. Phases of Q3Shor's S and T are not observable.")
_C = "src/mqt/qecc/codes/"
prop("P12", "Stabilizer codes implement exact Pauli algebra for every generator list",
     "For every list of commuting Pauli generators (signed or not, in text or binary form), the code object has the number of physical and logical qubits of the group they generate, the syndrome of an error is its commutation with each generator, and stabilizer membership, equivalence, equality and hashing agree with the generated group. Anti-commuting or malformed generators, distances below one, and logical operators that do not form a symplectic basis of the logical space, are rejected.",
     ["inputs"], "all generator lists, errors, pairs of operators and pairs of codes",
     "The tests check the five-qubit code and a few malformed lists; sign handling, redundant generators, trivial and full-rank codes and code equality go wrong only for particular lists.",
     [_C + "stabilizer_code.py"], [("construction and validation", "StabilizerCode.__init__, _check_code_correct"), ("group queries", "get_syndrome, stabilizer_equivalent, is_stabilizer, __eq__, __hash__"), ("Pauli conversions", "paulis_to_binary, is_pauli_string")],
     [("generators, symplectic_matrix", "the stabilizer group", "StabilizerCode")], ["public methods of StabilizerCode", "InvalidStabilizerCodeError"],
     "exhaustive enumeration of generator lists x errors x code pairs on the real class against an independent Pauli algebra",
     "All lists on up to 2 qubits, pairs (thorough: triples) on 3, plus fixed codes. Signs of products are not tracked by the code and not specified.")
prop("P13", "CSS codes answer logical, stabilizer and syndrome queries correctly",
     "For every pair of orthogonal check matrices (including dependent rows and a missing side), the code object has the right number of logical qubits and computed logical operators that complete the stabilizers to the normalizer. Logical-error and stabilizer queries, equivalence of errors, syndromes, self-duality and rows as Pauli strings are exact for every error; non-orthogonal or non-matching matrices are rejected.",
     ["inputs"], "all pairs of check matrices and all errors",
     "The tests look at Steane and a few small codes; dependent rows, missing sides, trivial codes and codes with several logical qubits behave differently.",
     [_C + "css_code.py", _C + "stabilizer_code.py"], [("logical operators", "CSSCode.compute_logical"), ("queries", "check_if_logical_x_error, check_if_x_stabilizer, stabilizer_eq_x_error, get_x_syndrome, is_self_dual")],
     [("Hx, Hz, Lx, Lz", "check matrices and logical operators", "CSSCode")], ["public methods of CSSCode"],
     "exhaustive enumeration of check matrices x errors (pairs) on the real class against brute-force GF(2) spans",
     "All matrices with up to 2 rows per side on up to 3 qubits, on 4 qubits with up to 2 (thorough 3) Hz rows; all errors, all pairs of errors.")
prop("P14", "Named and bivariate bicycle codes have the parameters they claim",
     "Every named code (Steane, Tetrahedral, Hamming, Shor, Carbon, Surface, Golay) and every bivariate bicycle code consists of commuting checks, has the documented number of physical and logical qubits, and its distance attribute equals the smallest weight of a logical operator in either basis. Names are case-insensitive; unknown names and unavailable sizes raise an explanatory error.",
     ["inputs", "configurations"], "all errors up to the distance, for every code, basis and name",
     "Distances are only compared with the constant stored in the code; whether a smaller logical operator exists requires looking at every low-weight error.",
     [_C + "css_code.py", _C + "bb_codes.py"], [("code tables", "CSSCode.from_code_name"), ("circulant construction", "construct_bb_code")],
     [("distance, x_distance, z_distance", "code distances", "CSSCode")], ["CSSCode attributes and matrices"],
     "exhaustive enumeration of all errors up to the distance (meet in the middle over syndromes)",
     "Exact for all named codes and the 72 qubit code; for 90-288 qubits every error up to weight 6 (thorough 8) resp. 4 (6).")
prop("P15", "Triangular color codes have consistent geometry and exact distance",
     "For every odd distance, hexagonal and square-octagon color codes have faces that are a proper three-coloured tiling with mutually inverse adjacency maps, commuting checks, one logical qubit, the documented number of qubits, and the requested distance. The logical-error query is exact for every residual without a syndrome, syndromes are exact, and codes are equal exactly if they have the same lattice and distance.",
     ["inputs", "configurations"], "all distances, residual errors and pairs of codes",
     "The tests check two small distances; indexing errors in the lattice construction appear at particular distances and boundary faces, and never in the logical-error query of two hand-picked errors.",
     [_C + "color_code.py", _C + "hexagonal_color_code.py", _C + "square_octagon_color_code.py", "src/mqt/qecc/cc_decoder/__init__.py"],
     [("lattice construction", "HexagonalColorCode.add_qubits, SquareOctagonColorCode.add_qubits"), ("logicals and queries", "ColorCode.compute_logical, check_if_logical_error, get_syndrome")],
     [("faces_to_qubits, qubits_to_faces", "the tiling", "ColorCode")], ["ColorCode attributes and methods"],
     "enumeration of all distances up to a bound, all residuals of small codes and all errors up to the distance on the real classes",
     "Geometry up to distance 13 (thorough 21), distance up to 7 (9), residuals of all codes up to 17 (19) qubits.")
prop("P16", "LightsOut finds minimum-weight solutions in every decoding history",
     "For every parity problem and every pattern of lights with a solution, the LightsOut decoder returns a set of switches that turns off exactly these lights and is as small as possible, whatever patterns (solvable or not) the same object solved before. The simulation reports exactly the counted rate of logical errors, their least weight and the error bar for every outcome of the noise, also in the written result file.",
     ["inputs", "histories", "schedules"], "all light patterns, sequences of patterns on one object, and outcomes of the noise",
     "Tests solve single patterns of two small codes; the incremental solver keeps constraints between calls, and counting of logical errors depends on random noise.",
     ["src/mqt/qecc/cc_decoder/decoder.py", _C + "color_code.py"], [("incremental MaxSAT instance", "LightsOut.preconstruct_z3_instance, complete_parity_constraint, solve"), ("failure counting", "simulate_error_rate, run")],
     [("optimizer", "constraint stack that survives a call", "LightsOut.optimizer")], ["LightsOut.solve", "simulate_error_rate result", "result file of run"],
     "exhaustive enumeration of patterns, of solve histories on one object, and of noise outcomes with a prescribed random source",
     "All syndromes of distance 3 and 5 codes, all length-3 histories at distance 3, all small parity problems whose lights have two or more switches; optimum by breadth-first search.")
_S = "src/mqt/qecc/ft_stateprep/"
prop("P17", "State preparation circuits prepare exactly the logical state",
     "For every CSS code, the heuristic and the gate- and depth-optimal synthesis return a circuit of H and CNOT gates on the code's qubits that prepares exactly the logical |0..0> or |+..+> state. The heuristic always finds a circuit; an optimal search that is cut off by timeouts at any step returns a correct circuit or none, and never fails otherwise.",
     ["inputs", "schedules"], "all CSS codes, bases, search limits and patterns of timeouts of the search steps",
     "Tests synthesize a few named codes; local minima, dependent checks, trivial codes and searches that are cut off at a particular step need particular codes and timing.",
     [_S + "state_prep.py"], [("greedy synthesis", "heuristic_prep_circuit"), ("SAT synthesis", "_optimal_circuit, gate_optimal_prep_circuit, depth_optimal_prep_circuit"), ("timeout search", "iterative_search_with_timeout")],
     [("checks", "check matrix reduced by CNOTs", "heuristic_prep_circuit")], ["StatePrepCircuit.circ"],
     "exhaustive enumeration of codes x limits x timeout schedules on the real synthesis against a stabilizer oracle",
     "All CSS codes up to 4 qubits, the distance-2 codes on 5, families of named codes; the process pool is replaced by a stand-in whose timeouts are prescribed.")
prop("P18", "Optimal state preparation is minimal, or missing only if out of range",
     "For every CSS code and basis, the gate-optimal (depth-optimal) synthesis that no timeout interrupts returns a correct circuit with the smallest possible number of CNOTs (of CNOT layers) if that number is at most the given upper limit, whatever the lower limit, and no circuit otherwise.",
     ["inputs", "configurations"], "all CSS codes, bases and pairs of search limits",
     "Tests only check that some circuit comes out; whether a smaller one exists, and what happens at the edges of the search range, requires an independent optimum.",
     [_S + "state_prep.py"], [("search loop", "iterative_search_with_timeout, _optimal_circuit"), ("SAT encoding", "_generate_circ_with_bounded_gates, _generate_circ_with_bounded_depth")],
     [("range", "limits of the search", "_optimal_circuit")], ["number and depth of CNOTs of the circuit"],
     "exhaustive enumeration of codes x search ranges on the real search; optimum by breadth-first search over all CNOT sequences",
     "Codes up to 5 qubits and [[6,4,2]]; larger ones are out of reach of the breadth-first search.")
prop("P19", "Fault sets contain exactly the dangerous propagated errors",
     "For every preparation circuit, basis, detection setting and sequence of calls, the fault set for k errors represents, up to stabilizers of the state, exactly the errors that at most k faults (on any qubit behind or in front of any CNOT, or given additionally) propagate to and that are heavier than k tolerates. Each reported error is a lightest member of its class.",
     ["inputs", "histories"], "all preparation circuits, numbers of faults, additional faults and call histories",
     "Tests compare fault sets of a few circuits by size; a missing fault silently makes the verification circuit unsafe, and cached sets depend on the calls made before.",
     [_S + "state_prep.py"], [("propagation", "StatePrepCircuit.compute_fault_set, _propagate_error"), ("combination", "combine_faults, _remove_trivial_faults, _remove_stabilizer_equivalent_faults")],
     [("x_fault_sets, z_fault_sets", "cached fault sets", "StatePrepCircuit")], ["compute_fault_set", "x_fault_sets", "combine_faults"],
     "exhaustive enumeration of circuits x call histories on the real class against independent propagation of every fault",
     "All optimal-length circuits of all distance-2 codes on 4 qubits, all call histories of length 2 (thorough 3); larger codes by families. Two faults on Carbon.")
prop("P20", "Verification measurements detect every dangerous fault; the optimum is minimal",
     "For every preparation circuit, the heuristic and the optimal search return, per number of faults, stabilizers of the prepared state such that every dangerous error anticommutes with one of them, and none if nothing is dangerous. The optimal search uses the fewest CNOTs and then the fewest measurements within the allowed number; a timeout leads to a valid or an empty answer, never to a wrong one.",
     ["inputs", "schedules"], "all preparation circuits, additional faults, ancilla limits and patterns of timeouts",
     "The tests check coverage for some codes; a single uncovered error, or a search step cut off at the wrong moment, only shows for particular fault sets.",
     [_S + "state_prep.py"], [("optimal search", "gate_optimal_verification_stabilizers, verification_stabilizers"), ("set cover heuristic", "heuristic_verification_stabilizers, _heuristic_layer, _set_cover")],
     [("layers", "measurements per number of faults", "gate_optimal_verification_stabilizers")], ["returned stabilizers"],
     "exhaustive enumeration of codes x fault sets x timeout schedules on the real searches; optimum by uniform-cost search",
     "Distance-2 codes up to 5 qubits and families of Steane, Shor and surface codes; single (thorough: pairs of) prescribed timeouts.")
prop("P21", "Verified preparation circuits tolerate every combination of faults they claim to",
     "Without faults, every verified circuit (heuristic, gate-optimal or naive) measures only zeros and leaves exactly the logical state on the data qubits. Every combination of k faults (k up to the number the code corrects, or detects) that flips no measurement leaves an error that is equivalent to one no heavier than k tolerates, on both sides if full fault tolerance was requested.",
     ["inputs", "fault_sequences"], "all faults (any Pauli at any location) and combinations of faults of all verified circuits",
     "The repository estimates logical error rates by sampling; that no single combination of faults escapes can only be seen by trying all of them.",
     [_S + "state_prep.py"], [("assembly", "_verification_circuit, _measure_ft_stabs, _measure_ft_x, _measure_ft_z"), ("hook errors", "_hook_errors")],
     [("circuit", "verified circuit with ancillas", "gate_optimal_verification_circuit")], ["returned QuantumCircuit"],
     "exhaustive fault injection (every fault, every pair) into the circuits the real code produces",
     "Every single fault for all distance-2 codes up to 5 qubits and several families, every pair for distance 4 and 5 codes. Three faults are not covered.")
prop("P22", "Flagged measurements read the stabilizer and flag dangerous faults",
     "Measuring a stabilizer with flags yields exactly its eigenvalue, raises no flag without faults and changes nothing else about the data. Every combination of up to t faults without a raised flag leaves an error that is, up to the measured stabilizer, no heavier than the number of faults; unavailable numbers of faults are rejected.",
     ["inputs", "fault_sequences"], "all weights, bases, qubit orders, faults and pairs of faults",
     "No test runs the flag gadgets with faults; wiring errors that a fault-free run does not show break the guarantee for particular weights.",
     [_S + "state_prep.py"], [("flag gadgets", "measure_flagged, measure_stab_two_flagged, measure_flagged_4/6/8")], [("flags", "flag ancillas and bits", "measure_flagged")], ["the circuit built by measure_flagged"],
     "exhaustive injection of every fault and pair of faults into the gadgets the real code builds",
     "Weights 1-16 (thorough 22), one and two faults.")
prop("P23", "Lookup-table decoding returns a lightest error in every decoder history",
     "For every CSS code, every syndrome of an X (Z) error and every sequence of earlier uses of the same decoder, LutDecoder returns an X (Z) error with exactly this syndrome and of the least possible weight, in single and in batch decoding, with tables built at creation or on demand.",
     ["inputs", "histories"], "all codes, syndromes and sequences of decoder operations",
     "Tests decode single-qubit errors of the Steane code; which table is built when, and shared tables of self-dual codes, depend on the order of the calls and on the order of the checks.",
     [_S + "simulation.py"], [("tables", "LutDecoder.generate_x_lut, generate_z_lut, _generate_lut")], [("x_lut, z_lut", "tables by syndrome", "LutDecoder")], ["decode_x, decode_z, batch_decode_x, batch_decode_z"],
     "exhaustive enumeration of codes, syndromes and histories of operations on the real decoder against brute force",
     "All CSS codes up to 4 qubits and an eighth of those with 5 (thorough all), histories up to length 2 (3).")
prop("P24", "Noisy simulation applies the documented noise and judges every fault",
     "For every preparation circuit, the simulated circuit is the given one with exactly the documented depolarizing, idling, initialization and measurement errors. For every fault, a shot is discarded exactly if a verification measurement flips and otherwise counts as a logical error exactly if a lightest correction of the data leaves a logical operator. The reported logical error rate (per logical qubit), acceptance rate, number of errors and number of shots are those of the simulated shots, for every sequence of outcomes, batch size and stopping rule.",
     ["inputs", "fault_sequences", "histories"], "all circuits, faults and combinations of faults, and sequences of shot outcomes",
     "Tests compare rates statistically; a missing noise channel, a fault judged wrongly or a miscounted batch disappears in the statistics.",
     [_S + "simulation.py"], [("noise model", "NoisyNDFTStatePrepSimulator.to_stim_circ"), ("final measurements", "measure_stabilizers, measure_z, measure_x"), ("counting", "logical_error_rate, _simulate_batch")],
     [("stim_circ", "simulated noisy circuit", "NoisyNDFTStatePrepSimulator")], ["stim_circ", "logical_error_rate"],
     "exhaustive fault injection through the public simulator, comparison of all noise channels with an independent model, enumeration of all outcome sequences with a scripted sampler",
     "Heuristic, verified and naive circuits of small codes, GHZ circuits with reused ancillas; single faults (thorough pairs); outcome sequences of up to 5 (7) shots.")
_A = "src/mqt/qecc/analog_information_decoding/"
prop("P25", "Noise channels, sampling and analog conversions follow their probabilities",
     "For every error rate and bias (also infinite) the X, Y and Z channels have the documented shares, each outcome of the sampling occurs on a set of random numbers of exactly its probability, and new errors combine with every residual error. Analog syndromes have the sign of the perfect syndrome plus the noise, their thresholds, likelihoods and standard deviations are consistent, and the logical error tests and single-stage and alist matrices are right for every input.",
     ["inputs"], "all rates, biases, residual errors, random numbers, errors and matrices",
     "Tests check a handful of vectors; a boundary of a probability interval or a value exactly at a threshold is never hit by chance.",
     [_A + "utils/simulation_utils.py"], [("noise", "error_channel_setup, generate_err, generate_syndr_err, get_noisy_analog_syndrome"), ("analog values", "get_sigma_from_syndr_er, get_virtual_check_init_vals, get_analog_llr, get_binary_from_analog"), ("verdicts", "is_logical_err, check_logical_err_h")],
     [("channels", "probability per qubit and Pauli", "error_channel_setup")], ["returned values"],
     "exhaustive enumeration over a fine grid of random numbers, all small matrices and vectors on the real functions",
     "Grids of rates, biases and random numbers; matrices up to 3x4.")
prop("P26", "Overlapping-window decoding judges every fault history exactly",
     "For every history of data and measurement errors over all rounds (hard or analog outcomes), a sample of QssSimulator with matching counts as success exactly if the sliding-window protocol with most likely corrections (commit the first half, carry the rest over, decode everything after the final perfect round) leaves no logical error. Independently of earlier samples, every single fault is corrected, also with BP+OSD; the reported counts and rates match.",
     ["fault_sequences", "histories"], "all histories of errors over all rounds and samples",
     "Tests decode one window; what is carried over between windows matters only for histories with errors next to a window boundary.",
     [_A + "simulators/quasi_single_shot_v2.py", _A + "simulators/memory_experiment_v2.py"], [("window", "decode_multiround, move_syndrome, build_multiround_pcm"), ("protocol", "QssSimulator._single_sample, run")],
     [("syndrome_mat, analog_syndr_mat", "measured syndromes of the window", "QssSimulator._single_sample")], ["result of run", "result file"],
     "exhaustive enumeration of fault histories realized by a prescribed random source; verdicts against an exact (Viterbi) window decoder",
     "Repetition and ring codes up to 5 bits, up to 15 rounds, all histories of the smallest, 2-3 faults otherwise; analog noise from seven values. BP+OSD only for single faults.")
prop("P27", "Single-shot simulation judges every fault history by exact decoding",
     "For every history of data and measurement errors, every choice of meta checks, single or two stages, hard or analog (Tanner graph) syndromes and sustainable-threshold depth, a sample of SingleShotSimulator counts X and Z as success exactly if most likely corrections, applied round after round, leave no logical error of that type after the final perfect round. Samples are independent, the result file holds these counts and their rates, and unsupported or partly missing arguments (meta checks, logicals) behave as documented.",
     ["fault_sequences", "histories", "configurations"], "all configurations and all histories of errors over all rounds",
     "No test looks at the verdict of a sample: swapped channels or an unthresholded syndrome only change a rate, and only for particular histories.",
     [_A + "simulators/simulation.py"], [("rounds", "SingleShotSimulator._single_sample, _get_decoder_ready_syndromes"), ("decoding", "_decoding, _two_stage_decoding, _meta_code_decoding, _single_stage_decoding"), ("verdict and counts", "run, save_results")],
     [("residual_err", "errors carried from round to round", "SingleShotSimulator._single_sample")], ["result of run", "result file"],
     "exhaustive enumeration of fault histories realized by a prescribed random source; verdicts against an independent protocol with exact maximum-likelihood decoding",
     "[[4,2,2]], Steane, repetition, ring, Shor-type and codes with meta checks up to 8 qubits; up to 3 faults and depth 2; the ldpc decoder itself is replaced by an exact one.")
prop("P28", "Analog Tanner graph decoding uses the analog values exactly",
     "For every check matrix, error channel and analog syndrome, AnalogTannergraphDecoder returns a most likely error given data channel and analog values, independently of earlier calls. Every sample of AtdSimulator counts X (Z) as success exactly if this correction leaves no logical error; noise may be given by error rate or by standard deviation, on one side only and with any bias, and the result file holds the counts and rates.",
     ["inputs", "fault_sequences"], "all small matrices, channels, analog syndromes and error histories",
     "Tests check a few initial values; which weight an analog value gets decides only cases near a tie.",
     [_A + "simulators/analog_tannergraph_decoding.py"], [("decoder", "AnalogTannergraphDecoder._set_analog_syndrome, decode"), ("simulator", "AtdSimulator.single_sample, run")],
     [("atg", "analog Tanner graph and channel of virtual nodes", "AnalogTannergraphDecoder")], ["decode", "result of run", "result file"],
     "exhaustive enumeration of matrices x analog syndromes and of fault histories against exact maximum-likelihood decoding",
     "Matrices up to 3x4 (thorough 3x4 all), seven (eleven) analog values per check, up to 3 faults.")
prop("P29", "Result files are neither lost, shared nor miscounted",
     "Merging any tree of result folders, named by any absolute or relative path, yields exactly one entry per folder with readable results, with the summed runs and successes and their rates, per side where sides are merged separately. Result paths never point to an existing file and separate different settings, for every history and every interleaving of simultaneous simulations. Error rates, convergence and parameter lists follow their definitions for every input.",
     ["inputs", "histories", "schedules"], "all trees, path forms, histories of result paths and interleavings of file-system calls",
     "Only a few helpers have tests; a race between two simulations or a relative path loses results without an error.",
     [_A + "utils/data_utils.py"], [("merging", "merge_json_files, merge_json_files_x, merge_json_files_z, merge_json_files_xz, merge_datasets"), ("paths", "create_outpath"), ("rates", "calculate_error_rates, is_converged")],
     [("result folders", "files on disk", "create_outpath")], ["files written", "returned path", "returned rates"],
     "exhaustive enumeration of trees and histories; controlled scheduler over all interleavings of the file-system calls of concurrent processes",
     "Up to 2 (3) folders, histories of up to 4 paths, 2-3 simultaneous calls with bounded switches.")
prop("P30", "Product code construction yields the codes, logicals and files it promises",
     "For all seed matrices, the 3D and 4D product constructions (dense and sparse) yield complexes whose consecutive boundary maps compose to zero and whose homology has the dimensions of the Kuenneth formula; matrices that do not form a complex are rejected. create_code writes exactly these check, meta check and logical matrices in every requested format, the parameters n and k and the distances delivered by the distance program, and the logicals span the homology.",
     ["inputs", "configurations"], "all small seed matrices, code types and options of the constructors",
     "There are no tests of the constructors; a wrong sign, transposition or factor order survives for symmetric seeds and only shows for seeds with unequal kernels.",
     [_A + "code_construction/code_constructor.py", _A + "code_construction/sparse_code_constructor.py", _A + "code_construction/compute_distances.sh"],
     [("complexes", "generate_3d_product_code, generate_4d_product_code, run_checks_scipy"), ("logicals and parameters", "_compute_logicals, _compute_distances, _store_code_params"), ("files", "create_code, save_code")],
     [("generated codes", "files written per code", "save_code")], ["returned matrices", "files written"],
     "exhaustive enumeration of seed matrices and options on the real functions; homology by linear algebra over GF(2), file contents read back",
     "All factors up to 2x2 and selected shapes with 3 rows or columns; GAP (for distances) is replaced by a stand-in that checks its input.")
prop("P31", "The qiskit wrapper simulates exactly the requested noisy encoded circuit",
     "For every sequence of noise channels and probability, each operation for which the wrapper defines noise gets exactly the composition of these channels on every qubit it acts on; unknown channels are rejected. A run reports exactly the outcomes of the given circuit (in any register layout, with or without own measurements) under every code without noise, with relative frequencies that honour the threshold, and an exported circuit is the one that would be simulated.",
     ["programs", "configurations", "inputs"], "all noise models, tables of counts, circuits, register layouts and codes",
     "Tests run a single circuit and look only at its exit; a channel on the wrong qubit, or outcomes read from another register, print plausible numbers.",
     ["src/mqt/qecc/ecc_qiskit_wrapper.py"], [("noise", "create_noise_model, compose_error"), ("reporting", "print_simulation_results"), ("run and export", "main, simulate_circuit")],
     [("noise model", "quantum errors per operation", "create_noise_model")], ["noise model", "printed outcomes", "exported circuit"],
     "exhaustive enumeration of channel sequences against exact superoperators, and of circuits x layouts x codes run through main",
     "Up to 3 (4) channels on up to 3 qubits; all two-qubit circuits of up to 3 gates under certain Pauli noise; operations without defined noise are unspecified.")
prop("P32", "Command-line evaluations run exactly the requested experiment",
     "For every code and every combination of options, the evaluation script simulates one circuit that prepares the requested state of the requested code, with the requested error rate, idling model and verification (none if none is requested), and prints the simulator's four numbers. Every stored circuit can be read, prepares the state in its name and, if named fault-tolerant, leaves no undetected heavier error after as many faults as the code tolerates. The color code command line samples exactly the requested number of errors of the lattice, decodes with the chosen decoder and stores the exact counts in the requested folder.",
     ["configurations", "fault_sequences"], "all codes and options, all stored circuits, all combinations of tolerated faults",
     "Nothing tests the scripts or the stored circuits; a wrong file or an ignored option yields plausible rates for another experiment.",
     [_S + "eval/estimate_logical_error_rate.py", _S + "eval/circuits", "src/mqt/qecc/cc_decoder/cli.py", "src/mqt/qecc/cc_decoder/comparison/tn_decoder.py"],
     [("options", "main, cli"), ("stored circuits", "eval/circuits/*/*.qasm"), ("tensor network comparison", "tn_decoder.run")],
     [("circuit", "circuit handed to the simulator", "main")], ["simulated circuit and settings", "printed result", "result file"],
     "exhaustive enumeration of options with recorded simulations; enumeration of all fault combinations on the stored circuits",
     "Optimal synthesis only where a circuit is stored; up to two faults; tetrahedral code with naive verification only checked for its state.")
prop("P33", "Python bindings compute what they document and never crash",
     "For every code object, however it was built, and every error, the Python interface of the C++ library returns exactly the syndromes, stabilizer memberships, matrices and records that brute force gives, and decoders keep their result and their own copy of the code. Every enumeration text, circuit form and simulation call means what its name says, for all declared names. No sequence of calls, on unset or half-set objects or with arguments of wrong size, terminates the interpreter; it returns or raises.",
     ["inputs", "histories"], "all code objects and ways to build them, errors, argument sizes, call sequences and enumeration texts",
     "The tests make a handful of calls; a null pointer, a swapped argument or a mislabelled value in the bindings needs a particular object state or argument.",
     ["src/python/bindings.cpp", "include/Code.hpp", "include/Decoder.hpp", "include/DecodingRunInformation.hpp", "src/mqt/qecc/pyqecc.pyi"],
     [("bindings", "PYBIND11_MODULE(pyqecc), applyEcc"), ("guards", "Code::assertPresent, Decoder::assertDecodable"), ("records", "DecodingResult, DecodingRunInformation")],
     [("hX, hZ, code", "check matrices and code that may be unset", "Code, Decoder")], ["return values and exceptions", "exit status of the interpreter", "result files"],
     "exhaustive enumeration of objects, arguments and call sequences on an extension module compiled from the working tree, against brute force",
     "Codes of up to 3x3 checks, all call sequences up to length 4 (quick 3). Circuits of apply_ecc are compared in form only (their meaning is P09 to P11).")
