from .catalog import P, N

GRID = (
    "Summaries are parametric in the code size (2-D, column and row regimes); obligations are decided on every size of a grid "
    "(quick: half-sizes 1..3, thorough: 1..5 or 1..4). The summaries index qubits by integer expressions that are piecewise linear "
    "in row/column with period 2, so a deviation at larger sizes shows inside the grid unless it hides behind an explicit size "
    "threshold; such a threshold is the stated limit."
)
MODEL = "qiskit's documented gate, broadcasting, register and conditioning semantics (modelled, qiskit 0.46)"
A = [GRID, MODEL]
CE = "qtcodes/circuits/"
CIRC = [CE + "base.py", CE + "rotated_surface.py", CE + "xxzz.py", CE + "xzzx.py", CE + "repetition.py"]
TABS = "abstract interpretation to symbolic effect summaries + Pauli propagation over them"

P(
    "C01", "A logical operator is the same operator wherever it is used",
    "For every code type and size, the logical X of a qubit is one fixed data-qubit operator on the left-most column and the logical Z one on the top-most row. "
    "Applying it, applying it under a classical condition (every gate conditioned on exactly the given register and value), controlling it from another qubit, using the logical qubit as the control of another qubit, and reading it out (into a fresh one-bit register or the one that was passed) all use that same operator. "
    "Using the qubit as a control leaves the qubit itself undisturbed apart from the controlled operation.",
    ["inputs", "configurations"], "all three code types, all odd heights and widths including one-dimensional codes, every condition value, every foreign control/target qubit",
    "Tests only prepare +Z/+X, insert one error and read out for a few sizes; conditional, controlled and X-basis variants and one-dimensional XZZX codes are never compared with the plain operator.",
    CIRC, [("x, z, x_c_if, z_c_if, cx, readout_x, readout_z of each lattice", CE + "xxzz.py, " + CE + "xzzx.py")],
    "p_circ:c01", TABS,
    "per (code type, size): support of x()/z(); x_c_if/z_c_if Pauli and condition; Heisenberg image of X_q, Z_q and every data Pauli under cx(control=q), of X_q, Z_q, X_L, Z_L under cx(target=q); operator measured by readout_x/z and its classical bit",
    "Decides all listed identities on the source's own summaries for every size of the grid; " + GRID, A, 500,
)
P(
    "C02", "Logical operators commute with every check and anticommute with each other",
    "For every code type and size the logical X and logical Z that a qubit applies anticommute, and both commute with every stabilizer check the qubit measures.",
    ["inputs", "configurations"], "all three code types and all odd heights and widths including one-dimensional codes",
    "Tests use a handful of distances and never apply a logical gate between rounds, so a logical operator that flips a check goes unseen.",
    CIRC, [("x, z", CE + "xxzz.py, " + CE + "xzzx.py"), ("plaquette geometry and entangling", CE + "rotated_surface.py")],
    "p_circ:c02", TABS, "per (code type, size): symplectic product of x() with z() and of both with the operator behind each measured outcome",
    "Exact symplectic products of operators derived from the source; " + GRID, A, 200,
)
P(
    "C03", "A stabilization round measures one complete set of commuting plaquette checks",
    "Each stabilization round yields one outcome per check: for n data qubits, n-1 independent, mutually commuting checks, each acting on the data qubits around one plaquette, and every round measures the same checks at the same outcome positions. "
    "A round leaves every check and both logical operators unchanged.",
    ["inputs", "configurations", "histories"], "all three code types and all odd sizes, first and later rounds",
    "The tests never look at which operator an outcome measures; they see only hit lists of a few injected errors on a few distances.",
    CIRC, [("_set_geometry, _gen_qubit_indices_and_stabilizers, stabilize", CE + "rotated_surface.py"), ("entangle of each stabilizer class", CE + "xxzz.py, " + CE + "xzzx.py")],
    "p_circ:c03", TABS, "per (code type, size): Heisenberg pull-back of every outcome of a round; commutation, GF(2) rank, 2x2 locality; pull-back of checks and logicals through the round",
    "Exact stabilizer algebra on the summarised round; " + GRID, A, 1000,
)
P(
    "C04", "Every syndrome outcome has its own classical bit and ancillas end cleared",
    "Every stabilization round adds exactly one new classical register and writes each of its bits exactly once, from that round's checks and nothing else. "
    "Each check uses its own ancilla, never a data qubit, and every ancilla is back in |0> at the end of the round.",
    ["inputs", "configurations", "histories"], "all three code types and sizes, any number of rounds",
    "Tests check parsed hits only for one error per run; a lost or shared bit, or an ancilla that carries a value into the next round, shows only for particular outcome histories.",
    CIRC, [("stabilize", CE + "rotated_surface.py")],
    "p_circ:c04", TABS, "per (code type, size), three rounds: new registers, measure targets as a bijection onto the register, pull-back of every ancilla Z to the identity",
    "Exact on the summarised instruction list; round counts beyond three repeat the same summary with a symbolic counter (see C08 for names); " + GRID, A, 500,
)
P(
    "C05", "Parsed hits name exactly the plaquettes and rounds whose outcome changed",
    "Parsing a readout string with a logical readout returns that readout's value and lists a hit (time, row, col) exactly when the outcome of the check at that plaquette differs between round time and round time+1. "
    "The coordinates are the centre of the plaquette whose data qubits that check acts on, no two checks share a coordinate, and for the CSS codes the hit type is the kind of check.",
    ["inputs", "configurations", "histories"], "every combination of measurement outcomes, all code types and sizes, any number of rounds",
    "Outcome strings are exponentially many; tests see strings with one error each.",
    CIRC, [("parse_readout", CE + "rotated_surface.py")],
    "p_circ:c05", "abstract interpretation with outcomes as GF(2) unknowns (algebraic normal forms)", "per (code type, size, number of rounds): presence condition of every hit as a canonical GF(2) function, compared with outcome_t xor outcome_t+1; coordinates against the support of the measured check",
    "Covers all outcome strings at once for each size and round count of the grid (1-4 rounds); " + GRID, A, 1000,
)
P(
    "C06", "A lattice readout reconstructs the final round and the logical value",
    "After a lattice readout in the X (Z) basis, parsing returns the value of the logical X (Z) and, as the final round, for every check of that type the product of exactly its data qubits' outcomes. "
    "Hits of the earlier rounds are unchanged, and checks of the other type get no hit for the final round.",
    ["inputs", "configurations", "histories"], "every combination of outcomes, both bases, all code types and sizes, any number of earlier rounds",
    "The existing tests parse only Z-basis lattice readouts with single errors; the X basis raised an AttributeError for every input until it was repaired here.",
    CIRC, [("lattice_readout_x/z", CE + "xxzz.py, " + CE + "xzzx.py"), ("extract_final_stabilizer_and_logical_readout_*", CE + "rotated_surface.py")],
    "p_circ:c06", "abstract interpretation with outcomes as GF(2) unknowns + Pauli propagation", "per (code type, size, basis, rounds): operator measured by every data bit; parity formulas of the parsed value and final-round hits turned back into operators and compared with the logical and the checks",
    "Covers all outcome strings at once for each size of the grid; " + GRID, A, 1000,
)
P(
    "C07", "Logical reset, rounds and readout agree on the code space",
    "After a logical reset in a basis, the logical operator and all checks of that type have value +1; a noiseless run of reset, any rounds, and logical or lattice readout in the same basis always reads 0 and has no hit. "
    "A logical readout does not disturb the logical value or any check, and in any series of logical operations and readouts every readout tells the value the qubit has at that moment, whichever register it goes to.",
    ["inputs", "configurations", "histories"], "all code types and sizes, both bases, both kinds of readout",
    "Tests cover the noiseless Z basis of a few sizes by sampling; non-destructiveness and the X basis of lattice readouts are not exercised.",
    CIRC, [("reset_x/z, readout_x/z, lattice_readout_x/z", CE + "xxzz.py, " + CE + "xzzx.py"), ("parse_readout", CE + "rotated_surface.py")],
    "p_circ:c07", TABS, "per (code type, size, basis): pull-back of logical and checks through reset and readout; pull-back of the parsed value and every parsed hit of a whole experiment to the start of the circuit",
    "Exact stabilizer algebra, including the parser, for each size of the grid; " + GRID, A, 1000,
)

P(
    "C08", "Register names never collide, whatever the history",
    "Any sequence of stabilization rounds, logical and lattice readouts and logical CNOTs on any number of qubits in one register creates classical and quantum registers with pairwise different names. "
    "Every operation that adds a register therefore succeeds every time it is called.",
    ["histories", "configurations"], "all operation sequences on all code types, any number of qubits and any counter value",
    "Tests add at most a few registers to one qubit; collisions need a particular order or number of operations or qubits.",
    CIRC + [CE + "circ.py"], [("round/readout counters", CE + "rotated_surface.py, xxzz.py, xzzx.py"), ("add_tqubit, cx", CE + "circ.py")],
    "p_reg:c08", "inductive name-template analysis with havoced counters (automaton intersection) + bounded histories of summaries",
    "names as templates over counters that each operation strictly advances; template injectivity and pairwise disjointness; all histories of length 2 (3) per type, 13 qubits in one register, repeated CNOT",
    "The induction covers unbounded histories when names are counter templates (they are on this tree); names of any other form are decided by the bounded histories only.", [MODEL], 200,
)
P(
    "C09", "Only odd positive two-dimensional sizes are accepted; rejection has no effect",
    "Every qubit and decoder type accepts exactly the sizes whose height and width are odd and positive (and of the documented orientation for repetition codes) and rejects every other size, scalar or tuple, with the lattice error. "
    "A rejected size leaves the circuit that was passed in unchanged. "
    "Decoders refuse parameters without a number of rounds, and surface code decoders parameters without a size, with a ValueError.",
    ["inputs", "configurations"], "all integer heights and widths, scalar and tuple sizes, all qubit and decoder types (the 1x1 code is outside the claim)",
    "Tests try one wrong width, height and type for repetition codes only; negative sizes were accepted before they were repaired here.",
    CIRC + ["qtcodes/fitters/rotated_surface.py", "qtcodes/fitters/repetition.py"], [("_params_validate_and_generate", CE + "rotated_surface.py"), ("_params_validation", "qtcodes/fitters/rotated_surface.py"), ("_validate_params", CE + "repetition.py")],
    "p_reg:c09", "abstract interpretation with symbolic sizes; path conditions of every raise",
    "path condition of every raise and of the normal exit as functions of symbolic height/width, evaluated on all of [-5,7]^2 and around every number that occurs in a condition (the conditions are threshold and parity conditions); effects before the raise",
    "The conditions involve only parities and thresholds, and the evaluated window contains every threshold, so it decides all integers.", [MODEL], 500,
)
P(
    "C10", "Repetition codes have the documented orientation and protection",
    "Without a size a repetition qubit has distance 3, a scalar distance n gives n data qubits, and by default or with bit-flip protection the n-1 checks are products of two Zs with a weight-n logical X, while with phase-flip protection they are products of two Xs with a weight-n logical Z.",
    ["inputs", "configurations"], "all ways of giving parameters (none, scalar, tuple, flag)",
    "Tests build d=3 from two parameter shapes and only look for raised exceptions or single errors.",
    [CE + "repetition.py"], [("_validate_params", CE + "repetition.py")],
    "p_reg:c10", TABS, "per parameter shape and distance: checks measured by a round and weights of the logicals", "Decides nine parameter shapes with distances 3,5,7 (thorough: to 11).", A, 30,
)
P(
    "C11", "Everything is built on the caller's circuit, and only on it",
    "A qubit or register that is given a circuit, even an empty one, uses that circuit object, and all operations of it, of its qubits and of the topological circuit built on it act on that circuit alone. "
    "Objects built without a circuit never share one.",
    ["configurations", "histories"], "empty and non-empty circuits, all code types, registers and topological circuits, all operations",
    "Tests never pass a circuit in; an empty circuit is falsy, so a truth test instead of a None test breaks only that case.",
    [CE + "base.py", CE + "circ.py"], [("circ is None", CE + "base.py, circ.py")],
    "p_reg:c11", "alias analysis on abstract heaps", "identity of the circuit object held by each object; target circuit of every emitted instruction", "Exact on the abstract heap for the enumerated constructions.", [MODEL], 50,
)
P(
    "C12", "Qubits own their parameters and bookkeeping",
    "Building or operating a qubit never changes the parameter dictionary the caller passed, and never changes the parameters, registers, counters or geometry of another qubit, even one built from the same dictionary or as the ancilla of a logical CNOT.",
    ["histories", "configurations"], "all pairs of qubits built from shared parameters, directly, through a register or as a CNOT ancilla, and all operations",
    "Tests build one qubit per dictionary; sharing shows only with two qubits from one dictionary and a particular interleaving (before the repair two such qubits shared their round counter).",
    [CE + "base.py", CE + "repetition.py", CE + "circ.py"], [("dict(params) copies", CE + "base.py, repetition.py")],
    "p_reg:c12", "mutation/alias analysis on abstract heaps", "frozen value of the caller's dict and of every observable field of the other qubit before and after each construction and operation", "Exact on the abstract heap for every operation of every type.", [MODEL], 100,
)
P(
    "C13", "The logical CNOT acts as a CNOT on the logical operators",
    "For every combination of code types and sizes of control, target and ancilla, the logical CNOT, including its measurements and conditional corrections, maps X of the control to X on both, Z of the target to Z on both, leaves Z of the control and X of the target unchanged, and keeps all checks of both. "
    "It does so again when repeated, with rounds in between, and it does not affect other qubits.",
    ["inputs", "configurations", "histories"], "all pairs of code types as control and target, default and explicit ancillas, all measurement outcomes, first and repeated use",
    "There is no test of the logical CNOT; the repaired loss of the control's phase is invisible in the Z basis.",
    [CE + "circ.py", CE + "xxzz.py", CE + "xzzx.py"], [("TopologicalCircuit.cx", CE + "circ.py"), ("lattice cx, *_c_if", CE + "xxzz.py, xzzx.py")],
    "p_reg:c13", "Pauli propagation with measurement feed-forward over abstract effect summaries", "per (control, target, ancilla, sizes): Heisenberg image of the logicals and every check under the whole protocol with outcome-conditioned signs replaced by the measured operators",
    "Exact for all outcomes at once; sizes are a fixed list of small rectangular and one-dimensional codes, the code-type combinations are complete.", A, 300,
)
P(
    "C14", "A rejected qubit request leaves the register unchanged",
    "Adding a qubit with an invalid size, qubits with an unknown type, or type and parameter lists of different length is rejected with an error and leaves the register's qubits, numbering, parameters and circuit exactly as they were.",
    ["inputs", "histories"], "all code types, existing and new sub-registers, empty and used registers",
    "There is no test of the register class; an empty sub-register left by a rejected request broke later CNOTs until repaired here.",
    [CE + "circ.py"], [("add_tqubits, add_tqubit", CE + "circ.py")],
    "p_reg:c14", "abstract interpretation: heap and effects at every raise", "state of the register at each raise compared with the state before the call; circuit effects before the raise", "Exact on the abstract heap for the enumerated bad requests.", [MODEL], 100,
)
P(
    "C15", "Registers return the requested qubits under their indices",
    "Each documented type name builds its own qubit class, index i of a register returns the i-th qubit that was added whatever sub-register it went to, a sub-register lists its qubits under those indices, and unknown indices are errors. "
    "The default ancilla of a logical CNOT has the control's type and size.",
    ["configurations", "histories"], "all type names, any distribution of qubits over sub-registers",
    "There is no test of the register class.",
    [CE + "circ.py", CE + "qubit_types.py"], [("str2qtype", CE + "qubit_types.py"), ("__getitem__, add_tqubit, cx", CE + "circ.py")],
    "p_reg:c15", "abstract interpretation of the registry and register operations", "class of every built object, identity of every indexed object, raise on unknown index", "Exact for the enumerated additions over three sub-registers.", [MODEL], 20,
)
P(
    "C16", "Topological circuit operations are the qubit's own operations",
    "Every operation of a topological circuit, addressed by index or by qubit object, appends exactly the instructions and registers that the same operation on that qubit itself would append, on that qubit only, passes a given readout register through, and parses readouts exactly as the qubit does.",
    ["inputs", "configurations"], "all operations, all code types, both ways of addressing, all readout strings for parsing",
    "There is no test of the topological circuit class.",
    [CE + "circ.py"], [("TopologicalCircuit methods", CE + "circ.py")],
    "p_reg:c16", "effect-summary equivalence", "instruction lists, added registers and bookkeeping of each pair of operations compared; parse results compared as terms", "Exact equality of summaries for two-qubit registers of every type combination.", A, 100,
)
P(
    "C17", "Noise-insertion identities sit on every qubit exactly once",
    "The identity layer puts exactly one identity on every qubit of the logical qubit (data, syndrome and readout ancillas), and the data-only layer exactly one on every data qubit and nowhere else; neither adds any other instruction.",
    ["inputs", "configurations"], "all code types and sizes",
    "Tests use the layers on a few sizes and cannot see a missing or doubled identity because noise is then merely weaker or stronger.",
    [CE + "base.py"], [("id, id_data", CE + "base.py")],
    "p_reg:c17", "abstract interpretation to symbolic effect summaries", "multiset of qubits that receive an identity against the registers of the qubit", "Exact per size of the grid; " + GRID, A, 50,
)
P(
    "C18", "Entangling one check type touches exactly that type",
    "Entangling only the X (Z) plaquettes maps exactly the X (Z) checks onto their own ancillas and touches no ancilla of the other type, also on one-dimensional codes that have checks of only one type.",
    ["inputs", "configurations"], "all code types and sizes, in particular one-dimensional ones",
    "No test calls the partial entangling operations; on one-dimensional codes they entangled everything until repaired here.",
    [CE + "rotated_surface.py", CE + "base.py"], [("entangle_x, entangle_z, entangle", CE + "rotated_surface.py, base.py")],
    "p_reg:c18", TABS, "pull-back of every syndrome ancilla's Z through entangle_x, entangle_z, entangle", "Exact per size of the grid; " + GRID, A, 100,
)

FIT = "qtcodes/fitters/"
DECF = [FIT + "base.py", FIT + "lattice_decoder.py", FIT + "rotated_surface.py", FIT + "repetition.py"]
RX = "retworkx's documented PyGraph semantics (node numbering, multigraph=False, floyd_warshall distances, counts of shortest paths); the matcher itself is replaced by an arbitrary answer (modelled, retworkx 0.12)"
DA = [GRID, MODEL, RX]
GTECH = "abstract interpretation to symbolic effect summaries of graph construction (recursion summarised by its body) + evaluation of the summaries per size"

P(
    "D01", "Decoding is a pure query",
    "Decoding a readout, as a string or as parsed hits, with or without degeneracy weighting, leaves the hits that were passed in and everything readable on the decoder (syndrome graphs, node maps, virtual nodes, parameters, look-up tables) unchanged. "
    "Decoding the same hits again poses the same matching problem and returns the same value.",
    ["inputs", "histories"], "all hit sets, both forms of input, with and without err_prob, any number of earlier queries",
    "Tests decode each string once; before the repair the virtual nodes were appended to the caller's hit list, which only a second use of the same hits shows.",
    DECF, [("correct_readout, _corrections, _make_error_graph", FIT + "lattice_decoder.py")],
    "p_dec:d01", GTECH + "; mutation analysis", "every effect of two consecutive decoding calls on graphs, maps, tables and the caller's containers; the two matching problems and answers compared",
    "Exact on the summaries for the enumerated hit sets of every size; " + GRID, DA, 800,
)
P(
    "D02", "The decoder's graph is exactly the code's single-error graph",
    "For every code size and number of rounds, the syndrome graph of each kind of check has one node per check and round, an edge of weight one between two checks of a round exactly when one data-qubit error flips both, a boundary edge for every data qubit whose error flips only that check, and an edge between the same check in consecutive rounds; no other nodes or edges. "
    "Nodes carry the coordinates that parsing reports, and the node map leads to them.",
    ["inputs", "configurations"], "all decoder types, all odd sizes including one-dimensional ones, any number of rounds, for the checks of each code class that is decoded",
    "Tests compare the decoded value of single errors; a missing or extra edge only changes which of several matchings is chosen for particular error patterns.",
    DECF, [("_make_syndrome_graph, _populate_syndrome_graph, _specify_virtual, _valid_syndrome", FIT + "rotated_surface.py")],
    "p_dec:d02", GTECH + "; compared with the checks pulled back from the circuit summaries", "node set, edge set, weights, boundary multiplicity and node map of each graph against the commutation of every single-qubit Pauli with the measured checks",
    "Exact per size and number of rounds of the grid; " + GRID, DA, 2000,
)
P(
    "D03", "A correction flips the readout exactly when matched errors cross the logical",
    "Given the pairs of hits that the matching returns, the corrected value differs from the measured one exactly when an odd number of matches leads to the boundary on the side where the data errors flip the logical operator that was read out. "
    "Matches between hits, between boundary nodes or with the parity node, and hits of the other type, never change the value; without hits the value is returned as it was.",
    ["inputs", "configurations"], "every matching between hits and boundary nodes, all readout types, both values, all decoder types and sizes",
    "Tests decode weight-one errors for a few sizes only, so a boundary node counted on the wrong side, or only in one order of the pair, goes unseen.",
    DECF, [("_is_crossing_readout_path", FIT + "rotated_surface.py"), ("correct_readout, _corrections, _run_mwpm", FIT + "lattice_decoder.py")],
    "p_dec:d03", GTECH + "; the matcher's answer is a free parameter", "returned value for matchings covering every boundary node in both orders, pairs of crossings, ignored pairs, both values",
    "Exact per size for the enumerated matchings, which cover every boundary node and the parity rule; " + GRID, DA, 2000,
)
P(
    "D04", "The matching problem asks for the most likely error",
    "For every set of hits the graph handed to the matcher is complete on the hits and the boundary nodes, has an even number of nodes, joins an extra node only to boundary nodes, requests a perfect matching, and weighs a pair with minus the length of the shortest error chain (corrected by the degeneracy term if an error rate is given); boundary pairs are free. "
    "The integer weights passed on keep the order and proportion of these lengths.",
    ["inputs", "configurations"], "all hit sets, all decoder types, sizes, rounds and error rates below one half",
    "Tests only see the final value for one or two hits; a wrong weight or missing edge matters only when two matchings compete.",
    DECF, [("_make_error_graph, _run_mwpm", FIT + "lattice_decoder.py")],
    "p_dec:d04", GTECH, "nodes, edges, weights and matcher arguments of each matching problem against shortest paths and path counts computed here on the decided syndrome graph",
    "Exact per size for hit sets of one to five hits spread over the lattice; " + GRID, DA, 8000,
)
P(
    "D05", "Degeneracy counts every shortest error chain, wherever the nodes stand",
    "With an error rate, the weight of a pair depends only on the pair: it counts all shortest error chains between two hits, and for a boundary the chains to all equally near boundary nodes, whatever the numbering of the nodes, the order of the hits, and the other hits decoded before.",
    ["inputs", "configurations"], "all pairs of hits and boundary nodes in any order, all decoder types and sizes",
    "The suite never checks a weight; a node with index zero was treated specially until repaired here.",
    DECF, [("_path_degeneracy, _path_degeneracy_helper", FIT + "lattice_decoder.py")],
    "p_dec:d05", GTECH, "weight of every pair in three orders of the hits against independently counted shortest paths", "Exact per size for all pairs of up to 8 (thorough 24) hits and all boundary nodes; " + GRID, DA, 1500,
)
P(
    "D06", "Decoder and code agree on every readout string",
    "The decoder parses every readout string of a code it decodes, with a logical or lattice readout, exactly as the code itself does; every hit that can be reported for T+1 measured rounds (T with a lattice readout) is a node of the decoder's graph for T; decoding a string gives the same matching problem and value as decoding its parsed value and hits.",
    ["inputs", "configurations"], "every combination of measurement outcomes, all decoder types with each code class they decode, all sizes and rounds, both readout kinds and types",
    "Tests parse a few fixed strings; the decoder always uses its own encoder for parsing, so a divergence for another code class or round count shows only on its strings.",
    DECF + CIRC, [("parse_readout, encoder, correct_readout", FIT + "lattice_decoder.py"), ("parse_readout", CE + "rotated_surface.py")],
    "p_dec:d06", GTECH + "; parsing evaluated on symbolic outcome bits", "values and hits as boolean functions of all outcome bits, compared; reachable hits against graph nodes; string and dictionary calls compared",
    "Exact for all outcomes at once per size and number of rounds; the string form of correct_readout is compared on sample strings; " + GRID, DA, 2000,
)
P(
    "D07", "Look-up decoding returns the likelier value",
    "After tables of counts have been set for both values of a readout type, look-up decoding returns the value under which the readout was relatively more frequent (0 in a tie or if it was never seen), by Bayes' rule, never fails, uses only the table of that readout type, and uses only the tables set last or since the last reset.",
    ["inputs", "histories"], "all tables, unseen readouts, equal counts, different numbers of shots, repeated setting and resetting",
    "There is no test of look-up decoding; an unseen readout divided by zero until repaired here.",
    [FIT + "base.py"], [("set_look_up_table, _run_look_up, correct_readout_look_up_table", FIT + "base.py")],
    "p_dec:d07", "abstract interpretation with symbolic tables; the closed form of the answer is evaluated on discriminating tables", "answer and conditional probabilities as closed forms of both symbolic tables, compared with Bayes' rule on ten pairs of tables, three priors and six histories of setting/resetting",
    "The closed form holds for all tables; it is compared with the rule on tables that separate frequencies, counts, ties and missing entries.", [], 800,
)
P(
    "D08", "Matches and matched graph show the same matching",
    "For any matching that the matcher returns, the list of matches and the matched graph contain exactly its pairs except those between two boundary nodes, each once, with the nodes' labels and the weights of the matching graph.",
    ["inputs", "configurations"], "every matching of every matching graph, all decoder types and sizes, with and without degeneracy weights",
    "The matched graph is used in tutorials only and has no test.",
    [FIT + "lattice_decoder.py"], [("_run_mwpm, _run_mwpm_graph", FIT + "lattice_decoder.py")],
    "p_dec:d08", GTECH + "; the matcher's answer is a free parameter", "pairs, node labels and weights of both results for four kinds of matching per hit set", "Exact per size for the enumerated matchings; " + GRID, DA, 1500,
)
P(
    "D09", "Errors below half the code distance are corrected",
    "For every code size, fewer than half a code distance of data errors and wrong syndrome outcomes, anywhere and in any round, are corrected by every optimal matching of the decoder's matching problem: the returned value is the one without errors. "
    "The code distance is the height for Z and the width for X readouts, and the decoder's two boundaries are that far apart.",
    ["inputs", "configurations"], "all positions and times of up to (d-1)/2 errors, all decoder types with each code class they decode, with degeneracy weights for single errors",
    "Tests insert single errors at d=3 and 5 for one readout; pairs of errors, X readouts with rectangular codes and ties between matchings are not sampled.",
    DECF + CIRC, [("LatticeDecoder.correct_readout", FIT + "lattice_decoder.py"), ("syndrome graph and boundaries", FIT + "rotated_surface.py")],
    "p_dec:d09", GTECH + "; all optimal perfect matchings enumerated by dynamic programming on the evaluated matching graph", "per error set: hits from the commutation of the errors with the measured checks, all optimal parities, decoded value for each",
    "Complete for weight one up to 5x5 and for all weights of 3xn codes and repetition codes to distance 7; weight two of 5x5 sampled in quick, complete in thorough.", DA, 2000,
)
P(
    "D10", "Decoders are independent of each other",
    "Building a decoder of any type and size, also from the same parameter dictionary (which a decoder may complete), setting or resetting its look-up tables, and decoding with it never changes the syndrome graphs, node maps, virtual nodes, parameters or look-up tables of another decoder. "
    "A decoder built next to others is exactly what it is when built on its own, and equal parameters give equal decoders.",
    ["inputs", "histories"], "all pairs of decoder types and sizes, separate and shared parameters, all public operations",
    "Tests build one decoder per class, so state that is kept on a class or shared between instances is never seen by a second decoder.",
    DECF, [("__init__, _make_syndrome_graph, set_look_up_table, reset_look_up_table", FIT + "base.py, lattice_decoder.py")],
    "p_dec:d10", GTECH + "; alias and mutation analysis", "every readable part of one decoder before and after each operation on another; each part of the other compared with a decoder built alone",
    "Exact on the symbolic summaries for all pairs of types; sizes and rounds of the two decoders differ; shared parameter dictionaries included.", DA, 60,
)

BE = "qtcodes/tools/benchmarking.py"
BTECH = "abstract interpretation of the benchmark classes to effect summaries; simulator, decoder, files, worker pool and plotting are replaced by models on which the effects are carried out"
BA = ["simulator, decoder, numpy, file system, worker pool and matplotlib behave as modelled (a table of counts per noise level, an arbitrary decoder, a table of files, ...)"]

P(
    "B01", "The logical error rate counts exactly the wrongly decoded shots",
    "For any table of counts, the logical error rate is the number of shots whose decoded Z readout differs from the benchmark's correct logical value divided by the number of shots; every string is decoded by the benchmark's decoder with the given error probability, none by default, and nothing else happens.",
    ["inputs", "configurations"], "all tables of counts, both correct values, with, without and with zero error probability",
    "There is no test of the benchmark; weighting by shots rather than strings shows only with unequal counts.",
    [BE], [("TopologicalBenchmark.logical_error_rate", BE)],
    "p_bench:b01", BTECH, "the closed form of the rate, evaluated on tables with equal, unequal and single entries, with a decoder whose answer depends on the string and the error probability",
    "The closed form (a sum over the table) holds for all tables; it is compared with the definition on discriminating tables.", BA, 55,
)
P(
    "B02", "A sweep measures each requested error rate with its own noise",
    "A sweep runs the benchmarked circuit, unoptimised and with the requested shots, once per requested error rate under the noise model of exactly that rate, decodes with that rate as degeneracy weight (or none if switched off), and ends with the rates in ascending order, each paired with its own logical error rate. "
    "Earlier sweeps leave no trace, the caller's list is unchanged, and a single point gives the value a sweep records.",
    ["inputs", "configurations", "histories"], "every list of rates (unordered, repeated, empty, default), degeneracy weight on and off, saving on and off, repeated sweeps",
    "There is no test of the benchmark; a mispairing of rates shows only when the rates are not given in one particular order.",
    [BE], [("TopologicalBenchmark.sweep, single", BE)],
    "p_bench:b02", BTECH, "per list of rates and option: simulated jobs (circuit, noise, optimisation level, shots), decoder queries, stored rates against the definition",
    "The loop is summarised for all lists; the summary is evaluated on lists of zero to three rates in all orders that the sorting can confuse.", BA, 380,
)
P(
    "B03", "No measured data point is lost or overwritten",
    "Saving a point adds exactly that point to the data file of this code size and number of rounds, keeping all earlier points, ordered and paired; different sizes or rounds never share a file, other files are left alone, and a file that exists but cannot be read is not overwritten. "
    "Loading a file returns the size, rounds and points that were saved.",
    ["inputs", "histories", "crash_points"], "all earlier contents, missing, unreadable and incomplete files, all sizes and rounds",
    "There is no test of the benchmark; a failure to read the file is a matter of what happened before.",
    [BE], [("append_data", BE), ("TopologicalAnalysis.load_data", BE)],
    "p_bench:b03", BTECH, "file contents after saving to missing, shorter, longer, unreadable and incomplete files; file names pairwise; loading after saving",
    "Evaluated on a model file system that records every read and write and raises each kind of failure; interruption in the middle of numpy.savez itself is outside the model.", BA, 60,
)
P(
    "B04", "The parallel sweep gives what the sequential sweep gives",
    "A multi-process sweep runs (everything handed to the workers can be pickled), measures exactly the points of a sequential sweep with the same rates, shots and weights, stores the same data, and saves the same points; worker processes never write the data file, so no points are lost to a race.",
    ["inputs", "schedules"], "every list of rates, every order in which workers finish, saving on and off",
    "There is no test of the parallel sweep (it could not run until repaired here), and a race between writers shows only under load.",
    [BE], [("TopologicalBenchmark.sweep_mp, single", BE)],
    "p_bench:b04", BTECH + "; effect analysis of the worker function", "work items, picklability, writes by workers, stored and saved points against those of a sweep",
    "That workers have no write effect rules out every interleaving; results are compared for each list of rates.", BA, 165,
)
P(
    "B05", "A plot shows the loaded data where it was asked for",
    "Plotting draws one curve of logical over physical error rate (divided by the number of rounds exactly if asked) with the caller's style, on the axes that were passed, else on the figure that was passed, else on a new figure, with logarithmic axes exactly if asked for.",
    ["inputs", "configurations"], "all combinations of figure, axes, log and per-round arguments",
    "There is no test of plotting; axes that were passed were ignored until repaired here.",
    [BE], [("TopologicalAnalysis.plot", BE)],
    "p_bench:b05", BTECH, "plotting calls, their receiver and their data for every combination of arguments", "All 36 combinations of arguments; the data is symbolic in the summary.", BA, 160,
)
P(
    "B06", "A batch comparison shows every data file once, by size",
    "A batch analysis loads every data file of its directory and no other, orders them by increasing code size, and draws each as one curve labelled with its own size and rounds in a logarithmic and a linear comparison, each saved under its own name in that directory.",
    ["inputs"], "any set of data files, in any order the directory is listed",
    "There is no test of the analysis; a wrong order or label depends on the order in which the directory is listed.",
    [BE], [("TopologicalBatchAnalysis", BE)],
    "p_bench:b06", BTECH, "figures, curves, labels and saved names for directories of one to three files listed in different orders", "The loops are summarised for all directories and evaluated on three.", BA, 16,
)
P(
    "E01", "Every reference and call inside the package resolves",
    "Every name, module, member and function that the package and its simulation scripts refer to exists for every class that runs that code, every call of a project function or class fits its parameters, and every exported class implements its whole interface. "
    "No public operation can therefore fail with an unbound name, a missing attribute or a wrong number of arguments, on any path.",
    ["inputs", "configurations"], "all paths of all modules, for every concrete class that inherits them",
    "Tests execute a fraction of the branches: an error path, a rarely used readout or an option that names a missing member fails only when it is reached (extract_final_..._readout_x did, see C06).",
    CIRC + [CE + "circ.py", CE + "qubit_types.py", "qtcodes/fitters/base.py", "qtcodes/fitters/lattice_decoder.py", "qtcodes/fitters/rotated_surface.py", "qtcodes/fitters/repetition.py", BE],
    [("all modules", "qtcodes/, data/")],
    "p_ext:e01", "custom lint over the syntax tree with scope tables and class-hierarchy analysis", "every import, name, self-member, super call, constructor call and call of a project function, per concrete class that runs it",
    "References through unknown objects are outside the rule; classes with outside bases, __getattr__ or setattr are skipped and counted.", ["Python's binding rules", "names imported from outside the package exist"], 400,
)
P(
    "D11", "A drawing shows exactly the given decoder graph and changes nothing",
    "Drawing a decoder graph or a matching graph draws every node once, labelled with its coordinates and placed by column from left to right, by row from top to bottom and, in space, by round, and draws every edge once between its two nodes, labelled with its weight. "
    "Decoders of one round draw in the plane and return the figure and axes that hold the drawing, closing it if it is not to be shown; others show it in space with the given angle of view. Neither the graph nor the decoder is changed.",
    ["inputs", "configurations"], "all decoder types, sizes and rounds; syndrome graphs and matching graphs with real weights, any order of nodes, few or no nodes",
    "There is no test of drawing; a drawing that looks plausible may misplace nodes or pair labels with the wrong edges only for graphs other than the syndrome graph.",
    DECF, [("draw, draw3D", FIT + "lattice_decoder.py")],
    "p_view:d11", "abstract interpretation of the drawing methods to effect summaries, carried out on chosen graphs with recorded plotting calls", "positions, labels and lines of the recorded calls against nodes, edges and weights of the graph; heap and graph effects",
    "The summaries are parametric in the graph; they are evaluated on syndrome graphs, matching graphs in another order with real weights, one node and none.", [GRID, MODEL, "matplotlib and retworkx' mpl_draw draw what they are given"], 1500,
)
P(
    "C19", "Showing a qubit or circuit shows the caller's circuit",
    "Drawing a topological qubit or circuit, or converting it to text, gives exactly the drawing (with every style option passed on) or text of the underlying circuit in its current state, and adds nothing to it.",
    ["inputs", "histories"], "all code types, both views, any options, after any operation",
    "There is no test of either view.",
    CIRC + [CE + "circ.py"], [("draw, __str__", CE + "base.py, " + CE + "circ.py")],
    "p_view:c19", "abstract interpretation to value and effect summaries", "the view's value is the circuit's own drawing or text with the same options; the effects contain no gate, register or heap change",
    "Exact: the options are arbitrary symbols.", A, 30,
)
P(
    "C20", "A topological circuit keeps one register per requested name",
    "Adding a classical or quantum register to a topological circuit adds exactly one register of that kind, size and name and makes it available under that name, next to those added before. "
    "Asking again for a name that is taken adds nothing and keeps the register that is there. Two topological circuits share no such registers, and a logical CNOT neither replaces nor uses the registers a user added.",
    ["inputs", "histories"], "both kinds, any sizes and names, any order of additions and CNOTs",
    "No test adds a register.",
    [CE + "circ.py"], [("add_creg, add_qreg, cx", CE + "circ.py")],
    "p_reg:c20", "abstract interpretation to effect summaries", "register creations of each addition in a history (kind, size, name), the circuit's table of registers before and after, operations of a CNOT afterwards",
    "Exact on the listed histories; names and sizes are not inspected by the code beyond being looked up.", A, 60,
)
N(
    "N01", "Larger codes have lower logical error rates below threshold",
    "Below its threshold error rate, a code of larger distance sampled under the same noise has a lower logical error rate than a smaller one.",
    ["inputs"], "all error rates below threshold, all code types and sizes",
    "The tests inject single errors; the guarantee is statistical.",
    [BE, FIT + "lattice_decoder.py"], [("simulate_readouts, single", BE)],
    "The rate is the outcome of sampling an external simulator under a noise model chosen by the caller; the source does not determine it. What the source contributes (distance, detection, matching weights, exact counting) is claimed as D02, D04, D05, D09 and B01.",
)
N(
    "N02", "The matching has the largest total weight",
    "Among all matchings with the most pairs, the one used for a correction has the least total distance.",
    ["inputs"], "all syndrome strings",
    "The tests look at a handful of strings.",
    [FIT + "lattice_decoder.py"], [("_run_mwpm", FIT + "lattice_decoder.py")],
    "Optimality is a property of retworkx' compiled matcher, whose source is not part of the repository. That it is called on the right graph, with the right weights, for a maximum cardinality matching, and that its answer is read correctly, is claimed as D04, D05 and D08.",
)
N(
    "N03", "Decoding time grows polynomially with the size of the code",
    "The time to decode a readout grows polynomially with the size of the code and the number of rounds.",
    ["inputs"], "all sizes",
    "The tests use sizes 3 and 5.",
    [FIT + "base.py", FIT + "lattice_decoder.py"], [("_make_syndrome_graph, _make_error_graph", FIT)],
    "Running time depends on external libraries and on the interpreter; a static bound on the number of iterations of the Python code would say little about it.",
)
