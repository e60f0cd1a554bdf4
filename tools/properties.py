"""Source of properties.jsonl and MANIFEST.json (python3 tools/properties.py writes both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], na=na, state=state or []))


EV = "netomaton/evolution.py"
ST = "netomaton/state.py"
NW = "netomaton/topology/networks.py"
AD = "netomaton/topology/adjacency.py"
AR = "netomaton/rules/activity_rule.py"

prop("C01", "Every node is updated exactly once per step, synchronously",
     "At every timestep the activity rule is invoked exactly once for every node of the network, and each node's new "
     "activity is the rule's result on the activities of the previous timestep only, never on activities computed in the "
     "same timestep. The context given to the rule holds the node's label, the timestep, the previous activities of all "
     "nodes, and the node's in-neighbours with their previous activities and incoming edge attributes, aligned with each "
     "other (in the order of the rotation system, if the network has one).",
     ["inputs", "programs", "configurations"],
     "every directed (multi)graph, labelling, initial condition, rule and rotation system",
     "Tests run a few fixed networks with a few fixed rules; a leak of same-step activities or a misaligned neighbour list "
     "shows only on particular graphs, orders and rules.",
     [EV, ST], [("evolve/do_activity_rule", EV), ("Network.in_edges", ST)], ["evolve", "NodeContext"])
prop("C02", "The update orders follow their equations",
     "With ACTIVITIES_FIRST, S(t+1)=G(A(t),S(t)) and A(t+1)=F(A(t),S(t+1)); with TOPOLOGY_FIRST, A(t+1)=F(A(t),S(t)) and "
     "S(t+1)=G(A(t+1),S(t)); with SYNCHRONOUS, A(t+1)=F(A(t),S(t)) and S(t+1)=G(A(t),S(t)). The topology rule is called "
     "exactly once per timestep with the timestep and the network and activities these equations name, the recorded "
     "network and activities of each state are A(t) and S(t), and the caller's network is not modified by the evolution "
     "while networks are copied.",
     ["programs", "inputs", "configurations"],
     "every initial network and state, every topology rule (edge and weight changes depending on activities) and activity rule",
     "Tests exercise two of the three orders on a few example models; the third has none.",
     [EV], [("evolve", EV), ("evolve_topology", EV)], ["evolve"])
prop("C03", "The run length and the inputs follow timesteps and input",
     "With timesteps=T the trajectory has exactly T states (the first being the initial one) and rules see t=1..T-1 with no "
     "input; with an input list of length L it has L+1 states, and at time t node i receives item i of the (t-1)-th input "
     "when that is a sequence and the item itself when it is a scalar. An input function is asked for every t=1,2,... with "
     "the current activities and network, its result is delivered the same way, the evolution ends as soon as it returns "
     "None, and input takes precedence over timesteps.",
     ["inputs", "histories"],
     "every number of timesteps, input list or input function and initial state",
     "Tests use fixed lengths; end conditions depend on the whole input history.",
     [EV], [("_TimestepInputFunction, _ListInputFunction", EV), ("evolve", EV)], ["evolve"])
prop("C04", "Perturbations replace exactly the computed activity",
     "When a perturbation is given it is called exactly once per node and timestep after the activity rule, with that "
     "node's label, its newly computed activity, the timestep and its input, and its return value is what the state records "
     "and what later timesteps compute from; it never affects what other nodes compute in the same timestep nor the initial "
     "state.",
     ["programs", "inputs"],
     "every perturbation function, rule, small graph, initial state, input and memoization setting",
     "Tests apply one or two fixed perturbations to one node.",
     [EV], [("do_activity_rule", EV)], ["evolve", "PerturbationContext"])
prop("C05", "Past activities are the activities of the right earlier timesteps",
     "With past_conditions of length k, at time t the rule sees k past activity maps such that index -1 is the activities "
     "one step before the previous activities (time t-2), index -2 the ones before that, and so on, taking past_conditions "
     "(last entry most recent) for times before the initial one; without past_conditions there are none. This does not "
     "depend on whether activities or networks are persisted or compressed.",
     ["inputs", "configurations", "histories"],
     "every past window up to the bound, every initial state, rule and number of steps",
     "Tests use windows of length 1 with one rule.",
     [EV], [("_get_past_activities", EV)], ["NodeContext.past_activity_of"])
prop("C06", "Memoization never changes the result",
     "For every rule that is a function of its memoization key (the ordered neighbourhood activities on a network with a "
     "rotation system, the multiset of neighbourhood activities otherwise, or the user's key), evolving with memoize=True "
     "gives exactly the same trajectory as without, and the rule is invoked at most once per distinct key.",
     ["programs", "inputs"],
     "every such rule, every initial state and graph within the bounds",
     "Tests compare a few rules on a few initial states.",
     [EV], [("_get_memoized, MemoizationKey", EV)], ["evolve"])
prop("C07", "Persistence and compression do not change the recorded evolution",
     "Compressing the recorded states never changes the activities and networks read back from them, and leaving "
     "activities or networks unpersisted leaves the other part of every state unchanged; the rules see the same values "
     "under every combination of these settings, and a state whose part is not persisted reports None for it.",
     ["configurations", "inputs", "programs"],
     "every combination of persist_activities, persist_network, compression, copy_network; every state and rule within bounds",
     "Tests cover single combinations on one system.",
     [EV, ST], [("State", ST), ("evolve", EV)], ["State.activities", "State.network"])
prop("C08", "Nodes added and removed by rules are applied exactly",
     "When activity rules add or remove nodes (with the default update order), the next network is the previous one minus all removed nodes and their edges "
     "plus the added nodes with exactly the given outgoing edges, the next state holds the updated activity of every "
     "surviving node and the given state of every added node and nothing else, and in the next timestep every node of the "
     "new network is evaluated with the neighbourhood the new network defines.",
     ["programs", "histories", "inputs"],
     "every choice of nodes each rule invocation removes or adds, over several timesteps, on every small graph",
     "Tests exercise this only through the substitution-system examples.",
     [EV, ST], [("do_activity_rule, evolve_topology", EV), ("Network.remove_node", ST)], ["NodeContext.add_node",
                                                                                         "NodeContext.remove_node"])
prop("C09", "Evolution does not modify its inputs or earlier states",
     "Evolving never modifies the given initial conditions, past conditions, input list or network, and once a state has "
     "been recorded no later timestep changes its activities or its network, as long as the network is copied and the rules "
     "do not themselves modify what they are given. The first state of the trajectory holds the initial conditions.",
     ["inputs", "programs", "configurations"],
     "every small graph, state, rule, topology rule that edits the network it is given, and settings",
     "No test compares the inputs or the earlier states before and after.",
     [EV, ST], [("evolve", EV), ("evolve_topology copy", EV)], ["evolve"])
prop("C10", "A network always equals the sequence of operations applied to it",
     "After any sequence of adding and removing nodes and edges, the nodes, edges with multiplicity and attributes, "
     "in-edges, edge lookups and existence tests of the network are those of the directed multigraph the operations define; "
     "removing an edge removes all its parallel copies, removing a node removes all its incident edges, including "
     "self-loops. In-degree, out-degree and degree equal the numbers of incident edges with multiplicity.",
     ["histories", "inputs"],
     "every sequence of operations up to the bound over arbitrary node labels",
     "Tests run short hand-written sequences; bookkeeping errors need particular combinations (parallel edges, self-loops, "
     "remove after re-add).",
     [ST], [("Network", ST)], ["Network.edges", "Network.degree"])
prop("C11", "Edge and node attributes are kept per edge and per node",
     "Every edge instance carries exactly the attributes it was given; updating a connection changes exactly the addressed "
     "parallel edges (all, or those at the given indices) and only the given attributes; updating or looking up a missing "
     "edge fails. Attributes given when a node is added again are merged into it without losing its edges.",
     ["histories", "inputs"],
     "every sequence of attribute operations up to the bound, arbitrary labels and values",
     "Tests update one or two edges in small networks.",
     [ST], [("add_edge, update_edge, add_node", ST)], ["Network.edge", "Network.in_edges"])
prop("C12", "Copies and compression reproduce the network and are independent of it",
     "Copying a network, or compressing and decompressing it, gives a network equal to the original in nodes (and their "
     "order), node attributes, edges, edge attributes, degrees and further behaviour under edits, and later changes to "
     "either never show in the other; equality holds exactly for networks with the same nodes, attributes, edges; a network equals nothing else.",
     ["histories", "inputs"],
     "every network built by operations up to the bound, followed by arbitrary edits",
     "Tests copy a few fixed networks.",
     [ST], [("Network.copy/compress/decompress", ST)], ["Network.copy", "Network.__eq__"])
prop("C13", "Adjacency matrices and networks describe the same graph",
     "Building a network from an n x n matrix gives n nodes 0..n-1 and exactly one edge i to j with weight M[i][j] for each "
     "non-zero entry, and converting it back in the order 0..n-1 gives the same matrix. Converting any network gives in row i, column j the sum "
     "of the weights (1 if absent) of the parallel edges, or one weight if not summing, in the given node order.",
     ["inputs", "configurations"],
     "every matrix of numbers up to the bound, every multigraph, node order and weight attribute",
     "Tests convert a few fixed matrices.",
     [ST, NW], [("from_adjacency_matrix", NW), ("to_adjacency_matrix", ST)], ["Network.to_adjacency_matrix"])
prop("C14", "NetworkX conversion is lossless both ways",
     "Converting a network to NetworkX gives a directed multigraph with the same nodes, node attributes and edges with "
     "multiplicity and attributes, and converting that back gives a network equal to the original; a network made from "
     "a directed NetworkX graph has the graph's nodes, edges and attributes.",
     ["inputs"], "every small multigraph with attributes",
     "Tests convert a few fixed graphs.",
     [ST], [("to_networkx/from_networkx", ST)], ["Network.to_networkx", "Network.from_networkx"])
prop("C15", "1D automaton networks are rings with ordered neighbourhoods",
     "The n-cell ring of radius r (2r+1<=n) connects every cell to exactly the cells at ring distance at most r, itself "
     "included, with weight 1, and its rotation system lists, for every cell, the neighbours from r to the left through the "
     "cell itself to r to the right, wrapping around at the ends. For larger radii the matrix and the network made without "
     "ordered neighbourhoods still connect exactly the cells at ring distance at most r.",
     ["configurations", "inputs"], "every n and r within the bounds; every cell",
     "Tests check n=5.",
     [AD, NW], [("cellular_automaton", AD), ("_shift_to_center", NW)], ["topology.cellular_automaton"])
prop("C16", "2D automaton networks are tori with the stated neighbourhoods",
     "On a rows x cols torus (each side at least 2r+1) every cell is connected with weight 1 to exactly the cells "
     "of its Moore (Chebyshev distance at most r) or von Neumann (Manhattan distance at most r) neighbourhood, itself "
     "included, or for r=1 and an even number of rows to its six hexagonal neighbours in the offset-row layout and itself; the connection is symmetric. "
     "The rotation system of every cell lists each neighbour exactly once.",
     ["configurations", "inputs"], "every grid size and radius within bounds, every cell",
     "Tests check 3x3 and a few sizes.",
     [AD, NW], [("cellular_automaton2d", AD)], ["topology.cellular_automaton2d"])
prop("C17", "The other network builders produce the graphs they name",
     "complete(n) has an edge in both directions between every two distinct nodes and no others; bipartite connects every "
     "node of the first set with every node of the second in both directions with the given attributes and nothing else; "
     "disconnected has exactly the given nodes and no edges; lattice connects exactly the grid neighbours in both directions "
     "(wrapping if periodic) with consecutive labels from first_label; a Watts-Strogatz network has, whatever is drawn, n nodes "
     "and as many edges as the ring lattice with k neighbours, each in both directions, no self-loops, no parallel edges and no "
     "more edges rewired than draws fell below p; it is the ring lattice for p=0, the complete graph for k=n, and the same network for "
     "the same seed.",
     ["configurations", "inputs"], "every size, label set and attribute value within the bounds",
     "Tests check one or two sizes each.",
     [NW], [("complete, bipartite, disconnected, lattice, watts_strogatz_graph", NW)], ["topology"])
prop("C18", "Elementary rule numbers are decoded correctly",
     "For a rule number of at most 2^n bits and a neighbourhood of n 0/1 activities that read s as a binary number, the NKS "
     "rule returns bit s (least significant first) of the rule number, and the default scheme returns its s-th most "
     "significant bit, the rule number being written with 2^n bits. bits_to_int and int_to_bits are inverse to each other "
     "and agree with binary notation.",
     ["inputs"], "every rule number and neighbourhood for each neighbourhood size within the bounds",
     "Tests sample rule numbers; there are 2^32 five-cell rules.",
     [AR], [("binary_ca_rule, bits_to_int, int_to_bits", AR)], ["rules.binary_ca_rule", "rules.nks_ca_rule"])
prop("C19", "Totalistic rules depend on the neighbourhood sum as encoded",
     "The totalistic rule of k colours returns, for a neighbourhood of n cells with sum s, the s-th base-k digit (least "
     "significant first) of the rule number, so it depends on the sum only; rule numbers with more than n(k-1)+1 digits "
     "are rejected.",
     ["inputs"], "every rule number, neighbourhood and number of colours (2..36) within the bounds",
     "Tests sample rule numbers.",
     [AR], [("totalistic_ca", AR)], ["rules.totalistic_ca"])
prop("C20", "Game of Life and Wireworld follow their rules",
     "A live Game of Life cell survives exactly with two or three live neighbours and a dead one becomes live exactly with "
     "three, for any neighbourhood; a Wireworld cell maps empty to empty, head to tail, tail to conductor, and conductor to "
     "head exactly if one or two neighbours are heads. Evolving a torus applies this to every cell.",
     ["inputs"], "every neighbourhood, and every state of a small torus",
     "Tests run a few patterns.",
     [AR], [("game_of_life_rule, wireworld_rule", AR)], ["rules.game_of_life_rule", "rules.wireworld_rule"])
prop("C21", "The majority rule returns a most frequent state",
     "The majority rule returns the unique most frequent state of the neighbourhood if there is one, and otherwise one of "
     "the most frequent ones chosen at random, each of them being possible.",
     ["inputs", "schedules"], "every neighbourhood within the bounds, every outcome of the random choice",
     "Tests check unique modes only.",
     [AR], [("majority_rule", AR)], ["rules.majority_rule"])
prop("C22", "Random rule tables are complete and respect their constraints",
     "A random rule table has exactly one entry for each of the k^(2r+1) neighbourhoods, with values among the k states; "
     "the reported lambda is the fraction of entries not mapping to the quiescent state; strong quiescence maps every "
     "uniform neighbourhood to its state, and isotropic tables map mirror-image neighbourhoods alike; each other entry is "
     "quiescent exactly when its random draw is below 1-lambda. The table rule returns the entry for the neighbourhood and "
     "rejects unknown ones.",
     ["inputs", "schedules", "configurations"], "every outcome of the random draws, every lambda and quiescent state",
     "Tests check one seed.",
     ["netomaton/rule_tables.py"], [("random_rule_table, table_rule", "netomaton/rule_tables.py")],
     ["random_rule_table", "table_rule"])
prop("C23", "Table walk-through moves lambda towards its target and keeps constraints",
     "A table walk-through only changes entries from quiescent to other states when lambda must rise, or to quiescent when "
     "it must fall, keeps the table complete, stops as soon as the target is reached or crossed or nothing can be changed, "
     "keeps isotropy and strong quiescence of a table that has them, and reports the lambda of the table it returns.",
     ["inputs", "schedules"], "every starting table and outcome of the random choices within the bounds",
     "Tests check one seed.",
     ["netomaton/rule_tables.py"], [("table_walk_through", "netomaton/rule_tables.py")], ["table_walk_through"])
prop("C24", "Reversible rules can be run backwards",
     "For any binary rule, the reversible version's new activity is the rule's result XOR the node's activity two steps "
     "ago; evolving forward and then evolving again from the last two states in reverse order reproduces the original "
     "evolution backwards.",
     ["programs", "inputs"], "every binary rule and initial pair of states on small rings",
     "Tests run two rules forward only.",
     ["netomaton/reversible_rule.py", EV], [("ReversibleRule", "netomaton/reversible_rule.py")], ["ReversibleRule"])
prop("C25", "Asynchronous rules update one node per step in the given order",
     "An asynchronous rule updates, at each timestep, exactly one node: the t-th of the update order (in which a node may be more than once), cyclically, with the "
     "wrapped rule's result, all others keeping their activity; nodes outside the order never change. With n given, "
     "every cycle updates every node exactly once; when the order is re-randomized, each step updates exactly one of its nodes.",
     ["schedules", "inputs", "programs"], "every update order, shuffle outcome, graph size, wrapped rule and initial state",
     "Tests run one order and one seed.",
     ["netomaton/asynchronous_rule.py"], [("AsynchronousRule", "netomaton/asynchronous_rule.py")], ["AsynchronousRule"])
prop("C26", "CTRBL rules read centre, top, right, bottom, left on the torus",
     "Every cell's new state is the rule table's entry for (centre, top, right, bottom, left) of the cell on the torus; with "
     "add_rotations a table also applies to every quarter-turn of its entries, and looking up an undefined neighbourhood "
     "fails. Two neighbourhood containers are equal exactly when all five labels are.",
     ["inputs", "configurations"], "every grid size within the bounds, every table and state",
     "Tests run fixed loops and tables.",
     ["netomaton/ctrbl_rule.py"], [("CTRBLRule", "netomaton/ctrbl_rule.py")], ["CTRBLRule"])
prop("C27", "Langton's loop uses the published rule table",
     "The self-reproducing loop's table consists of every published transition (centre, top, right, bottom, left to image) "
     "and all its quarter-turns with the same image, and the initial loops are placed as published "
     "at every requested position.",
     ["inputs"], "every neighbourhood of the eight states; every placement within bounds",
     "The tests' reference file is missing from the repository, so those tests fail.",
     ["netomaton/langtons_loop.py", "netomaton/ctrbl_rule.py"], [("LangtonsLoop", "netomaton/langtons_loop.py")],
     ["LangtonsLoop"])
prop("C28", "Sandpile topples four grains to four neighbours",
     "Every step, each cell with at least four grains loses four and gives one to each of its four torus neighbours, all "
     "cells simultaneously, so that with open boundaries the number of grains is conserved; with closed boundaries the cells "
     "on the edge of the grid are always empty after a step and absorb what falls on them.",
     ["inputs"], "every grid size within the bounds and every number of grains in every cell",
     "Tests run one seeded grid.",
     ["netomaton/sandpile.py"], [("Sandpile", "netomaton/sandpile.py")], ["Sandpile"])
prop("C29", "The tape-centric Turing machine follows its rule table",
     "At each step only the cell under the head changes, to the symbol the rule table gives for the head's state and that "
     "cell's symbol, the head takes the given state and moves one cell left, right or stays, wrapping around the tape, and "
     "the reported head activities show the head's state at its position at every timestep; a missing rule is an error.",
     ["programs", "inputs"], "every rule table, tape, initial head state and position within the bounds",
     "Tests run three machines.",
     ["netomaton/turing_machine.py"], [("TapeCentricTuringMachine", "netomaton/turing_machine.py")],
     ["TapeCentricTuringMachine"])
prop("C30", "The head-centric Turing machine follows its rule table and halts",
     "The machine performs the same steps as the rule table defines, recording the head's state and position as the "
     "activity and one tape per step, halts right after entering the terminating state or when the number of recorded tapes "
     "reaches the maximum, and reports for plotting the tape and the head at every step.",
     ["programs", "inputs", "histories"], "every rule table, tape, start, terminating state and maximum within the bounds",
     "Tests run three machines.",
     ["netomaton/turing_machine.py", EV], [("HeadCentricTuringMachine", "netomaton/turing_machine.py")],
     ["HeadCentricTuringMachine"])
prop("C31", "Substitution systems rewrite every symbol in parallel",
     "At every step the string becomes the concatenation, left to right, of the replacements of every window of the rules' "
     "neighbourhood size (every symbol, for size one), constants being kept; the number of nodes is the length of the new "
     "string and nodes remain in reading order, and padding and string conversion report these strings. The rules given are not changed.",
     ["programs", "inputs", "histories"], "every rule map and axiom within the bounds, several steps",
     "Tests run a few published systems.",
     ["netomaton/substitution_system.py", EV], [("SubstitutionSystem", "netomaton/substitution_system.py")],
     ["SubstitutionSystem"])
prop("C32", "The turtle follows its geometry",
     "Moving forward by d from (x,y) with orientation a leads to (x+d*sin(a), y+d*cos(a)) and records that segment, rotating "
     "adds degrees, push and pop save and restore position and orientation as a stack, and rendering an L-system state "
     "executes the bound instructions of its symbols in order.",
     ["histories", "inputs"], "every sequence of operations within the bounds with arbitrary real distances and angles",
     "Tests check a few fixed drawings.",
     ["netomaton/turtle.py", "netomaton/utils.py"], [("Turtle", "netomaton/turtle.py"), ("_render_L_system", "netomaton/utils.py")],
     ["Turtle"])
prop("C33", "A hypergraph configuration survives its representation as a network",
     "Any list of unary, binary and higher relations over positive integers turned into a network and read back gives the "
     "same list in the same order, with repeated relations and repeated nodes, and the last node is the largest label.",
     ["inputs"], "every configuration within the bounds",
     "Tests convert fixed configurations with fewer than ten relations.",
     ["netomaton/wolfram_physics_model.py"], [("network_to_config", "netomaton/wolfram_physics_model.py")],
     ["WolframPhysicsModel"])
prop("C34", "Hypergraph rewriting replaces non-overlapping matches",
     "Each step replaces disjoint groups of relations that match the rule's left side under a consistent binding of symbols "
     "to nodes by the right side under the same binding, new symbols becoming node labels that occur nowhere in the "
     "configuration, until a scan (which binds the patterns one after the other to the first remaining relation that fits) "
     "finds no complete match; all other relations are kept.",
     ["inputs", "programs"], "every configuration and rule within the bounds, one and several steps",
     "Tests run a few published rules.",
     ["netomaton/wolfram_physics_model.py"], [("topology_rule, _matches", "netomaton/wolfram_physics_model.py")],
     ["WolframPhysicsModel"])
prop("C35", "Fungal growth grows only legal links and accounts for every resource",
     "In every step links only appear between lattice neighbours, never in both directions and never between two dead "
     "agents; existing links stay, two living neighbours always get a link, and for the others a random draw below "
     "1/(4 - number of links of the living agent) is what creates it. Every agent with outgoing links shares its resource "
     "equally among them (out-weights sum to one); an agent's new resource is what its incoming links carry (or what it "
     "had, if there are none) plus the absorption rate if it lives on the resource layer, so total resource changes by "
     "exactly that. A given seed, zero included, seeds the generator.",
     ["schedules", "inputs"], "every outcome of the random draws, every initial resource and resource layer within the bounds",
     "Tests run two seeds.",
     ["netomaton/fungal_growth_model.py"], [("FungalGrowthModel", "netomaton/fungal_growth_model.py")], ["FungalGrowthModel"])
prop("C36", "Hopfield training is Hebbian and recall never increases energy",
     "Training sets every weight to the sum over patterns of the product of the two components, zero on the diagonal "
     "(symmetric); an update of a node sets it to the sign of its weighted input (+1 at zero), so one asynchronous step "
     "never increases the energy, and a single trained pattern is a fixed point.",
     ["inputs", "schedules"], "every pattern set, start state and update order within the bounds",
     "Tests run one pattern set and seed.",
     ["netomaton/hopfield_net.py", "netomaton/asynchronous_rule.py"], [("HopfieldNet", "netomaton/hopfield_net.py")],
     ["HopfieldNet"])
prop("C37", "A permutation matrix is read back as the tour it encodes",
     "The reported distances are the Euclidean distances of every pair of points, once each; for a permutation matrix the "
     "tour visits the points in the encoded order and returns to the start, its length is the sum of these distances, and a "
     "matrix that assigns a position twice is rejected.",
     ["inputs"], "every set of points with real coordinates and every permutation within the bounds",
     "Tests check one tour.",
     ["netomaton/hopfield_tank_tsp_net.py"], [("get_tour_graph, get_distances", "netomaton/hopfield_tank_tsp_net.py")],
     ["HopfieldTankTSPNet"])
prop("C38", "Entropies equal their definitions",
     "The Shannon entropy, joint entropy and mutual information of strings equal their definitions over symbol frequencies: "
     "entropy is between 0 and log2 of the number of distinct symbols and invariant under reordering and renaming, joint "
     "entropy is symmetric, and mutual information is symmetric, non-negative and equal to the entropy for identical strings.",
     ["inputs"], "every string (pair) within the bounds",
     "Tests check fixed strings.",
     ["netomaton/analysis.py"], [("shannon_entropy, joint_shannon_entropy, mutual_information", "netomaton/analysis.py")],
     ["shannon_entropy"])
prop("C39", "Average entropy and mutual information are per-node averages",
     "The average node entropy is the mean over nodes of the entropy of the node's sequence of states, and the average "
     "mutual information the mean of the mutual information of that sequence and itself shifted by the temporal distance, "
     "for activity lists and trajectories alike and whatever the states are; a temporal distance outside 1..timesteps-1 is "
     "rejected.",
     ["inputs", "configurations"], "every activity table within the bounds, states of several digits or signs included",
     "Tests check fixed single-digit tables.",
     ["netomaton/analysis.py"], [("average_node_entropy, average_mutual_information", "netomaton/analysis.py")],
     ["average_node_entropy"])
prop("C40", "Initial condition builders place what they promise",
     "init_simple and init_simple2d return the given number of cells, all zero except the centre cell, which has the given "
     "value; init_random returns the given number of cells with the randomized ones centred and drawn from 0..k-1 in draw "
     "order and all others equal to the empty value, and rejects a number of randomized cells out of range.",
     ["inputs", "schedules"], "every size, value, number of states and random draw within the bounds",
     "Tests check a few sizes.",
     [EV], [("init_simple, init_random, init_simple2d", EV)], ["init_random"])
prop("C41", "Trajectory and number utilities compute what they document",
     "The activities list of a trajectory has one row per state with activities, with nodes in label order; binarizing "
     "gives every number's binary digits left-padded to the longest; ncr is the binomial coefficient (0 when choosing more "
     "than there are) and rejects negative or non-integer arguments.",
     ["inputs"], "every trajectory, list of numbers and pair of numbers within the bounds",
     "Tests check fixed values.",
     ["netomaton/utils.py"], [("get_activities_over_time_as_list, binarize_for_plotting, ncr", "netomaton/utils.py")], ["utils"])
prop("C42", "Exported network views contain every node and edge",
     "The HTML view of a graph lists every node once and every edge with its direction, including parallel edges and "
     "self-loops (each drawn with its own size); the graph of a hypergraph configuration has exactly its nodes and the "
     "consecutive pairs of its relations as edges; lattice positions enumerate the grid in label order.",
     ["inputs"], "every graph and configuration within the bounds",
     "Tests check a few fixed graphs.",
     ["netomaton/vis/vis_utils.py"], [("get_html, configuration_to_nx, lattice_pos", "netomaton/vis/vis_utils.py")], ["vis"])
prop("C43", "Plots and animations of activities show every activity at its place",
     "The plots of activities (of lists of activities or of a trajectory, whose nodes are taken in label order) show one row for every "
     "timestep, in order, or, given a two-dimensional shape, the nodes of the chosen timestep row by row; each with its title, colormap, "
     "range of values and annotations, and several in a figure each. The animations show the timesteps in order, over and over (with a "
     "one-dimensional shape: the rows up to this timestep and zeros below), with the number of the timestep as the title if asked for. "
     "The hexagonal plots draw every node once, rows from top to bottom, with the cells of a row and of adjacent rows touching, in the colour "
     "of its activity within the range of values.",
     ["inputs", "configurations"], "every activity and option within the bounds",
     "Tests do not draw: a transposed, shifted or dropped row changes no test result.",
     ["netomaton/utils.py", "netomaton/hexplot.py"],
     [("plot_activities, plot_grid, plot_grid_multiple, animate_activities", "netomaton/utils.py"), ("plot_hex_grid, animate_hex", "netomaton/hexplot.py")],
     ["plot_activities", "animate_activities", "plot_hex_grid"])
prop("C44", "The Hopfield-Tank net settles into valid short tours",
     "Evolving the Hopfield-Tank network from a small random start settles to a permutation matrix of a short tour.",
     ["inputs", "histories"], "every point set and start",
     "Tests check one start.",
     ["netomaton/hopfield_tank_tsp_net.py"], [("activity_rule", "netomaton/hopfield_tank_tsp_net.py")],
     na="a convergence claim about hundreds of steps of tanh dynamics in floating point: transcendental arithmetic over "
        "unbounded step counts is outside what an SMT solver decides (the decoding of a settled state is C37)")
prop("C45", "Random graphs and states have the stated distributions",
     "Watts-Strogatz graphs, random initial conditions and random rule tables have the distributions their parameters state.",
     ["schedules"], "the random number generator's distribution",
     "Tests fix seeds.",
     [NW, EV], [("watts_strogatz_graph, init_random", NW)],
     na="a statement about probabilities, not about all values: the solver treats each draw as an arbitrary value of its "
        "range, and networkx's own generator is foreign code (the constraints that hold for every draw are C22, C23, C35, C40)")
prop("C46", "A Hopfield-Tank node follows its motion equation",
     "In one step the activity u of the node for point x and position i changes by dt times "
     "-u - A*(outputs of the other positions of x) - B*(outputs of the other points at i) - C*(sum of all outputs - n) - "
     "D*(distance to every other point times its outputs at the cyclically previous and next position), with the output "
     "(1+tanh(u/u_0))/2.",
     ["inputs", "programs"], "every activity and parameter within the bounds",
     "Tests compare one evolution with stored numbers.",
     ["netomaton/hopfield_tank_tsp_net.py"], [("activity_rule", "netomaton/hopfield_tank_tsp_net.py")], ["HopfieldTankTSPNet"])
prop("C47", "Drawing an L-system executes the bound instructions in order",
     "Plotting or animating the state of an L-system executes, for every symbol of its string from left to right, exactly the "
     "instructions bound to that symbol in their order and with their arguments, and then shows the drawing once with the "
     "given options.",
     ["inputs", "programs"], "every string and kind of binding within the bounds",
     "Tests do not draw.",
     ["netomaton/utils.py", "netomaton/substitution_system.py"], [("plot_L_system, animate_L_system", "netomaton/utils.py")], ["plot_L_system"])

prop("C48", "Plots of series show the values they are computed from",
     "plot1D draws every series once against x, with its own label and colour and in order, on one axis or alternately on two, with the "
     "limits (one pair, or one for each axis), labels, legend and title given, and needs two series for two axes; animate_plot1D shows one "
     "timestep after the other; a Poincare plot shows the pairs of successive values of the last timesteps of every trajectory; a "
     "bifurcation plot shows above every x the values of the last timesteps, and only these; a degree distribution plot shows the number "
     "of nodes of every degree from 1 to the largest (or of every in- or out-degree) and the values of the equation given for these degrees.",
     ["inputs", "configurations"], "every series and option within the bounds",
     "Tests do not draw.",
     ["netomaton/utils.py"], [("plot1D, animate_plot1D, poincare_plot, bifurcation_plot, plot_degree_distribution", "netomaton/utils.py")], ["plot1D"])
prop("C49", "Drawings of networks, tours and turtles show all their parts",
     "Drawing a network shows every node and edge in the layout and with the options given, and an unknown layout is an error; an animated "
     "trajectory shows one network after the other, each with the layout, colour and title of its timestep; a tour is drawn with every point "
     "at its position and the points joined in the order of the tour; a turtle's drawing shows every segment, and its animation one more "
     "segment in every frame, all within the limits of the axes; the page of a network is written to the file named and opened unless in a "
     "notebook.",
     ["inputs", "configurations"], "every network, trajectory, tour, drawing and option within the bounds",
     "Tests do not draw.",
     ["netomaton/utils.py", "netomaton/turtle.py", "netomaton/hopfield_tank_tsp_net.py", "netomaton/vis/vis_utils.py"],
     [("plot_network, animate_network", "netomaton/utils.py"), ("Turtle.plot, Turtle.animate", "netomaton/turtle.py"),
      ("plot_tour", "netomaton/hopfield_tank_tsp_net.py"), ("show_network", "netomaton/vis/vis_utils.py")], ["plot_network", "Turtle.plot"])

prop("C50", "Arguments that do not fit are refused",
     "An evolution with an activity rule is refused unless there is one initial condition for every node, whatever container they come in, and no "
     "rule is called before that; without an activity rule none is needed. An update order that is none of the three is refused, and so is a topology "
     "rule that returns no network, in the timestep in which it does. A rotation system that names a node which is not in the network, as a key or "
     "within an ordering, is refused and the previous one stays in force. Reading, changing or removing a node or an edge that does not exist is an "
     "error and leaves the network as it was. A ring of fewer than 3 cells, a grid of fewer than 9, an unknown neighbourhood and an unsupported "
     "boundary are refused.",
     ["inputs", "configurations"], "every network, argument and operation within the bounds",
     "Tests try one unfitting value for some of the arguments.",
     ["netomaton/evolution.py", "netomaton/network.py", "netomaton/topology/networks.py", "netomaton/topology/adjacency.py"],
     [("evolve", "netomaton/evolution.py"), ("rotation_system, update_edge, remove_edge, remove_node", "netomaton/network.py"),
      ("cellular_automaton, cellular_automaton2d", "netomaton/topology/adjacency.py")], ["evolve", "Network", "topology.adjacency"])


TECH = "bounded symbolic execution of the real Python code; every path's assertions decided by the SMT solver z3"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": p["state"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        mod = os.path.join(HERE, "props", p["id"].lower() + ".py")
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(mod):
            src = open(mod).read()
            ns = {}
            for line in ("BOUNDS", "OUTSIDE"):
                if "\n%s = (" % line in src or "\n%s = \"" % line in src:
                    start = src.index("\n%s = " % line) + 1
                    end = src.index("\n\n", start)
                    exec(src[start:end], ns)
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 check.py %s quick" % p["id"],
                "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": TECH, "level": "model_checking",
                "level_note": "Bounded: holds for all values of the symbolic inputs within the bounds: %s Outside: %s "
                              "Trusted: z3, the call-site hooks and stand-ins of sx/ (sampled paths are replayed on the "
                              "unhooked code), real arithmetic for floats." % (ns.get("BOUNDS", ""), ns.get("OUTSIDE", ""))})
        else:
            na.append({"property": p["id"], "reason": "no check built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1,
                   "setup_cmd": "python3 tools/setup_check.py",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: netomaton is imported from /repo's working tree on every run and executed "
                            "symbolically in memory (sx/loader.py). See DESIGN.md."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
