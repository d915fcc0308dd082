"""Writes properties.jsonl and MANIFEST.json from the table below: python3 tools/gen.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVO, STATE, NETS, ADJ, RULES = ("netomaton/evolution.py", "netomaton/state.py", "netomaton/topology/networks.py",
                                "netomaton/topology/adjacency.py", "netomaton/rules/activity_rule.py")

# id, title, statement, over, quantifier, why tests can't, files, mechanism [(name, where)], level note (bounds)
P = [
 ("C01", "Every timestep updates all nodes synchronously from the previous timestep only",
  "At each timestep the activity rule is invoked exactly once for every node, and sees only the activities of the previous timestep, the node's own label, the timestep, and exactly its incoming neighbours with their activities and the attributes of the connections from them. The results become the node's activities of that timestep, all at once, whatever the order in which nodes were added or named.",
  ["inputs", "configurations"], "every network (with self loops and parallel connections), every initial state, every deterministic activity rule, every number of timesteps",
  "Tests run a few fixed automata whose expected trajectories were recorded; they cannot show that no node ever sees a half-updated state or a wrong neighbour on other networks, labels or activity types.",
  [EVO, STATE], [("loop over the nodes building a context from the previous activities", EVO + ": do_activity_rule"), ("list of incoming neighbours", EVO + ": _get_neighbour_labels, _get_neighbourhood_map")],
  "All digraphs with self loops on up to 3 nodes, all multigraphs (up to 2 parallel connections) on 2, all initial states over 2-3 values, plus structured graphs, label kinds and activity types."),
 ("C02", "Activities and topology are updated in the requested order",
  "When there is a topology rule, activities-first evolves the activities on the previous network and lets the topology rule see the new activities; topology-first evolves the network first and lets the activity rule see the new network; synchronous lets both rules see only the previous timestep. Each timestep of the trajectory holds the network and the activities computed at it, and what the topology rule returns (or its in-place edits, when it returns what it was given) is the network that is used next.",
  ["schedules", "inputs", "configurations"], "every update order, network, initial state, activity rule and topology rule (editing in place, a copy, or building anew)",
  "The tests use the default order almost everywhere, on rules for which the orders coincide; the difference shows only when each rule depends on what the other did at the same timestep.",
  [EVO], [("branches on the update order", EVO + ": evolve"), ("application of the topology rule", EVO + ": evolve_topology")],
  "All digraphs on 2 nodes and several shapes on 3 and 5, all states over 2 values, all 3 orders, 4 styles of topology rule; synchronous with in-place edits and copy_network=False is excluded (undefined)."),
 ("C03", "Trajectory length, timestep numbers and input",
  "An evolution has exactly the requested number of states, of which the first is the initial one, and with an input it has one state more than there are items, while an input function is asked once for each timestep, in order, and ends the evolution by returning nothing. Every node receives its own item, or the common item, of exactly the timestep being computed, and a call with neither timesteps nor input, fewer than one timestep, or the wrong number of initial conditions is refused.",
  ["inputs", "configurations"], "every number of timesteps, every length and kind of input, every network and update order",
  "Off-by-one errors at the ends of an input, and items which are false or sequences themselves, are outside the few lengths which the tests use.",
  [EVO], [("input functions made from timesteps and lists", EVO + ": _get_input_function, _ListInputFunction, _TimestepInputFunction"), ("main loop", EVO + ": evolve")],
  "Timesteps 1-11, 25 and 50, all inputs up to length 3 over small alphabets with falsy values and some of 10-64 items, all graphs on 2 nodes; per-node input as list, tuple or range items; items with fewer inputs than nodes."),
 ("C04", "Storage options never change what happens",
  "Turning on compression, turning off the copying of networks, or turning off the persistence of activities or of networks changes neither the activities nor the networks nor what any rule, input function or perturbation is given. What is persisted reads exactly the same as without these options, and what isn't persisted is absent.",
  ["configurations", "inputs"], "every combination of the options and update orders, over systems which cover the other features of an evolution",
  "Tests try single options on single automata; combinations of an option with past conditions, input, node removal and non-trivial activity types are not run.",
  [EVO, STATE], [("storage of states", STATE + ": State"), ("compression", STATE + ": _Compressor"), ("persistence switches", EVO + ": evolve")],
  "All 16 combinations x 3 update orders x all systems of the reference's feature set x all small states. In-place topology edits with copy_network=False share one network by design; there networks are not compared."),
 ("C05", "Evolutions are isolated: no leak through arguments, history or earlier runs",
  "An evolution depends only on its arguments: it leaves the given network, initial conditions, past conditions and inputs unchanged, gives the same result whatever was evolved before it, and the states it returned are never changed afterwards by its rules or by another evolution. Continuing an evolution from any of its states (with the states before it as the past) gives the rest of it.",
  ["histories", "inputs"], "every sequence of evolutions on shared objects, every cutting point",
  "Each test evolves a fresh network once; aliasing shows only when objects are used again, or when a returned state is compared with what a rule saw at the time.",
  [EVO, STATE], [("copy of the network for each timestep", EVO + ": evolve, evolve_topology"), ("fresh memoization table per evolution", EVO + ": evolve")],
  "All sequences of up to 3 evolutions from a set of systems on the same objects; every cutting point of every system."),
 ("C06", "Memoization changes nothing but the number of invocations",
  "With memoization, an evolution whose activity rule depends only on what the memoization key is made of gives exactly the trajectory it gives without. The rule is invoked at most once for each distinct key within an evolution, and nothing is carried over to another evolution.",
  ["inputs", "configurations", "histories"], "every network, state, kind of key (default with and without a rotation system, custom), and activity values which are easily confused",
  "A wrong cache hit needs two different neighbourhoods which collide in the key; the tests' binary automata have none.",
  [EVO], [("memoization keys", EVO + ": _OrderedMemoizationKey, _UnorderedMemoizationKey, MemoizationKey"), ("lookup", EVO + ": _get_memoized")],
  "All graphs on 2-3 nodes, all states over small alphabets and a collection of colliding values, default and all custom keys over subsets of the context."),
 ("C07", "Past activities are exactly the states before, back into the past conditions",
  "A rule which is given past conditions sees, at every timestep, as many past states as were given: the most recent first from the end, the states of the evolution before the previous timestep, preceded by the given past conditions. This holds whether or not the activities are persisted or compressed, and in every update order.",
  ["histories", "inputs", "configurations"], "every length of the past conditions, number of timesteps, network and state",
  "The tests use a window of one or two on one automaton; windows which are longer or shorter than the run are where indexing goes wrong.",
  [EVO], [("window over history and past conditions", EVO + ": _get_past_activities"), ("access by label and index", EVO + ": NodeContext.past_activity_of")],
  "Windows up to 7, runs up to 9 timesteps, all small past and initial states."),
 ("C08", "Perturbations apply once to every new activity, and nothing else",
  "A perturbation is applied exactly once to each node's newly computed activity at each timestep after the first, and is told that node, activity, timestep and input. Its result is the activity of the node in the trajectory and in all that is computed from it, and it never disturbs what memoization remembers.",
  ["inputs", "fault_sequences", "configurations"], "every network, state, perturbation (any node, any timestep, any value) and combination with the other features",
  "The tests perturb one node of one automaton; interplay with memoization, input, node removal and NumPy values is unsampled.",
  [EVO], [("application after the rule", EVO + ": do_activity_rule"), ("context", EVO + ": PerturbationContext")],
  "All small graphs and states with all perturbation tables of the bound (which node, which timestep, which value)."),
 ("C09", "Nodes added and removed by the activity rule",
  "A node which an activity rule removes is, from that timestep on, in neither the activities nor the network, and neither are its connections; an added node is there with exactly the given activity and outgoing connections. This holds for any number of additions and removals by any nodes at one timestep, for networks which die out, and together with topology rules, inputs, past conditions and perturbations.",
  ["histories", "inputs"], "every plan of additions and removals over every network",
  "The tests use substitution systems only, which remove every node at every step in one particular pattern.",
  [EVO], [("deferred additions and removals", EVO + ": NodeContext.add_node, NodeContext.remove_node, evolve_activities")],
  "All plans of up to two acts over the first timesteps on all small graphs, chains of growth and decay; activities-first only (the feature is defined there)."),
 ("C10", "Rotation systems fix the order of each node's neighbours",
  "On a network with a rotation system every rule invocation sees the labels and activities of a node's neighbours in exactly the order which the rotation system gives for it. A rotation system naming a node which the network doesn't have is refused, and the one before it stays.",
  ["inputs", "configurations"], "every network and every order of the neighbours of each node, every option of an evolution",
  "Only the cellular automaton topologies set one in the tests, each with a single fixed order.",
  [STATE, EVO], [("validation", STATE + ": rotation_system"), ("neighbour order", EVO + ": _get_neighbour_labels, evolve")],
  "All orders of the in-neighbours of all digraphs on up to 3 nodes. One known finding: topology rules with copy_network=True lose the rotation system."),
 ("C11", "A network's views always agree",
  "After any sequence of additions, updates and removals of nodes and connections, all that can be asked of a network (its nodes, connections with their attributes, incoming connections, existence, degrees, size, equality) describes the same multigraph, the one which the sequence defines. Two networks are equal exactly when they hold the same nodes and connections with the same attributes, in whichever order these were added between different nodes. Operations on nodes or connections which don't exist are refused and change nothing, and no operation changes another network.",
  ["histories"], "every sequence of operations over a set of labels",
  "The tests exercise single operations; stale counters or leftover connections need a sequence such as remove, add again, remove the node.",
  [STATE], [("redundant in/out maps and degree counters", STATE + ": Network.add_edge, remove_edge, remove_node, _increment_*, _decrement_*")],
  "All operation sequences up to depth 3-5 (4-6 in the thorough tier) over 2-3 labels, every digraph over 3 labels as a starting state; after every sequence equality is asked against the same network built in another order."),
 ("C12", "Copies and compression are exact and independent",
  "A copy of a network, a network which was compressed and decompressed, and what a state gives back of the activities and network it holds, with compression or without, equal the original, with types and order. From then on no operation on one changes the other, and empty activities or networks are not taken for absent ones.",
  ["inputs", "histories"], "every network with every kind of label, attribute and activity, every operation afterwards",
  "The tests compress integer-labelled networks; tuples, nested values, NumPy scalars and empties go unexercised.",
  [STATE], [("serialization", STATE + ": _Compressor, Network.copy, Network.compress, Network.decompress"), ("lazily decompressed fields", STATE + ": State")],
  "Values nested to depth 2 over 12 atoms as labels, attributes and activities; all small graphs; every operation and pair of operations. Values msgpack can't represent are excluded."),
 ("C13", "Conversions to and from NetworkX and adjacency matrices keep everything",
  "Converting a network to NetworkX and back gives an equal network, with all nodes (also unconnected ones), parallel connections and attributes; converting an adjacency matrix to a network and back gives the same matrix. The adjacency matrix of a network has in row i, column j the weight of the connections from i to j, in the requested order of the nodes.",
  ["inputs"], "every multigraph with attributes, every matrix, every order of the nodes",
  "The tests convert a few symmetric matrices, where a transposed result looks the same.",
  [STATE, NETS], [("conversions", STATE + ": from_networkx, to_networkx, to_adjacency_matrix"), ("from a matrix", NETS + ": from_adjacency_matrix")],
  "All digraphs on 3 nodes, multigraphs on 2, all lists of up to 3 parallel connections over five attribute sets (zero weights, equal attributes), all 2x2 matrices over four weights, all 3x3 matrices over 0 and 1, all node orders. The network must come back equal, whichever order the connections were made in. Directed NetworkX graphs only."),
 ("C14", "Cellular automaton topologies have the right neighbourhoods, in order",
  "Every cell of a one- or two-dimensional cellular automaton is connected to exactly the cells within the radius of the chosen neighbourhood (line, Moore, von Neumann, hexagonal), wrapping around when periodic, each once. When ordered, a cell's neighbours are listed by position, itself in the middle; sizes and kinds for which the neighbourhood isn't defined are refused.",
  ["inputs", "configurations"], "every size, radius, kind of neighbourhood, boundary and order",
  "The tests compare a few sizes with recorded matrices; wrapping on the smallest and non-square grids, and greater radii, are not among them.",
  [NETS, ADJ], [("adjacency by offsets", ADJ + ": cellular_automaton, cellular_automaton2d"), ("rotation system by shifting", NETS + ": _shift_to_center")],
  "Lines of 3-15 cells with every radius (up to 39 cells in the thorough tier), grids up to 6x6 (8x8) with radius up to 3. Hexagonal only radius 1 with an even number of rows."),
 ("C15", "Lattices, bipartite, complete, disconnected and small-world networks",
  "A lattice connects exactly the nodes whose coordinates differ by one in one dimension (wrapping when periodic, with itself when asked), in both directions; a bipartite network connects exactly the given pairs with the given attributes; a complete network connects all pairs, and a disconnected one none. A small-world network has the requested number of nodes and connections, is undirected and simple, and is the ring when nothing is rewired.",
  ["inputs", "schedules"], "every dimension, size, option; every answer of the random number generator",
  "The tests pin a few sizes and one random seed.",
  [NETS], [("constructions", NETS + ": lattice, bipartite, complete, disconnected, watts_strogatz_graph")],
  "Lattices up to 3 dimensions (5x5, 4x4x4; 4 dimensions in the thorough tier), every bipartite network on up to 4+4 nodes, all random answers of small-world networks up to the choice bound."),
 ("C16", "Binary cellular automaton rules follow the published numbering",
  "The next state of a cell is the bit of the rule number which its neighbourhood, read as a binary number with the leftmost neighbour first, selects, from the right in the NKS numbering and from the left in the default one. Numbers and their binary digits convert into each other without loss.",
  ["inputs"], "every rule number, neighbourhood size and neighbourhood",
  "The tests run three or four of the 256 elementary rules.",
  [RULES], [("digit lookup", RULES + ": binary_ca_rule, nks_ca_rule, bits_to_int, int_to_bits")],
  "All 256 rules on all neighbourhoods and on all states of rings of 3-6 cells; a basis of the rules of 5 and 7 cells (for 7 also pairs of bits, numbers of up to 128 bits); one rule object on neighbourhoods of different sizes, and all digraphs on 3 nodes."),
 ("C17", "Totalistic rules follow the published numbering",
  "The next state of a cell is the base-k digit of the rule number selected from the right by the sum of its neighbourhood, for any number of colours. A rule number with more digits than there are sums is refused.",
  ["inputs"], "every number of colours, rule number, neighbourhood size and neighbourhood",
  "The tests run two or three codes of three colours.",
  [RULES], [("digits in base k", RULES + ": totalistic_ca")],
  "All codes for 2-3 colours and small neighbourhoods, a basis for up to 36 colours and larger ones; one rule object on neighbourhoods of different sizes, and all digraphs on 3 nodes (also nodes without neighbours)."),
 ("C18", "Game of Life and Wireworld",
  "A Life cell is born with exactly three live neighbours, survives with two or three, and is dead otherwise; a Wireworld cell goes from head to tail, from tail to conductor, from conductor to head with exactly one or two heads around it, and stays empty. On a two-dimensional automaton every state evolves accordingly.",
  ["inputs"], "every neighbourhood and every state of a torus",
  "The tests follow one glider-like start and one wire.",
  [RULES], [("counting of neighbours", RULES + ": game_of_life_rule, wireworld_rule")],
  "All 512 Life neighbourhoods, all Wireworld neighbourhoods up to order, all 3x3 and 3x4 Life tori, all heads/conductors 3x3 tori."),
 ("C19", "The majority rule picks a most frequent state, ties evenly",
  "The next state of a node under the majority rule is a most frequent state of its neighbourhood; when several states are equally frequent each of them, and nothing else, can be chosen, all being equally likely. When only one is most frequent, chance plays no role.",
  ["inputs", "schedules"], "every neighbourhood and every answer of the random number generator",
  "A test which runs the rule once with one seed can't see what other answers would give.",
  [RULES], [("counting and random choice", RULES + ": majority_rule")],
  "All neighbourhoods of up to 6 nodes (7 in the thorough tier) over eleven alphabets (numbers, strings, tuples, equal values of several types, integers beyond 2**53) with all random answers."),
 ("C20", "Rules by position, and Langton's loops",
  "A rule over center, top, right, bottom and left is given the states at exactly those positions of the torus, at every timestep, and follows its table (with all rotations of the entries, when asked), refusing a state which isn't in it, and leaving the given table alone. Langton's loop reproduces itself by the published table wherever it is put.",
  ["inputs", "configurations"], "every size of the torus, table and state",
  "The tests compare one large run; a swapped pair of directions on a symmetric table, or a wrong wrap in one corner, need others.",
  ["netomaton/ctrbl_rule.py", "netomaton/langtons_loop.py"], [("neighbourhood map and rotations", "netomaton/ctrbl_rule.py: CTRBLRule"), ("table and loop", "netomaton/langtons_loop.py: LangtonsLoop")],
  "All tori up to 7x7, all tables of one entry and a basis of two, all states of 3x3 tori for a basis of tables, the loop over several sizes and places."),
 ("C21", "Rule tables: lookup, random generation and walks of lambda",
  "A rule from a table gives the table's image and refuses anything else. A random table contains every neighbourhood once, respects the quiescent state, strong quiescence and isotropy asked for, reports its actual lambda, and can be evolved as a table rule; a walk to another lambda changes images in one direction only and as far as needed, keeps those properties, and reports the lambda of what it returns.",
  ["inputs", "schedules"], "every number of states, radius, lambda, option; every answer of the random number generator",
  "Random tables differ from run to run, so tests check a few aggregate facts with tolerances.",
  ["netomaton/rule_tables.py"], [("generation", "netomaton/rule_tables.py: random_rule_table"), ("walk", "netomaton/rule_tables.py: table_walk_through")],
  "All random answers for 2 states radius 1 and other small tables, extreme answers for larger ones, up to 36 states."),
 ("C22", "Asynchronous rules update one node per timestep in the given order",
  "A rule made asynchronous updates at each timestep exactly the node whose turn it is, by the wrapped rule, cyclically in the given order, and leaves all others as they are, without invoking the wrapped rule for them. A random order contains each node once per cycle, any order being possible; reshuffling uses only the given nodes and never changes the caller's list.",
  ["schedules", "inputs"], "every update order (of all or of some of the nodes), every network, state and answer of the random number generator",
  "The tests use identity-like orders over all the nodes with a fixed seed.",
  ["netomaton/asynchronous_rule.py"], [("turn counter and shuffle", "netomaton/asynchronous_rule.py: AsynchronousRule")],
  "All permutations of all subsets of up to 4 nodes, all orders of 2-4 turns (5 in the thorough tier) which repeat nodes of 2-3, all random answers up to 3-4 nodes."),
 ("C23", "Reversible rules can be run backwards",
  "Under a reversible rule the next state of a node is the exclusive or of what the wrapped rule gives and the node's state one timestep before. An evolution started from its last two states in reverse order retraces it exactly to its start.",
  ["inputs", "histories"], "every rule, network, and pair of a state and the state before it",
  "The tests compare two recorded runs of one or two rules, forwards only.",
  ["netomaton/reversible_rule.py", EVO], [("exclusive or with the past activity", "netomaton/reversible_rule.py: ReversibleRule.__call__")],
  "All 256 elementary rules, all pairs of states on rings of 3 (and a slice on 4) cells, other binary rules on all graphs of 2-3 nodes with up to 4 past conditions. States are bits, as the documentation says."),
 ("C24", "Sandpiles topple correctly, conserve grains and come to rest",
  "At each timestep exactly the cells with four or more grains lose four, and each of their four neighbours gains one; without a closed boundary no grain is ever lost, and with it grains which reach the border disappear. A closed pile comes to rest with fewer than four grains everywhere.",
  ["inputs", "histories"], "every size and configuration of grains",
  "The tests compare two recorded runs from one start.",
  ["netomaton/sandpile.py"], [("toppling", "netomaton/sandpile.py: Sandpile.activity_rule"), ("border", "netomaton/sandpile.py: Sandpile._get_boundary_indices")],
  "All configurations of the bound on 3x3 tori and closed 3x4, 4x4, 5x3 piles, towers at every cell of larger ones; at least 3 rows and columns."),
 ("C25", "Hopfield nets learn the Hebbian weights and never gain energy",
  "Training gives each pair of different nodes the sum over the patterns of the product of their values, and no node a connection to itself. In evaluation at most one node per timestep changes, to the sign of its weighted input, the energy never increases, any node may be chosen, whichever were before, and a single trained pattern is stable.",
  ["inputs", "schedules"], "every training set, every initial state, every random update order",
  "The tests train one set of patterns and follow one seeded order.",
  ["netomaton/hopfield_net.py", "netomaton/asynchronous_rule.py"], [("training", "netomaton/hopfield_net.py: HopfieldNet.train"), ("threshold rule", "netomaton/hopfield_net.py: HopfieldNet._rule")],
  "All training sets of up to 2 patterns (3 on 2-3 nodes) on up to 4-5 nodes, all initial states, all orders drawn before the timesteps of the run; one net trained with any two sets of up to 3 patterns of 2-3 nodes in turn, up to 600 patterns at once."),
 ("C26", "Hopfield-Tank nets follow the equation of motion and read off tours",
  "The distances are those of all pairs of points; every timestep changes a unit by the published equation of motion (row, column, global and distance terms). A permutation matrix is the units' outputs, and the tour read from one visits the points in the order of its positions, with that tour's length, while a matrix with two points in one position is refused.",
  ["inputs"], "every set of points, hyperparameters, activities and permutation",
  "The test runs one set of ten points and compares the outcome.",
  ["netomaton/hopfield_tank_tsp_net.py"], [("equation of motion", "netomaton/hopfield_tank_tsp_net.py: activity_rule"), ("tour", "netomaton/hopfield_tank_tsp_net.py: get_tour_graph, get_permutation_matrix")],
  "All ordered sets of up to 5 of 6 points, seven sets of hyperparameters isolating each term, all tours of 1-6 points; floating-point tolerance 1e-9."),
 ("C27", "Turing machines compute what the textbook machine computes",
  "In both models, at every step, the symbol under the head and the head's state select what is written, the next state and the move; the tape wraps around, the head-centric machine stops in its terminating state or after the given number of timesteps, and a missing rule is refused when it is needed. What is reported for plotting is that history of tapes and heads.",
  ["programs", "inputs"], "every machine, tape, starting state and position",
  "The tests run three machines once.",
  ["netomaton/turing_machine.py"], [("head history on the tape", "netomaton/turing_machine.py: TapeCentricTuringMachine"), ("tape history, halting", "netomaton/turing_machine.py: HeadCentricTuringMachine")],
  "All 20736 machines of two states and two symbols (tapes of 3-5 cells: a slice of the starts in the quick tier, all in the thorough tier), partial machines, machines with other states and symbols."),
 ("C28", "Substitution systems rewrite strings exactly",
  "Each timestep replaces every symbol which has a complete window to its right by what the rules give for the window, in order, and drops the others; constants stay; symbols keep the type of the axiom's. A system which dies out stays empty, the given rules are not changed, a system can be evolved any number of times, and the string and padded forms say the same.",
  ["programs", "inputs"], "every rule table, window size and axiom",
  "The tests compare seven recorded systems.",
  ["netomaton/substitution_system.py"], [("rewriting through added and removed nodes", "netomaton/substitution_system.py: SubstitutionSystem.activity_rule")],
  "All tables of windows 1 (9 replacements each), a slice of windows 2 (7 each; all in the thorough tier) and 3 (4 each), axioms of 1-5 symbols, 5 timesteps; images of up to 10 symbols for one window at a time; one system object over sequences of up to three evolutions of 1-5 timesteps, anew and continued."),
 ("C29", "Wolfram physics models rewrite relations and keep the rest",
  "The network of a model holds exactly its relations, in order, also unary, repeated and longer ones. Each timestep replaces disjoint groups of relations, found in order, which match the left side of the rule consistently, by its right side, where new symbols become new nodes numbered on from the highest, and keeps all other relations.",
  ["programs", "inputs"], "every configuration and rule",
  "The tests follow a few published rules from one start.",
  ["netomaton/wolfram_physics_model.py"], [("encoding of relations", "netomaton/wolfram_physics_model.py: _init_network_and_conditions, network_to_config"), ("matching", "netomaton/wolfram_physics_model.py: topology_rule, _matches")],
  "All configurations of up to 2 relations of 1-3 nodes (and most of 3) over 3 nodes, all rules from one binary relation to two and a third of those from two, published-style rules on mixed configurations. The groups are those of the left-to-right scan without backtracking."),
 ("C30", "Fungal growth follows its published process",
  "A link appears between two unlinked neighbours of the grid only if one has resource: from the one which has, with probability one over its free links, or, when both have, in one of the two directions with equal chance; links stay, and share their source's resource equally. Each agent's resource is what its incoming links carry (its own when it has none) plus what it absorbs, and the same seed gives the same growth.",
  ["schedules", "inputs", "configurations"], "every grid, starting resource, resource layer and answer of the random number generator",
  "The tests compare one seeded run from one start.",
  ["netomaton/fungal_growth_model.py"], [("growth", "netomaton/fungal_growth_model.py: topology_rule"), ("flow", "netomaton/fungal_growth_model.py: activity_rule")],
  "All starts on a 3x3 torus (every second in the quick tier) and pairs on others with five constant draws, all sequences of up to 8-10 high or low draws from every one or two starts, and growth in which a perturbation kills and revives agents at every place."),
 ("C31", "Entropy and mutual information have their defined values",
  "The Shannon entropy, joint entropy and mutual information of sequences have their defined values, are symmetric and never negative. Their averages over an evolution treat each activity as one symbol, are the same for a trajectory and its activities, and refuse an empty evolution or a temporal distance outside of it.",
  ["inputs"], "every sequence and pair of sequences, every history of activities, every temporal distance",
  "The tests check a handful of binary strings.",
  ["netomaton/analysis.py"], [("definitions", "netomaton/analysis.py: shannon_entropy, joint_shannon_entropy, mutual_information, average_node_entropy, average_mutual_information")],
  "All strings over 3 symbols up to length 5-6 and pairs of them, all histories of up to 5x1, 3x2 activities over fourteen kinds of values, all two-valued columns of 6-8 timesteps (10 in the thorough tier) at every temporal distance; tolerance 1e-9."),
 ("C32", "Turtles move as the geometry says, L-systems draw each symbol's instructions",
  "After any sequence of moves, turns, pushes and pops a turtle's position, orientation, distance and drawn segments are those of plane geometry, and a pop without a push is refused. Rendering an L-system performs exactly the instructions bound to each symbol of the state, in order, and shows the result.",
  ["histories", "inputs"], "every sequence of commands, every string and kind of binding",
  "The test draws one star.",
  ["netomaton/turtle.py", "netomaton/utils.py"], [("state and stack", "netomaton/turtle.py: Turtle"), ("rendering", "netomaton/utils.py: _render_L_system, plot_L_system, animate_L_system")],
  "All command sequences up to length 6 over 7 commands from 5 starts, all well-nested strings up to length 4-5 over 7 symbols with every kind of binding."),
 ("C33", "Helper functions return what they promise",
  "The simple initial conditions are empty but for their centre; the random ones have the requested number of random sites in the centre, each value being possible; binomial coefficients, binary digits, the listing of a trajectory's activities by node and timestep, and the conversion of NumPy scalars are exact; wrong arguments are refused.",
  ["inputs", "schedules"], "every size, value, type and answer of the random number generator",
  "The tests check one or two sizes each.",
  [EVO, "netomaton/utils.py"], [("initial conditions", EVO + ": init_simple, init_simple2d, init_random, check_np"), ("helpers", "netomaton/utils.py: ncr, binarize_for_plotting, get_activities_over_time_as_list")],
  "Sizes up to 40 (9x9), all random answers up to 6 sites and 3 states, binomials up to n=70 and ten larger n up to 300."),
 ("C34", "Plots and animations show exactly the evolution",
  "What is handed to the plotting library is exactly what was given: each activity at its place, the requested timestep, all frames of an animation in order and over again, the nodes and connections of each timestep's network, series with their limits and labels, degree counts, hexagons in shifted rows, turtle lines, and web pages with all nodes and connections. Empty evolutions, unknown layouts and a single series for two axes are refused.",
  ["inputs", "configurations", "histories"], "every evolution, shape, timestep and combination of options",
  "No test covers plotting; a transposed grid or a skipped frame would go unnoticed.",
  ["netomaton/utils.py", "netomaton/hexplot.py", "netomaton/vis/vis_utils.py", "netomaton/turtle.py"],
  [("plots", "netomaton/utils.py: plot_grid, plot_activities, animate_activities, plot1D, poincare_plot, bifurcation_plot, plot_degree_distribution"), ("hexagons", "netomaton/hexplot.py"), ("pages", "netomaton/vis/vis_utils.py")],
  "Combinations of options over small evolutions; two full cycles of every animation. Matplotlib and NetworkX drawing are trusted: the artists (or the graph handed over) are inspected, not pixels."),
 ("C35", "Equivalent descriptions of an automaton give the same evolution",
  "An automaton evolves in the same way however it is put: its rule by number (in either numbering), as a table, as a totalistic code or as a function; its network by a topology function, from an adjacency matrix, by a conversion there and back, or connection by connection; with its nodes renamed, moved along or mirrored on a torus, or beside an unconnected network; driven by timesteps or by an input; initial conditions as a list, array or mapping; a wrapped rule or the rule which it stands for.",
  ["inputs", "configurations"], "every rule, network, state, renaming and symmetry of the torus",
  "Each test fixes one description of one automaton; a disagreement between two of them shows only when both are compared on the same states.",
  [EVO, "netomaton/topology/adjacency.py", "netomaton/topology/networks.py", "netomaton/rules/activity_rule.py", "netomaton/rule_tables.py", "netomaton/turing_machine.py"],
  [("rules", "netomaton/rules/activity_rule.py; netomaton/rule_tables.py: table_rule"), ("topologies", "netomaton/topology"), ("wrappers", "netomaton/asynchronous_rule.py, netomaton/reversible_rule.py"), ("arguments", EVO + ": evolve")],
  "All elementary rules over all states of rings of 3 and 4 cells (bases of larger ones), totalistic codes up to radius 3, tori up to 4x5, all digraphs of 3 nodes (quick: two thirds of them) under all renamings, all pairs of digraphs of 2 nodes."),
 ("C36", "Failures in callbacks reach the caller and leave no trace",
  "When an activity rule, topology rule, perturbation, input function or memoization key raises an exception, whichever and at whatever invocation, it reaches the caller as it is, at once, with nothing invoked afterwards. The network, conditions and inputs which were given are left as they were, and an evolution started again on the same objects gives what it would have given. A network with attributes which can't be copied is refused or copied right, and never changed.",
  ["crash_points", "fault_sequences", "configurations"], "every point at which a callback is invoked, every kind of exception, over systems which cover the features of an evolution",
  "Tests have no failing callbacks; an exception which is mistaken for a missing key or the end of the input would silently end or change an evolution.",
  [EVO, STATE, "netomaton/asynchronous_rule.py", "netomaton/reversible_rule.py"], [("invocations", EVO + ": do_activity_rule, evolve_topology, _get_memoized, evolve"), ("copies", STATE + ": Network.copy, _Compressor")],
  "All points of failure of about 1000 systems (4 timesteps, 2 or 3 nodes), two of 19 kinds of exception at each, all of them in a quarter of the systems."),
 ("C37", "Machines built as networks compute what their definition says",
  "Boolean networks follow their truth tables, linear systems the powers of their weight matrix (parallel connections adding up), finite state machines driven by an input of symbols their transition tables, each node by its own stream or by the state of another machine, and pushdown automata and counters their languages, rejecting a word at exactly the symbol which isn't accepted.",
  ["inputs", "configurations"], "every truth table, matrix, transition table, starting state and input word",
  "The tests and demonstrations run one machine on one word each.",
  [EVO, STATE, "netomaton/topology/networks.py"], [("contexts", EVO + ": NodeContext, do_activity_rule"), ("inputs", EVO + ": _get_input_function"), ("weights", STATE + ": Network.add_edge; netomaton/topology/networks.py: from_adjacency_matrix, disconnected")],
  "All Boolean networks of 2 nodes, matrices of {-1,0,1,2} 2x2 and {0,1} 3x3 (quick: a third), all machines of 2 states over 2 letters with all words up to 5 letters, pushdown automata with all words up to 8."),
]

TECH = {
    "C05": "exhaustive exploration of evolution histories on shared objects",
    "C11": "explicit-state search over operation sequences",
    "C12": "exhaustive operation sequences on pairs of copies",
    "C15": "exhaustive enumeration with stateless search over random answers",
    "C19": "stateless search over all random answers",
    "C21": "stateless search over all random answers",
    "C22": "stateless search over update orders and random answers",
    "C25": "stateless search over random update orders",
    "C30": "stateless search over random draws",
    "C33": "exhaustive enumeration with stateless search over random answers",
    "C36": "exhaustive fault injection at every callback invocation",
}
DEFAULT = "bounded exhaustive exploration of the real code against a reference model"

TRUST = ("No violation in any of the executions of the bounded space, each run on the real code and compared step by step with an independent "
         "reference model; nothing is claimed beyond the bounds. ")
CROSS = (" Besides, the product of all features of an evolution (update order, style of topology rule, kind of activity rule, past, input, "
         "perturbation, rotation system, the four storage options), one system for each combination (five in the thorough tier).")


LARGE = (" A few large cases besides (hundreds of nodes, steps, keys, connections or bits), for thresholds which small ones can't reach.")
WITH_LARGE = "C01 C03 C06 C09 C11 C12 C14 C17 C18 C20 C22 C24 C25 C26 C27 C31 C33 C34".split()


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid, title, statement, over, text, why, files, mech, note in P:
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({
                "id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": ["the public functions and classes of the package"], "hook_needed": None}}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": pid, "quick_cmd": "bash check.sh %s quick" % pid, "thorough_cmd": "bash check.sh %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid, "technique": "model checking: " + TECH.get(pid, DEFAULT), "level": "model_checking",
            "level_note": TRUST + "Bounds: " + note + (CROSS if pid <= "C10" else "") + (LARGE if pid in WITH_LARGE else "")} for pid, title, statement, over, text, why, files, mech, note in P],
        "not_applicable": [],
        "notes": "No hooks in /repo. A counterexample is replayed with: bash check.sh replay evidence/<id>.replay.json",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
