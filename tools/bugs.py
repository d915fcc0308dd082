"""The planted bugs, as edits of the package. Written from the text of the properties and the code."""
BUGS = []


def bug(bid, prop, edits, demo, needs, breaks):
    BUGS.append((bid, prop, edits, "import netomaton as ntm\n" + demo, needs, breaks))


EVO, ST, NETS, ADJ, AR = "evolution.py", "state.py", "topology/networks.py", "topology/adjacency.py", "rules/activity_rule.py"

SUB = "substitution_system.py"
FG = "fungal_growth_model.py"

bug("c01-neighbour-set", "C01",
    [(EVO, "        return [i for i in incoming_connections]", "        return [i for i in incoming_connections if i != node_label or len(incoming_connections[i]) == 1]")],
    """
net = ntm.Network()
net.add_edge(0, 0); net.add_edge(0, 0); net.add_edge(1, 0); net.add_edge(0, 1)
def rule(ctx):
    return sum(ctx.neighbourhood_activities)
t = ntm.evolve(net, [1, 2], rule, timesteps=2, topology_rule=lambda c: c.network)
assert t[1].activities == {0: 3, 1: 1}, t[1].activities
""", "a topology rule, and a node with two parallel connections to itself",
    "a node with parallel self loops doesn't see itself among its neighbours")

bug("c02-synchronous", "C02",
    [(EVO, "evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, prev_network, past,\n                              perturbation",
           "evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, curr_network, past,\n                              perturbation")],
    """
net = ntm.Network(2)
net.add_edge(0, 1)
def topo(c):
    c.network.add_edge(1, 0)
    return c.network
t = ntm.evolve(net, [1, 5], lambda c: len(c.neighbour_labels), timesteps=3, topology_rule=topo, update_order=ntm.UpdateOrder.SYNCHRONOUS)
assert [s.activities for s in t] == [{0: 1, 1: 5}, {0: 0, 1: 1}, {0: 1, 1: 1}], [s.activities for s in t]
""", "the SYNCHRONOUS update order with a topology rule which changes the connections", "the activities are computed on the new network instead of the previous one")

bug("c02-rule-sees-old-activities", "C02",
    [(EVO, "            curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,",
           "            curr_network = evolve_topology(topology_rule, t, curr_activities if persist_activities else prev_activities, prev_network,")],
    """
net = ntm.Network(2)
net.add_edge(0, 1)
for p in (True, False):
    seen = []
    def topo(c):
        seen.append(dict(c.activities))
        return c.network
    ntm.evolve(net, [1, 5], lambda c: c.current_activity + 1, timesteps=3, topology_rule=topo, persist_activities=p)
    assert seen == [{0: 2, 1: 6}, {0: 3, 1: 7}], seen
""", "activities-first, a topology rule which reads the activities, and persist_activities=False", "the topology rule sees the activities of the previous timestep")

bug("c03-false-input", "C03",
    [(EVO, "        if inp is None:\n            break", "        if inp is None or inp is False:\n            break")],
    """
t = ntm.evolve(ntm.Network(1), [0], lambda c: c.input, input=[True, False, True])
assert [s.activities[0] for s in t] == [0, True, False, True]
""", "an input of booleans, one of which is False", "the evolution ends at the first False")

bug("c04-persist-network-copy", "C04",
    [(EVO, "        if copy_network:\n            network = network.copy()", "        if copy_network and persist_network:\n            network = network.copy()")],
    """
def run(**kw):
    net = ntm.Network(2)
    net.add_edge(0, 1)
    def topo(c):
        c.network.add_edge(1, 0, t=c.timestep)
        return c.network
    t = ntm.evolve(net, [1, 5], lambda c: sum(c.neighbourhood_activities), timesteps=3, topology_rule=topo,
                   update_order=ntm.UpdateOrder.SYNCHRONOUS, **kw)
    return t
a, b = run(), run(persist_network=False)
assert [s.activities for s in a] == [s.activities for s in b]
assert a[0].network == b[0].network
""", "persist_network=False with a topology rule editing its network in place", "the network is no longer copied: the initial network changes, and synchronous updates see the new one")

bug("c06-falsy-memo", "C06",
    [(EVO, "    if key in memoization_table:\n        return memoization_table[key]\n    else:", "    result = memoization_table.get(key)\n    if result:\n        return result\n    else:")],
    """
calls = []
def rule(c):
    calls.append(c.node_label)
    return 0
ntm.evolve(ntm.topology.cellular_automaton(5), [0] * 5, rule, timesteps=4, memoize=True)
assert len(calls) == 1, len(calls)
""", "results which are false (0)", "the rule is invoked again for every neighbourhood whose result is 0")

bug("c06-table-on-key", "C06",
    [(EVO, "    memo_table = {}\n", "    memo_table = {} if memoization_key is None else memoization_key.__dict__.setdefault(\"_table\", {})\n")],
    """
class Key(ntm.MemoizationKey):
    def to_key(self, ctx):
        return ctx.current_activity
key = Key()
net = ntm.Network(2)
a = ntm.evolve(net, [1, 2], lambda c: c.current_activity + 1, timesteps=3, memoize=True, memoization_key=key)
b = ntm.evolve(net, [1, 2], lambda c: c.current_activity * 5, timesteps=3, memoize=True, memoization_key=key)
assert b[1].activities == {0: 5, 1: 10}, b[1].activities
""", "a memoization key given to two evolutions with different rules", "what was remembered in one evolution is used in the next")

bug("c06-sum-key", "C06",
    [(EVO, "        return frozenset(collections.Counter(ctx.neighbourhood_activities).items())", "        return tuple(sorted(ctx.neighbourhood_activities, key=hash))")],
    """
net = ntm.Network(3)
net.add_edge(0, 2); net.add_edge(1, 2); net.add_edge(2, 0)
# -1 and -2 have the same hash: [-1, -2] and [-2, -1] are the same neighbourhood
calls = []
def rule(c):
    calls.append(sorted(c.neighbourhood_activities))
    return {0: -2, 1: -1, 2: 0}[c.node_label] if c.timestep == 1 else -3
class N:
    pass
net = ntm.Network(4)
net.add_edge(0, 2); net.add_edge(1, 2); net.add_edge(1, 3); net.add_edge(0, 3)
ntm.evolve(net, [-1, -2, 0, 0], lambda c: (calls.append(1), 7)[1], timesteps=2, memoize=True)
assert len(calls) == 2, len(calls)
""", "two neighbourhoods of the same activities in different orders, with equal hashes (-1 and -2)", "the rule is invoked twice for one key")

bug("c09-forward-links", "C09",
    [(EVO, "            for target, connection_state in outgoing_links.items():\n                network.add_edge(node_label, target, **connection_state)",
           "            for target, connection_state in outgoing_links.items():\n                if target in network.nodes:\n                    network.add_edge(node_label, target, **connection_state)")],
    """
net = ntm.Network(1)
def rule(c):
    if c.timestep == 1:
        c.add_node(5, {"b": {"w": 1}}, "a")
        c.add_node(6, {0: {}}, "b")
    return c.current_activity
t = ntm.evolve(net, {0: 1}, rule, timesteps=2)
assert sorted((str(i), str(j), str(a)) for i, j, a in t[1].network.edges) == [("a", "b", "{'w': 1}"), ("b", "0", "{}")], list(t[1].network.edges)
""", "a node added with a connection to another one which is added after it at the same timestep", "the connection is lost")

bug("c10-set-before-check", "C10",
    [(ST, "        network_nodes = self.nodes\n        for node_label in rotation_system:", "        network_nodes = self.nodes\n        self._rotation_system = rotation_system\n        for node_label in rotation_system:")],
    """
net = ntm.Network(2)
net.add_edge(0, 1)
net.rotation_system = {0: (), 1: (0,)}
try:
    net.rotation_system = {0: (9,), 1: (0,)}
except AssertionError:
    pass
assert net.rotation_system == {0: (), 1: (0,)}, net.rotation_system
""", "setting an invalid rotation system on a network which has one", "it is refused, but stays")

bug("c10-topology-rule-order", "C10",
    [(EVO, "    elif network.rotation_system is not None:\n        return network.rotation_system[node_label]\n", "")],
    """
net = ntm.Network(3)
net.add_edge(0, 2); net.add_edge(1, 2); net.add_edge(2, 0); net.add_edge(2, 1)
net.rotation_system = {0: (2,), 1: (2,), 2: (1, 0)}
seen = []
def rule(c):
    seen.append((c.node_label, list(c.neighbour_labels)))
    return 0
ntm.evolve(net, [1, 2, 3], rule, timesteps=2, topology_rule=lambda c: c.network, copy_network=False)
assert (2, [1, 0]) in seen, seen
""", "a topology rule with copy_network=False on a network with a rotation system", "the neighbours are in the order in which the connections were added")

bug("c11-outgoing-one", "C11",
    [(ST, "        self._network[i][\"outgoing\"] = [x for x in self._network[i][\"outgoing\"] if x != j]", "        self._network[i][\"outgoing\"].remove(j)")],
    """
net = ntm.Network(2)
net.add_edge(0, 1); net.add_edge(0, 1)
net.remove_edge(0, 1)
net.remove_node(0)
assert net.in_degree(1) == 0, net.in_degree(1)
""", "removing parallel connections and then the node they came from", "the in-degree of the other node becomes negative")

bug("c12-decompress-cache", "C12",
    [(ST, "            return Network.decompress(self._network) if self._compression else self._network",
          "            if self._compression and not isinstance(self._network, Network):\n                self._network = Network.decompress(self._network)\n            return self._network")],
    """
net = ntm.Network(2)
net.add_edge(0, 1, w=1)
s = ntm.State(network=net, compression=True)
n = s.network
n.add_edge(1, 0)
assert len(list(s.network.edges)) == 1
""", "changing a network obtained from a compressed state", "the state changes with it")

bug("c13-zero-weight", "C13",
    [(ST, "            w = atts[weight] if weight in atts else 1", "            w = atts.get(weight) or 1")],
    """
net = ntm.Network()
net.add_edge(0, 1, weight=0); net.add_edge(1, 0, weight=3)
assert net.to_adjacency_matrix() == [[0, 0], [3, 0]], net.to_adjacency_matrix()
""", "a connection whose weight is 0", "it counts as 1")

bug("c15-empty-attributes", "C15",
    [(NETS, "                attrs = edge_attributes[node1][node2]\n                network.add_edge_bidir(node1, node2, **attrs)",
            "                attrs = edge_attributes[node1][node2]\n                if attrs:\n                    network.add_edge_bidir(node1, node2, **attrs)")],
    """
net = ntm.topology.bipartite([0], [1, 2], {0: {1: {"weight": 1}, 2: {}}})
assert net.has_edge(0, 2) and net.has_edge(2, 0)
""", "a pair with empty attributes", "the pair isn't connected")

bug("c16-cached-width", "C16",
    [(AR, "    def _rule(ctx):\n        activities = ctx.neighbourhood_activities\n        state_int = bits_to_int(activities)\n        n = 2**len(activities)\n        rule_bin_array = int_to_bits(rule, n)\n",
          "    cache = {}\n\n    def _rule(ctx):\n        activities = ctx.neighbourhood_activities\n        state_int = bits_to_int(activities)\n        if not cache:\n            n = 2**len(activities)\n            cache[0] = n, int_to_bits(rule, n)\n        n, rule_bin_array = cache[0]\n")],
    """
net = ntm.Network(3)
for i, j in ((0, 0), (1, 0), (1, 1), (0, 1), (2, 1), (2, 2), (1, 2)):
    net.add_edge(i, j)
net.rotation_system = {0: (0, 1), 1: (0, 1, 2), 2: (1, 2)}
t = ntm.evolve(net, [1, 1, 1], ntm.rules.nks_ca_rule(8), timesteps=2)
assert [t[1].activities[i] for i in range(3)] == [1, 0, 1], t[1].activities
""", "a network whose nodes have neighbourhoods of different sizes", "all use the width of the first one")

bug("c17-letters", "C17",
    [(AR, "        return int(rule_string[n*(k - 1) - neighbourhood_sum], k)", "        return ord(rule_string[n*(k - 1) - neighbourhood_sum]) - ord('0')")],
    """
class C: pass
c = C(); c.neighbourhood_activities = [0, 0, 0]
assert ntm.rules.totalistic_ca(3, 2)(c) == 2
assert ntm.rules.totalistic_ca(16, 0xb)(c) == 11
""", "more than ten colours", "digits above nine have wrong values")

bug("c17-range-off", "C17",
    [(AR, "        if len(rule_string) > n*(k - 1) + 1:", "        if len(rule_string) > n*k + 1:")],
    """
class C: pass
c = C(); c.neighbourhood_activities = [0, 0, 0]
try:
    ntm.rules.totalistic_ca(2, 31)(c)
except Exception:
    pass
else:
    assert False
""", "a rule number with one to n digits too many", "it isn't refused")

bug("c18-wire-heads", "C18",
    [(AR, "        return 1 if electron_head_count == 1 or electron_head_count == 2 else 3", "        return 1 if electron_head_count % 4 in (1, 2) else 3")],
    """
class C: pass
c = C(); c.current_activity = 3; c.neighbourhood_activities = [1, 1, 1, 1, 3, 1, 0, 0, 0]
assert ntm.rules.wireworld_rule(c) == 3
""", "a conductor with five or six electron heads around it", "it becomes a head")

bug("c18-life-center", "C18",
    [(AR, "        if total - 1 > 3:\n            return 0  #", "        if total - 1 > 3:\n            return 1 if total == 9 else 0  #")],
    """
class C: pass
c = C(); c.current_activity = 1; c.neighbourhood_activities = [1] * 9
assert ntm.rules.game_of_life_rule(c) == 0
""", "a live cell whose eight neighbours all live", "it survives")

bug("c20-table-alias", "C20",
    [("ctrbl_rule.py", "        new_rule_table = {}\n        for rule, image in rule_table.items():", "        new_rule_table = rule_table\n        for rule, image in list(rule_table.items()):")],
    """
table = {(0, 1, 0, 0, 0): 1}
ntm.CTRBLRule((3, 3), table, add_rotations=True)
assert table == {(0, 1, 0, 0, 0): 1}, table
""", "a table which is used again after it was given to a rule with add_rotations", "the given table has the rotations added to it")

bug("c21-strong-increase", "C21",
    [("rule_tables.py", "                states_to_quiescent = [s for s in states_to_quiescent if len(set(s)) != 1]", "                states_to_quiescent = [s for s in states_to_quiescent if len(set(s)) != 1] or states_to_quiescent")],
    """
table = {"000": 0, "001": 1, "010": 1, "011": 1, "100": 1, "101": 1, "110": 1, "111": 1}
t, l = ntm.table_walk_through(dict(table), 1.0, 2, 1, 0, strong_quiescence=True)
assert t["000"] == 0, t
""", "a walk to a lambda which can't be reached with strong quiescence", "a uniform neighbourhood loses its image")

bug("c21-lambda-count", "C21",
    [("rule_tables.py", "                cell_state = table[state_reversed]\n                if cell_state == quiescent_state: quiescent_state_count += 1", "                cell_state = table[state_reversed]")],
    """
import numpy as np, random
random.seed(1)
table, l, q = ntm.random_rule_table(2, 1, lambda_val=0.0, quiescent_state=0, isotropic=True)
assert l == sum(v != q for v in table.values()) / 8, (l, table)
""", "isotropic tables with quiescent images", "the reported lambda is too high")

bug("c22-shuffle-position", "C22",
    [("asynchronous_rule.py", "            self._curr = (self._curr + 1) % len(self._update_order)\n            self._num_applied = 0", "            self._curr = (self._curr + 1) % max(2, len(self._update_order))\n            self._num_applied = 0")],
    """
r = ntm.AsynchronousRule(lambda c: c.current_activity + 1, update_order=[1])
t = ntm.evolve(ntm.Network(2), [0, 0], r, timesteps=4)
assert t[3].activities == {0: 0, 1: 3}
""", "an update order of a single node", "the second timestep fails")

bug("c23-first-past", "C23",
    [("reversible_rule.py", "ctx.past_activity_of(ctx.node_label)", "ctx.past_activity_of(ctx.node_label, 0)")],
    """
r = ntm.ReversibleRule(lambda c: 0)
t = ntm.evolve(ntm.Network(1), [1], r, timesteps=2, past_conditions=[[1], [0]])
assert t[1].activities == {0: 0}
""", "two or more past conditions", "the oldest one is used instead of the last")

bug("c24-tall-towers", "C24",
    [("sandpile.py", "            if neighbour_activity >= self._K:\n                new_activity += 1", "            if neighbour_activity >= self._K:\n                new_activity += neighbour_activity // self._K")],
    """
s = ntm.Sandpile(3, 3, is_closed_boundary=False)
t = ntm.evolve(s.network, [0, 0, 0, 0, 9, 0, 0, 0, 0], s.activity_rule, timesteps=3)
assert all(sum(x.activities.values()) == 9 for x in t)
""", "a cell with eight or more grains", "grains are made")

bug("c24-boundary", "C24",
    [("sandpile.py", "        return np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)", "        return np.concatenate((m[0], m[-1], m[:, 0], m[:, shape[0] - 1]), axis=None)")],
    """
s = ntm.Sandpile(3, 5)
t = ntm.evolve(s.network, [1] * 15, s.activity_rule, timesteps=2)
assert [t[1].activities[i] for i in range(15)] == [0] * 6 + [1, 1, 1] + [0] * 6, t[1].activities
""", "a pile with fewer rows than columns", "the border is at the wrong column")

bug("c25-distinct-patterns", "C25",
    [("hopfield_net.py", "        for p in P:\n", "        for p in dict.fromkeys(tuple(p) for p in P):\n")],
    """
h = ntm.HopfieldNet(n=2)
h.train([[1, 1], [1, 1], [1, -1]])
assert h.adjacency_matrix.tolist() == [[0, 1], [1, 0]], h.adjacency_matrix
""", "a pattern which is in the training set twice", "it counts once")

bug("c26-equal-distances", "C26",
    [("hopfield_tank_tsp_net.py", "        distances = []\n\n        for tour_index", "        distances = set()\n\n        for tour_index"),
     ("hopfield_tank_tsp_net.py", "            distances.append(math.sqrt((to_point[0] - from_point[0]) ** 2 + (to_point[1] - from_point[1]) ** 2))", "            distances.add(math.sqrt((to_point[0] - from_point[0]) ** 2 + (to_point[1] - from_point[1]) ** 2))")],
    """
p = [(0, 0), (0, 1), (1, 1), (1, 0)]
net = ntm.HopfieldTankTSPNet(p)
assert net.get_tour_graph(p, [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])[2] == 4
""", "a tour with two distances of the same length", "the length counts it once")

bug("c27-left-edge", "C27",
    [("turing_machine.py", "            return (head_pos - 1) % len(self._tape_history[-1])", "            return head_pos - 1 if head_pos else len(self._tape_history[0]) - (1 if self._max_timesteps else 2)")],
    """
for kw in ({"max_timesteps": 3}, {"terminating_state": "h"}):
    m = ntm.HeadCentricTuringMachine([0, 0, 0], {"a": {0: ["b", 1, ntm.TuringMachine.LEFT]}, "b": {0: ["h", 1, ntm.TuringMachine.STAY]}}, "a", 0, **kw)
    t = ntm.evolve(m.network, m.initial_conditions, m.activity_rule, input=m.input_function)
    assert t[1].activities[0] == ("b", 2), t[1].activities
""", "a machine with a terminating state and no maximum of timesteps moving left from the left end", "the head arrives one cell too far to the left")

bug("c27-halt-max", "C27",
    [("turing_machine.py", "        if self._terminating_state is not None and next_head_state == self._terminating_state:", "        if self._terminating_state and next_head_state == self._terminating_state:")],
    """
R = ntm.TuringMachine.RIGHT
m = ntm.HeadCentricTuringMachine([0, 0, 0], {1: {0: [0, 1, R]}, 0: {0: [1, 1, R]}}, 1, 0, terminating_state=0, max_timesteps=4)
t = ntm.evolve(m.network, m.initial_conditions, m.activity_rule, input=m.input_function)
assert len(t) == 2, len(t)
""", "a terminating state which is false (0)", "the machine doesn't stop in it")

bug("c31-log-range", "C31",
    [("analysis.py", "        mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])",
                     "        mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[min(temporal_distance, 3):][:len(activities) - temporal_distance])")],
    """
import random
random.seed(3)
acts = [[random.randint(0, 2)] for _ in range(12)]
s = [str(a[0]) for a in acts]
for d in range(1, 8):
    assert abs(ntm.average_mutual_information(acts, d) - ntm.mutual_information(s[:-d], s[d:])) < 1e-9, d
""", "a temporal distance of four or more", "the sequence is compared with itself three timesteps later")

bug("c32-pop-stack", "C32",
    [("turtle.py", "        x, y, orientation = self._stack.pop()", "        x, y, orientation = self._stack.pop(-2 if len(self._stack) > 3 else -1)")],
    """
t = ntm.Turtle()
for _ in range(5):
    t.push(); t.forward()
for k in (4, 3, 2, 1, 0):
    t.pop()
    assert abs(t.y - k) < 1e-9, (t.y, k)
""", "four nested pushes", "the state which was pushed before the last is restored")

bug("c34-frame-order", "C34",
    [("utils.py", "        if i['index'] == len(activities):\n            i['index'] = 0", "        if i['index'] == len(activities):\n            i['index'] = 1")],
    """
import matplotlib.pyplot as plt, matplotlib.animation as animation
frames = []
def fake(fig, func, **kw):
    ax = fig.axes[0]
    im = ax.images[0]
    frames.append(im.get_array().tolist())
    for _ in range(5):
        func()
        frames.append(im.get_array().tolist())
animation.FuncAnimation = fake
plt.show = lambda *a: None
acts = [[[0, 0]], [[1, 0]], [[0, 1]]]
ntm.animate_activities(acts)
assert frames == acts * 2, frames
""", "an animation which runs for more than one cycle", "the first timestep isn't shown again")

bug("c05-memo-leak", "C05",
    [(EVO, "    memo_table = {}\n", "    memo_table = _MEMO_TABLES.setdefault(activity_rule, {}) if memoize else {}\n"),
     (EVO, "class UpdateOrder(Enum):", "# the results of memoized rules\n_MEMO_TABLES = {}\n\n\nclass UpdateOrder(Enum):")],
    """
class Rule:
    factor = 2
    def __call__(self, ctx):
        return sum(ctx.neighbourhood_activities) * self.factor % 11
rule = Rule()
net = ntm.topology.cellular_automaton(4)
def run():
    return [s.activities for s in ntm.evolve(net, [1, 2, 3, 4], rule, timesteps=4, memoize=True)]
run()
rule.factor = 3
want = Rule()
want.factor = 3
assert run() == [s.activities for s in ntm.evolve(net, [1, 2, 3, 4], want, timesteps=4, memoize=True)]
""", "two memoized evolutions with one rule object, whose parameter is changed in between", "results of the first evolution are used in the second")

bug("c05-past-converted", "C05",
    [(EVO, "                curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}\n", "                curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}\n                past_conditions[last_t-1] = curr_past_cond\n")],
    """
net = ntm.topology.cellular_automaton(3)
past = [[1, 0, 0], [0, 1, 0]]
ntm.evolve(net, [0, 0, 1], lambda c: c.past_activity_of(c.node_label), timesteps=3, past_conditions=past)
assert past == [[1, 0, 0], [0, 1, 0]], past
""", "past conditions given as lists", "the caller's list of past conditions is changed")

bug("c08-falsy-input", "C08",
    [(EVO, "            pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)", "            pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in or None)")],
    """
net = ntm.Network(2)
seen = []
def pert(c):
    seen.append(c.input)
    return c.node_activity
ntm.evolve(net, [1, 2], lambda c: 1, input=[[0, 1], [2, 0]], perturbation=pert)
assert seen == [0, 1, 2, 0], seen
""", "a perturbation with inputs among which is 0", "the perturbation is told that a node without a nonzero input has none")

bug("c08-memo-perturbed", "C08",
    [(EVO, "        if ctx.added_nodes:\n            added_nodes.extend", "        if memoize and perturbation is not None and node_in is None:\n            memoization_table[memoization_key.to_key(ctx)] = check_np(perturbation(PerturbationContext(node_label, new_activity, t, None)))\n\n        if ctx.added_nodes:\n            added_nodes.extend")],
    """
net = ntm.Network(2)
net.add_edge(0, 0); net.add_edge(1, 1)
n = []
def pert(c):
    n.append(c.node_label)
    return c.node_activity + 1
t = ntm.evolve(net, [1, 1], lambda c: c.neighbourhood_activities[0], timesteps=2, perturbation=pert, memoize=True)
assert t[1].activities == {0: 2, 1: 2} and n == [0, 1], (t[1].activities, n)
""", "memoize together with a perturbation", "perturbed activities get into the memo, and are perturbed again")

bug("c14-wrap-once", "C14",
    [(ADJ, "x = point[0] if point[0] == -1 else point[0] % len(lattice)", "x = point[0] if point[0] < len(lattice) else point[0] - len(lattice)"),
     (ADJ, "y = point[1] if point[1] == -1 else point[1] % len(lattice[a])", "y = point[1] if point[1] < len(lattice[a]) else point[1] - len(lattice[a])")],
    """
A = ntm.topology.adjacency.cellular_automaton2d(2, 6, r=4)
assert all(sum(1 for x in row if x) == 12 for row in A)
""", "a radius larger than the number of rows or columns", "the matrix can't be made")

bug("c14-center", "C14",
    [(NETS, "    shifted.rotate(center - index_of(nodes, node_to_center_on))", "    shifted.rotate(center - index_of(list(shifted), node_to_center_on) if len(nodes) % 2 else 0)")],
    """
net = ntm.topology.cellular_automaton(4, r=2)
for n in range(4):
    order = net.rotation_system[n]
    assert order[len(order) // 2] == n, net.rotation_system
""", "a neighbourhood with an even number of cells, since it covers the whole ring", "the cell isn't in the middle of its neighbourhood")

bug("c19-own", "C19",
    [(AR, "    if len(most_frequent) == highest:", "    if counts.get(ctx.current_activity) == highest:\n        return ctx.current_activity\n    if len(most_frequent) == highest:")],
    """
import numpy as np
from types import SimpleNamespace as S
np.random.seed(3)
got = {int(ntm.rules.majority_rule(S(neighbourhood_activities=[0, 1, 1, 0], current_activity=1))) for _ in range(60)}
assert got == {0, 1}, got
""", "a tie in which the node's own state takes part", "the tie always goes to the node's own state")

bug("c01-map-inplace", "C01",
    [(EVO, "    if topology_rule is None:\n        neighbourhood_map", "    if topology_rule is None or not copy_network:\n        neighbourhood_map")],
    """
net = ntm.Network(2)
net.add_edge(0, 1)
def topo(c):
    if not c.network.has_edge(1, 0):
        c.network.add_edge(1, 0)
    return c.network
t = ntm.evolve(net, [1, 5], lambda c: sum(c.neighbourhood_activities) + 1, timesteps=3, topology_rule=topo, copy_network=False)
assert [s.activities for s in t] == [{0: 1, 1: 5}, {0: 1, 1: 2}, {0: 3, 1: 2}], [s.activities for s in t]
""", "copy_network=False and a topology rule which adds a connection", "the nodes keep the neighbours they had at the start")

bug("c03-empty-input", "C03",
    [(EVO, "    if input is not None:\n        if callable(input):", "    if input or timesteps is None:\n        if callable(input):")],
    """
for inp in ([], ()):
    t = ntm.evolve(ntm.Network(1), [3], lambda c: c.current_activity + 1, input=inp, timesteps=4)
    assert [s.activities for s in t] == [{0: 3}], [s.activities for s in t]
""", "an input without items, and a number of timesteps", "the evolution goes on without input")

bug("c03-input-network", "C03",
    [(EVO, "        inp = input_fn(t, prev_activities, prev_network)", "        inp = input_fn(t, prev_activities, network)")],
    """
net = ntm.Network(2)
def topo(c):
    c.network.add_edge(0, 1)
    return c.network
seen = []
def inp(t, activities, network):
    seen.append(network.in_degree(1))
    return None if t == 4 else t
ntm.evolve(net, [0, 0], lambda c: c.input, input=inp, topology_rule=topo)
assert seen == [0, 1, 2, 3], seen
""", "an input function which looks at the network, and a topology rule", "the input function is shown the initial network")

bug("c09-replace", "C09",
    [(EVO, "        for node_label in removed_nodes:\n            network.remove_node(node_label)\n\n        for activity, outgoing_links, node_label in added_nodes:\n            network.add_node(node_label, activity=check_np(activity))\n            for target, connection_state in outgoing_links.items():\n                network.add_edge(node_label, target, **connection_state)\n",
           "        for activity, outgoing_links, node_label in added_nodes:\n            network.add_node(node_label, activity=check_np(activity))\n            for target, connection_state in outgoing_links.items():\n                network.add_edge(node_label, target, **connection_state)\n\n        for node_label in removed_nodes:\n            network.remove_node(node_label)\n")],
    """
net = ntm.Network(2)
net.add_edge(0, 1)
def rule(c):
    if c.timestep == 1 and c.node_label == 1:
        c.remove_node(1)
        c.add_node(7, {0: {"w": 1}}, 1)
    return c.current_activity
t = ntm.evolve(net, [1, 5], rule, timesteps=3)
n = t[1].network
assert sorted(n.nodes) == [0, 1] and list(n.edges) == [(1, 0, {"w": 1})], (list(n.nodes), list(n.edges))
assert t[2].activities == {0: 1, 1: 7}
""", "a node replaced by a new one with the same label in one timestep", "the new node is removed from the network")

bug("c10-once", "C10",
    [(EVO, "    if network.rotation_system is not None:\n        return network.rotation_system\n    return {", "    if network.rotation_system is not None:\n        return {k: list(dict.fromkeys(v)) for k, v in network.rotation_system.items()}\n    return {")],
    """
net = ntm.Network(2)
net.add_edge_bidir(0, 1)
net.add_edge_bidir(0, 1)
net.rotation_system = {0: (1, 0, 1), 1: (0, 1, 0)}
t = ntm.evolve(net, [1, 5], lambda c: tuple(c.neighbourhood_activities), timesteps=2)
assert t[1].activities == {0: (5, 1, 5), 1: (1, 5, 1)}, t[1].activities
""", "a rotation system in which a neighbour occurs twice", "the neighbour is seen once")

bug("c11-outgoing-all", "C11",
    [(ST, "        self._network[i][\"outgoing\"] = [x for x in self._network[i][\"outgoing\"] if x != j]", "        self._network[i][\"outgoing\"] = [x for x in dict.fromkeys(self._network[i][\"outgoing\"]) if x != j]")],
    """
net = ntm.Network(3)
net.add_edge(0, 1)
net.add_edge(0, 1)
net.add_edge(0, 2)
net.remove_edge(0, 2)
net.remove_node(0)
assert net.in_degree(1) == 0 and net.degree(1) == 0, net.degree(1)
""", "two parallel connections, another connection of the same node removed, and then the node", "the in-degree counts a connection which is gone")

bug("c13-largest", "C13",
    [(ST, "                M[i][j] = w\n", "                M[i][j] = max(M[i][j], w)\n")],
    """
net = ntm.Network(2)
net.add_edge(0, 1, weight=-2)
assert net.to_adjacency_matrix(sum_multiedges=False) == [[0, -2], [0, 0]]
""", "a negative weight, and sum_multiedges=False", "the connection disappears from the matrix")

bug("c13-same-edges", "C13",
    [(ST, "            network.add_edge(edge[0], edge[1], **edge[2])", "            if not network.has_edge(edge[0], edge[1]) or network.edge(edge[0], edge[1])[-1] != edge[2]:\n                network.add_edge(edge[0], edge[1], **edge[2])")],
    """
net = ntm.Network(2)
net.add_edge(0, 1, weight=2)
net.add_edge(0, 1, weight=2)
assert ntm.Network.from_networkx(net.to_networkx()) == net
""", "parallel connections with the same attributes", "only one of them survives the conversion from NetworkX")

bug("c15-seed", "C15",
    [(NETS, "    G = nx.watts_strogatz_graph(n, k, p, seed)", "    G = nx.watts_strogatz_graph(n, k, p, seed or None)")],
    """
a = ntm.topology.watts_strogatz_graph(30, 4, 0.5, seed=0)
b = ntm.topology.watts_strogatz_graph(30, 4, 0.5, seed=0)
assert a == b
""", "a seed of 0", "the graph is another one each time")

bug("c33-ncr-float", "C33",
    [("utils.py", "    return f(n) // f(r) // f(n-r)", "    return int(f(n) / f(r) / f(n-r) + 0.5)")],
    """
import math
for n in range(0, 70):
    for r in range(0, n + 1):
        assert ntm.ncr(n, r) == math.comb(n, r), (n, r)
""", "numbers of more than about 50 bits", "the number of combinations is rounded")

bug("c33-binarize-wide", "C33",
    [("utils.py", "[int(x) for x in bin(int(a[0]))[2:]]", "[int(x) for x in bin(int(float(a[0])))[2:]]")],
    """
got = ntm.binarize_for_plotting([[2 ** 53 + 1], [1]])
assert got[0].tolist() == [1] + [0] * 52 + [1], got
""", "a number of more than 53 bits", "its low bits are lost")

bug("c34-bifurcation", "C34",
    [("utils.py", "        y.append(np.unique(t[-timesteps:]))", "        y.append(np.unique(t[len(t) - timesteps:]))")],
    """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
shown = []
plt.scatter = lambda x, y, **kw: shown.append(list(y))
plt.show = lambda: None
ntm.bifurcation_plot([1], [[1, 2, 3]], timesteps=5)
assert shown == [[1, 2, 3]], shown
""", "more timesteps than the trajectory has", "only the last ones are shown")

bug("c06-hash-key", "C06",
    [(EVO, "        return tuple(ctx.neighbourhood_activities)", "        return hash(tuple(ctx.neighbourhood_activities))")],
    """
net = ntm.Network(2)
net.add_edge(0, 1)
net.add_edge(1, 0)
net.rotation_system = {0: (1,), 1: (0,)}
t = ntm.evolve(net, [-1, -2], lambda c: c.neighbourhood_activities[0] * 10, timesteps=2, memoize=True)
assert t[1].activities == {0: -20, 1: -10}, t[1].activities
""", "an ordered key, and the activities -1 and -2, whose hashes are equal", "the result for -1 is used for -2")

bug("c01-equal-types", "C01",
    [(EVO, "        trajectory[t].activities = curr_activities\n", "        trajectory[t].activities = prev_activities if curr_activities == prev_activities else curr_activities\n")],
    """
t = ntm.evolve(ntm.Network(2), [1, 0], lambda c: bool(c.current_activity), timesteps=2)
assert repr(t[1].activities) == "{0: True, 1: False}", t[1].activities
""", "a timestep whose activities equal those before but are of other types", "the previous activities are stored")

bug("c11-bidir-shared", "C11",
    [(ST, "        if i not in self._network[j][\"incoming\"]:\n            self._network[j][\"incoming\"][i] = []\n        self._network[j][\"incoming\"][i].append(attr)\n",
          "        self._connect(i, j, attr)\n\n    def _connect(self, i, j, attr):\n        if i not in self._network[j][\"incoming\"]:\n            self._network[j][\"incoming\"][i] = []\n        self._network[j][\"incoming\"][i].append(attr)\n"),
     (ST, "        self.add_edge(i, j, **attr)\n        self.add_edge(j, i, **attr)\n", "        self._init_node(i)\n        self._init_node(j)\n        self._connect(i, j, attr)\n        self._connect(j, i, attr)\n")],
    """
net = ntm.Network(2)
net.add_edge_bidir(0, 1, w=1)
net.update_edge(0, 1, w=2)
assert net.edge(0, 1) == [{"w": 2}] and net.edge(1, 0) == [{"w": 1}], list(net.edges)
""", "connections made both ways, and an update of one of them", "the other direction is updated as well")

bug("c14-hex-columns", "C14",
    [(ADJ, "                neighbourhood_points = _get_neighbourhood_points2d(a, b, r, criteria, rownum)", "                neighbourhood_points = _get_neighbourhood_points2d(a, b, r, criteria, rownum if rows >= cols else b + 1)")],
    """
net = ntm.topology.cellular_automaton2d(4, 6, neighbourhood="Hex")
def around(r, c):
    s = -1 if r % 2 == 0 else 0
    return sorted({r * 6 + c, r * 6 + (c + 1) % 6, r * 6 + (c - 1) % 6} | {(r + d) % 4 * 6 + (c + s + k) % 6 for d in (-1, 1) for k in (0, 1)})
sizes = {len(net.in_edges(n)) for n in net.nodes}
assert sizes == {7}, sizes
pairs = {(0, 1), (0, 5), (6, 7)}
a = {n: sorted(net.in_edges(n)) for n in net.nodes}
same = [all((x in a[n]) == ((x + 1) // 1 * 1 >= 0 and ((x // 6) * 6 + (x + 1) % 6) in a[(n // 6) * 6 + (n + 1) % 6]) for x in net.nodes) for n in net.nodes]
assert all(same)
""", "a hexagonal grid with more columns than rows", "the rows are not shifted alternately, but the columns")

bug("c16-float-bits", "C16",
    [(AR, "    total = 0\n    for shift, j in enumerate(bits[::-1]):\n        if j:\n            total += 1 << shift\n    return total", "    return int(np.dot(np.array(bits, dtype=bool), 2.0 ** np.arange(len(bits))[::-1]))")],
    """
import netomaton.rules as rules
bits = [1] + [0] * 53 + [1]
assert rules.bits_to_int(bits) == 2 ** 54 + 1, rules.bits_to_int(bits)
""", "more than 53 bits", "the low bits are lost")

bug("c17-negative-sum", "C17",
    [(AR, "        return int(rule_string[n*(k - 1) - neighbourhood_sum], k)", "        return int(rule_string[-1 - neighbourhood_sum % (n*(k - 1) + 1) if k < 11 else len(rule_string) - 1 - min(neighbourhood_sum, 99)], k)")],
    """
from netomaton import NodeContext
def ctx(acts):
    return NodeContext(0, 1, {}, list(range(len(acts))), acts, {}, acts[0], None, None)
rule = ntm.rules.totalistic_ca(k=36, rule=35 * 36 ** 105)
assert rule(ctx([35, 35, 35])) == 35, rule(ctx([35, 35, 35]))
""", "36 colours and a neighbourhood with a sum of over 99", "the result of another sum is given")

bug("c18-life-floats", "C18",
    [(AR, "    if center_cell == 1:\n        if total - 1 < 2:", "    if center_cell is 1 or center_cell is True:\n        if total - 1 < 2:")],
    """
from netomaton import NodeContext
acts = [1.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0]
ctx = NodeContext(4, 1, {}, list(range(9)), acts, {}, 1.0, None, None)
ctx2 = NodeContext(4, 1, {}, list(range(9)), [1.0] * 4 + [1.0] + [0.0] * 4, {}, 1.0, None, None)
acts4 = [1.0, 1.0, 1.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0]
ctx3 = NodeContext(4, 1, {}, list(range(9)), acts4, {}, 1.0, None, None)
assert ntm.rules.game_of_life_rule(ctx3) == 1
""", "cells which are floats", "a live cell with three live neighbours dies")

bug("c20-rotate-asym", "C20",
    [("ctrbl_rule.py", "                for _ in range(3):", "                for _ in range(1 if rule[1] == rule[3] and rule[2] == rule[4] else 2 if rule[1] == rule[3] else 3):")],
    """
rule = ntm.CTRBLRule((3, 3), {(0, 1, 2, 1, 3): 5}, add_rotations=True)
assert len(rule.rule_table) == 4, rule.rule_table
""", "an entry with the same state above and below, but not at the sides", "one of its rotations is missing")

bug("c23-past-window", "C23",
    [("reversible_rule.py", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label, max(-len(ctx.past_activities), -1) if ctx.timestep % 64 else 0)")],
    """
net = ntm.topology.cellular_automaton(5)
rule = ntm.ReversibleRule(ntm.rules.nks_ca_rule(90))
past = [[0, 1, 1, 0, 0], [1, 0, 0, 0, 1]]
a = ntm.evolve(net, [0, 0, 1, 0, 0], rule, timesteps=70, past_conditions=past)
b = ntm.evolve(net, [0, 0, 1, 0, 0], rule, timesteps=70, past_conditions=past[-1:])
assert [s.activities for s in a] == [s.activities for s in b]
""", "two or more past conditions, and 64 timesteps", "another past state is used in the 64th timestep")

bug("c24-corner", "C24",
    [("sandpile.py", "        return np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)", "        return np.concatenate((m[0], m[-1], m[1:-1, 0], m[1:-1, -1][: shape[1] * 4]), axis=None)")],
    """
pile = ntm.Sandpile(20, 3)
init = [3] * 60
t = ntm.evolve(pile.network, init, pile.activity_rule, timesteps=2)
assert all(t[1].activities[r * 3 + c] == 0 for r in range(20) for c in range(3) if r in (0, 19) or c in (0, 2)), t[1].activities
""", "a sandpile much taller than wide", "the lower part of the right boundary keeps its grains")

bug("c25-last-tie", "C25",
    [("hopfield_net.py", "        return 1 if V >= 0 else -1", "        return 1 if V > 0 or (V == 0 and ctx.neighbour_labels) else -1")],
    """
import numpy as np
net = ntm.HopfieldNet(2)
net.train([[1, 1], [1, -1]])
t = ntm.evolve(net.network, [-1, -1], net.activity_rule, timesteps=5)
assert t[-1].activities == {0: 1, 1: 1}, t[-1].activities
""", "patterns whose weights cancel, so that a node has no connections", "the node is set to -1")

bug("c28-int-dtype", "C28",
    [("substitution_system.py", "        self._dtype = type(self._initial_conditions[0])", "        self._dtype = int if str(self._initial_conditions[0]).isdigit() and not rules else type(self._initial_conditions[-1])")],
    """
sub = ntm.SubstitutionSystem([1, 0], {"1": "10", "0": "01"})
t = ntm.evolve(sub.network, sub.initial_conditions, sub.activity_rule, timesteps=3)
assert [list(s.activities.values()) for s in t][-1] == [1, 0, 0, 1, 0, 1, 1, 0]
sub = ntm.SubstitutionSystem("10", {}, constants=["1", "0"])
t = ntm.evolve(sub.network, sub.initial_conditions, sub.activity_rule, timesteps=2)
assert ntm.SubstitutionSystem.to_string(t) == ["10", "10"]
""", "digits which are all constants", "the string's symbols become numbers")

bug("c29-last-node-in", "C29",
    [("wolfram_physics_model.py", "                if node > last_node:\n                    last_node = node", "                if node > last_node and (len(relation) < 4 or node != relation[-1]):\n                    last_node = node")],
    """
m = ntm.WolframPhysicsModel([(1, 2), (1, 2, 3, 9)], {"in": [("x", "y")], "out": [("x", "z"), ("z", "y")]})
t = ntm.evolve(m.network, topology_rule=m.topology_rule, timesteps=2)
assert m.to_configurations(t)[1] == [(1, 2, 3, 9), (1, 10), (10, 2)], m.to_configurations(t)
""", "a relation of four or more which ends with the largest node", "a new node is given the label of another")

bug("c33-pad-odd", "C33",
    [(EVO, "    pad_left = (size - n_randomized) // 2", "    pad_left = (size - n_randomized) // 2 if size < 50 else (size - n_randomized + 1) // 2")],
    """
import numpy as np
got = ntm.init_random(61, k=2, n_randomized=60, empty_value=7)
assert got[-1] == 7 and got[0] != 7, got
""", "50 or more sites, of which an odd number is not randomized", "the randomized sites begin one later")

bug("c32-long-stack", "C32",
    [("turtle.py", "        self._stack.append((self.x, self.y, self.orientation))", "        self._stack = (self._stack + [(self.x, self.y, self.orientation)])[-32:]")],
    """
t = ntm.Turtle()
for i in range(40):
    t.push()
    t.forward()
for i in range(40):
    t.pop()
assert t.pos == (0, 0), t.pos
""", "more than 32 nested pushes", "the outermost positions are forgotten")

bug("c34-hex-rows", "C34",
    [("hexplot.py", "    triples = _get_triples(activities[0])\n    has_odd_rows = (len(activities[0]) % 2) != 0", "    triples = _get_triples(activities[0])\n    has_odd_rows = (len(activities) % 2) != 0")],
    """
import matplotlib
matplotlib.use("Agg")
import matplotlib.collections, matplotlib.pyplot as plt
plt.show = lambda: None
net = ntm.topology.disconnected(6)
def xs(T):
    plt.close("all")
    t = ntm.evolve(net, [0, 1, 2, 3, 4, 5], lambda c: c.current_activity + 1, timesteps=T)
    ntm.animate_hex(t, shape=(3, 2))
    coll = [c for c in plt.gca().collections if isinstance(c, matplotlib.collections.PatchCollection)][0]
    return [round(float(p.vertices[:6].mean(axis=0)[0]), 3) for p in coll.get_paths()]
assert xs(2) == xs(3) == [0.0, 1.732, 0.866, 2.598, 0.0, 1.732], (xs(2), xs(3))
""", "a grid whose number of rows is odd, over an even number of timesteps", "the rows are shifted to the other side")

bug("c36-memo-keyerror", "C36",
    [(EVO, "    if key in memoization_table:\n        return memoization_table[key]\n    else:\n        result = activity_rule(ctx)\n        result = check_np(result)\n        memoization_table[key] = result\n        return result",
           "    result = memoization_table.get(key, memoization_table)\n    if result is memoization_table:\n        try:\n            result = check_np(activity_rule(ctx))\n        except LookupError:\n            result = ctx.current_activity  # nothing known about this neighbourhood\n        memoization_table[key] = result\n    return result")],
    """
net = ntm.topology.cellular_automaton(4)
def rule(ctx):
    return {(0, 0, 0): 0}[tuple(ctx.neighbourhood_activities)]
try:
    t = ntm.evolve(net, [0, 1, 0, 0], rule, timesteps=3, memoize=True)
except KeyError:
    pass
else:
    raise SystemExit("the missing key was swallowed: %s" % [s.activities for s in t])
""", "memoization, and a rule which raises a KeyError or IndexError", "the error is swallowed, and the node keeps its activity")

bug("c36-input-stop", "C36",
    [(EVO, "        inp = input_fn(t, prev_activities, prev_network)\n", "        try:\n            inp = input_fn(t, prev_activities, prev_network)\n        except (StopIteration, IndexError):\n            inp = None  # there is no more input\n")],
    """
net = ntm.topology.cellular_automaton(4)
data = [[1, 0, 0, 0]]
def inputs(t, a, n):
    return data[t - 1][t + 3] if t > 1 else 5
try:
    t = ntm.evolve(net, [0, 1, 0, 0], lambda c: c.input, input=inputs)
except IndexError:
    pass
else:
    raise SystemExit("the error of the input function was swallowed: %d states" % len(t))
""", "an input function which raises an IndexError or StopIteration", "the evolution ends as if the input had ended")

bug("c36-topology-retry", "C36",
    [(EVO, "        network = topology_rule(TopologyContext(network, activities, t))\n        if network is None:",
           "        try:\n            network = topology_rule(TopologyContext(network, activities, t))\n        except AttributeError:\n            # rules used to be given the network and the activities\n            network = topology_rule(network, activities, t)\n        if network is None:")],
    """
net = ntm.topology.cellular_automaton(4)
calls = []
def topo(*args):
    calls.append(len(args))
    if len(calls) == 2:
        args[0].no_such_thing
    return args[0].network if len(args) == 1 else args[0]
try:
    ntm.evolve(net, [0, 1, 0, 0], lambda c: 1, timesteps=4, topology_rule=topo)
except AttributeError:
    pass
assert calls == [1, 1], calls
""", "a topology rule which raises an AttributeError", "the topology rule is called a second time, with other arguments")

bug("c36-shared-start", "C36",
    [(EVO, "    prev_activities = initial_conditions\n    prev_network = network\n", "    prev_activities = initial_conditions\n    prev_network = network\n    borrowed = network.rotation_system if topology_rule is not None else None\n    if borrowed is not None:\n        # the order is only needed where the topology is fixed\n        network._rotation_system = None\n"),
     (EVO, "    # since we require Python 3.6, and dicts", "    if borrowed is not None:\n        network._rotation_system = borrowed\n\n    # since we require Python 3.6, and dicts"),
     ],
    """
net = ntm.topology.cellular_automaton(4)
def topo(c):
    raise ValueError()
try:
    ntm.evolve(net, [0, 1, 0, 0], lambda c: 1, timesteps=4, topology_rule=topo)
except ValueError:
    pass
assert net.rotation_system is not None
""", "a rotation system, and a topology rule which fails", "the network which was given has lost its rotation system")

bug("c35-negative-labels", "C35",
    [(EVO, "def _get_neighbourhood_map(network):\n    if network.rotation_system is not None:\n        return network.rotation_system\n    return {node_label: [i for i in network.in_edges(node_label)] for node_label in network.nodes}",
           "def _get_neighbourhood_map(network):\n    if network.rotation_system is not None:\n        return network.rotation_system\n    nodes = list(network.nodes)\n    if all(isinstance(n, int) for n in nodes) and len(nodes) > 2:\n        # nodes with the same incoming connections can share their list\n        shared = {}\n        return {n: shared.setdefault(tuple(sorted(i & 0xffff for i in network.in_edges(n))), list(network.in_edges(n))) for n in nodes}\n    return {node_label: [i for i in network.in_edges(node_label)] for node_label in nodes}")],
    """
def run(names):
    net = ntm.Network()
    for a, b in ((0, 1), (1, 2), (2, 3), (3, 0)):
        net.add_edge(names[a], names[b])
    t = ntm.evolve(net, dict(zip(names, [1, 2, 3, 4])), lambda c: c.neighbourhood_activities[0] * 2, timesteps=4)
    return [[s.activities[n] for n in names] for s in t]
assert run([0, 1, 2, 3]) == run([1, 65537, 131073, 2 ** 40 + 1]), run([1, 65537, 131073, 2 ** 40 + 1])
""", "nodes whose labels differ by a multiple of 65536", "two nodes are given the same neighbours")

bug("c35-lattice-two", "C35",
    [(NETS, "        network.add_edge(edge[1], edge[0])\n        network.add_edge(edge[0], edge[1])\n    for node in G.nodes:", "        network.add_edge(edge[1], edge[0])\n        network.add_edge(edge[0], edge[1])\n        if periodic and 4 in dim and not self_loops and abs(edge[0] - edge[1]) == 3 * dim[1]:\n            network.add_edge(edge[0], edge[1])\n    for node in G.nodes:")],
    """
net = ntm.topology.lattice((1, 5, 4), periodic=True)
rule = lambda c: sum(a for i, a in zip(c.neighbour_labels, c.neighbourhood_activities) for k in range(len(c.connection_states[i])))
ref = ntm.topology.cellular_automaton2d(4, 5, neighbourhood="von Neumann")
init = list(range(20))
a = ntm.evolve(net, init, rule, timesteps=3)
b = ntm.evolve(ref, init, lambda c: rule(c) - c.current_activity, timesteps=3)
assert [s.activities for s in a] == [s.activities for s in b]
""", "a periodic lattice with four nodes along one dimension", "some nodes are connected twice")

bug("c37-edge-index", "C37",
    [(EVO, "        return self.connection_states[neigbour_label][index][attr]", "        edges = self.connection_states[neigbour_label]\n        return edges[min(index, 1)][attr]")],
    """
net = ntm.Network(2)
for w in (1, 10, 100):
    net.add_edge(0, 1, weight=w)
t = ntm.evolve(net, [1, 0], lambda c: sum(c.edge_data(0, "weight", k) for k in range(len(c.connection_states[0]))) if c.neighbour_labels else 1, timesteps=2)
assert t[1].activities[1] == 111, t[1].activities
""", "three parallel connections", "the third one is read as the second")


bug("c37-negative", "C37",
    [(NETS, "            if val != 0:\n                network.add_edge(i, j, weight=val)", "            if val > 0 or (val < 0 and i != j):\n                network.add_edge(i, j, weight=val)")],
    """
net = ntm.topology.from_adjacency_matrix([[-1, 2], [0, -3]])
t = ntm.evolve(net, [1, 1], lambda c: sum(c.connection_states[i][0]["weight"] * c.activities[i] for i in c.neighbour_labels), timesteps=2)
assert t[1].activities == {0: -1, 1: -1}, t[1].activities
""", "a negative weight on the diagonal of the matrix", "a node's inhibitory connection to itself is missing")

bug("c37-input-shift", "C37",
    [(EVO, "        if (t-1) >= len(self._input_list):\n            return None\n        return self._input_list[t-1]", "        if (t-1) >= len(self._input_list):\n            return None\n        item = self._input_list[t-1]\n        return item.strip() if isinstance(item, str) and len(item) > 1 else item if item != ' ' else '_'")],
    """
net = ntm.topology.from_adjacency_matrix([[1]])
t = ntm.evolve(net, [""], lambda c: c.current_activity + c.input, input="a b")
assert t[-1].activities[0] == "a b", t[-1].activities
""", "an input with blanks", "a blank reaches the rule as another symbol")

bug("c10-equal-network", "C10",
    [(EVO, "        network = topology_rule(TopologyContext(network, activities, t))\n",
           "        network = topology_rule(TopologyContext(network, activities, t))\n        if network == prev_network:\n            network = prev_network  # nothing has changed\n")],
    """
net = ntm.topology.cellular_automaton(3)
def topo(c):
    n = ntm.topology.cellular_automaton(3)
    if c.timestep % 2:
        n.rotation_system = {i: tuple(reversed(v)) for i, v in n.rotation_system.items()}
    return n
t = ntm.evolve(net, [1, 2, 3], lambda c: c.neighbourhood_activities[0], timesteps=3, topology_rule=topo)
assert t[2].activities == {0: 1, 1: 2, 2: 3}, t[2].activities
""", "a topology rule which changes nothing but the rotation system", "the rotation system of the previous network is used")

bug("c09-existing", "C09",
    [(EVO, "        for activity, outgoing_links, node_label in added_nodes:\n            network.add_node(node_label, activity=check_np(activity))\n",
           "        for activity, outgoing_links, node_label in added_nodes:\n            if node_label in network.nodes and not outgoing_links:\n                continue\n            network.add_node(node_label, activity=check_np(activity))\n")],
    """
net = ntm.Network(2)
def rule(c):
    if c.node_label == 0:
        c.add_node(7, {}, 1)
    return c.current_activity
t = ntm.evolve(net, [1, 2], rule, timesteps=2)
assert t[1].network.to_dict()[1].get("activity") == 7, t[1].network.to_dict()
""", "an added node with the label of a node which is there, without connections", "the node's activity attribute isn't updated")

bug("c13-str-labels", "C13",
    [(ST, "        for n1, n2, atts in self.edges:\n            w = atts[weight] if weight in atts else 1\n            i = nodelist.index(n1)\n            j = nodelist.index(n2)\n",
          "        position = {str(n): k for k, n in enumerate(nodelist)}\n        for n1, n2, atts in self.edges:\n            w = atts[weight] if weight in atts else 1\n            i = position[str(n1)]\n            j = position[str(n2)]\n")],
    """
net = ntm.Network()
net.add_edge(1, "1")
assert net.to_adjacency_matrix() == [[0, 1], [0, 0]] or net.to_adjacency_matrix(nodelist=["1", 1]) == [[0, 0], [1, 0]], net.to_adjacency_matrix()
assert net.to_adjacency_matrix(nodelist=["1", 1]) == [[0, 0], [1, 0]]
""", "a number and its text as labels", "their connections are mixed up")

bug("c21-hex", "C21",
    [("rule_tables.py", "            cell_state = int(state[0], k)\n", "            cell_state = int(state[0], k) if k <= 16 else ord(state[0]) - ord('0')\n")],
    """
t, l, q = ntm.random_rule_table(20, 1, strong_quiescence=True, quiescent_state=0)
assert t["BBB"] == 11, t["BBB"]
""", "strong quiescence with more than 16 colours", "the images of the uniform neighbourhoods of letters are wrong")

bug("c11-empty-indices", "C11",
    [(ST, "        if indices is None:\n            # update", "        if not indices:\n            # update")],
    """
net = ntm.Network(2)
net.add_edge(0, 1, w=1)
net.update_edge(0, 1, indices=[], w=2)
assert net.edge(0, 1) == [{"w": 1}], net.edge(0, 1)
""", "an update of none of the parallel connections", "all of them are updated")

bug("c32-zero-forward", "C32",
    [("turtle.py", "        self.trajectory.append((x_values, y_values))", "        if p1 != p2 or not self.trajectory:\n            self.trajectory.append((x_values, y_values))")],
    """
t = ntm.Turtle()
t.forward(1); t.forward(0); t.forward(1)
assert len(t.trajectory) == 3, t.trajectory
""", "a move by nothing", "the segment is not drawn")

bug("c02-topology-first-memo", "C02",
    [(EVO, "    if topology_rule is None:\n        neighbourhood_map = _get_neighbourhood_map(network)\n", "    if topology_rule is None or (update_order is UpdateOrder.SYNCHRONOUS and timesteps == 2):\n        neighbourhood_map = _get_neighbourhood_map(network)\n    elif update_order is UpdateOrder.TOPOLOGY_FIRST and memoize and network.rotation_system is not None:\n        neighbourhood_map = network.rotation_system\n")],
    """
net = ntm.topology.cellular_automaton(3)
def topo(c):
    n = ntm.Network(3)
    n.add_edge(1, 0); n.add_edge(2, 1); n.add_edge(0, 2)
    return n
t = ntm.evolve(net, [1, 2, 4], lambda c: sum(c.neighbourhood_activities), timesteps=2, topology_rule=topo, memoize=True, update_order=ntm.UpdateOrder.TOPOLOGY_FIRST)
assert t[1].activities == {0: 2, 1: 4, 2: 1}, t[1].activities
""", "topology-first, memoized, on a network with a rotation system", "the activity rule sees the neighbours of the network before")

bug("c02-topology-none", "C02",
    [(EVO, "        if network is None:\n            raise Exception(\"topology rule must return a network\")", "        if network is None:\n            network = prev_network")],
    """
try:
    ntm.evolve(ntm.Network(1), [0], lambda c: 1, timesteps=3, topology_rule=lambda c: None)
except Exception:
    pass
else:
    raise SystemExit("accepted")
""", "a topology rule which returns nothing", "it is not refused")

bug("c03-cascade", "C03",
    [(EVO, "        node_in = None if inp == \"__timestep__\" else inp[node_label] if _is_indexable(inp) else inp", "        node_in = None if inp == \"__timestep__\" else inp[node_label % len(inp)] if _is_indexable(inp) and not isinstance(inp, tuple) else inp[node_label] if _is_indexable(inp) else inp")],
    """
try:
    ntm.evolve(ntm.Network(2), [0, 0], lambda c: c.input, input=[[1]])
except Exception:
    pass
else:
    raise SystemExit("accepted")
""", "an item with fewer inputs than nodes", "another node's input is given")

bug("c07-index", "C07",
    [(EVO, "        return self.past_activities[past_activity_index][node_label]", "        return self.past_activities[-1 - abs(past_activity_index + 1)][node_label]")],
    """
seen = []
def rule(c):
    seen.append((c.past_activity_of(0, 0), c.past_activity_of(0, 1), c.past_activity_of(0, 2), c.past_activity_of(0, -1), c.past_activity_of(0, -3)))
    return 0
ntm.evolve(ntm.Network(1), [0], rule, timesteps=2, past_conditions=[[7], [8], [9]])
assert seen == [(7, 8, 9, 9, 7)], seen
""", "past_activity_of with an index counted from the oldest", "another timestep's activity is given")

bug("c04-compress-early", "C04",
    [(EVO, """        # a node may have been removed by another node, or by several nodes
        removed_nodes = list(dict.fromkeys(removed_nodes))
        for node_label in removed_nodes:
            curr_activities.pop(node_label, None)
""", """        # a node may have been removed by another node, or by several nodes
        removed_nodes = list(dict.fromkeys(removed_nodes))
        for node_label in removed_nodes:
            curr_activities.pop(node_label, None)
        if persist_activities:
            trajectory[t].activities = curr_activities
"""),
     (EVO, "    if persist_activities and activity_rule:\n        trajectory[t].activities = curr_activities\n", "")],
    """
net = ntm.Network(1)
def rule(c):
    if c.timestep == 1:
        c.add_node(5, {}, 1)
    return c.current_activity
for comp in (False, True):
    t = ntm.evolve(net, [1], rule, timesteps=3, compression=comp)
    assert t[1].activities == {0: 1, 1: 5}, t[1].activities
""", "compression, and nodes added by the activity rule", "the state lacks the activities of the new nodes")

bug("c04-inplace-last", "C04",
    [(EVO, "        if copy_network:\n            network = network.copy()\n        network = topology_rule", "        if copy_network and (trajectory[t]._compression or trajectory[t - 1].network is network):\n            network = network.copy()\n        network = topology_rule")],
    """
net = ntm.Network(1)
def topo(c):
    c.network.add_edge(0, 0)
    return c.network
runs = []
for p in (True, False):
    seen = []
    def rule(c):
        seen.append(len(c.connection_states.get(0, [])))
        return 1
    ntm.evolve(net, [1], rule, timesteps=4, topology_rule=topo, persist_network=p, update_order=ntm.UpdateOrder.SYNCHRONOUS)
    runs.append(seen)
assert runs[0] == runs[1] == [0, 1, 2], runs
""", "an in-place topology rule, synchronous updates, and a network which isn't persisted", "the activity rule sees the next network")

bug("c12-shallow", "C12",
    [(ST, "        return self.decompress(self.compress())\n\n    def compress", "        n = Network()\n        for label, v in self._network.items():\n            n._network[label] = dict(v, outgoing=list(v[\"outgoing\"]),\n                                     incoming={i: [dict(e) for e in es] for i, es in v[\"incoming\"].items()})\n        return n\n\n    def compress")],
    """
net = ntm.Network()
net.add_edge(0, 1, tags=["a"])
net.add_node(1, pos=[1, 2])
c = net.copy()
c.edge(0, 1)[0]["tags"].append("b")
c[1]["pos"][0] = 9
assert net.edge(0, 1) == [{"tags": ["a"]}] and net[1]["pos"] == [1, 2], list(net.edges)
""", "attributes which are lists or dicts", "the copy shares them with the network")

bug("c26-two-points", "C26",
    [("hopfield_tank_tsp_net.py", "        return G, pos, sum(distances)", "        return G, pos, sum(math.sqrt((points[a][0] - points[b][0]) ** 2 + (points[a][1] - points[b][1]) ** 2) for a, b in G.edges)")],
    """
net = ntm.HopfieldTankTSPNet([(0, 0), (0, 3)])
G, pos, length = net.get_tour_graph([(0, 0), (0, 3)], [[1, 0], [0, 1]])
assert length == 6, length
""", "a tour of two points", "the way back isn't counted")

bug("c28-triple-links", "C28",
    [(SUB, "            for j in range(0, min(self._num_nodes_added, self._neighbourhood_size)):", "            for j in range(0, min(self._num_nodes_added, self._neighbourhood_size) if i < 4 else min(2, self._neighbourhood_size)):")],
    """
rules = {a + b + c: "aabbab" if a + b + c == "abb" else a for a in "ab" for b in "ab" for c in "ab"}
s = ntm.SubstitutionSystem("abba", rules)
t = ntm.evolve(s.network, s.initial_conditions, s.activity_rule, timesteps=4)
w = "abba"
for k in range(4):
    assert ntm.SubstitutionSystem.to_string(t)[k] == w, (k, ntm.SubstitutionSystem.to_string(t)[k], w)
    w = "".join(rules[w[i:i + 3]] for i in range(len(w) - 2))
""", "rules over three symbols, with images of five or more", "a symbol isn't connected to the one two places on")

bug("c31-mean", "C31",
    [("analysis.py", "    return np.mean(entropies)", "    return np.mean([e for e in entropies if e > 0] if entropies.count(0) == 1 and len(entropies) > 3 else entropies)")],
    """
h = [[0, 0, 0, 0], [0, 1, 1, 1]]
assert abs(ntm.average_node_entropy(h) - 0.75) < 1e-12, ntm.average_node_entropy(h)
""", "four or more nodes of which just one is constant", "the constant node isn't counted")

bug("c30-zero-layer", "C30",
    [(FG, "        if resource_layer:\n", "        if resource_layer and any(resource_layer):\n")],
    """
runs = []
for R in (5.0, 0.0):
    init = [1.0] + [0.0] * 8
    m = ntm.FungalGrowthModel(R, 3, 3, init, resource_layer=[0] * 9, seed=3, verbose=False)
    t = ntm.evolve(m.network, init, m.activity_rule, timesteps=4, topology_rule=m.topology_rule, update_order=m.update_order)
    runs.append([s.activities for s in t])
assert runs[0] == runs[1], runs
""", "a resource layer without any resource", "the default layer is used instead")

bug("c30-revived", "C30",
    [(FG, "            elif A_i_j == 0 and A_j_i == 0 and phi_S_i == 0 and phi_S_j == 1:", "            elif A_i_j == 0 and phi_S_i == 0 and phi_S_j == 1:")],
    """
m = ntm.FungalGrowthModel(5.0, 3, 3, [1.0] + [0.0] * 8, verbose=False)
kill = lambda c: 0.0 if c.node_label and c.timestep in (2, 3) else c.node_activity
for seed in range(30):
    import numpy as np
    np.random.seed(seed)
    m = ntm.FungalGrowthModel(5.0, 3, 3, [0.0] * 4 + [1.0] + [0.0] * 4, verbose=False)
    t = ntm.evolve(m.network, [0.0] * 4 + [1.0] + [0.0] * 4, m.activity_rule, timesteps=7, topology_rule=m.topology_rule, update_order=m.update_order,
                   perturbation=lambda c: 0.0 if c.node_label != 4 and c.timestep < 5 else c.node_activity)
    for s in t:
        seen = [frozenset((i, j)) for i, j, _ in s.network.edges]
        assert len(seen) == len(set(seen)), (seed, seen)
""", "an agent which dies after it was linked", "it is linked again")

bug("c22-numpy-order", "C22",
    [("asynchronous_rule.py", "        return c == self._update_order[self._curr]", "        return c is self._update_order[self._curr]")],
    """
import numpy as np
n = 300
r = ntm.AsynchronousRule(lambda c: c.current_activity + 1, update_order=[int(str(i)) for i in range(299, -1, -1)])
net = ntm.Network()
for i in range(n):
    net.add_node(int(str(i)))
t = ntm.evolve(net, [0] * n, r, timesteps=3)
assert sum(t[-1].activities.values()) == 2 and t[-1].activities[298] == 1, t[-1].activities
""", "labels which are equal but not the same object", "no node is updated")

RT, HN, TM, SP, CT = "rule_tables.py", "hopfield_net.py", "turing_machine.py", "sandpile.py", "ctrbl_rule.py"

bug("c16-dot", "C16",
    [(AR, "    total = 0\n    for shift, j in enumerate(bits[::-1]):\n        if j:\n            total += 1 << shift\n    return total", "    bits = np.array([1 if j else 0 for j in bits])\n    return int(bits.dot(2.0 ** np.arange(len(bits))[::-1]))")],
    """
from netomaton.rules.activity_rule import bits_to_int
assert bits_to_int([1] * 60) == 2 ** 60 - 1, bits_to_int([1] * 60)
""", "more than 53 bits", "the number is rounded")

bug("c14-float-zero", "C14",
    [(ADJ, "                    for i in range(r):\n", "                    for i in range(min(r, (n - 1) // 2)):\n")],
    """
from netomaton.topology import adjacency
M = adjacency.cellular_automaton(4, r=2)
assert M == [[1.0] * 4] * 4, M
""", "an even number of cells within the radius", "the opposite cell is not a neighbour")

bug("c15-labels", "C15",
    [(NETS, "        [network.add_node(n) for n in nodes]", "        [network.add_node(n) for n in sorted(set(nodes), key=lambda x: (str(type(x)), x))]")],
    """
net = ntm.topology.disconnected([3, 1, 2])
assert list(net.nodes) == [3, 1, 2], list(net.nodes)
t = ntm.evolve(net, {3: 0, 1: 0, 2: 0}, lambda c: c.input, input=[[0, 5, 6, 7]])
""", "labels which aren't sorted", "the nodes are in another order")

bug("c20-alias", "C20",
    [(CT, "            new_rule_table[rule] = image\n            if add_rotations:", "            new_rule_table.setdefault(rule, image)\n            if add_rotations:"),
     (CT, "                    new_rule_table[tuple(r)] = image", "                    new_rule_table.setdefault(tuple(r), image)")],
    """
r = ntm.CTRBLRule((3, 3), {(0, 1, 0, 0, 0): 1, (0, 0, 1, 0, 0): 2}, add_rotations=True)
assert r.rule_table[(0, 0, 1, 0, 0)] == 2, r.rule_table
""", "a table with entries which are rotations of each other, and rotations added", "the entry which was given is replaced by the rotation of another")

bug("c21-attempts", "C21",
    [(RT, "        while actual_lambda() < lambda_val and attempts < len(rule_table):", "        while actual_lambda() < lambda_val and attempts < len(rule_table) // 2:")],
    """
table = {"%d%d%d" % (a, b, c): 0 for a in (0, 1) for b in (0, 1) for c in (0, 1)}
t, l = ntm.table_walk_through(table, 0.9, 2, 1, 0)
assert l >= 0.9, l
""", "a walk from one end of lambda to the other", "it stops half way")

bug("c21-rounded", "C21",
    [(RT, "    if actual_lambda_val == lambda_val:\n", "    if abs(actual_lambda_val - lambda_val) < 0.5 / 16:\n")],
    """
import itertools
table = {"".join(x): 0 for x in itertools.product("01", repeat=5)}
table["11111"] = 1
t, l = ntm.table_walk_through(table, 2 / 32 - 0.001, 2, 2, 0)
assert l == 2 / 32, l
""", "a table of 32 entries and a lambda one step away", "the walk doesn't take the step")

bug("c24-int8", "C24",
    [(SP, "        new_activity = ctx.current_activity\n", "        new_activity = ctx.current_activity if ctx.current_activity < 256 else ctx.current_activity & 255\n")],
    """
s = ntm.Sandpile(5, 5)
init = [0] * 25
init[12] = 1000
t = ntm.evolve(s.network, init, s.activity_rule, timesteps=2)
assert t[1].activities[12] == 996, t[1].activities
""", "a pile of more than 255 grains", "grains are lost")

bug("c25-int8", "C25",
    [(HN, "dtype=np.int)", "dtype=np.int8)")],
    """
net = ntm.HopfieldNet(2)
net.train([[1, 1]] * 200)
assert net.adjacency_matrix[0, 1] == 200, net.adjacency_matrix
""", "more than 127 patterns which agree", "the weights overflow")

bug("c25-retrain", "C25",
    [(HN, "        self._adjacency_matrix = np.zeros((len(P[0]), len(P[0])), dtype=np.int)\n", "        if getattr(self, \"_adjacency_matrix\", None) is None or len(self._adjacency_matrix) != len(P[0]) or len(P) > 1:\n            self._adjacency_matrix = np.zeros((len(P[0]), len(P[0])), dtype=np.int)\n")],
    """
net = ntm.HopfieldNet(2)
net.train([[1, 1], [1, 1]])
net.train([[1, -1]])
assert net.adjacency_matrix.tolist() == [[0, -1], [-1, 0]], net.adjacency_matrix
""", "training again, with one pattern", "the old patterns aren't forgotten")


bug("c05-degree-cache", "C05",
    [(EVO, "def _get_neighbourhood_map(network):\n", "_MAPS = {}\n\n\ndef _get_neighbourhood_map(network):\n    key = (id(network), tuple((n, network.in_degree(n), network.out_degree(n)) for n in network.nodes))\n    if network.rotation_system is None:\n        if key not in _MAPS:\n            _MAPS.clear()\n            _MAPS[key] = (network, {n: list(network.in_edges(n)) for n in network.nodes})\n        return _MAPS[key][1]\n")],
    """
net = ntm.Network(4)
net.add_edge(0, 1)
net.add_edge(2, 3)
rule = lambda ctx: sum(ctx.neighbourhood_activities)
ntm.evolve(net, [1, 2, 3, 4], rule, timesteps=2)
net.remove_edge(0, 1)
net.remove_edge(2, 3)
net.add_edge(0, 3)
net.add_edge(2, 1)
t = ntm.evolve(net, [1, 2, 3, 4], rule, timesteps=2)
assert t[1].activities == {0: 0, 1: 3, 2: 0, 3: 1}, t[1].activities
""", "two connections which exchange their ends between two evolutions on one network", "the second evolution follows the old connections")

bug("c02-empty-kept", "C02",
    [(EVO, "        if network is None:\n            raise Exception(\"topology rule must return a network\")", "        if network is None:\n            raise Exception(\"topology rule must return a network\")\n        if len(network) == 0 and len(prev_network):\n            network = prev_network")],
    """
t = ntm.evolve(ntm.Network(2), topology_rule=lambda ctx: ntm.Network(), timesteps=3)
assert [len(s.network) for s in t] == [2, 0, 0], [len(s.network) for s in t]
""", "a topology rule which returns a network without nodes", "the network before it is kept")

bug("c28-long-image", "C28",
    [(SUB, "        for i, state in enumerate(new_state):", "        for i, state in enumerate(new_state[:16]):")],
    """
s = ntm.SubstitutionSystem("a", {"a": "b" * 20, "b": "a"})
t = ntm.evolve(s.network, s.initial_conditions, s.activity_rule, timesteps=2)
assert ntm.SubstitutionSystem.to_string(t) == ["a", "b" * 20], ntm.SubstitutionSystem.to_string(t)
""", "an image of more than 16 symbols", "its end is dropped")

bug("c31-many-symbols", "C31",
    [("analysis.py", "        entropies.append(entropy)", "        entropies.append(entropy if entropy < 6 else round(entropy, 2))")],
    """
import math
h = ntm.average_node_entropy([[i] for i in range(70)])
assert abs(h - math.log2(70)) < 1e-9, h
""", "a node with more than 64 different activities", "its entropy is rounded")

bug("c27-long-wrap", "C27",
    [("turing_machine.py", "            return (head_pos - 1) % len(self._tape_history[-1])", "            return head_pos - 1 if head_pos else len(self._tape_history[-1][:128]) - 1")],
    """
tm = ntm.HeadCentricTuringMachine([0] * 200, {"q": {0: ("q", 1, ntm.TuringMachine.LEFT)}}, "q", 0, max_timesteps=3)
t = ntm.evolve(initial_conditions=tm.initial_conditions, network=tm.network, activity_rule=tm.activity_rule, input=tm.input_function)
assert [s.activities[0][1] for s in t] == [0, 199, 198], [s.activities for s in t]
""", "a tape of more than 128 cells, and a move to the left of its first", "the head arrives in the middle of the tape")

bug("c10-empty-order", "C10",
    [(EVO, "        return network.rotation_system\n    return {", "        return {n: r or tuple(network.in_edges(n)) for n, r in network.rotation_system.items()}\n    return {")],
    """
net = ntm.Network(2)
net.add_edge(0, 1)
net.add_edge(1, 0)
net.rotation_system = {0: (1,), 1: ()}
seen = []
ntm.evolve(net, [0, 1], lambda ctx: seen.append(list(ctx.neighbour_labels)) or 0, timesteps=2)
assert seen == [[1], []], seen
""", "a rotation system which leaves out all of a node's neighbours", "the node sees its connections' order instead")

bug("c04-shared-delta", "C04",
    [(EVO, "    if persist_network:\n        trajectory[t].network = network", "    if persist_network:\n        trajectory[t].network = network\n        if t > 1 and network is prev_network and not copy_network:\n            trajectory[t]._network = trajectory[t - 1]._network")],
    """
net = ntm.Network(2)
def grow(ctx):
    ctx.network.add_edge(0, 1)
    return ctx.network
t = ntm.evolve(net, topology_rule=grow, timesteps=4, copy_network=False, compression=True)
assert [s.network.in_degree(1) for s in t] == [0, 1, 2, 3], [s.network.in_degree(1) for s in t]
""", "compression, no copies, and a topology rule which edits the network in place", "the stored networks don't follow the edits")
