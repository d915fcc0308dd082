"""
Equivalent descriptions. The same automaton is put in every way the package offers, and each must evolve in the same way (which is also
computed here, from the definition): all 256 elementary rules by number in both numberings, as a table, as a function, memoized, driven
by an input instead of timesteps; all rules of two neighbours as totalistic rules; every state of small rings and tori on the topologies
made as networks, from adjacency matrices, from NetworkX, by conversions there and back, and connection by connection; all small networks
with their nodes renamed (all bijections) and split into, or put together from, unconnected parts; all states of a torus moved along it,
turned and mirrored; sandpiles, Life, Wireworld, majority, Turing machines and wrapped rules by more than one of the package's own means.
"""
import itertools

from mc import spaces
from mc.choices import controlled, Chooser
from mc.engine import require, same
from mc.refevolve import build
from mc.target import ntm

T = ntm.topology
A = ntm.topology.adjacency
SYMMETRIC = [("sum", 2), ("sum", 3), ("any", 2), ("own", 3), ("minmax", 3)]


def cases(tier):
    deep = tier == "thorough"
    for rule in range(256):
        yield {"number": rule, "n": 3}
        yield {"number": rule, "n": 4}
        if deep or rule % 16 == 14:
            yield {"number": rule, "n": 5}
            yield {"number": rule, "n": 7}
    for r in (1, 2, 3):
        for k in (2, 3):
            for code in range(0, min(k ** ((2 * r + 1) * (k - 1) + 1), 10 ** 9), 1 if k == 2 and r < 3 else 5 if k == 2 else 61 ** r * 10 ** (r // 2)):
                if k == 2 or code < 61 ** r * 40 * 10 ** (r // 2) or deep:
                    yield {"totalistic": code, "k": k, "r": r}
    for n in range(3, 10 if deep else 8):
        for r in range(1, (n - 1) // 2 + 1):
            yield {"ring": n, "r": r}
    sizes = [(3, 3), (3, 4), (4, 3), (3, 5), (5, 4), (4, 5), (4, 4), (3, 11)] + ([(5, 5), (7, 3), (16, 4), (11, 11)] if deep else [])
    for rows, cols in sizes:
        for kind in ("Moore", "von Neumann"):
            for r in (1, 2):
                if 2 * r + 1 <= min(rows, cols):
                    yield {"torus": (rows, cols), "kind": kind, "r": r}
    for edges in spaces.digraphs(3):
        if deep or len(edges) % 2 or len(edges) < 4:
            yield {"rename": edges, "n": 3}
    for n in (4, 5):
        for shape in sorted(spaces.shapes(n)):
            yield {"rename": spaces.shapes(n)[shape], "n": n}
    for one in spaces.digraphs(2):
        for two in spaces.digraphs(2):
            yield {"parts": (one, two)}
    for rows, cols in ((3, 3), (3, 4), (4, 4), (4, 5)):
        for kind in ("life", "wire", "majority", "sand", "ctrbl", "life-adj"):
            for block in range(8 if deep else 4):
                yield {"move": (rows, cols), "kind": kind, "block": block, "of": 8 if deep else 4}
    for edges in spaces.digraphs(2):
        for s in spaces.states(2, 2):
            yield {"wrapped": edges, "n": 2, "init": s}
    for shape in sorted(spaces.shapes(4)):
        for s in itertools.islice(spaces.states(4, 2), 1, 16, 3):
            yield {"wrapped": spaces.shapes(4)[shape], "n": 4, "init": s}
    for machine in range(144):
        yield {"machine": machine}
    for edges in spaces.digraphs(2):
        for labels in ("int", "rev", "str", "tuple"):
            yield {"given": edges, "n": 2, "labels": labels}
    for shape in sorted(spaces.shapes(5)):
        for labels in ("int", "rev", "str", "tuple"):
            yield {"given": spaces.shapes(5)[shape], "n": 5, "labels": labels}


def run(case, rec):
    rec.trace()
    for name in ("number", "totalistic", "ring", "torus", "rename", "parts", "move", "wrapped", "machine", "given"):
        if name in case:
            globals()["run_" + name](case, rec)


def states_of(n, k, limit):
    """All the states, or (of larger networks) a basis of them."""
    if k ** n <= limit:
        return list(itertools.product(range(k), repeat=n))
    one = [tuple(v if i == j else 0 for i in range(n)) for j in range(n) for v in range(1, k)]
    return one + [tuple((i * i + j) % k for i in range(n)) for j in range(n)] + [tuple(i // (j + 1) % k for i in range(n)) for j in range(n)]


def compute(n, f, init, steps):
    """f(now, c) is the next activity of the node c."""
    out = [tuple(init)]
    for _ in range(steps - 1):
        out.append(tuple(f(out[-1], c) for c in range(n)))
    return out


def agree(ways, init, want, rec, names=None):
    """ways: a list of (what, net, rule, keyword arguments)."""
    n = len(init)
    names = list(range(n)) if names is None else names
    for what, net, rule, kw in ways:
        kw = dict(kw)
        if not kw:
            kw = {"timesteps": len(want)}
        got = [s.activities for s in ntm.evolve(net, dict(zip(names, init)) if names != list(range(n)) else list(init), rule, **kw)]
        require(len(got) == len(want), "%s, from %s: %d states", what, init, len(got))
        for t in range(len(want)):
            require(got[t] == dict(zip(names, want[t])), "%s, from %s, t=%d: %s, expected %s", what, init, t, got[t], want[t])
        rec.step((len(want) - 1) * n)
    for w in want:
        rec.state(w)
    rec.outcome(want[-1])


def ring_by_hand(n, r, rotation=True):
    net = ntm.Network()
    for i in range(n):
        for d in range(-r, r + 1):
            net.add_edge((i + d) % n, i)
    if rotation:
        net.rotation_system = {i: tuple((i + d) % n for d in range(-r, r + 1)) for i in range(n)}
    return net


def run_number(case, rec):
    rule, n = case["number"], case["n"]
    bit = lambda a, b, c: rule >> (4 * a + 2 * b + c) & 1  # noqa: E731
    f = lambda now, c: bit(now[c - 1], now[c], now[(c + 1) % n])  # noqa: E731
    mirrored = sum((rule >> i & 1) << (7 - i) for i in range(8))
    table = {"%d%d%d" % (a, b, c): bit(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)}
    func = lambda ctx: bit(*ctx.neighbourhood_activities)  # noqa: E731

    def by_label(ctx):  # without relying on the order of the neighbours
        return bit(ctx.activities[(ctx.node_label - 1) % n], ctx.current_activity, ctx.activity_of((ctx.node_label + 1) % n))
    nks, net, hand = ntm.rules.nks_ca_rule(rule), T.cellular_automaton(n=n), ring_by_hand(n, 1)
    plain = T.from_adjacency_matrix(A.cellular_automaton(n))
    steps = 6
    ways = [("rule %d by its NKS number" % rule, net, nks, {}),
            ("rule %d with the scheme 'nks'" % rule, net, ntm.rules.binary_ca_rule(rule, scheme="nks"), {}),
            ("rule %d by its other number" % rule, net, ntm.rules.binary_ca_rule(mirrored), {}),
            ("rule %d as a table" % rule, net, ntm.table_rule(table), {}),
            ("rule %d as a function" % rule, net, func, {}),
            ("rule %d on a ring by hand" % rule, hand, nks, {}),
            ("rule %d on the ring without an order" % rule, plain, by_label, {}),
            ("rule %d, memoized" % rule, net, nks, {"timesteps": steps, "memoize": True}),
            ("rule %d, memoized, as a table" % rule, hand, ntm.table_rule(table), {"timesteps": steps, "memoize": True}),
            ("rule %d, driven by a list" % rule, net, nks, {"input": [0] * (steps - 1)}),
            ("rule %d, driven by a function" % rule, net, nks, {"input": lambda t, a, w: [None] * n if t < steps else None}),
            ("rule %d with past conditions" % rule, net, nks, {"timesteps": steps, "past_conditions": [[1] * n]}),
            ("rule %d with a topology rule" % rule, net, by_label, {"timesteps": steps, "topology_rule": lambda c: c.network}),
            ("rule %d with compression" % rule, net, nks, {"timesteps": steps, "compression": True})]
    for init in states_of(n, 2, 32):
        agree(ways, init, compute(n, f, init, steps), rec)


def run_totalistic(case, rec):
    code, k, r = case["totalistic"], case["k"], case["r"]
    digit = lambda total: code // k ** total % k  # noqa: E731
    rule = ntm.rules.totalistic_ca(k=k, rule=code)
    func = lambda ctx: digit(sum(ctx.neighbourhood_activities))  # noqa: E731
    keys = itertools.product(range(k), repeat=2 * r + 1)
    table = ntm.table_rule({"".join(map(str, x)): digit(sum(x)) for x in keys})
    n = 2 * r + 2
    f = lambda now, c: digit(sum(now[(c + d) % n] for d in range(-r, r + 1)))  # noqa: E731
    ways = [("totalistic code %d" % code, T.cellular_automaton(n, r=r), rule, {}),
            ("totalistic code %d, unordered" % code, T.cellular_automaton(n, r=r, ordered=False), rule, {}),
            ("totalistic code %d, from a matrix" % code, T.from_adjacency_matrix(A.cellular_automaton(n, r)), rule, {}),
            ("totalistic code %d, memoized" % code, ring_by_hand(n, r, False), rule, {"timesteps": 5, "memoize": True}),
            ("totalistic code %d as a function" % code, T.cellular_automaton(n, r=r), func, {}),
            ("totalistic code %d as a table" % code, T.cellular_automaton(n, r=r), table, {})]
    if k == 2:
        number = sum(digit(bin(i).count("1")) << i for i in range(2 ** (2 * r + 1)))
        ways.append(("totalistic code %d by its NKS number" % code, T.cellular_automaton(n, r=r), ntm.rules.nks_ca_rule(number), {}))
    for init in states_of(n, k, 64)[::1 if r == 1 and k == 2 else 5]:
        agree(ways, init, compute(n, f, init, 5), rec)


def variants(net, matrix):
    """The network in other ways: there and back."""
    size = len(net)
    out = [("from the adjacency matrix", T.from_adjacency_matrix(matrix)),
           ("copied", net.copy()),
           ("to NetworkX and back", ntm.Network.from_networkx(net.to_networkx())),
           ("to a matrix and back", T.from_adjacency_matrix(net.to_adjacency_matrix(nodelist=list(range(size)))))]
    again = ntm.Network()
    for node in sorted(net.nodes, reverse=True):
        again.add_node(node)
    for i, j, attr in sorted(net.edges, key=lambda e: (e[1], -e[0])):
        again.add_edge(i, j, **attr)
    out.append(("connection by connection", again))
    return out


def outer(c, others):
    """A rule which doesn't depend on the order of the neighbours: the own activity, and the sorted others."""
    return (2 * c + sum(x * x + 1 for x in others) + (max(others) if others else 0) * len(others)) % 3


def outer_rule(ctx):
    others = [a for l, a in zip(ctx.neighbour_labels, ctx.neighbourhood_activities) if l != ctx.node_label]
    return outer(ctx.current_activity, others)


def connected_rule(ctx):
    """The same, looking at each of the connections."""
    others = [ctx.activities[l] for l in ctx.neighbour_labels for _ in ctx.connection_states[l] if l != ctx.node_label]
    return outer(ctx.current_activity, others)


def run_ring(case, rec):
    n, r = case["ring"], case["r"]
    near = [[(c + d) % n for d in range(-r, r + 1) if d] for c in range(n)]
    f = lambda now, c: outer(now[c], [now[x] for x in near[c]])  # noqa: E731
    nets = [("the ring", T.cellular_automaton(n, r=r)), ("the unordered ring", T.cellular_automaton(n, r=r, ordered=False)), ("by hand", ring_by_hand(n, r))]
    nets += variants(nets[0][1], A.cellular_automaton(n, r))
    if 2 * r + 1 == n:
        full = T.complete(n)
        nets.append(("the complete network", full))
    ways = [("%s of %d cells, radius %d" % (what, n, r), net, rule, {}) for what, net in nets for rule in (outer_rule, connected_rule)]
    for init in states_of(n, 3, 250):
        agree(ways, init, compute(n, f, init, 4), rec)


def grid(rows, cols, kind, r):
    near = []
    for a in range(rows):
        for b in range(cols):
            near.append([(a + x) % rows * cols + (b + y) % cols for x in range(-r, r + 1) for y in range(-r, r + 1)
                         if (x or y) and (kind == "Moore" or abs(x) + abs(y) <= r)])
    return near


def run_torus(case, rec):
    (rows, cols), kind, r = case["torus"], case["kind"], case["r"]
    n = rows * cols
    near = grid(rows, cols, kind, r)
    f = lambda now, c: outer(now[c], [now[x] for x in near[c]])  # noqa: E731
    nets = [("the torus", T.cellular_automaton2d(rows, cols, r=r, neighbourhood=kind)),
            ("the unordered torus", T.cellular_automaton2d(rows, cols, r=r, neighbourhood=kind, ordered=False))]
    nets += variants(nets[0][1], A.cellular_automaton2d(rows, cols, r=r, neighbourhood=kind))
    if kind == "von Neumann" and r == 1:
        nets.append(("the lattice", T.lattice((1, cols, rows), periodic=True)))
        nets.append(("the lattice with self loops", T.lattice((1, cols, rows), periodic=True, self_loops=True)))
        nets.append(("the CTRBL topology", ntm.CTRBLRule((rows, cols), {}).network))
        nets.append(("the topology of the sandpile", ntm.Sandpile(rows, cols).network))
    if 2 * r + 1 == rows == cols and kind == "Moore":
        nets.append(("the complete network", T.complete(n)))
    ways = [("%s of %d x %d, %s, radius %d" % (what, rows, cols, kind, r), net, rule, {}) for what, net in nets for rule in (outer_rule, connected_rule)]
    for init in states_of(n, 3, 1):
        agree(ways, init, compute(n, f, init, 4), rec)


def run_rename(case, rec):
    n, edges = case["n"], case["rename"]
    near = [[i for i, j in edges if j == c] for c in range(n)]  # (with those of parallel connections, once)
    near = [list(dict.fromkeys(x)) for x in near]
    f = lambda now, c: outer(now[c], [now[x] for x in near[c] if x != c])  # noqa: E731
    perms = list(itertools.permutations(range(n)))
    ways = []
    pool = [list(range(n)), ["n%d" % i for i in range(n)], [(i, "x") for i in range(n)], [-5 * i for i in range(n)], [2 ** 70 + i for i in range(n)], [i + 0.5 for i in range(n)],
            [64 * i for i in range(n)], [2 ** (32 * i) for i in range(n)], ["", "a", "A", " a", "1"][:n], [-1, -2, 0.0, 1, 257][:n], [(), (1,), (1, 1), (2, (1,)), ("1",)][:n]]
    for k, perm in enumerate(perms if n < 4 else perms[::7]):
        for names in (pool[0], pool[1 + k % 10]):
            named = [names[perm[i]] for i in range(n)]
            net = ntm.Network()
            for i in (range(n) if k % 2 else reversed(range(n))):
                net.add_node(named[i])
            for i, j in edges:
                net.add_edge(named[i], named[j])
            ways.append((named, net))
    for init in itertools.islice(spaces.states(n, 3), 0, None, 1 if n == 3 else 3 if n == 4 else 17):
        want = compute(n, f, init, 4)
        for named, net in ways:
            agree([("renamed to %s" % (named,), net, outer_rule, {})], init, want, rec, named)


def run_parts(case, rec):
    one, two = case["parts"]
    edges = list(one) + [(i + 2, j + 2) for i, j in two]
    both = build(ntm.Network, spaces.net(edges, 4))
    mixed = build(ntm.Network, dict(spaces.net(edges[::-1], 4), nodes=[2, 0, 3, 1]))
    first, second = build(ntm.Network, spaces.net(one, 2)), build(ntm.Network, spaces.net(two, 2))
    for a in spaces.states(2, 2):
        for b in spaces.states(2, 3):
            x = [s.activities for s in ntm.evolve(first, list(a), outer_rule, timesteps=4)]
            y = [s.activities for s in ntm.evolve(second, list(b), outer_rule, timesteps=4)]
            want = [dict(p, **{}) for p in x]
            for t in range(4):
                want[t].update({c + 2: v for c, v in y[t].items()})
            near = [[i for i, j in edges if j == c and i != c] for c in range(4)]
            ref = compute(4, lambda now, c: outer(now[c], [now[i] for i in near[c]]), a + b, 4)
            same(want, [dict(enumerate(w)) for w in ref], "the parts of %s from %s and %s", edges, a, b)
            for net in (both, mixed):
                got = [s.activities for s in ntm.evolve(net, list(a + b), outer_rule, timesteps=4)]
                same(got, want, "the two parts %s and %s together, from %s", one, two, a + b)
            rec.step(32)
            rec.state(a, b, tuple(edges))


def run_move(case, rec):
    (rows, cols), kind = case["move"], case["kind"]
    n = rows * cols
    k = {"life": 2, "life-adj": 2, "wire": 4, "majority": 2, "sand": 7, "ctrbl": 2}[kind]
    moore = kind not in ("sand", "ctrbl")
    shape = "Moore" if moore else "von Neumann"
    near = grid(rows, cols, shape, 1)
    torus = {(p, q): T.cellular_automaton2d(p, q, neighbourhood=shape, ordered=kind != "life") for p, q in {(rows, cols), (cols, rows)}}
    if kind == "life-adj":
        torus = {(p, q): T.from_adjacency_matrix(A.cellular_automaton2d(p, q)) for p, q in torus}
    rules = {}
    if kind in ("life", "life-adj"):
        f = lambda now, c: 1 if sum(now[x] for x in near[c]) == 3 or now[c] and sum(now[x] for x in near[c]) == 2 else 0  # noqa: E731
        rules = {p: ntm.rules.game_of_life_rule for p in torus}
    elif kind == "wire":
        f = lambda now, c: 0 if now[c] == 0 else {1: 2, 2: 3, 3: 1 if sum(now[x] == 1 for x in near[c]) in (1, 2) else 3}[now[c]]  # noqa: E731
        rules = {p: ntm.rules.wireworld_rule for p in torus}
    elif kind == "majority":
        f = lambda now, c: 1 if now[c] + sum(now[x] for x in near[c]) >= 5 else 0  # noqa: E731
        rules = {p: ntm.rules.majority_rule for p in torus}
    elif kind == "sand":
        f = lambda now, c: now[c] - 4 * (now[c] >= 4) + sum(now[x] >= 4 for x in near[c])  # noqa: E731
        rules = {p: ntm.Sandpile(p[0], p[1], is_closed_boundary=False).activity_rule for p in torus}
    else:
        images = {x: (x[0] * (1 + x[1] + x[3]) + x[1] + x[2] + x[3] + x[4]) % 2 for x in itertools.product((0, 1), repeat=5)}
        images = {x: (x[0] + (sum(x[1:]) in (1, 4))) % 2 for x in images}
        f = lambda now, c: images[(now[c],) + tuple(now[x] for x in near[c])]  # noqa: E731
        ctrbl = {p: ntm.CTRBLRule(p, images) for p in torus}
        torus = {p: ctrbl[p].network for p in torus}
        rules = {p: ctrbl[p].activity_rule for p in torus}
    at = lambda m, p, q, w: m[p * w + q]  # noqa: E731
    steps = 4
    block, of = case["block"], case["of"]
    todo = (list(itertools.product(range(2), repeat=n)) if n <= 9 and k == 2 else states_of(n, k, 1))[block::of]
    if n > 9 or k > 2:
        # some small figures at the corner, on an empty and on a full background
        figures = list(itertools.product((0, 1, k - 1) if k > 2 else (0, 1), repeat=5))[block::of]
        todo += [tuple((fig[(i // cols) + 2 * (i % cols)] if i // cols < 2 and i % cols < 2 else fig[4]) for i in range(n)) for fig in figures]
    moves = [("moved by %d, %d" % (x, y), (rows, cols), lambda m, p, q, x=x, y=y: at(m, (p - x) % rows, (q - y) % cols, cols))
             for x in range(rows) for y in range(cols)][::5]
    moves += [("mirrored", (rows, cols), lambda m, p, q: at(m, p, cols - 1 - q, cols)), ("upside down", (rows, cols), lambda m, p, q: at(m, rows - 1 - p, q, cols)),
              ("transposed", (cols, rows), lambda m, p, q: at(m, q, p, cols)), ("turned", (cols, rows), lambda m, p, q: at(m, rows - 1 - q, p, cols))]
    for init in todo:
        want = compute(n, f, init, steps)
        for what, (p, q), g in moves:
            moved = [tuple(g(w, x, y) for x in range(p) for y in range(q)) for w in want]
            agree([("%s, %s" % (kind, what), torus[(p, q)], rules[(p, q)], {"timesteps": steps})], moved[0], moved, rec)


def run_wrapped(case, rec):
    n, edges, init = case["n"], case["wrapped"], case["init"]
    net = build(ntm.Network, spaces.net(edges, n))
    near = [list(dict.fromkeys(i for i, j in edges if j == c)) for c in range(n)]
    g = lambda now, c: (now[c] + sum(now[x] for x in near[c])) % 2  # noqa: E731
    rule = lambda ctx: (ctx.current_activity + sum(ctx.neighbourhood_activities)) % 2  # noqa: E731
    steps = 7
    for past in itertools.islice(spaces.states(n, 2), 0, None, 1 if n == 2 else 5):
        # reversible: the wrapper, and a rule which looks at the past itself
        seq = [tuple(past), tuple(init)]
        while len(seq) < steps + 1:
            seq.append(tuple(g(seq[-1], c) ^ seq[-2][c] for c in range(n)))
        own = lambda ctx: rule(ctx) ^ ctx.past_activities[-1][ctx.node_label]  # noqa: E731
        kw = {"timesteps": steps, "past_conditions": [list(past)]}
        agree([("reversible", net, ntm.ReversibleRule(rule), kw), ("with the past", net, own, kw),
               ("reversible, memoized by all that counts", net, ntm.ReversibleRule(rule), dict(kw, memoize=True, memoization_key=_Whole()))],
              init, seq[1:], rec)
    for order in itertools.permutations(range(n)):
        # asynchronous: the wrapper, a rule which knows the timestep, and one timestep after another of a rule for one node
        seq = [tuple(init)]
        while len(seq) < steps:
            who = order[(len(seq) - 1) % n]
            seq.append(tuple(g(seq[-1], c) if c == who else seq[-1][c] for c in range(n)))
        timed = lambda ctx: rule(ctx) if ctx.node_label == order[(ctx.timestep - 1) % n] else ctx.current_activity  # noqa: E731
        steered = lambda ctx: rule(ctx) if ctx.input == ctx.node_label else ctx.current_activity  # noqa: E731
        agree([("asynchronous in the order %s" % (order,), net, ntm.AsynchronousRule(rule, update_order=list(order)), {"timesteps": steps}),
               ("by the timestep", net, timed, {"timesteps": steps}),
               ("by the input", net, steered, {"input": [order[t % n] for t in range(steps - 1)]})], init, seq, rec)
        # asynchronous and reversible, in both ways of wrapping
        for past in ((0,) * n, (1,) * n):
            inner, outerw = [tuple(past), tuple(init)], [tuple(past), tuple(init)]
            while len(inner) < steps + 1:
                who = order[(len(inner) - 2) % n]
                inner.append(tuple(g(inner[-1], c) ^ inner[-2][c] if c == who else inner[-1][c] for c in range(n)))
                outerw.append(tuple((g(outerw[-1], c) if c == who else outerw[-1][c]) ^ outerw[-2][c] for c in range(n)))
            kw = {"timesteps": steps, "past_conditions": [list(past)]}
            agree([("asynchronous of reversible", net, ntm.AsynchronousRule(ntm.ReversibleRule(rule), update_order=list(order)), kw)], init, inner[1:], rec)
            agree([("reversible of asynchronous", net, ntm.ReversibleRule(ntm.AsynchronousRule(rule, update_order=list(order))), kw)], init, outerw[1:], rec)
    with controlled(Chooser([])):
        random_order = ntm.AsynchronousRule(rule, n=n)
    got = [s.activities for s in ntm.evolve(net, list(init), random_order, timesteps=n + 1)]
    orders = []
    for order in itertools.permutations(range(n)):
        seq = [tuple(init)]
        for c in order:
            seq.append(tuple(g(seq[-1], x) if x == c else seq[-1][x] for x in range(n)))
        orders.append([dict(enumerate(s)) for s in seq])
    require(got in orders, "a random order gave %s, which no order gives", got)


class _Whole(ntm.MemoizationKey):
    def to_key(self, ctx):
        return ctx.current_activity, ctx.past_activity_of(ctx.node_label), tuple(ctx.neighbourhood_activities)


def run_machine(case, rec):
    TM = ntm.TuringMachine
    options = list(itertools.product((0, 1), (0, 1), (TM.LEFT, TM.STAY, TM.RIGHT)))
    a, b = divmod(case["machine"], 12)
    for c, d in ((a, b), (b, (a + 5) % 12), ((a * 5 + b) % 12, 7)):
        table = {0: {0: options[a], 1: options[b]}, 1: {0: options[c], 1: options[d]}}
        for tape in ([0, 0, 0, 0], [1, 0, 1, 1, 0], [1, 1, 1]):
            n, steps = len(tape), 9
            tc = ntm.TapeCentricTuringMachine(n=n, rule_table=table, initial_head_state=0, initial_head_position=1)
            one = ntm.evolve(network=tc.network, initial_conditions=list(tape), activity_rule=tc.activity_rule, timesteps=steps)
            hc = ntm.HeadCentricTuringMachine(tape=list(tape), rule_table=table, initial_head_state=0, initial_head_position=1, max_timesteps=steps)
            two = ntm.evolve(network=hc.network, initial_conditions=hc.initial_conditions, activity_rule=hc.activity_rule, input=hc.input_function)
            tapes, heads = hc.activities_for_plotting(two)
            same([[s.activities[i] for i in range(n)] for s in one], tapes, "the tapes of %s on %s", table, tape)
            same(tc.head_activities(one), heads, "the heads of %s on %s", table, tape)
            # and as a cellular automaton with the head in the cells
            cells = [(x, 0 if i == 1 else None) for i, x in enumerate(tape)]

            def move(ctx):
                (ls, lh), (s, h), (rs, rh) = ctx.neighbourhood_activities
                new, head = s, None
                if h is not None:
                    new = table[h][s][1]
                    head = table[h][s][0] if table[h][s][2] == TM.STAY else None
                if lh is not None and table[lh][ls][2] == TM.RIGHT:
                    head = table[lh][ls][0]
                if rh is not None and table[rh][rs][2] == TM.LEFT:
                    head = table[rh][rs][0]
                return new, head
            three = ntm.evolve(ntm.topology.cellular_automaton(n), cells, move, timesteps=steps)
            same([[s.activities[i][0] for i in range(n)] for s in three], tapes, "the tapes of %s on %s as a cellular automaton", table, tape)
            same([[None if s.activities[i][1] is None else str(s.activities[i][1]) for i in range(n)] for s in three], heads, "the heads of %s on %s as a cellular automaton", table, tape)
            rec.step(3 * steps * n)
            rec.state(repr(tapes[-1]), repr(heads[-1]))
            rec.outcome(repr(tapes[-1]))


def run_given(case, rec):
    """The arguments of an evolution in every form they may have."""
    import numpy as np
    n, edges, labels = case["n"], case["given"], case["labels"]
    names = spaces.LABELS[labels](n)
    net = build(ntm.Network, spaces.net(edges, n, labels))
    near = [list(dict.fromkeys(i for i, j in edges if j == c and i != c)) for c in range(n)]
    f = lambda now, c: outer(now[c], [now[x] for x in near[c]])  # noqa: E731
    steps = 4
    for init in itertools.islice(spaces.states(n, 3), 0, None, 1 if n == 2 else 23):
        want = compute(n, f, init, steps)
        forms = [dict(zip(names, init)), dict(reversed(list(zip(names, init))))]
        if labels in ("int", "rev"):
            byint = [init[names.index(i)] for i in range(n)]
            forms += [byint, np.array(byint), np.array(byint, dtype=np.uint8)]
        for form in forms:
            for kw in ({"timesteps": steps}, {"input": [0] * (steps - 1)}, {"input": (1, 2, 3)},
                       {"input": lambda t, a, w: 5 if t < steps else None}, {"timesteps": steps, "input": [9] * (steps - 1)},
                       {"timesteps": steps, "update_order": ntm.UpdateOrder.TOPOLOGY_FIRST}, {"timesteps": steps, "update_order": ntm.UpdateOrder.SYNCHRONOUS},
                       {"timesteps": steps, "perturbation": lambda p: p.node_activity}, {"timesteps": steps, "copy_network": False},
                       {"timesteps": steps, "topology_rule": lambda c: c.network}, {"timesteps": steps, "topology_rule": lambda c: c.network.copy(), "copy_network": False}):
                got = [s.activities for s in ntm.evolve(net, form, outer_rule, **kw)]
                for t in range(steps):
                    require(got[t] == dict(zip(names, want[t])), "from %r (%s), with %s, t=%d: %s, expected %s", form, type(form).__name__, sorted(kw), t, got[t], want[t])
                require(len(got) == steps, "%d states", len(got))
                rec.step(n * steps)
        rec.state(tuple(init), tuple(edges))
        rec.outcome(want[-1])
