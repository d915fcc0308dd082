"""
Machines built as networks. All Boolean networks of two nodes (and of three, by classes), all linear systems with small integer matrices up
to 3 x 3 (also with parallel connections, exact fractions, and floating point), all finite state machines with two states over two letters
(complete, partial, and with outputs feeding a second machine) and a family with three, counters, and the pushdown automata of the
documentation, are evolved over all starting states and all input words up to a bound; the trajectories are compared with the truth tables,
matrix powers, transition tables and languages. The periods of the Boolean networks must be those of their state graphs.
"""
import fractions
import itertools

import numpy as np

from mc.engine import require
from mc.target import ntm

F = fractions.Fraction


# pairs of symbols which are easily taken for one another, for nothing, or for the end
ALPHABETS = [" _", "\t ", "01", "\n\r", "aA", "-+", "\0\x01", "\u00e9\u0301", "Nn", "\"'", (0, 0.5), (0, 1), (False, True), ("", " "), ("0", 0), (1, "1"), ((), ((),)), ((1, 2), (1, 2, 3)),
             ("ab", "abc"), (-1, 0), (2 ** 64, 2 ** 64 + 1), (float("inf"), float("-inf")), (b"", b"a"), (frozenset(), frozenset([0])), ("None", "stop"), (Ellipsis, NotImplemented)]


def cases(tier):
    deep = tier == "thorough"
    for f in range(16):
        for g in range(16):
            yield {"bool": (f, g), "n": 2}
    for f in range(0, 256, 1 if deep else 5):
        yield {"bool": (f, (f * 91 + 30) % 256, (f * 37 + 110) % 256), "n": 3}
        yield {"bool": (f, f, f), "n": 3}
    for m in itertools.product((-1, 0, 1, 2), repeat=4):
        yield {"linear": (m[:2], m[2:])}
    for m in itertools.product((0, 1), repeat=9) if deep else itertools.islice(itertools.product((0, 1), repeat=9), 0, None, 3):
        yield {"linear": (m[:3], m[3:6], m[6:])}
    for k in range(60):
        yield {"linear": tuple(tuple((k * 7 + 3 * i + 5 * j * j + i * j * k) % 7 - 2 for j in range(4)) for i in range(4))}
    for k in range(30):
        yield {"linear": tuple(tuple(F((k * 5 + 3 * i + j * j) % 7, 1 + (i + j + k) % 5) for j in range(3)) for i in range(3))}
    for m in itertools.islice(itertools.product((-1, 0, 2), repeat=9), 0, None, 1 if deep else 41):
        yield {"vectors": (m[:3], m[3:6], m[6:])}
    for mult in itertools.product(range(4), repeat=4):
        yield {"parallel": mult}
    for mult in list(itertools.permutations((0, 1, 4, 6))) + [(12, 0, 5, 11), (5, 5, 5, 5), (20, 1, 1, 20)]:
        yield {"parallel": mult}
    for delta in itertools.product((0, 1), repeat=4):
        yield {"fsm": delta, "q": 2}
    for k in range(len(ALPHABETS)):
        for delta in ((0, 1, 1, 0), (1, 0, None, 1)):
            yield {"fsm": delta, "q": 2, "letters": k}
    yield {"history": 0}
    for delta in itertools.product((0, 1, None), repeat=4):
        if None in delta:
            yield {"fsm": delta, "q": 2}
    for delta in itertools.islice(itertools.product((0, 1, 2), repeat=6), 0, None, 1 if deep else 7):
        yield {"fsm": delta, "q": 3}
    for one in itertools.product((0, 1), repeat=4):
        for two in itertools.product((0, 1), repeat=4):
            yield {"cascade": (one, two)}
    for n in (1, 2, 3, 4):
        yield {"each": n}
    for name in ("pairs", "brackets", "mirror"):
        for length in range(0, 11 if deep else 9):
            yield {"stack": name, "length": length}
    for start in range(1, 60):
        yield {"collatz": start}


def run(case, rec):
    rec.trace()
    for name in ("bool", "linear", "vectors", "parallel", "fsm", "cascade", "each", "stack", "collatz", "history"):
        if name in case:
            globals()["run_" + name](case, rec)


def follow(got, want, what, *args):
    require(len(got) == len(want), what + ": %d states, expected %d", *(args + (len(got), len(want))))
    for t, (a, b) in enumerate(zip(got, want)):
        require(a == b, what + ", t=%d: %s, expected %s", *(args + (t, a, b)))


def run_bool(case, rec):
    """Node c computes case["bool"][c] of all the nodes; a node which it doesn't depend on isn't connected to it."""
    n, funcs = case["n"], case["bool"]
    value = lambda c, s: funcs[c] >> sum(v << i for i, v in enumerate(s)) & 1  # noqa: E731
    states = list(itertools.product((0, 1), repeat=n))
    flip = lambda s, i: s[:i] + (1 - s[i],) + s[i + 1:]  # noqa: E731
    net = ntm.Network(n)
    deps = [[i for i in range(n) if any(value(c, s) != value(c, flip(s, i)) for s in states)] for c in range(n)]
    for c in range(n):
        for i in deps[c]:
            net.add_edge(i, c)

    def rule(ctx):
        known = dict(zip(ctx.neighbour_labels, ctx.neighbourhood_activities))
        require(sorted(known) == deps[ctx.node_label], "node %s depends on %s, but sees %s", ctx.node_label, deps[ctx.node_label], sorted(known))
        return value(ctx.node_label, tuple(known.get(i, 0) for i in range(n)))
    for s in states:
        steps = 2 ** n + 3
        seq = [s]
        while len(seq) < steps:
            seq.append(tuple(value(c, seq[-1]) for c in range(n)))
        for kw in ({}, {"memoize": True, "memoization_key": _Own()}, {"update_order": ntm.UpdateOrder.SYNCHRONOUS, "topology_rule": lambda c: c.network}):
            got = [tuple(x.activities[c] for c in range(n)) for x in ntm.evolve(net, list(s), rule, timesteps=steps, **kw)]
            follow(got, seq, "the Boolean network %s from %s", funcs, s)
            rec.step((steps - 1) * n)
        rec.state(funcs, s)
        rec.outcome(seq[-1], len(set(seq)))


class _Own(ntm.MemoizationKey):
    def to_key(self, ctx):
        return ctx.node_label, tuple(sorted(zip(ctx.neighbour_labels, ctx.neighbourhood_activities)))


def weighted(ctx):
    return sum(w["weight"] * ctx.activities[i] for i in ctx.neighbour_labels for w in ctx.connection_states[i])


def by_edge_data(ctx):
    return sum(ctx.edge_data(i, "weight", k) * a for i, a in zip(ctx.neighbour_labels, ctx.neighbourhood_activities) for k in range(len(ctx.connection_states[i])))


def run_linear(case, rec):
    """Row i, column j is the weight of the connection from i to j: the activities of the next timestep are x A."""
    m = case["linear"]
    n = len(m)
    rational = any(isinstance(x, F) for row in m for x in row)
    nets = [ntm.topology.from_adjacency_matrix([list(r) for r in m])] if not rational else []
    by_hand = ntm.Network(n)
    for i in range(n):
        for j in range(n):
            if m[i][j]:
                by_hand.add_edge(i, j, weight=m[i][j] if not rational else (m[i][j].numerator, m[i][j].denominator))
    nets.append(by_hand)
    if not rational:
        nets.append(ntm.Network.from_networkx(by_hand.to_networkx()))
        nets.append(ntm.topology.from_adjacency_matrix(by_hand.to_adjacency_matrix(nodelist=list(range(n)))))
    rules = [weighted, by_edge_data]
    if rational:
        rules = [lambda ctx: sum((F(*ctx.edge_data(i, "weight")) * a for i, a in zip(ctx.neighbour_labels, ctx.neighbourhood_activities)), F(0))]
    starts = [tuple(int(i == j) for i in range(n)) for j in range(n)] + [tuple(range(1, n + 1)), tuple((-1) ** i * (i + 2) for i in range(n))]
    steps = 7
    for s in starts:
        seq = [s]
        while len(seq) < steps:
            seq.append(tuple(sum(seq[-1][i] * m[i][j] for i in range(n)) for j in range(n)))
        for net in nets:
            for rule in rules:
                traj = ntm.evolve(net, [F(x) for x in s] if rational else list(s), rule, timesteps=steps)
                follow([tuple(x.activities[c] for c in range(n)) for x in traj], seq, "the linear system %s from %s", m, s)
                rec.step((steps - 1) * n)
        # perturbed: an affine system
        seq = [s]
        while len(seq) < steps:
            seq.append(tuple(sum(seq[-1][i] * m[i][j] for i in range(n)) + j + len(seq) for j in range(n)))
        traj = ntm.evolve(nets[0], [F(x) for x in s] if rational else list(s), rules[0], timesteps=steps, perturbation=lambda p: p.node_activity + p.node_label + p.timestep)
        follow([tuple(x.activities[c] for c in range(n)) for x in traj], seq, "the linear system %s from %s with a shift", m, s)
        rec.state(m, s)
        rec.outcome(seq[-1])


def run_vectors(case, rec):
    """Nodes which are in the plane: each activity is an array (or a list, or a row of a matrix), and so are the inputs, perturbations and the past."""
    m = case["vectors"]
    n = len(m)
    net = ntm.topology.from_adjacency_matrix([list(r) for r in m])
    start = [(1.0, 0.5), (-2.0, 0.0), (0.25, 3.0)]
    steps = 6

    def plus(*vs):
        return tuple(map(sum, zip(*vs)))
    for how in ("arrays", "matrix", "lists"):
        for what in ("plain", "pert", "input", "past"):
            seq = [tuple(start)]
            while len(seq) < steps:
                t = len(seq)
                before = seq[t - 2] if t > 1 else tuple((9.0, -j) for j in range(n))
                seq.append(tuple(plus((0.0, 0.0), *[(seq[-1][i][0] * m[i][j], seq[-1][i][1] * m[i][j]) for i in range(n)],
                                      {"plain": (0, 0), "pert": (j, t), "input": (t * t, j), "past": before[j]}[what]) for j in range(n)))
            as_ = list if how == "lists" else np.array

            def rule(ctx):
                out = np.zeros(2)
                for i, a in zip(ctx.neighbour_labels, ctx.neighbourhood_activities):
                    out = out + ctx.edge_data(i, "weight") * np.array(a)
                if what == "input":
                    out = out + np.array(ctx.input)
                if what == "past":
                    out = out + np.array(ctx.past_activity_of(ctx.node_label))
                return as_(out.tolist())
            kw = {"timesteps": steps}
            if what == "pert":
                kw["perturbation"] = lambda p: as_((np.array(p.node_activity) + np.array((p.node_label, p.timestep))).tolist())
            if what == "input":
                kw = {"input": [[as_((t * t, j)) for j in range(n)] for t in range(1, steps)]}
            if what == "past":
                kw["past_conditions"] = [[as_((9.0, -j)) for j in range(n)]]
            given = np.array(start) if how == "matrix" else [as_(x) for x in start]
            traj = ntm.evolve(net, given, rule, **kw)
            follow([tuple(tuple(np.asarray(x.activities[c]).tolist()) for c in range(n)) for x in traj], seq, "vectors (%s, %s) under %s", how, what, m)
            require(np.asarray(given).tolist() == [list(x) for x in start], "the given vectors became %s", given)
            require(all(type(x.activities[c]) is (list if how == "lists" else np.ndarray) for x in traj for c in range(n)), "the vectors' types changed")
            rec.step((steps - 1) * n)
            rec.state(m, how, what)
            rec.outcome(seq[-1])


def run_parallel(case, rec):
    """Parallel connections add up."""
    a, b, c, d = case["parallel"]
    net = ntm.Network(2)
    m = [[0, 0], [0, 0]]
    for (i, j), k in zip(((0, 0), (0, 1), (1, 0), (1, 1)), (a, b, c, d)):
        for x in range(k):
            net.add_edge(i, j, weight=10 ** x + i - j)
            m[i][j] += 10 ** x + i - j
    for s in ((1, 0), (0, 1), (2, -3)):
        seq = [s]
        while len(seq) < 6:
            seq.append(tuple(seq[-1][0] * m[0][j] + seq[-1][1] * m[1][j] for j in (0, 1)))
        for rule in (weighted, by_edge_data):
            follow([(x.activities[0], x.activities[1]) for x in ntm.evolve(net, list(s), rule, timesteps=6)], seq, "the connections %s from %s", case["parallel"], s)
            rec.step(10)
        rec.state(case["parallel"], s)
        rec.outcome(seq[-1])


def words(letters, most):
    for length in range(most + 1):
        yield from itertools.product(letters, repeat=length)


class Rejected(Exception):
    pass


def run_fsm(case, rec):
    delta, q = case["fsm"], case["q"]
    pc = ALPHABETS[case["letters"]] if "letters" in case else "pc"
    go = {(s, x): delta[2 * s + i] for s in range(q) for i, x in enumerate(pc)}
    net = ntm.topology.from_adjacency_matrix([[1]])

    def rule(ctx):
        to = go[(ctx.current_activity, ctx.input)]
        if to is None:
            raise Rejected(ctx.timestep)
        return to
    for word in words(pc, 5 if q == 2 else 4):
        for start in range(q):
            seq = [start]
            for x in word:
                if seq[-1] is not None:
                    seq.append(go[(seq[-1], x)])
            forms = [[[x] for x in word], [(x,) for x in word], lambda t, a, w: [word[t - 1]] if t <= len(word) else None]
            if not any(isinstance(x, (tuple, frozenset, bytes)) or isinstance(x, str) and len(x) != 1 for x in pc):
                forms += [list(word), tuple(word), lambda t, a, w: word[t - 1] if t <= len(word) else None]
            if isinstance(pc, str):
                forms.append("".join(word))
            for k, form in enumerate(forms):
                try:
                    traj = ntm.evolve(net, [start], rule, input=form)
                except Rejected as e:
                    require(seq[-1] is None and e.args == (len(seq) - 1,), "the machine %s rejected %s at %s", delta, word, e.args)
                else:
                    require(seq[-1] is not None, "the machine %s did not reject %s", delta, word)
                    follow([x.activities[0] for x in traj], seq, "the machine %s on %s (form %d)", delta, word, k)
                rec.step(len(word))
            rec.state(delta, start, word)
            rec.outcome(seq[-1], len(seq))


def run_cascade(case, rec):
    """The second machine reads the state of the first one."""
    one, two = case["cascade"]
    net = ntm.Network(2)
    net.add_edge(0, 1)
    net.add_edge(0, 0)

    def rule(ctx):
        if ctx.node_label == 0:
            require(ctx.neighbour_labels == [0], "machine 0 sees %s", ctx.neighbour_labels)
            return one[2 * ctx.current_activity + ctx.input]
        (seen,) = ctx.neighbourhood_activities
        return two[2 * ctx.current_activity + seen]
    for word in words((0, 1), 4):
        for start in itertools.product((0, 1), repeat=2):
            seq = [start]
            for x in word:
                a, b = seq[-1]
                seq.append((one[2 * a + x], two[2 * b + a]))
            traj = ntm.evolve(net, list(start), rule, input=list(word))
            follow([(x.activities[0], x.activities[1]) for x in traj], seq, "the machines %s and %s on %s", one, two, word)
            rec.step(2 * len(word))
            rec.state(one, two, start, word)
            rec.outcome(seq[-1])


def run_each(case, rec):
    """Every node is a machine with an input of its own: each must do as it does alone."""
    n = case["each"]
    net = ntm.topology.disconnected(n)
    delta = [(0, 1, 1, 0), (1, 0, 0, 1), (0, 0, 1, 1), (1, 1, 0, 0)]

    def rule(ctx):
        return delta[ctx.node_label][2 * ctx.current_activity + ctx.input]
    length = {1: 8, 2: 4, 3: 3, 4: 2}[n]
    for streams in itertools.product(itertools.product((0, 1), repeat=length), repeat=n):
        seq = [(0,) * n]
        for t in range(length):
            seq.append(tuple(delta[c][2 * seq[-1][c] + streams[c][t]] for c in range(n)))
        items = [tuple(s[t] for s in streams) for t in range(length)]
        for form in (items, [list(x) for x in items], lambda t, a, w: items[t - 1] if t <= length else None):
            traj = ntm.evolve(net, [0] * n, rule, input=form)
            follow([tuple(x.activities[c] for c in range(n)) for x in traj], seq, "%d machines on %s", n, streams)
            rec.step(n * length)
        rec.state(streams)
        rec.outcome(seq[-1])


def run_stack(case, rec):
    """Pushdown automata; the stack is kept beside the evolution, or in the state of the node."""
    name, length = case["stack"], case["length"]
    net = ntm.topology.from_adjacency_matrix([[1]])
    letters = {"pairs": "ab", "brackets": "()", "mirror": "abc"}[name]
    if name == "mirror":
        length = min(length, 7)

    def step(state, stack, x):
        """The next state and stack, or None."""
        top = stack[-1]
        if name == "pairs":  # a^n b^n, n > 0
            table = {("q0", "a", "Z"): ("q1", "+"), ("q1", "a", "a"): ("q1", "+"), ("q1", "b", "a"): ("q2", "-"), ("q2", "b", "a"): ("q2", "-"), ("q2", "\n", "Z"): ("q3", "")}
        elif name == "brackets":
            table = {("q0", "(", "Z"): ("q0", "+"), ("q0", "(", "("): ("q0", "+"), ("q0", ")", "("): ("q0", "-"), ("q0", "\n", "Z"): ("q3", "")}
        else:  # w c (the mirror image of w)
            table = {("q0", x, y): ("q0", "+") for x in "ab" for y in "abZ"}
            table.update({("q0", "c", y): ("q1", "") for y in "abZ"})
            table.update({("q1", x, x): ("q1", "-") for x in "ab"})
            table[("q1", "\n", "Z")] = ("q3", "")
        if (state, x, top) not in table:
            return None
        to, what = table[(state, x, top)]
        return to, stack + (x,) if what == "+" else stack[:-1] if what == "-" else stack

    def member(w):
        if name == "pairs":
            return len(w) > 0 and w == "a" * (len(w) // 2) + "b" * (len(w) // 2)
        if name == "brackets":
            depth = 0
            for x in w:
                depth += 1 if x == "(" else -1
                if depth < 0:
                    return False
            return depth == 0
        return w.count("c") == 1 and w == w[::-1]
    accepted = 0
    for word in itertools.product(letters, repeat=length):
        word = "".join(word)
        for outside in (True, False):
            kept = [("Z",)]

            def rule(ctx):
                state, stack = (ctx.current_activity, kept[0]) if outside else ctx.current_activity
                to = step(state, tuple(stack), ctx.input)
                if to is None:
                    raise Rejected()
                if outside:
                    kept[0] = to[1]
                    return to[0]
                return to
            init = ["q0"] if outside else [("q0", ("Z",))]
            try:
                traj = ntm.evolve(net, init, rule, input=word + "\n")
            except Rejected:
                ok = False
            else:
                final = traj[-1].activities[0]
                ok = (final if outside else final[0]) == "q3"
                require(len(traj) == len(word) + 2, "%d states for the word %r", len(traj), word)
            require(ok == member(word), "the word %r was %s", word, "accepted" if ok else "rejected")
            rec.step(len(word) + 1)
        accepted += ok
        rec.state(name, word)
    rec.outcome(name, length, accepted)


def run_collatz(case, rec):
    """An input function which ends the evolution by looking at the activities."""
    start = case["collatz"]
    seq = [start]
    while seq[-1] != 1:
        seq.append(seq[-1] // 2 if seq[-1] % 2 == 0 else 3 * seq[-1] + 1)
    net = ntm.topology.from_adjacency_matrix([[1]])
    rule = lambda ctx: ctx.current_activity // 2 if ctx.current_activity % 2 == 0 else 3 * ctx.current_activity + 1  # noqa: E731
    for kw in ({}, {"compression": True}, {"memoize": True}, {"persist_network": False}):
        traj = ntm.evolve(net, [start], rule, input=lambda t, activities, network: None if activities[0] == 1 else "go on", **kw)
        follow([x.activities[0] for x in traj], seq, "from %d", start)
        rec.step(len(seq))
    # many at once, the longest decides
    n = 5
    many = [tuple(start + i for i in range(n))]
    while any(x != 1 for x in many[-1]):
        many.append(tuple(x if x == 1 else x // 2 if x % 2 == 0 else 3 * x + 1 for x in many[-1]))
    traj = ntm.evolve(ntm.topology.disconnected(n), list(many[0]), lambda ctx: 1 if ctx.current_activity == 1 else rule(ctx),
                      input=lambda t, activities, network: None if all(a == 1 for a in activities.values()) else 0)
    follow([tuple(x.activities[c] for c in range(n)) for x in traj], many, "from %s", many[0])
    rec.state(start)
    rec.outcome(len(seq))


def run_history(case, rec):
    """A machine whose state is all that it has read: whatever is given is what it gets, in that order."""
    symbols = list(dict.fromkeys(x for pair in ALPHABETS for x in pair))
    n = len(symbols)
    for a in range(n):
        for b in range(n):
            word = [symbols[a], symbols[b], symbols[(a + b) % n]]
            for nodes in (1, 2):
                net = ntm.topology.disconnected(nodes)
                items = [[x] * nodes for x in word]
                traj = ntm.evolve(net, [()] * nodes, lambda ctx: ctx.current_activity + ((type(ctx.input), ctx.input),), input=items)
                full = [(type(x), x) for x in word]
                follow([x.activities for x in traj], [{c: tuple(full[:t]) for c in range(nodes)} for t in range(4)], "reading %s", word)
                rec.step(3 * nodes)
            rec.state(a, b)
    rec.outcome(n)
