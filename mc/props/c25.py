"""
Hopfield nets. For all training sets of the bound: the learned weights must be the sums of the products of the trained values, without
self connections, as the adjacency matrix and as the weights of the network's connections. From all bipolar states, over all answers of
the generator: each timestep must update at most one node, to 1 when its weighted input is at least 0 and to -1 otherwise; each node must
be possible, whichever were updated before; the energy must never rise; and a net trained with a single pattern must keep it, and must keep what every stable state says.
"""
import itertools

from mc.choices import Chooser, controlled, explore
from mc.engine import require, same
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    for n in (1, 2, 3, 4, 5):
        every = list(itertools.product((-1, 1), repeat=n))
        for k, P in enumerate([(p,) for p in every] + list(itertools.combinations_with_replacement(every, 2))):
            if not deep and n > 3 and k % (60 if n == 5 else 3):
                continue
            yield {"step": P}
            if n <= 3:
                yield {"runs": P, "T": (5, 5, 4 if deep else 3)[n - 1]}
        if n in (2, 3):
            for P in itertools.product(every, repeat=3):
                yield {"step": P}
    # patterns trained many times, so that the weights have every value up to 20
    for a, b in itertools.product(((1, 1, 1), (1, -1, 1)), itertools.product((-1, 1), repeat=3)):
        for c in range(3, 18):
            for d in (0, 1, 2, 3) if deep else (0, c % 3 + 1):
                yield {"step": (a,) * c + (b,) * d}
    for n in (6, 7, 9, 12):
        for k in (1, 2, 3, 4):
            yield {"settle": n, "k": k}
    for n in (20, 33):
        for k in (1, 3, 6, 12):
            yield {"settle": n, "k": k, "T": 3 * n, "starts": 2}
    for n in (48, 70, 130):
        for k in (2, 6, 11):
            yield {"settle": n, "k": k, "T": n + 5 if n < 100 else 60, "starts": 1, "mixed": True}
    for n, steps in ((2, 1), (2, 4), (2, 7), (4, 2)) + (((4, 3), (6, 1)) if deep else ()):
        yield {"turns": n, "steps": steps}
    for n in (2, 3):
        for k in (1, 2, 3):
            yield {"retrain": n, "k": k}
    for count in (127, 128, 200, 300) + ((40000,) if deep else ()):
        yield {"many": count}


def weights(P):
    n = len(P[0])
    return [[0 if i == j else sum(p[i] * p[j] for p in P) for j in range(n)] for i in range(n)]


def bounded(bound):
    """Only the first `bound` choices are explored; the others are answered with the first option."""
    class Bounded(Chooser):
        def choose(self, n):
            return super().choose(n) if len(self.trace) < bound else 0
    return Bounded


def energy(w, s):
    return -sum(w[i][j] * s[i] * s[j] for i in range(len(s)) for j in range(len(s)))


def trained(P):
    hop = ntm.HopfieldNet(n=len(P[0]))
    given = [list(p) for p in P]
    hop.train(given)
    same(given, [list(p) for p in P], "the training set afterwards")
    return hop


def learned(hop, P):
    w = weights(P)
    n = len(w)
    got = [[int(x) for x in row] for row in hop.adjacency_matrix]
    require(got == w, "the weights of %s are %s, expected %s", P, got, w)
    net = hop.network
    require(sorted(net.nodes) == list(range(n)), "the nodes of the net are %s", sorted(net.nodes))
    edges = {}
    for a, b, attrs in net.edges:
        require((a, b) not in edges, "the connection %s occurs twice", (a, b))
        edges[(a, b)] = attrs["weight"]
    want = {(i, j): w[i][j] for i in range(n) for j in range(n) if w[i][j] != 0}
    require(edges == want, "the connections of the net are %s, expected %s", edges, want)
    require(hop.num_nodes == n, "num_nodes is %s", hop.num_nodes)
    return w


def after(w, s, i):
    new = list(s)
    new[i] = 1 if sum(w[j][i] * s[j] for j in range(len(s))) >= 0 else -1
    return new


def follow(traj, w, init, rec):
    """Each transition updates exactly one node; returns, for each timestep, the nodes which can have been updated."""
    now, who = list(init), []
    n = len(now)
    require(traj[0].activities == dict(enumerate(now)), "t=0: %s, expected %s", traj[0].activities, now)
    for t in range(1, len(traj)):
        new = [traj[t].activities[i] for i in range(n)]
        can = [i for i in range(n) if after(w, now, i) == new]
        require(can, "t=%d: no update of a single node leads from %s to %s (weights %s)", t, now, new, w)
        require(energy(w, new) <= energy(w, now), "t=%d: the energy rises from %s to %s", t, energy(w, now), energy(w, new))
        rec.state(tuple(now), tuple(new))
        rec.step()
        now = new
        who.append(can)
    return now, who


def run(case, rec):
    rec.trace()
    if "retrain" in case:
        # trained once and again: only the patterns trained last count
        every = list(itertools.product((-1, 1), repeat=case["retrain"]))
        sets = [P for k in (1, 2, 3) for P in itertools.combinations_with_replacement(every, k)]
        for P in itertools.combinations_with_replacement(every, case["k"]):
            hop = trained(P)
            for Q in sets:
                hop.train([list(q) for q in Q])
                learned(hop, Q)
                hop.train([list(p) for p in P])
                learned(hop, P)
                rec.trace()
                rec.step(2)
                rec.state(P, Q)
            rec.outcome(P)
        return
    if "many" in case:
        # the sums of many products
        for P in ([(1, 1, -1)] * case["many"], [(1, -1, -1), (1, -1, 1)] * case["many"]):
            w = learned(trained(P), P)
            rec.outcome(repr(w))
            rec.step(len(P))
        return
    if "turns" in case:
        sequences(case["turns"], case["steps"], rec)
        return
    if "settle" in case:
        n, k = case["settle"], case["k"]
        P = [[1 if (i * (3 + 2 * m) + m) % 5 < 2 + m % 2 else -1 for i in range(n)] for m in range(k)]
        for s in range(case.get("starts", 2 ** min(n, 7))):
            init = [1 if (s * 37 >> (i % 7)) & 1 else -1 for i in range(n)]
            if "mixed" in case:
                init = [1 if (i * i + i // 3) % 7 < 4 else -1 for i in range(n)]
            turns = itertools.count(s)

            class Turns(Chooser):
                """The node whose turn it is comes first."""
                def choose(self, m):
                    return next(turns) % m if m == n else 0
            with controlled(Turns()):
                hop = trained(P)
                w = learned(hop, P)
                traj = ntm.evolve(hop.network, init, hop.activity_rule, timesteps=case.get("T", n * (n + 2)))
            end, _ = follow(traj, w, init, rec)
            rec.outcome(tuple(end))
            if k == 1:
                require(all(after(w, P[0], i) == P[0] for i in range(n)), "the only pattern %s isn't stable", P[0])
        return
    P = case.get("step") or case["runs"]
    n = len(P[0])
    T = case.get("T", 2)
    for init in itertools.product((-1, 1), repeat=n):
        touched = [set() for _ in range(T - 1)]

        def body(ch):
            with controlled(ch):
                hop = trained(P)
                return ntm.evolve(hop.network, list(init), hop.activity_rule, timesteps=T), hop
        # all the orders drawn before the timesteps of the run
        for ch, (traj, hop) in explore(body, chooser=bounded((n - 1) * (T - 1))):
            rec.trace()
            w = learned(hop, P)
            end, who = follow(traj, w, init, rec)
            for t, can in enumerate(who):
                for i in can:
                    touched[t].add(i)
            rec.outcome(tuple(end))
            if len(P) == 1 and n > 1 and tuple(init) == tuple(P[0]):
                require(tuple(end) == tuple(P[0]), "the only pattern %s became %s", P[0], end)
        require(all(len(x) == n for x in touched), "from %s, trained with %s, only %s are ever updated", init, P, touched)


def sequences(n, steps, rec):
    """Every node would change in the state given, and a perturbation restores it, so that the nodes updated are seen."""
    init = [1] * (n // 2) + [-1] * (n // 2)
    want = set(itertools.product(range(n), repeat=steps))
    got = set()

    def body(ch):
        updated = {}

        def restore(ctx):
            if ctx.node_activity != init[ctx.node_label]:
                updated.setdefault(ctx.timestep, []).append(ctx.node_label)
            return init[ctx.node_label]
        with controlled(ch):
            hop = trained([[1] * n])
            ntm.evolve(hop.network, list(init), hop.activity_rule, timesteps=steps + 1, perturbation=restore)
        return updated
    for ch, updated in explore(body, chooser=bounded((n - 1) * steps)):
        who = [updated.get(t, []) for t in range(1, steps + 1)]
        require(all(len(w) == 1 for w in who), "the nodes updated at each timestep are %s", who)
        got.add(tuple(w[0] for w in who))
        rec.trace()
        rec.step(steps)
        rec.state(n, tuple(w[0] for w in who))
    rec.outcome(tuple(sorted(got)))
    require(got == want, "%d nodes: they are never updated in the orders %s", n, sorted(want - got)[:5])
