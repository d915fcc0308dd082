"""
Reversible rules. For all 256 elementary rules, all rings of 3 and 4 cells (and a basis of longer ones) and all pairs of a state and
the state before it: each next state must be the exclusive or of what the rule gives and the cell's state before the current one;
and an evolution started from the last two states in reverse order must retrace the evolution exactly. The same on all small graphs,
and with more past conditions than the one which counts.
"""
import itertools

from mc import spaces
from mc.engine import require, same
from mc.refevolve import build
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    for rule in range(256):
        yield {"rule": rule, "n": 3, "T": 5, "part": None}
        for part in range(4) if deep or rule % 8 == 6 else ():
            yield {"rule": rule, "n": 4, "T": 6, "part": part}
        yield {"long": rule, "n": 9, "T": 14, "window": 1 + rule % 3}
    for rule in (30, 90, 37, 122, 214):
        yield {"long": rule, "n": 45, "T": 70}
        yield {"long": rule, "n": 9, "T": 140, "window": 3}
    for edges in spaces.digraphs(2):
        for s in itertools.product((0, 1), repeat=2):
            for w in (1, 2, 3, 4):
                yield {"edges": edges, "n": 2, "init": s, "T": 8, "window": w}
    for edges in spaces.digraphs(3):
        for s in itertools.product((0, 1), repeat=3) if deep else [(0, 1, 1), (1, 0, 0)]:
            yield {"edges": edges, "n": 3, "init": s, "T": 6, "window": 1 + sum(s)}


def run(case, rec):
    rec.trace()
    T = case["T"]
    if "edges" in case:
        n, edges = case["n"], case["edges"]
        net = build(ntm.Network, spaces.net(edges, n))
        inc = {j: list(dict.fromkeys(i for i, t in edges if t == j)) for j in range(n)}
        rules = [
            (lambda ctx: (ctx.current_activity + sum(ctx.neighbourhood_activities)) % 2, lambda now, c: (now[c] + sum(now[i] for i in inc[c])) % 2),
            (lambda ctx: 1 if all(ctx.neighbourhood_activities) else 0, lambda now, c: 1 if all(now[i] for i in inc[c]) else 0),
            (lambda ctx: bool(ctx.current_activity), lambda now, c: now[c]),
            (lambda ctx: 0, lambda now, c: 0), (lambda ctx: ctx.node_label % 2, lambda now, c: c % 2),
        ]
        for past in itertools.product((0, 1), repeat=n):
            for rule, f in rules:
                both(net, case["init"], past, rule, f, T, rec, case["window"])
        return
    if "long" in case:
        n, number = case["n"], case["long"]
        pairs = [([1 if i == 4 else 0 for i in range(n)], [1 if i == 4 else 0 for i in range(n)]), ([i % 2 for i in range(n)], [0, 1, 1] * (n // 3))]
    else:
        n, number = case["n"], case["rule"]
        every = list(itertools.product((0, 1), repeat=n))
        pairs = list(itertools.product(every, repeat=2))
        if case["part"] is not None:
            pairs = pairs[case["part"]::4]
    net = ntm.topology.cellular_automaton(n=n)
    f = lambda now, c: number >> (4 * now[c - 1] + 2 * now[c] + now[(c + 1) % n]) & 1  # noqa: E731
    for init, past in pairs:
        both(net, init, past, ntm.rules.nks_ca_rule(number), f, T, rec, case.get("window", 1))


def both(net, init, past, rule, f, T, rec, window=1):
    n = len(init)
    older = [[(i + w + past[i]) % 2 for i in range(n)] for w in range(window - 1)]  # of no effect
    traj = ntm.evolve(net, list(init), ntm.ReversibleRule(rule), timesteps=T, past_conditions=older + [list(past)])
    before, now = list(past), list(init)
    for t in range(T):
        require(traj[t].activities == dict(enumerate(now)), "t=%d: %s, expected %s (from %s and %s)", t, traj[t].activities, now, past, init)
        rec.state(tuple(before), tuple(now))
        if t < T - 1:
            before, now = now, [f(now, c) ^ before[c] for c in range(n)]
    rec.step((T - 1) * n)
    rec.outcome(tuple(now))
    back = ntm.evolve(net, before, ntm.ReversibleRule(rule), timesteps=T, past_conditions=older + [now])
    want = [traj[t].activities for t in range(T - 2, -1, -1)] + [dict(enumerate(past))]
    same([s.activities for s in back], want, "the way back from %s to %s", now, past)
    rec.step((T - 1) * n)
