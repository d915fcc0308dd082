"""
Asynchronous rules. For all update orders of up to four of the nodes (all permutations of all subsets, and orders which repeat nodes), all small graphs and initial
states: at each timestep exactly the node whose turn it is must get what the wrapped rule gives it, and all the others keep their
activity; the wrapped rule must be invoked for that node only; a caller's update order must not change. With a random order, over
all answers of the generator: each permutation must be possible, each node must get its turn once per cycle, and, when the order is
randomized after each cycle, each timestep must update exactly one of the given nodes, any of which must be possible.
"""
import itertools

import numpy as np

from mc import spaces
from mc.choices import controlled, explore, patterned
from mc.engine import Violation, require, same
from mc.refevolve import build
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    for edges in spaces.digraphs(2):
        for order in orders(2):
            for s in spaces.states(2, 3):
                yield {"edges": edges, "n": 2, "order": order, "init": s, "T": 6, "labels": "int"}
    for i, edges in enumerate(spaces.digraphs(3)):
        for order in orders(3):
            if deep or i % 4 == 1:
                yield {"edges": edges, "n": 3, "order": order, "init": (0, 1, 2), "T": 8, "labels": "int"}
    # a node may have its turn more than once in a cycle
    for n, edges in ((2, ((0, 1), (1, 0))), (3, ((0, 1), (1, 2), (2, 0), (2, 2))), (3, ((0, 2),))):
        for size in (2, 3, 4) + ((5,) if deep else ()):
            for order in itertools.product(range(n), repeat=size):
                if len(set(order)) < size:
                    yield {"edges": edges, "n": n, "order": order, "init": (0, 1, 2)[:n], "T": 2 * size + 2, "labels": "str" if size == 3 else "int"}
    for labels in sorted(spaces.LABELS):
        for shape, edges in sorted(spaces.shapes(4).items()):
            for order in orders(4):
                if len(order) in (2, 4) and (deep or order[0] % 2 == 0):
                    yield {"edges": edges, "n": 4, "order": order, "init": (0, 1, 2, 1), "T": 10, "labels": labels}
    for n in (9, 13, 30):
        for k, labels in enumerate(("int", "rev", "str", "tuple")):
            for shape in ("ring", "star-in", "tree"):
                for order in (list(range(n)), list(range(n))[::-1], [(i * 4 + 1) % n for i in range(n) if n % 2] or list(range(1, n, 2)),
                              list(range(n))[n // 2:], list(range(n)) + list(range(n))[::-1]):
                    yield {"edges": spaces.shapes(n)[shape], "n": n, "order": tuple(order), "init": tuple((i * i + k) % 5 for i in range(n)),
                           "T": 2 * len(order) + 3, "labels": labels}
    for n in (130, 260, 300):
        order = [i * 7 % n for i in range(n)]
        for o in (order, order[::2]) if n == 130 else (order,):
            yield {"edges": spaces.shapes(n)["path"], "n": n, "order": tuple(o), "init": tuple(i * i % 5 for i in range(n)), "T": len(o) + 5,
                   "labels": "int"}
    for n in (1, 2, 3, 4):
        for shape, edges in sorted(spaces.shapes(n).items()):
            yield {"shuffle": n, "edges": edges}
            for given in [None] + [p for p in orders(n) if len(p) >= max(1, n - 1)][::3]:
                if n <= 3:
                    yield {"random": n, "edges": edges, "order": given}
    for n in (8, 33, 70, 130):
        for cycle in (True, False):
            yield {"shuffled": n, "cycle": cycle}
    yield {"refuse": True}
    for n in (1, 2, 3):
        for order in orders(n):
            yield {"values": n, "order": order}
    for rule in range(0, 256, 1 if deep else 9):
        for order in itertools.permutations(range(4)):
            yield {"ca": rule, "order": order}


def orders(n):
    return [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]


def base(ctx):
    """Depends on the node, on what it sees and on the timestep."""
    return (ctx.current_activity * 2 + 3 * sum(ctx.neighbourhood_activities) + len(ctx.neighbour_labels) + ctx.timestep + 1) % 5


def reference(edges, n, acts, t, node):
    inc = list(dict.fromkeys(i for i, j in edges if j == node))
    return (acts[node] * 2 + 3 * sum(acts[i] for i in inc) + len(inc) + t + 1) % 5


def run(case, rec):
    rec.trace()
    if "refuse" in case:
        try:
            ntm.AsynchronousRule(base)
        except Exception:
            rec.step()
        else:
            raise Violation("a rule with neither an update order nor a number of nodes was made")
        return
    if "values" in case:
        return values(case, rec)
    if "shuffled" in case:
        return shuffled(case, rec)
    if "ca" in case:
        return automaton(case, rec)
    if "order" in case and "T" in case:
        return given(case, rec)
    return randomized(case, rec)


def given(case, rec):
    n, edges, T = case["n"], case["edges"], case["T"]
    names = spaces.LABELS[case["labels"]](n)
    net = build(ntm.Network, spaces.net(edges, n, case["labels"]))
    makes = [list, tuple]
    if n < 14 and all(type(x) is int for x in names):
        makes += [np.array, lambda x: [np.int32(i) for i in x]]
    for make in makes:
        mine = make([names[i] for i in case["order"]])
        calls = []

        def rule(ctx):
            calls.append((ctx.timestep, ctx.node_label))
            return base(ctx)
        traj = ntm.evolve(net, {names[i]: x for i, x in enumerate(case["init"])}, ntm.AsynchronousRule(rule, update_order=mine),
                          timesteps=T)
        now = list(case["init"])
        for t in range(1, T):
            turn = case["order"][(t - 1) % len(case["order"])]
            now[turn] = reference(edges, n, now, t, turn)
            same(traj[t].activities, {names[i]: x for i, x in enumerate(now)}, "t=%d, with the order %s from %s", t, case["order"],
                 case["init"])
            require(calls[t - 1] == (t, names[turn]), "t=%d: the rule was invoked for %s", t, calls[t - 1])
            rec.state(tuple(now))
        require(len(calls) == T - 1, "the rule was invoked %d times in %d timesteps", len(calls), T - 1)
        require(repr(mine) == repr(make([names[i] for i in case["order"]])), "the update order which was given changed to %s", mine)
        rec.step(T - 1)
        rec.outcome(tuple(now), case["order"])


def values(case, rec):
    """Whatever the wrapped rule returns becomes the activity, also what is easily taken for nothing; and what a node has stays."""
    n, order = case["values"], case["order"]
    every = [None, 0, "", False, (), 2.5, (1, 2), "a", -1, 1, True, 0.0]
    net = ntm.Network(n)
    for first in range(len(every)):
        results = every[first:] + every[:first]
        T = 2 * len(every) + 1
        traj = ntm.evolve(net, [every[-1 - i] for i in range(n)], ntm.AsynchronousRule(lambda ctx: results[ctx.timestep % len(every)], update_order=order),
                          timesteps=T)
        now = [every[-1 - i] for i in range(n)]
        for t in range(1, T):
            now[order[(t - 1) % len(order)]] = results[t % len(every)]
            require(repr([traj[t].activities[i] for i in range(n)]) == repr(now), "t=%d, with the order %s: %s, expected %s", t, order,
                    traj[t].activities, now)
            rec.state(tuple(map(repr, now)))
        rec.step(T - 1)
    rec.outcome(n, order)


def randomized(case, rec):
    n = case.get("random") or case["shuffle"]
    edges = case["edges"]
    net = build(ntm.Network, spaces.net(edges, n))
    nodes = list(range(n)) if case.get("order") is None else list(case["order"])
    cycle = "random" not in case
    T = 2 * len(nodes) + 1 if cycle else 3
    init = [i % 3 for i in range(n)]

    def body(ch):
        calls = []

        def rule(ctx):
            calls.append((ctx.timestep, ctx.node_label))
            return base(ctx)
        with controlled(ch):
            kw = {"n": n} if case.get("order") is None else {"update_order": list(case["order"])}
            if not cycle:
                kw["randomize_each_cycle"] = True
            return ntm.evolve(net, init, ntm.AsynchronousRule(rule, **kw), timesteps=T), calls
    seen = set()
    for ch, (traj, calls) in explore(body, 60):
        require([t for t, _ in calls] == list(range(1, T)), "the rule was invoked for %s", calls)
        turns = tuple(x for _, x in calls)
        require(all(x in nodes for x in turns), "nodes which weren't given were updated: %s", turns)
        if cycle:
            require(sorted(turns[:len(nodes)]) == sorted(nodes), "a cycle updated the nodes %s", turns)
            require(turns[len(nodes):] == turns[:len(nodes)], "the cycles are different: %s", turns)
        now = list(init)
        for t in range(1, T):
            now[turns[t - 1]] = reference(edges, n, now, t, turns[t - 1])
            same(traj[t].activities, dict(enumerate(now)), "t=%d, updating %s", t, turns)
            rec.state(tuple(now))
        seen.add(turns)
        rec.trace()
        rec.step(T - 1)
        rec.outcome(turns, tuple(now))
    if cycle:
        require(len(seen) == len(list(itertools.permutations(nodes))), "only the orders %s are possible", seen)
    else:
        for t in range(1 if case.get("order") is not None else 0, T - 1):
            require({x[t] for x in seen} == set(nodes), "at t=%d only %s may be updated", t + 1, {x[t] for x in seen})


def shuffled(case, rec):
    """Larger networks: every order is complete, and no node is bound to a place in it."""
    n, cycle = case["shuffled"], case["cycle"]
    edges = spaces.shapes(n)["path"]
    net, init, T = build(ntm.Network, spaces.net(edges, n)), [i % 3 for i in range(n)], 2 * n + 1
    places = {x: set() for x in range(n)}
    for a in range(1, 13):
        def body(ch):
            turns = []

            def rule(ctx):
                turns.append(ctx.node_label)
                return ctx.current_activity
            with controlled(ch):
                ntm.evolve(net, init, ntm.AsynchronousRule(rule, n=n, randomize_each_cycle=not cycle), timesteps=T)
            return turns
        for _, turns in explore(body, 1, patterned(2 * a + 1, a * a, 2 + a % 4)):
            require(len(turns) == T - 1, "%d invocations for %d timesteps", len(turns), T - 1)
            if cycle:
                require(sorted(turns[:n]) == list(range(n)), "a cycle updated the nodes %s", turns[:n])
                require(turns[n:] == turns[:n], "the cycles are different: %s", turns)
            for i, x in enumerate(turns[:n]):
                require(x in places, "a node which isn't there, %r, was updated", x)
                places[x].add(i)
            rec.state(tuple(turns[:n]))
            rec.step(T - 1)
            rec.trace()
    for x in places:
        require(len(places[x]) > 1, "node %d of %d comes only at the places %s of an order", x, n, places[x])
    rec.outcome(repr(places))


def automaton(case, rec):
    n, rule = 4, case["ca"]
    net = ntm.topology.cellular_automaton(n=n)
    for s in itertools.product((0, 1), repeat=n):
        traj = ntm.evolve(net, list(s), ntm.AsynchronousRule(ntm.rules.nks_ca_rule(rule), update_order=case["order"]), timesteps=6)
        now = list(s)
        for t in range(1, 6):
            c = case["order"][(t - 1) % n]
            now[c] = rule >> (4 * now[c - 1] + 2 * now[c] + now[(c + 1) % n]) & 1
            same(traj[t].activities, dict(enumerate(now)), "rule %d, t=%d", rule, t)
        rec.step(5)
        rec.state("ca", rule, tuple(now))
        rec.outcome("ca", rule, tuple(now))
