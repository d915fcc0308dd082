"""
History and isolation. All sequences of up to 3 evolutions drawn from a set of systems (every option and feature in it) run
one after another on the same network object and with the same argument objects: each must give exactly what the definition
says it gives alone, and leave the network, the initial and past conditions and the inputs as they were. What a rule saw at
a timestep must still be what the trajectory holds for it at the end; spoiling a returned trajectory must not affect
another; the owner of the network, of the rule or of the other arguments may change them between two evolutions, and the second must
follow what they are then; and an evolution cut in two at any timestep must continue as if it had not been cut.
"""
import copy
import itertools

from mc import cross, spaces
from mc.engine import canon, require, same
from mc.refevolve import build, conform, norm_real, snap
from mc.target import ntm

P = ("probe", spaces.K3)
SC = [[("+", 0, 1, {"weight": 2})], [("-", 0, 1)], [("~", 1, 0, {"x": 1})], []]
PLAN = {(1, 0): [("add", 2, {0: {"w": 1}, 9: {}}, 9)], (2, 9): [("rm", 0)]}


def calls():
    return [
        {"init": [0, 1], "rule": P, "T": 3},
        {"init": [1, 1], "rule": ("nbr", [2, 0, 1]), "T": 4, "opts": {"memoize": True}},
        {"init": [1, 1], "rule": ("nbr", [5, 6, 7, 8]), "T": 4, "opts": {"memoize": True}},
        {"init": [0, 1], "rule": P, "T": 4, "topo": ("inplace", SC)},
        {"init": [1, 0], "rule": P, "T": 4, "topo": ("fresh", SC), "opts": {"copy_network": False, "update_order": "SY"}},
        {"init": [1, 0], "rule": P, "T": 4, "topo": ("same", SC), "opts": {"update_order": "TF", "compression": True}},
        {"init": [0, 1], "rule": ("plan", spaces.K3, PLAN), "T": 4},
        {"init": [0, 1], "rule": P, "T": 5, "past": [[1, 1], [2, 0]], "pert": [0, 1]},
        {"init": [0, 1], "rule": P, "inp": ("list", [[1, 2], [0, 0]])},
        {"init": [0, 0], "rule": P, "inp": ("fnstate", 4, 3), "opts": {"persist_network": False}},
    ]


def cases(tier):
    deep = tier == "thorough"
    n = len(calls())
    graphs = [[(0, 1), (1, 0), (0, 0)], [(1, 0), (0, 1), (0, 1)], [], [(0, 0), (1, 1), (1, 0)]]
    for g in graphs:
        for k in (1, 2, 3):
            for seq in itertools.product(range(n), repeat=k):
                if k == 3 and not deep and g is not graphs[0]:
                    continue
                yield {"seq": seq, "edges": g}
    # arguments of NumPy scalars, and of several other forms
    a, b, c, d = spaces.NUMPY[0], spaces.NUMPY[2], spaces.NUMPY[1], spaces.NUMPY[3]
    for g in graphs:
        for init in ([a, b], {0: b, 1: a}, {1: a, 0: c}, [d, c], [(1, 2), [3, [4]]], {0: {"x": 1}, 1: [1]}):
            for extra in ({}, {"past": [[b, c], {0: a, 1: d}]}, {"pert": [a, 1]}, {"T": None, "inp": ("list", [[a, b], (c, d), [d, a]])},
                          {"opts": {"compression": True}}, {"opts": {"persist_activities": False}}, {"topo": ("fresh", SC)}):
                yield dict({"net": spaces.net(g, 2), "init": init, "rule": P, "T": 4, "args": True}, **extra)
    # activities for some of the nodes only, or for others, with no activity rule
    for g in graphs:
        for init in (None, [], [1], [1, 2, 3], {}, {0: 5}, {1: None}, {"x": 1}, {1: 1, 0: 2}):
            for extra in ({"topo": ("fresh", SC)}, {"topo": ("same", [[]])}, {"topo": ("inplace", SC), "opts": {"update_order": "TF"}}, {"pert": [0, 1, 2]},
                          {"topo": ("fresh", SC), "opts": {"update_order": "SY", "compression": True}}, {}):
                yield dict({"net": spaces.net(g, 2), "init": init, "rule": None, "T": 4, "args": True}, **extra)
    for g in graphs:
        for i in range(n):
            yield {"spoil": i, "edges": g}
            yield {"same_args": i, "edges": g}
            yield {"seen": i, "edges": g}
    # the same objects, changed by their owner between two evolutions
    changes = ("none", "factor", "add edge", "remove edge", "weight", "rotate", "init", "input", "past", "move edge", "swap edges")
    for g in graphs[:2] + graphs[3:] + [[(0, 1), (1, 2), (2, 0), (0, 0), (2, 2)], [(i, (i + 1) % 4) for i in range(4)]]:
        for seq in itertools.product(changes, repeat=2):
            for kw in ({}, {"memoize": True}, {"topology": True}):
                yield {"changes": seq, "edges": g, "kw": kw}
    # cut at every timestep; the rule ignores the timestep itself
    for g in itertools.islice(spaces.digraphs(2), 0, None):
        for s in spaces.states(2, 3):
            for cut in range(1, 6):
                yield {"cut": cut, "edges": g, "init": list(s), "topo": False}
                yield {"cut": cut, "edges": g, "init": list(s), "topo": True}
    yield from cross.cases(tier)


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    if "args" in case:
        return conform(case, rec)
    rec.trace()
    if "changes" in case:
        return changed(case, rec)
    desc = spaces.net(case["edges"], 2)
    if "seq" in case:
        net = build(ntm.Network, desc)
        for i in case["seq"]:
            c = dict(calls()[i], net=desc)
            conform(c, rec, hold=net, compare_log=not c.get("opts", {}).get("memoize"))
    elif "spoil" in case:
        c = dict(calls()[case["spoil"]], net=desc)
        spoil(c, desc, rec)
    elif "same_args" in case:
        same_args(dict(calls()[case["same_args"]], net=desc), desc, rec)
    elif "seen" in case:
        seen(dict(calls()[case["seen"]], net=desc), desc, rec)
    else:
        cut(case, desc, rec)


def rule_of(k, with_time=False):
    def rule(ctx):
        return (ctx.current_activity * 3 + 7 * sum(a * (1 + i) for i, a in enumerate(sorted(ctx.neighbourhood_activities)))
                + len(ctx.connection_states) + (ctx.timestep if with_time else 0)) % k
    return rule


def topology(ctx):
    n = ctx.network
    if sum(ctx.activities.values()) % 2:
        n.add_edge(0, 1, w=1)
    elif n.has_edge(0, 1):
        n.remove_edge(0, 1)
    return n


def observe(traj):
    return [(canon(s.activities), None if s.network is None else snap(norm_real(s.network))) for s in traj]


def cut(case, desc, rec):
    kw = {"topology_rule": topology} if case["topo"] else {}
    whole = ntm.evolve(build(ntm.Network, desc), list(case["init"]), rule_of(5), timesteps=7, **kw)
    first = ntm.evolve(build(ntm.Network, desc), list(case["init"]), rule_of(5), timesteps=case["cut"] + 1, **kw)
    before = observe(first)
    second = ntm.evolve(first[-1].network, first[-1].activities, rule_of(5), timesteps=7 - case["cut"], **kw)
    same(observe(first), before, "the first part, after it was continued")
    same(observe(first)[:-1] + observe(second), observe(whole), "the evolution in two parts")
    rec.step(14)
    rec.outcome(repr(observe(whole)))
    for o in observe(whole):
        rec.state(repr(o))


def plain_kw(c):
    """The call's arguments as live objects, to be used again."""
    kw = {"initial_conditions": list(c["init"]), "activity_rule": rule_of(7, True)}
    if "topo" in c:
        kw["topology_rule"] = topology
    if "T" in c:
        kw["timesteps"] = c["T"]
    if "inp" in c:
        kw["input"] = [[1, 2], [0, 1], [2, 2]]
    if "past" in c:
        kw["past_conditions"] = [list(x) for x in c["past"]]
    if "pert" in c:
        kw["perturbation"] = lambda ctx: (ctx.node_activity + 1) % 7
    for k, v in c.get("opts", {}).items():
        if k == "copy_network":
            continue
        kw[k] = getattr(ntm.UpdateOrder, {"AF": "ACTIVITIES_FIRST", "TF": "TOPOLOGY_FIRST", "SY": "SYNCHRONOUS"}[v]) \
            if k == "update_order" else v
    if kw.get("memoize"):
        kw["activity_rule"] = lambda ctx: sum(ctx.neighbourhood_activities) % 7
    return kw


def same_args(c, desc, rec):
    """The same objects, twice: the same result, and the first trajectory stays as it was."""
    net = build(ntm.Network, desc)
    kw = plain_kw(c)
    a = ntm.evolve(net, **kw)
    before = observe(a)
    b = ntm.evolve(net, **kw)
    same(observe(b), before, "the second run")
    same(observe(a), before, "the first trajectory, after the second run")
    rec.step(2 * len(a))
    rec.outcome(repr(before))


def spoil(c, desc, rec):
    net = build(ntm.Network, desc)
    kw = plain_kw(c)
    a = ntm.evolve(net, **kw)
    want = observe(a)
    b = ntm.evolve(net, **kw)
    for s in b[1:]:
        s.activities.clear()
        if "topology_rule" in kw and s.network is not None:
            n = s.network
            n.add_edge(0, 77)
            n.update_edge(0, 77, w=3)
    same(observe(a), want, "a trajectory, after another one was changed")
    same(observe(ntm.evolve(net, **kw)), want, "an evolution, after a trajectory of another one was changed")
    rec.step(3 * len(a))
    rec.outcome(repr(want))


def seen(c, desc, rec):
    """What the rules were shown at a timestep is what the trajectory still holds for it."""
    kw = plain_kw(c)
    kw.pop("memoize", None)
    if "update_order" in kw:
        kw.pop("update_order")
    kw.pop("persist_network", None)
    shown = {}
    rule = kw["activity_rule"]

    def watching(ctx):
        now = copy.deepcopy(ctx.activities)
        shown.setdefault(ctx.timestep - 1, []).append(now)
        return rule(ctx)
    kw["activity_rule"] = watching
    traj = ntm.evolve(build(ntm.Network, desc), **kw)
    for t, views in shown.items():
        for v in views:
            same(v, traj[t].activities, "the activities of t=%d, as shown to the rule" % t)
    require(len(shown) == len(traj) - 1, "the rule was shown %d timesteps of %d", len(shown), len(traj) - 1)
    rec.step(len(traj))


class Weighted:
    """A rule with a parameter; it depends on the neighbours' activities only (in their order), so that it can be memoized."""
    factor = 2

    def __call__(self, ctx):
        total = 0
        for i, a in enumerate(ctx.neighbourhood_activities if self.ordered else sorted(ctx.neighbourhood_activities)):
            total += (a + 1) * (i + self.factor)
        if not self.plain:
            total += 3 * (ctx.input or 0) + 5 * ctx.past_activities[0][ctx.node_label]
            total += sum(c[0]["w"] for c in ctx.connection_states.values())
        return total % 5


def identity(ctx):
    return ctx.network


def move(net, n):
    """One connection removed, another added elsewhere: as many nodes and edges as before."""
    have = [(i, j) for i, j, _ in net.edges]
    gaps = [(i, j) for i in range(n) for j in range(n) if (i, j) not in have]
    if have and gaps:
        net.remove_edge(*have[0])
        net.add_edge(*gaps[-1], w=3)


def swap(net):
    """Two connections which exchange their ends: each node's degrees are what they were."""
    have = [(i, j) for i, j, _ in net.edges]
    for (a, b), (c, d) in itertools.combinations(have, 2):
        if a != c and b != d and (a, d) not in have and (c, b) not in have:
            w, v = net.edge(a, b)[0]["w"], net.edge(c, d)[0]["w"]
            net.remove_edge(a, b)
            net.remove_edge(c, d)
            net.add_edge(a, d, w=w)
            net.add_edge(c, b, w=v)
            return


def changed(case, rec):
    n = 1 + max(max(e) for e in case["edges"])
    net = ntm.Network(n)
    for i, (a, b) in enumerate(dict.fromkeys(case["edges"])):
        net.add_edge(a, b, w=i + 1)
    rule = Weighted()
    rule.plain = bool(case["kw"].get("memoize"))
    init, inp, past = [i % 2 for i in range(n)], [[1] * n, [2] * n, [0] * n], [[1] * n, list(range(n))]
    kw = {}
    if rule.plain:
        kw["memoize"] = True
    if case["kw"].get("topology"):
        kw["topology_rule"] = identity
    before = []
    for change in ("none",) + case["changes"]:
        a, b = list(dict.fromkeys(case["edges"]))[0]
        if change == "factor":
            rule.factor += 1
        elif change == "add edge" and not net.has_edge(n - 1, 0) and net.rotation_system is None:
            net.add_edge(n - 1, 0, w=7)
        elif change == "remove edge" and net.has_edge(a, b) and net.rotation_system is None:
            net.remove_edge(a, b)
        elif change == "move edge" and net.rotation_system is None:
            move(net, n)
        elif change == "swap edges" and net.rotation_system is None:
            swap(net)
        elif change == "weight" and net.has_edge(a, b):
            net.update_edge(a, b, w=net.edge(a, b)[0]["w"] + 1)
        elif change == "rotate" and "topology_rule" not in kw:
            net.rotation_system = {x: tuple(reversed(list(net.in_edges(x)))) for x in net.nodes}
        elif change == "init":
            init[0] = (init[0] + 1) % 5
        elif change == "input":
            inp.append([1] * n)
        elif change == "past":
            past[0][0] += 1
        rule.ordered = net.rotation_system is not None
        traj = ntm.evolve(net, init, rule, input=inp, past_conditions=past, **kw)
        # the definition
        hist = [list(x) for x in past] + [list(init)]
        edges = [(i, j, attrs["w"]) for i, j, attrs in net.edges]
        for t, given in enumerate(inp):
            now, new = hist[-1], []
            for x in range(n):
                inc = [i for i, j, _ in edges if j == x]
                order = net.rotation_system[x] if rule.ordered else inc
                acts = [now[i] for i in order]
                total = sum((v + 1) * (i + rule.factor) for i, v in enumerate(acts if rule.ordered else sorted(acts)))
                if not rule.plain:
                    total += 3 * given[x] + 5 * hist[-3][x] + sum(w for _, j, w in edges if j == x)
                new.append(total % 5)
            hist.append(new)
        want = [dict(enumerate(x)) for x in hist[len(past):]]
        same([s.activities for s in traj], want, "the evolution after the change %r, of %s", change, case["changes"])
        rec.step(len(inp))
        rec.state(repr(want), change)
        before.append((traj, want))
    for i, (traj, want) in enumerate(before):
        same([s.activities for s in traj], want, "trajectory %d, after the others", i)
    rec.outcome(repr(before[-1][1]))
