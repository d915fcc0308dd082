"""
Options don't change what happens. Every combination of compression, copy_network, persist_activities, persist_network (and
the update order) is run on a set of systems which covers every other feature of evolve (topology rules, inputs, past
conditions, perturbations, node addition and removal, all label and activity types) from every small initial state, and each
run is compared with the definition, which knows nothing of these options but that what isn't persisted is absent.
"""
import itertools

from mc import cross, spaces
from mc.refevolve import conform

OPTS = [dict(zip(("compression", "copy_network", "persist_activities", "persist_network"), v))
        for v in itertools.product((False, True), repeat=4)]
SC = [[("+", 0, 1, {"weight": 2.5, "tag": ("a", 1)})], [("-", 0, 1)], [("~", 1, 0, {"x": None})], [("+", 1, 1, {})], []]


def systems(deep):
    P = ("probe", spaces.K3)
    M = ("probe", spaces.MIXED)
    for edges in itertools.islice(spaces.digraphs(2), 0, None, 1 if deep else 3):
        for s in spaces.states(2, 2):
            yield {"net": spaces.net(edges, 2), "init": list(s), "rule": P, "T": 4}
        for past in ([[1, 0]], [[1, 0], [2, 2], [0, 1]], [[0, 1]] * 5):
            yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "T": 6, "past": past}
        yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "T": 5, "pert": [0, 1, 2, 3]}
        yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "inp": ("fnstate", 5, 3)}
        yield {"net": spaces.net(edges, 2, node_attrs=True), "init": [0, 1], "rule": P,
               "inp": ("list", [[(1,), 2], [3, None], [0, 0]]), "past": [[3, 4]], "pert": [0, 1]}
        plan = {(1, 0): [("add", 2, {0: {"weight": 3}, 9: {}}, 9)], (2, 9): [("rm", 9), ("rm", 0)],
                (3, 1): [("add", (1, 2), {1: {}}, 0)]}
        yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": ("plan", spaces.K3, plan), "T": 6}
        yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": ("plan", spaces.K3, plan), "T": 6, "past": [[0, 0], [1, 1]]}
    for labels in sorted(spaces.LABELS):
        for n in (2, 5):
            names = spaces.LABELS[labels](n)
            for shape, edges in sorted(spaces.shapes(n).items()):
                yield {"net": spaces.net(edges, n, labels, node_attrs=True), "init": {l: spaces.MIXED[i] for i, l in enumerate(names)},
                       "rule": M, "T": 4, "past": [{l: spaces.MIXED[-i] for i, l in enumerate(names)}]}
    for v in spaces.MIXED:
        # all the nodes in the same state, among them those which are easily taken for "none"
        yield {"net": spaces.net([(0, 1), (1, 0)], 2), "init": [v, v], "rule": ("const", v), "T": 4}
    yield {"net": spaces.net([], 0), "init": None, "rule": None, "T": 3}
    yield {"net": spaces.net([], 0), "init": {}, "rule": P, "T": 3}
    yield {"net": spaces.net([(0, 0)], 1), "init": [1], "rule": ("plan", spaces.K3, {(1, 0): [("rm", 0)]}), "T": 4}


def dynamic(deep):
    P = ("probe", spaces.K3)
    for edges in itertools.islice(spaces.digraphs(2), 0, None, 1 if deep else 3):
        for style in ("same", "fresh", "new"):
            for s in ((0, 1), (1, 1)):
                yield {"net": spaces.net(edges, 2, node_attrs=True), "init": list(s), "rule": P, "topo": (style, SC), "T": 5}
            yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "topo": (style, SC), "past": [[2, 2], [1, 0]],
                   "pert": [0, 1, 2], "inp": ("fnstate", 6, 3)}
            yield {"net": spaces.net(edges, 2), "init": None, "rule": None, "topo": (style, SC + [[("n", 3, {"a": (1,)})]]), "T": 6}
    for labels in sorted(spaces.LABELS):
        names = spaces.LABELS[labels](4)
        sc = [[("+", names[i], names[j], {"weight": i - j}), ("-", names[j], names[i])] for i in range(4) for j in range(i)]
        for style in ("fresh", "new"):
            yield {"net": spaces.net(spaces.shapes(4)["ring"], 4, labels), "init": {l: i % 2 for i, l in enumerate(names)},
                   "rule": P, "topo": (style, sc), "T": 5}


def cases(tier):
    deep = tier == "thorough"
    for sys_ in systems(deep):
        for o in OPTS:
            yield dict(sys_, opts=o)
    for sys_ in dynamic(deep):
        for o in OPTS:
            for order in ("AF", "TF", "SY"):
                if order != "AF" and sys_.get("rule") and sys_["rule"][0] == "plan":
                    continue
                yield dict(sys_, opts=dict(o, update_order=order))
    # the rule edits the network it is given, which is the caller's own only where no copy was asked for
    for edges in spaces.digraphs(2):
        for c, a, n in itertools.product((False, True), repeat=3):
            for order in ("AF", "TF", "SY"):
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": ("probe", spaces.K3), "topo": ("inplace", SC), "T": 5,
                       "opts": {"compression": c, "persist_activities": a, "persist_network": n, "update_order": order}}
    for T in (12, 40):
        for o in OPTS:
            yield {"net": spaces.net(spaces.shapes(6)["ring"], 6), "init": [0, 1, 0, 0, 2, 1], "rule": ("probe", [0, 1, 2, -7]),
                   "T": T, "past": [[i] * 6 for i in range(7)], "opts": o}
    yield from cross.cases(tier)


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    conform(case, rec)
