"""
Perturbation. For every small graph, initial state and perturbation table: the perturbation must be applied once to each node
at each timestep after the first, be told the node, its newly computed activity, the timestep and its input, and its result
must be the node's activity, in the trajectory and in what every other node sees at the next timestep; in every update order,
with inputs, past conditions, topology rules, memoization (whose cache must hold the rule's result, not the perturbed one),
nodes which are added or remove themselves, and perturbations which return NumPy scalars, None, 0 or the same activity.
"""
import itertools

from mc import cross, spaces
from mc.refevolve import conform


def cases(tier):
    deep = tier == "thorough"
    P = ("probe", spaces.K3)
    tables = [[0], [1], [0, 1], [2, 1, 0], ["same"], [None, 0, False], [("np.int64", 3), ("np.float64", 0.5), 1]]
    for edges in spaces.digraphs(2):
        for s in spaces.states(2, 3):
            for pert in tables:
                yield {"net": spaces.net(edges, 2), "init": list(s), "rule": P, "T": 5, "pert": pert}
    for edges in spaces.digraphs(3):
        yield {"net": spaces.net(edges, 3), "init": [0, 1, 2], "rule": P, "T": 4, "pert": [0, 1, 2, 3]}
    for edges in spaces.digraphs(2):
        for pert in tables:
            for kind in ("list", "fn"):
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "pert": pert,
                       "inp": (kind, [[0, 1], [None, 2], [(1, 2), 0]])}
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "pert": pert, "inp": (kind, [0, 5, -1])}
            yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "T": 6, "pert": pert, "past": [[1, 0], [0, 2]]}
            for order in ("AF", "TF", "SY"):
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "T": 5, "pert": pert,
                       "topo": ("fresh", [[("+", 0, 1, {})], [("-", 0, 1)], []]), "opts": {"update_order": order}}
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "T": 5, "pert": pert, "opts": {"update_order": order}}
            for o in ({"compression": True}, {"persist_network": False}, {"copy_network": False}):
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "T": 5, "pert": pert, "opts": o}
    # memoization keeps what the rule returned
    for edges in spaces.digraphs(2):
        for s in spaces.states(2, 2):
            for pert in ([0, 1, 2], [5, 6], ["same"], [("np.int64", 3), 0]):
                yield {"net": spaces.net(edges, 2), "init": list(s), "rule": ("nbr", spaces.K3), "T": 8, "pert": pert,
                       "opts": {"memoize": True}}
    for shape, edges in sorted(spaces.shapes(6).items()):
        for pert in ([0, 1, 2], [1, 1, 1, 0]):
            yield {"net": spaces.net(edges, 6), "init": [0, 1, 2, 0, 1, 2], "rule": ("nbr", spaces.K3), "T": 9, "pert": pert,
                   "opts": {"memoize": True}}
    # nodes which come and go
    for edges in spaces.digraphs(2):
        for pert in ([0, 1, 2], ["same"], [("np.int64", 3)]):
            for plan in ({(1, 0): [("rm", 0)]}, {(2, 1): [("rm", 1)]}, {(1, 0): [("rm", 0)], (2, 1): [("rm", 1)]},
                         {(1, 0): [("add", 4, {1: {}}, 7)]}, {(1, 1): [("rm", 1), ("add", 4, {0: {}}, 1)]},
                         {(1, 0): [("add", ("np.int64", 4), {1: {}}, 7)], (3, 7): [("rm", 7)]}):
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": ("plan", spaces.K3, plan), "T": 6, "pert": pert}
    for labels in sorted(spaces.LABELS):
        names = spaces.LABELS[labels](4)
        for shape, edges in sorted(spaces.shapes(4).items()):
            yield {"net": spaces.net(edges, 4, labels), "init": {l: i for i, l in enumerate(names)}, "rule": ("probe", spaces.MIXED),
                   "T": 6, "pert": spaces.MIXED}
    for T in (1, 2, 15, 40) + ((150,) if deep else ()):
        for shape, edges in sorted(spaces.shapes(7).items()):
            yield {"net": spaces.net(edges, 7), "init": [0, 1, 2, 3, 4, 5, 6], "rule": P, "T": T, "pert": [0, 1, 2, -3]}
    yield from cross.cases(tier)


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    conform(case, rec, compare_log=not case.get("opts", {}).get("memoize"))
