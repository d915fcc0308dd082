"""
Synchronous update. For every digraph with self loops on up to 3 nodes, every multigraph on 2 nodes, every initial state
over the alphabet, and graphs of other shapes, sizes, labels and activity types: the real evolve() is run with a rule whose
result is a hash of everything it can see, and each invocation's view and each state is compared with the definition.
"""
import itertools

from mc import cross, spaces
from mc.refevolve import conform


def cases(tier):
    deep = tier == "thorough"
    for n in (1, 2, 3):
        for edges in spaces.digraphs(n):
            for s in spaces.states(n, 2 if n == 3 and not deep else 3):
                yield {"net": spaces.net(edges, n), "init": list(s), "rule": ("probe", spaces.K3), "T": 4}
    if deep:
        for edges in spaces.digraphs(4):
            yield {"net": spaces.net(edges, 4), "init": [0, 1, 2, 1], "rule": ("probe", spaces.K3), "T": 3}
    # parallel edges
    for edges in spaces.multidigraphs(2, 2 if not deep else 3):
        for s in spaces.states(2, 2):
            yield {"net": spaces.net(edges, 2), "init": list(s), "rule": ("probe", spaces.K3), "T": 4}
    # the order in which the nodes were added, and the edges
    for edges in ([(0, 1), (1, 2), (2, 0), (0, 2), (1, 1)], [(0, 1), (0, 1), (2, 1), (1, 0)]):
        for p in itertools.permutations(range(3)):
            for q in itertools.permutations(edges):
                nt = spaces.net(list(q), 3)
                nt["nodes"] = list(p)
                yield {"net": nt, "init": [1, 2, 0], "rule": ("probe", spaces.K3), "T": 4}
                yield {"net": nt, "init": {p[0]: 0, p[1]: 1, p[2]: 2}, "rule": ("probe", spaces.K2), "T": 4}
    # labels and activities of other types
    for labels in sorted(spaces.LABELS):
        for edges in spaces.digraphs(2):
            names = spaces.LABELS[labels](2)
            for a, b in itertools.product(spaces.MIXED, repeat=2):
                yield {"net": spaces.net(edges, 2, labels), "init": {names[0]: a, names[1]: b},
                       "rule": ("probe", spaces.MIXED), "T": 4}
        for n in (3, 5):
            names = spaces.LABELS[labels](n)
            for shape, edges in sorted(spaces.shapes(n).items()):
                for s in spaces.states(3, 3):
                    yield {"net": spaces.net(edges, n, labels, node_attrs=True),
                           "init": {names[i]: s[i % 3] for i in range(n)}, "rule": ("probe", spaces.MIXED), "T": 5}
    # equal values of other types, inside of others
    for values in ([(1, 2), (True, 2), (1.0, 2)], [(0,), (False,), (0.0,), (-0.0,)], [("a", (1,)), ("a", (True,))], [1, True, 1.0]):
        for edges in spaces.digraphs(2):
            for s in itertools.product(range(len(values)), repeat=2):
                yield {"net": spaces.net(edges, 2), "init": [values[i] for i in s], "rule": ("probe", values), "T": 6}
    # NumPy scalars become plain values
    for edges in spaces.digraphs(2):
        for a, b in itertools.product(range(len(spaces.NUMPY)), repeat=2):
            yield {"net": spaces.net(edges, 2), "init": [spaces.NUMPY[a], spaces.NUMPY[b]],
                   "rule": ("probe", spaces.NUMPY + spaces.K2), "T": 4}
    for s in spaces.states(3, 3):
        for shape, edges in sorted(spaces.shapes(3).items()):
            yield {"net": spaces.net(edges, 3), "init": ("np", list(s)), "rule": ("probe", spaces.K3), "T": 4}
            yield {"net": spaces.net(edges, 3), "init": ("np", [x / 2 for x in s]), "rule": ("probe", spaces.K3), "T": 4}
    # larger and longer
    for n in list(range(4, 14)) + ([16, 17, 25, 33, 64] if not deep else list(range(14, 40)) + [64, 65, 100, 129]):
        for shape, edges in sorted(spaces.shapes(n).items()):
            if n > 34 and shape == "complete":
                continue
            for k in (2, 3):
                yield {"net": spaces.net(edges, n), "init": [i * i % k for i in range(n)],
                       "rule": ("probe", list(range(k))), "T": 6}
    for labels in sorted(spaces.LABELS):
        for n in (13, 34):
            names = spaces.LABELS[labels](n)
            for shape in ("star-in", "complete", "ring", "multi", "star-out"):
                if n == 13 or shape != "complete":
                    yield {"net": spaces.net(spaces.shapes(n)[shape][::-1], n, labels), "init": {l: (i * i + i // 3) % 5 for i, l in enumerate(names)},
                           "rule": ("probe", spaces.MIXED), "T": 4}
    for k in (5, 17, 40, 130):
        # many connections between the same nodes
        yield {"net": spaces.net([(0, 1)] * k + [(1, 0), (1, 1)], 2), "init": [0, 1], "rule": ("probe", spaces.K3), "T": 4}
    for n in (150, 300, 600):
        for shape in ("ring", "tree", "star-in") if n < 600 else ("ring",):
            yield {"net": spaces.net(spaces.shapes(n)[shape], n), "init": [i * i % 7 for i in range(n)], "rule": ("probe", list(range(7))), "T": 3}
    for T in list(range(1, 14)) + [20, 33, 70] + ([130, 260] if deep else []):
        for shape, edges in sorted(spaces.shapes(5).items()):
            yield {"net": spaces.net(edges, 5), "init": [0, 1, 2, 3, -1], "rule": ("probe", [0, 1, -1, 7]), "T": T}
    # a rule which always gives the same, and a network which nobody looks at
    for v in spaces.MIXED:
        for edges in spaces.digraphs(2):
            yield {"net": spaces.net(edges, 2), "init": [1, v], "rule": ("const", v), "T": 4}
    for labels in sorted(spaces.LABELS):
        names = spaces.LABELS[labels](4)
        for order in itertools.permutations(range(4)):
            # the activities may be listed in another order than the nodes
            yield {"net": spaces.net(spaces.shapes(4)["tree"], 4, labels), "init": {names[i]: i for i in order},
                   "rule": ("probe", spaces.K3), "T": 4}
    yield from cross.cases(tier)


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    conform(case, rec)
