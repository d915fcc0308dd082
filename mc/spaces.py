"""Finite spaces shared by the properties: networks, activities, labels."""
import itertools

K2 = [0, 1]
K3 = [0, 1, 2]
# activities of several types and shapes, among them values which are easily confused or dropped
MIXED = [0, 1, -1, 2.5, None, "", "a", (1, 2), False, 10]
NUMPY = [("np.int64", 0), ("np.float64", 0.5), ("np.int32", 7), ("np.bool_", True), ("np.float32", 1.5)]

LABELS = {
    "int": lambda n: list(range(n)),
    "rev": lambda n: list(range(n - 1, -1, -1)),
    "one": lambda n: list(range(1, n + 1)),
    "neg": lambda n: [-1 - i for i in range(n)],
    "str": lambda n: ["n%d" % i for i in range(n)],
    "tuple": lambda n: [(i // 2, i % 2) for i in range(n)],
    "sparse": lambda n: [(i * 37 + 5) % 101 for i in range(n)],
    # numbers, their text, and tuples and words which look the same
    "alike": lambda n: [[i // 6, str(i // 6), (i // 6,), "(%d,)" % (i // 6), i // 6 + 0.5, "%d.5" % (i // 6)][i % 6] for i in range(n)],
    "mixed": lambda n: [i if i % 3 == 0 else "s%d" % i if i % 3 == 1 else (i, "t") for i in range(n)],
}


def digraphs(n):
    """The edge lists of all the digraphs (with self loops) on n nodes."""
    pairs = [(i, j) for i in range(n) for j in range(n)]
    for bits in range(1 << len(pairs)):
        yield [p for k, p in enumerate(pairs) if bits >> k & 1]


def multidigraphs(n, m):
    """As digraphs, with up to m edges between each pair."""
    pairs = [(i, j) for i in range(n) for j in range(n)]
    for mult in itertools.product(range(m + 1), repeat=len(pairs)):
        yield [p for p, c in zip(pairs, mult) for _ in range(c)]


def net(edges, n, labels="int", attrs=True, rot=None, node_attrs=False):
    """A network description; each edge has a distinct weight, so that mixing them up shows."""
    names = LABELS[labels](n)
    return {"nodes": names,
            "attrs": {names[i]: {"kind": "k%d" % i} for i in range(n)} if node_attrs else {},
            "edges": [(names[i], names[j], {"weight": 10 * k + 1, "tag": "%d>%d" % (i, j)} if attrs and k % 3 != 2 else {})
                      for k, (i, j) in enumerate(edges)],
            "rot": rot}


def shapes(n):
    """Some graphs on n nodes, as edge lists, for larger n."""
    return {
        "ring": [((i + d) % n, i) for i in range(n) for d in (-1, 0, 1)],
        "path": [(i, i + 1) for i in range(n - 1)],
        "star-in": [(i, 0) for i in range(1, n)],
        "star-out": [(0, i) for i in range(1, n)],
        "complete": [(i, j) for i in range(n) for j in range(n) if i != j],
        "loops": [(i, i) for i in range(n)],
        "empty": [],
        "tree": [((i - 1) // 2, i) for i in range(1, n)] + [(i, (i - 1) // 2) for i in range(1, n)],
        "multi": [(i, (i + 1) % n) for i in range(n) for _ in range(1 + i % 3)],
    }


def states(n, k):
    return itertools.product(range(k), repeat=n)


def context(ntm, acts, current=0, label=0, t=1, labels=None, conns=None, past=None, inp=None):
    """A NodeContext with the given neighbourhood activities."""
    labels = list(range(len(acts))) if labels is None else labels
    activities = dict(zip(labels, acts))
    activities.setdefault(label, current)
    return ntm.NodeContext(node_label=label, timestep=t, activities=activities, neighbour_labels=labels,
                           neighbourhood_activities=list(acts), connection_states=conns or {l: [{}] for l in labels},
                           current_activity=current, past_activities=past, input=inp)
