"""
Nodes added and removed by the activity rule. All plans of up to two acts (at any of the first timesteps, by any node, of any
of the kinds: remove itself, remove another, be removed by several, add a new node with and without links, add several which
link to each other, remove and add the same label at once, set an existing node, replace itself), over all the small graphs;
then chains of growth and decay, networks which die out and regrow, and all of it with a topology rule of each style, past
conditions, inputs, perturbation, compression and the persistence options. Each trajectory, each network and everything any
rule sees must be what the definition says; a plan which the definition has no meaning for is skipped (and not counted).
"""
import itertools

from mc import cross, spaces
from mc.refevolve import conform, interpret

P = spaces.K3
E1 = {"weight": 5}


def acts_of(me, other):
    """The kinds of acts of node `me`."""
    return [
        [("rm", me)],
        [("rm", other)],
        [("rm", me), ("rm", other)],
        [("add", 1, {}, 7)],
        [("add", 2, {me: E1}, 7)],
        [("add", 0, {me: {}, other: E1, 7: {}}, 7)],
        [("add", 2, {8: E1}, 7), ("add", 1, {me: {}}, 8)],
        [("rm", me), ("add", 4, {other: {}}, 7)],
        [("rm", me), ("add", 4, {other: E1}, me)],
        [("rm", other), ("add", 5, {me: {}}, other)],
        [("add", 6, {me: {}}, other)],
        [("rm", other), ("rm", other)],
    ]


def entries(ts):
    for t in ts:
        for me, other in ((0, 1), (1, 0)):
            for a in acts_of(me, other):
                yield {(t, me): a}
        yield {(t, 7): [("rm", 7)]}
        yield {(t, 7): [("rm", 0)]}
        yield {(t, 7): [("add", 3, {7: {}}, 9)]}


def plans(ts):
    es = list(entries(ts))
    for e in es:
        yield e
    for a, b in itertools.combinations(es, 2):
        k, m = next(iter(a)), next(iter(b))
        if k != m:
            yield {**a, **b}


def cases(tier):
    deep = tier == "thorough"
    graphs = [[(0, 1), (1, 0), (0, 0)], [(1, 0), (0, 1), (0, 1), (1, 1)], []]
    for edges in graphs if not deep else list(spaces.digraphs(2)) + graphs[1:2]:
        for plan in plans((1, 2, 3) if deep else (1, 2)):
            yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": ("plan", P, plan), "T": 5}
    singles = list(entries((1, 2)))
    for edges in spaces.digraphs(2):
        for plan in singles:
            yield {"net": spaces.net(edges, 2), "init": [1, 2], "rule": ("plan", P, plan), "T": 4}
    pairs = list(plans((1,)))[len(list(entries((1,)))):] + [{**a, **b} for a in entries((1,)) for b in entries((3,))][::1 if deep else 3]
    extras = [
        {"topo": ("same", [[]])},
        {"topo": ("fresh", [[("+", 1, 0, {})], [("-", 0, 1)], [("~", 0, 0, {"x": 1})]])},
        {"topo": ("inplace", [[("~", 0, 1, {"x": 1})], [("-", 0, 1)], [("-", 1, 0)]])},
        {"topo": ("new", [[("-", 0, 1)], [("~", 0, 0, {"x": 1})]])},
        {"topo": ("inplace", [[("~", 0, 1, {"x": 1})], [("-", 0, 1)]]), "opts": {"copy_network": False}},
        {"past": [{0: 5, 1: 6}, {0: 7, 1: 8}]},
        {"pert": [0, 1, 2, 5]},
        {"opts": {"compression": True}},
        {"opts": {"persist_activities": False}},
        {"opts": {"persist_network": False}},
        {"opts": {"copy_network": False}},
        {"past": [[1, 2]], "pert": [1, 2], "opts": {"compression": True, "persist_activities": False}},
        {"past": [[1, 2], [0, 1]], "topo": ("fresh", [[("~", 0, 1, {"x": 1})], [("-", 1, 0)]])},
        {"T": None, "inp": ("fn", [4, 5, 6, 7])},
        {"T": None, "inp": ("fnstate", 5, 3), "pert": ["same"]},
    ]
    for extra in extras:
        for plan in singles + pairs:
            yield dict({"net": spaces.net(graphs[0], 2, node_attrs=True), "init": [0, 1], "rule": ("plan", P, plan), "T": 5}, **extra)
    # growth and decay
    for n in (1, 2, 3):
        for shape, edges in sorted(spaces.shapes(n).items()):
            init = [i % 3 for i in range(n)]
            last = n - 1
            grow = {(t, last + t - 1): [("add", t, {last + t - 1: {"w": t}, last: {}}, last + t)] for t in range(1, 9)}
            decay = {(8 + t, last + 9 - t): [("rm", last + 9 - t)] for t in range(1, 6)}
            walk = {(t, last + t - 1): [("rm", last + t - 1), ("add", t, {}, last + t)] for t in range(1, 9)}
            die = {(2, i): [("rm", i)] for i in range(n)}
            born = {(1, i): [("add", i, {i: {}}, 10 + i)] for i in range(n)}
            allrm = {(1, i): [("rm", j) for j in range(n)] for i in range(n)}
            refill = dict(allrm)
            refill[(1, 0)] = allrm[(1, 0)] + [("add", 3, {}, 40), ("add", 4, {40: {"w": 1}}, 41)]
            for plan in (grow, {**grow, **decay}, walk, die, {**born, **die}, allrm, refill):
                for extra in extras[5:12] + [{}, extras[0]]:
                    yield dict({"net": spaces.net(edges, n), "init": init, "rule": ("plan", P, plan), "T": 15}, **extra)
    # very many at once
    for n in (20, 70, 140):
        edges = spaces.shapes(3)["ring"]
        add = [("add", i % 5, {10 + (i * 7 % n): {"w": i}, 0: {}} if i % 3 else {}, 10 + i) for i in range(n)]
        for plan in ({(1, 0): add}, {(1, 0): add[::2], (1, 2): add[1::2]}, {(1, 1): add, (2, 0): [("rm", 10 + i) for i in range(0, n, 2)]},
                     {(1, 1): add, **{(2, 10 + i): [("rm", 10 + i)] for i in range(n)}},
                     {(1, 1): add, **{(2, 10 + i): [("rm", 10 + i), ("add", i, {1: {}}, 500 + i)] for i in range(n)}}):
            for extra in ({}, {"opts": {"compression": True}}):
                yield dict({"net": spaces.net(edges, 3), "init": [0, 1, 2], "rule": ("plan", P, plan), "T": 4}, **extra)
    # several nodes at once: some removed, some of which are added again
    for n in (3, 4):
        for gone in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(1, n + 1)):
            for back in itertools.chain.from_iterable(itertools.combinations(gone, k) for k in range(1, len(gone) + 1)):
                stay = [i for i in range(n) if i not in gone] + list(back)
                again = [("add", 7 + i, {x: {"w": i} for x in stay if x <= i or x not in back}, i) for i in back]
                by = {(1, 0): [("rm", i) for i in gone] + again}
                each = {(1, i): [("rm", i)] for i in gone}
                each[(1, n - 1)] = again + each.get((1, n - 1), [])
                for shape, edges in sorted(spaces.shapes(n).items()):
                    for plan in (by, each):
                        for extra in ({}, {"pert": [0, 1, 2, 5]}) if n == 3 else ({},):
                            yield dict({"net": spaces.net(edges, n), "init": [1, 0, 2, 2][:n], "rule": ("plan", P, plan), "T": 4}, **extra)
    # labels and activities of all kinds
    for labels in sorted(spaces.LABELS):
        names = spaces.LABELS[labels](3)
        for shape, edges in sorted(spaces.shapes(3).items()):
            for new in ("x", (1, 2), -5, 3.5, 500):
                for value in (None, "", (1, (2,)), ("np.int64", 3), False):
                    yield {"net": spaces.net(edges, 3, labels), "init": {l: i for i, l in enumerate(names)}, "T": 6,
                           "rule": ("plan", spaces.MIXED, {(1, names[1]): [("add", value, {names[0]: {"w": 1}, new: {}}, new)],
                                                           (2, names[2]): [("rm", names[0])], (3, new): [("rm", new)]})}
    yield from cross.cases(tier)


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    try:
        interpret(case)
    except KeyError:
        return  # it removes a node which isn't there, or links to one
    # without copies, an in-place change shows in all the states which share the network
    shared = case.get("topo", ("",))[0] == "inplace" and not case.get("opts", {}).get("copy_network", True) and not case.get("opts", {}).get("compression")
    conform(case, rec, compare_networks=not shared)
