"""
Past activities. For every window of up to 7 past conditions, every small past and initial state, runs shorter and longer
than the window: the past which each node sees at each timestep, by the property and by past_activity_of, is compared with
the definition (entry -1 is the timestep before the last, and so on back into the given past conditions), with lists, dicts
and arrays as past conditions, in every update order, with the activities persisted, compressed or neither.
"""
import itertools

from mc import cross, spaces
from mc.refevolve import conform


def cases(tier):
    deep = tier == "thorough"
    P = ("probe", spaces.K3)
    for edges in ([], [(0, 0)], [(0, 1)], [(0, 1), (1, 0)], [(0, 1), (1, 0), (0, 0), (1, 1)]):
        for window in (1, 2, 3):
            for past in itertools.product(spaces.states(2, 2), repeat=window):
                for s in spaces.states(2, 2):
                    for T in ((2, 6) if window < 3 else (5,)):
                        yield {"net": spaces.net(edges, 2), "init": list(s), "rule": P, "T": T, "past": [list(p) for p in past]}
    for window in range(0, 11 if deep else 8):
        for T in range(1, 14):
            past = [[10 * w + i for i in range(3)] for w in range(window)]
            for edges in (spaces.shapes(3)["ring"], spaces.shapes(3)["path"]):
                yield {"net": spaces.net(edges, 3), "init": [1, 2, 3], "rule": P, "T": T, "past": past}
                for opts in ({"persist_activities": False}, {"compression": True}, {"persist_network": False},
                             {"persist_activities": False, "compression": True}):
                    yield {"net": spaces.net(edges, 3), "init": [1, 2, 3], "rule": P, "T": T, "past": past, "opts": opts}
    for order in ("AF", "TF", "SY"):
        for window in (1, 2, 4):
            for style in ("same", "fresh", "new", "inplace"):
                for edges in spaces.digraphs(2):
                    yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "T": 6, "past": [[w, -w] for w in range(window)],
                           "topo": (style, [[("+", 0, 1, {})], [("-", 0, 1)], []]), "opts": {"update_order": order}}
    for labels in sorted(spaces.LABELS):
        names = spaces.LABELS[labels](3)
        for window in (1, 2, 5):
            past = [{l: spaces.MIXED[(w + i) % len(spaces.MIXED)] for i, l in enumerate(names)} for w in range(window)]
            for shape, edges in sorted(spaces.shapes(3).items()):
                yield {"net": spaces.net(edges, 3, labels), "init": {l: i for i, l in enumerate(names)}, "rule": ("probe", spaces.MIXED),
                       "T": 8, "past": past}
    for window in (1, 2, 3):
        for edges in spaces.digraphs(2):
            yield {"net": spaces.net(edges, 2), "init": [1, 0], "rule": P, "T": 6, "past": [("np", [w, w + 1]) for w in range(window)]}
            yield {"net": spaces.net(edges, 2), "init": ("np", [1, 0]), "rule": P, "T": 6,
                   "past": [{1: w, 0: -w} for w in range(window)]}
            yield {"net": spaces.net(edges, 2), "init": [1, 0], "rule": P, "inp": ("fnstate", 7, 3), "pert": [0, 1, 2, 3],
                   "past": [[w, 9] for w in range(window)]}
            yield {"net": spaces.net(edges, 2), "init": [0, 1], "T": 7, "past": [[w, 9] for w in range(window)],
                   "rule": ("plan", spaces.K3, {(1, 0): [("add", 2, {0: {}, 9: {}}, 9)], (3, 9): [("rm", 9)], (4, 1): [("rm", 0)]})}
    # long windows, of many nodes and values of any kind, as lists and arrays
    for window, T, n in ((13, 5, 3), (13, 30, 3), (17, 20, 14), (33, 3, 2), (33, 40, 2), (70, 90, 2), (5, 8, 20)):
        values = spaces.MIXED + [0.1, -3.25, (1,), "xy"]
        for kind in range(3):
            past = [[values[(w * 3 + i * (kind + 1)) % len(values)] for i in range(n)] for w in range(window)]
            if kind == 1:
                past = [("np", [w * 0.5 - i for i in range(n)]) if w % 2 else p for w, p in enumerate(past)]
            for opts in ({}, {"persist_activities": False}, {"compression": True}) if kind == 0 else ({},):
                yield {"net": spaces.net(spaces.shapes(n)["ring"], n), "init": [values[i % len(values)] for i in range(n)], "rule": ("probe", values),
                       "T": T, "past": past, "opts": opts}
    for n in (40, 70, 130, 300):
        for kind in ("list", "np", "dict"):
            past = [[(w * 7 + i * i) % 23 - 5 for i in range(n)] for w in range(3)]
            past = [("np", p) if kind == "np" else dict(enumerate(p)) if kind == "dict" else p for p in past]
            yield {"net": spaces.net(spaces.shapes(n)["ring"], n), "init": [i % 5 for i in range(n)], "rule": P, "T": 5, "past": past}
    for T in (25, 60) + ((200,) if deep else ()):
        for window in (1, 2, 3, 12):
            for opts in ({}, {"persist_activities": False}, {"compression": True}):
                yield {"net": spaces.net(spaces.shapes(4)["ring"], 4), "init": [0, 1, 1, 0], "rule": P, "T": T,
                       "past": [[w, 0, -w, 1] for w in range(window)], "opts": opts}
    yield from cross.cases(tier)


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    conform(case, rec)
