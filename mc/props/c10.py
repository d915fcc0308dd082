"""
Rotation systems. All the orders of the in-neighbours of each node of all small digraphs (and rotation systems which repeat,
omit or add nodes), with every label type: each rule invocation must see its neighbours' labels and activities exactly in the
order which the rotation system gives, at every timestep, with and without memoization, inputs, past conditions,
perturbation, compression, persistence options, and with topology rules which keep the network (copy_network=False) or give each
network a rotation system of its own. A
rotation system which names a node that the network doesn't have must be refused, leaving the one before it.
"""
import itertools

from mc import cross, spaces
from mc.engine import Violation, require, same
from mc.refevolve import build, conform
from mc.target import ntm

LOST = "topology-rule-with-copy-network"


def rotations(n, edges, extra=False):
    """All the rotation systems of a graph."""
    per = []
    for j in range(n):
        inn = list(dict.fromkeys(i for i, t in edges if t == j))
        opts = [tuple(p) for p in itertools.permutations(inn)]
        if extra:
            opts += [tuple(p) for k in range(0, 4) for p in itertools.product(range(n), repeat=k)]
        per.append(list(dict.fromkeys(opts)))
    for combo in itertools.product(*per):
        yield combo


def cases(tier):
    deep = tier == "thorough"
    A = ("probe", spaces.K3)
    for edges in spaces.digraphs(2):
        for combo in rotations(2, edges, True):
            yield {"net": spaces.net(edges, 2, rot=dict(enumerate(combo))), "init": [0, 1], "rule": A, "T": 4}
    for k, edges in enumerate(spaces.digraphs(3)):
        for c, combo in enumerate(rotations(3, edges)):
            if deep or (c + k) % 4 == 0:
                yield {"net": spaces.net(edges, 3, rot=dict(enumerate(combo))), "init": [0, 1, 2], "rule": A, "T": 4}
    full = [(i, j) for i in range(3) for j in range(3)]
    for combo in rotations(3, full):
        yield {"net": spaces.net(full, 3, rot=dict(enumerate(combo))), "init": [0, 1, 2], "rule": A, "T": 4}
    extras = [
        {"opts": {"compression": True}}, {"opts": {"persist_network": False}}, {"opts": {"persist_activities": False}},
        {"past": [[1, 1], [2, 0]]}, {"pert": [0, 1, 2, 3]}, {"inp": ("list", [[0, 1], [2, 3], [4, 4]])}, {"inp": ("fn", [3, 4, 5])},
        {"rule": ("ord", [3, 1, 2, 0]), "opts": {"memoize": True}}, {"opts": {"copy_network": False}},
        {"opts": {"update_order": "TF"}}, {"opts": {"update_order": "SY"}},
    ] + [{"topo": (style, [[]]), "opts": {"copy_network": False, "update_order": o}} for style in ("same", "inplace")
         for o in ("AF", "TF", "SY")]
    for extra in extras:
        for edges in spaces.digraphs(2):
            for combo in rotations(2, edges, edges == [(0, 1), (1, 0)] or deep):
                for init in ([0, 1], [2, 2]) if deep else ([0, 1],):
                    c = dict({"net": spaces.net(edges, 2, rot=dict(enumerate(combo))), "init": init, "rule": A, "T": 4}, **extra)
                    yield c
    for labels in sorted(spaces.LABELS):
        names = spaces.LABELS[labels](4)
        for shape, edges in sorted(spaces.shapes(4).items()):
            for k in range(6):
                inn = [list(dict.fromkeys(i for i, t in edges if t == j)) for j in range(4)]
                perms = [list(itertools.permutations(x)) for x in inn]
                rot = {names[j]: tuple(names[i] for i in p[(k * 5 + j) % len(p)]) for j, p in enumerate(perms)}
                if k % 2:
                    rot = {j: list(v) for j, v in reversed(list(rot.items()))}
                yield {"net": spaces.net(edges, 4, labels, rot=rot), "init": {l: i for i, l in enumerate(names)},
                       "rule": ("probe", spaces.MIXED), "T": 5}
    # what a copying topology rule leaves of it
    for edges in ([(0, 1), (1, 0), (0, 0), (1, 1)], [(0, 0), (1, 0), (2, 0), (0, 1), (2, 1)]):
        n = 3 if len(edges) == 5 else 2
        for combo in rotations(n, edges):
            for o in ("AF", "TF", "SY"):
                for style in ("same", "inplace", "fresh"):
                    yield {"net": spaces.net(edges, n, rot=dict(enumerate(combo))), "init": list(range(n)), "rule": A, "T": 4,
                           "topo": (style, [[]]), "opts": {"update_order": o}}
    # a topology rule which gives each network a rotation system of its own, or none, whether or not it changes anything else
    for n, graphs in ((2, spaces.digraphs(2)), (3, [full, [(0, 1), (1, 2), (2, 0), (0, 2)], [(0, 0), (1, 0), (2, 0), (0, 1), (2, 1)]])):
        for edges in graphs:
            for c, combo in enumerate(rotations(n, edges)):
                for o in ("AF", "TF", "SY"):
                    for style in ("rotate", "new"):
                        for x, opts in enumerate(({}, {"copy_network": False}, {"compression": True}, {"persist_network": False}, {"memoize": True, "memoization_key": "tl"},
                                                  {"memoize": True})):
                            if n == 2 or (c + x) % 6 == 0 or deep:
                                ops = [[]] if (c + x) % 3 else [[("-", 0, 1)], [("+", 0, 1, {"w": 2})], []]
                                yield {"net": spaces.net(edges, n, rot=dict(enumerate(combo))), "init": list(range(n)),
                                       "rule": A if len(opts) != 1 or "memoize" not in opts else ("ord" if style == "rotate" else "nbr", spaces.K3),
                                       "T": 6, "topo": (style, ops), "opts": dict(opts, update_order=o)}
    # refused
    for labels in sorted(spaces.LABELS):
        names = spaces.LABELS[labels](2)
        for k in range(6):
            yield {"refuse": labels, "k": k}
    for n in (5, 13, 40, 130):
        for at in sorted({0, 1, n // 2, n - 2, n - 1}):
            yield {"refuse_at": at, "n": n}
    yield from cross.cases(tier)


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    if "refuse_at" in case:
        return refuse_at(case["n"], case["refuse_at"], rec)
    if "refuse" in case:
        return refuse(case, rec)
    try:
        conform(case, rec, compare_log=not case.get("opts", {}).get("memoize") or "memoization_key" in case["opts"])
    except Violation as e:
        if case.get("topo") and case["topo"][0] not in ("new", "rotate") and case["opts"].get("copy_network", True):
            # is it exactly what is known: the copy of the network has no rotation system?
            conform(dict(case, rotation_lost=True))
            raise Violation(str(e), LOST)
        raise


def refuse_at(n, at, rec):
    """A single wrong name, anywhere in a large rotation system."""
    net = build(ntm.Network, spaces.net(spaces.shapes(n)["complete"], n))
    good = {j: [i for i in range(n) if i != j] for j in range(n)}
    net.rotation_system = good
    for where in range(3):
        bad = {j: list(v) for j, v in good.items()}
        if where == 0:
            bad[at][(at * 7) % (n - 1)] = n
        elif where == 1:
            bad[at].insert(at, -1)
        else:
            bad = {j if j != at else "x": v for j, v in bad.items()}
        try:
            net.rotation_system = bad
        except Exception:
            pass
        else:
            raise Violation("a rotation system of %d nodes which names a missing one at %d was accepted" % (n, at))
        same(net.rotation_system, good, "the rotation system, after another was refused")
        rec.step()
    rec.trace()
    rec.outcome(n, at)


def refuse(case, rec):
    a, b = spaces.LABELS[case["refuse"]](2)
    missing = "missing"
    net = build(ntm.Network, spaces.net([(0, 1), (1, 0), (0, 0)], 2, case["refuse"]))
    require(net.rotation_system is None, "a new network has the rotation system %s", net.rotation_system)
    bad = [{a: (a, missing), b: (a,)}, {a: (a,), missing: (b,)}, {missing: ()}, {a: (), b: (missing,)}, {a: (b, a, missing), b: ()},
           {b: (a, missing, b)}][case["k"]]
    good = {a: (b, a), b: (a,)}
    for before in (None, good):
        if before is not None:
            net.rotation_system = before
            same(net.rotation_system, before, "the rotation system which was set")
        given = dict(bad)
        try:
            net.rotation_system = given
        except Exception:
            pass
        else:
            raise Violation("the rotation system %s was accepted" % (bad,))
        same(net.rotation_system, before, "the rotation system, after another was refused")
        same(given, bad, "the rotation system which was refused")
    other = {a: (a, b), b: (b, a)}
    net.rotation_system = other
    same(net.rotation_system, other, "the rotation system which was set instead")
    rec.trace()
    rec.step(4)
    rec.state(repr(bad))
    rec.outcome(repr(bad))
