"""
Trajectory length, timesteps and input. Every number of timesteps and every length of input up to the bound, inputs as a
list of per-node lists or tuples, of single values, or a function of the timestep, the activities and the network; on every
digraph on 2 nodes and other graphs, in every update order, and with every small input alphabet. The states, the timestep
numbers, the item which each node (and the perturbation) receives, and the arguments of an input function are compared with
the definition; calls with neither timesteps nor input, or with the wrong number of initial conditions, must be refused.
"""
import itertools

from mc import cross, spaces
from mc.engine import Violation, require
from mc.refevolve import build, conform
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    P = ("probe", spaces.K3)
    for n in (1, 2, 3, 4):
        for shape, edges in sorted(spaces.shapes(n).items()):
            for T in list(range(1, 12)) + [25, 50] + ([100, 200] if deep else []):
                yield {"net": spaces.net(edges, n), "init": [i % 2 for i in range(n)], "rule": P, "T": T}
    for T in (127, 128, 129, 255, 256, 257, 300, 1000, 1025):
        yield {"net": spaces.net([(0, 0)], 1), "init": [1], "rule": P, "T": T}
        yield {"net": spaces.net([(0, 0)], 1), "init": [1], "rule": P, "inp": ("list" if T % 2 else "fn", [t % 5 for t in range(T)])}
    # all the input sequences over a small alphabet
    for edges in spaces.digraphs(2):
        for length in range(0, 4):
            for items in itertools.product([[0, 1], [1, 0], (2, 2)], repeat=length):
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "inp": ("list", list(items))}
            for items in itertools.product([0, 1, -1], repeat=length):
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "inp": ("list", list(items))}
                yield {"net": spaces.net(edges, 2), "init": [1, 1], "rule": P, "inp": ("fn", list(items))}
            for items in itertools.product([[0, 5], 7], repeat=length):
                yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "inp": ("fn", list(items))}
    # symbols of a string, and other sequences
    for items in itertools.product(["ab", "01", range(2), range(7, 9), ("a", "bc")], repeat=2):
        for kind in ("list", "fn"):
            yield {"net": spaces.net([(0, 1), (1, 0)], 2), "init": [1, 0], "rule": P, "inp": (kind, list(items))}
    # inputs which are easily taken for "no input"
    for items in itertools.product([0, False, 0.0, (), [], {}, -1], repeat=2):
        if all(not isinstance(x, (list, tuple)) for x in items):
            for kind in ("list", "fn"):
                yield {"net": spaces.net([(0, 0)], 1), "init": [1], "rule": P, "inp": (kind, list(items))}
    for vals in itertools.product([0, None, False, "", 3, (1,)], repeat=3):
        yield {"net": spaces.net(spaces.shapes(3)["ring"], 3), "init": [1, 0, 2], "rule": P,
               "inp": ("list", [list(vals), list(reversed(vals)), list(vals)])}
    # each node gets its own item
    for n in (3, 5, 8, 12, 40):
        for labels in ("int", "rev"):
            for shape, edges in sorted(spaces.shapes(n).items()):
                if n > 12 and shape == "complete":
                    continue
                names = spaces.LABELS[labels](n)
                for kind in ("list", "fn"):
                    yield {"net": spaces.net(edges, n, labels), "init": {l: l % 3 for l in names}, "rule": P,
                           "inp": (kind, [[(t, i) for i in range(n)] for t in range(4)])}
                    yield {"net": spaces.net(edges, n, labels), "init": {l: l % 3 for l in names}, "rule": P,
                           "inp": (kind, [tuple(100 * t + i for i in range(n)) for t in range(3)]), "pert": [0, 1, 2]}
    # one value for all the nodes, whatever their labels
    for labels in sorted(spaces.LABELS):
        names = spaces.LABELS[labels](3)
        for kind in ("list", "fn"):
            yield {"net": spaces.net(spaces.shapes(3)["ring"], 3, labels), "init": {l: i for i, l in enumerate(names)}, "rule": P,
                   "inp": (kind, [5, 0, -2, 7.5, False])}
    # the input overrides the timesteps
    for T in (1, 2, 3, 7, 30):
        for length in (0, 1, 2, 3, 5):
            for kind in ("list", "fn"):
                yield {"net": spaces.net([(0, 1), (1, 0)], 2), "init": [0, 1], "rule": P, "T": T,
                       "inp": (kind, [[i, i + 1] for i in range(length)])}
    # an input function which looks at the evolution
    for order in ("AF", "TF", "SY"):
        for edges in spaces.digraphs(2):
            for s in spaces.states(2, 2):
                for T in (1, 2, 5):
                    yield {"net": spaces.net(edges, 2), "init": list(s), "rule": P, "inp": ("fnstate", T, 3),
                           "opts": {"update_order": order}}
            yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": P, "inp": ("fnstate", 6, 4), "pert": [1, 0, 3],
                   "topo": ("fresh", [[("+", 0, 1, {})], [("-", 0, 1)], []]), "opts": {"update_order": order}}
    for length in (10, 11, 30, 64) + ((128, 300) if deep else ()):
        for kind in ("list", "fn"):
            yield {"net": spaces.net(spaces.shapes(3)["ring"], 3), "init": [0, 1, 0], "rule": P,
                   "inp": (kind, [[t, t + 1, -t] for t in range(length)])}
    for n in (1, 2, 3):
        for given in range(0, 6):
            yield {"refuse": "init", "n": n, "given": given}
        yield {"refuse": "none", "n": n}
        # an item with fewer inputs than there are nodes
        for at in (1, 2, 3):
            for short in range(n):
                for kind in ("list", "tuple", "fn"):
                    yield {"refuse": "item", "n": n, "at": at, "short": short, "kind": kind}
    # the ways in which the items may be given
    for form in sorted(FORMS):  # (a string is a sequence, each character is for the first node)
        for T in (1, 2, 4):
            for n in (1, 2, 3) if form != "string" else (1,):
                yield {"form": form, "n": n, "T": T}
    yield from cross.cases(tier)


FORMS = {
    "tuple of lists": (lambda items: tuple(list(x) for x in items), True), "tuple of tuples": (lambda items: tuple(tuple(x) for x in items), True),
    "tuple of values": (lambda items: tuple(x[0] for x in items), False),
    "range": (lambda items: range(5, 5 + len(items)), False), "string": (lambda items: "".join("xyz "[t % 4] for t in range(len(items))), False),
    "list of ranges": (lambda items: [range(t, t + len(x)) for t, x in enumerate(items)], True),
}


def form(case, rec):
    make, each = FORMS[case["form"]]
    n, T = case["n"], case["T"]
    given = make([[10 * t + i for i in range(n)] for t in range(T)])
    before = list(given)
    for again in range(2):
        net = build(ntm.Network, spaces.net(spaces.shapes(n)["loops"], n))
        traj = ntm.evolve(net, [None] * n, lambda ctx: ctx.input, input=given)
        require(len(traj) == T + 1, "%d items (%s) gave %d states", T, case["form"], len(traj))
        for t in range(T):
            want = {i: before[t][i] if each else before[t] for i in range(n)}
            require(traj[t + 1].activities == want, "t=%d: the nodes received %s, expected %s", t + 1, traj[t + 1].activities, want)
            rec.state(repr(want))
    rec.trace()
    rec.step(2 * T)
    rec.outcome(repr(case))


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    if "form" in case:
        return form(case, rec)
    if "refuse" not in case:
        conform(case, rec)
        return
    n = case["n"]
    net = build(ntm.Network, spaces.net(spaces.shapes(n)["loops"], n))
    rec.trace()
    rec.step()
    rec.state(repr(case))
    rec.outcome(repr(case))
    try:
        if case["refuse"] == "item":
            items = [list(range(n)) if t != case["at"] else list(range(case["short"])) for t in range(1, 5)]
            if case["kind"] == "tuple":
                items = [tuple(x) for x in items]
            given = items if case["kind"] != "fn" else lambda t, activities, network: items[t - 1] if t < 5 else None
            ntm.evolve(net, [0] * n, lambda ctx: ctx.input, input=given)
            raise Violation("an item with %d inputs was accepted for %d nodes" % (case["short"], n))
        if case["refuse"] == "init":
            traj = ntm.evolve(net, [0] * case["given"], lambda ctx: 1, timesteps=3)
            require(case["given"] == n, "%d initial conditions were accepted for %d nodes", case["given"], n)
            require(len(traj) == 3, "the trajectory has %d states", len(traj))
            return
        ntm.evolve(net, [0] * n, lambda ctx: 1)
    except Violation:
        raise
    except Exception:
        if case["refuse"] == "init":
            require(case["given"] != n, "%d initial conditions were refused for %d nodes", case["given"], n)
        return
    raise Violation("an evolution with neither timesteps nor input was accepted")
