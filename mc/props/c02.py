"""
Update order. Every digraph on 2 nodes and graphs of several shapes on 3 and 5, every initial state, every update order,
topology rules which edit the network in place, in a copy, or build a new one, and whose edit is a hash of the timestep, the
activities and the edges they see: the order in which activities and topology are updated, and what each of the two rules
sees, are compared with the definition at each step. A topology rule without an activity rule, and one which returns no
network, are included.
"""
import itertools

from mc import cross, spaces
from mc.engine import Violation
from mc.refevolve import build, conform
from mc.target import ntm

ORDERS = ("AF", "TF", "SY")
E1 = {"weight": 5, "tag": "new"}
SCRIPTS2 = [
    [[("+", 0, 1, E1)], [("-", 0, 1)], [("~", 0, 1, {"weight": 9})], []],
    [[("-", 1, 0), ("+", 1, 0, {})], [("+", 0, 0, E1), ("-", 1, 1)], [("+", 1, 1, {}), ("+", 1, 0, E1)]],
    [[("+", 0, 1, E1), ("+", 0, 1, {})], [("~", 0, 1, {"weight": -1}), ("-", 1, 0)], [("-", 0, 1), ("+", 1, 0, E1)], []],
]


def scripts(n):
    return [[("+", i % n, (i + 1) % n, {"weight": i}), ("-", (i + 2) % n, i % n)] for i in range(n)] + \
        [[], [("-", 0, 1), ("-", 1, 0)], [("+", n - 1, 0, {}), ("~", n - 1, 0, {"x": 1})]]


def cases(tier):
    deep = tier == "thorough"
    styles = [("same", None), ("fresh", None), ("fresh", False), ("new", None), ("new", False), ("inplace", None),
              ("inplace", False)]
    for order, (style, cp) in itertools.product(ORDERS, styles):
        opts = {"update_order": order}
        if cp is not None:
            opts["copy_network"] = cp
        if style == "inplace" and cp is False and order == "SY":
            continue  # the rule would then change A(t) itself, before it is used
        for edges in spaces.digraphs(2):
            for s in spaces.states(2, 2):
                for sc in SCRIPTS2 if style != "same" else SCRIPTS2[:1]:
                    yield {"net": spaces.net(edges, 2), "init": list(s), "rule": ("probe", spaces.K3), "topo": (style, sc),
                           "T": 5, "opts": opts}
        for n in (3, 5) + ((8, 13) if deep else ()):
            for labels in ("int",) if n > 3 else ("int",):
                for shape, edges in sorted(spaces.shapes(n).items()):
                    for s in itertools.islice(spaces.states(n, 2), 32 if deep else 8):
                        yield {"net": spaces.net(edges, n, labels, node_attrs=True), "init": list(s),
                               "rule": ("probe", spaces.K3 + ["x", -1]), "topo": (style, scripts(n)), "T": 6, "opts": opts}
        for edges in spaces.digraphs(2):
            # no activity rule, or no initial conditions either
            yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": None, "topo": (style, SCRIPTS2[2]), "T": 5, "opts": opts}
            yield {"net": spaces.net(edges, 2), "init": None, "rule": None, "topo": (style, SCRIPTS2[1]), "T": 5, "opts": opts}
        # new nodes, where no activities are followed
        grow = [[("n", 7, {"a": 1}), ("+", 7, 0, {})], [("+", 1, 8, E1)], [("-", 7, 0), ("+", 8, 7, {})]]
        for edges in spaces.digraphs(2):
            yield {"net": spaces.net(edges, 2), "init": None, "rule": None, "topo": (style, grow), "T": 7, "opts": opts}
        for T in (1, 2, 3, 12, 30):
            for edges in spaces.shapes(3).values():
                yield {"net": spaces.net(edges, 3), "init": [0, 1, 1], "rule": ("probe", spaces.K3),
                       "topo": (style, scripts(3)), "T": T, "opts": opts}
        # with inputs, past activities and a perturbation
        for edges in spaces.digraphs(2):
            yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": ("probe", spaces.K3), "topo": (style, SCRIPTS2[0]),
                   "inp": ("list", [[1, 2], [3, 4], [5, 6], [0, 0]]), "past": [[1, 1], [0, 2]], "pert": [0, 1, 2], "opts": opts}
            yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": ("probe", spaces.K3), "topo": (style, SCRIPTS2[2]),
                   "inp": ("fnstate", 5, 3), "opts": opts}
        # a network which loses all its nodes, or never had any
        if style != "same":
            yield {"net": spaces.net([], 0), "init": None, "rule": None, "topo": (style, [[("n", 1, {})], []]), "T": 5, "opts": opts}
            for edges in spaces.digraphs(2):
                for sc in ([[("0",)]], [[], [("0",)], []], [[("0",)], [("n", 3, {}), ("+", 3, 4, E1)]]):
                    yield {"net": spaces.net(edges, 2), "init": None, "rule": None, "topo": (style, sc), "T": 6, "opts": opts}
                if order == "AF":
                    yield {"net": spaces.net(edges, 2), "init": [0, 1], "rule": None, "topo": (style, [[("0",)]]), "T": 4, "opts": opts}
    # the default is ACTIVITIES_FIRST; without a topology rule, the order does not matter
    for order in ORDERS:
        for edges in spaces.digraphs(2):
            for s in spaces.states(2, 2):
                yield {"net": spaces.net(edges, 2), "init": list(s), "rule": ("probe", spaces.K3), "T": 4,
                       "opts": {"update_order": order}}
                yield {"net": spaces.net(edges, 2), "init": list(s), "rule": ("probe", spaces.K3), "T": 4,
                       "topo": ("fresh", SCRIPTS2[0])}
    for order in ORDERS:
        for edges in spaces.digraphs(2):
            for at in (1, 2, 3):
                yield {"none": at, "net": spaces.net(edges, 2), "order": order}
    yield from cross.cases(tier)


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    if "none" in case:
        from mc.refevolve import ORDERS as O

        def topology_rule(ctx):
            return None if ctx.timestep == case["none"] else ctx.network
        try:
            ntm.evolve(build(ntm.Network, case["net"]), [0, 1], lambda ctx: 0, timesteps=5, topology_rule=topology_rule,
                       update_order=O[case["order"]])
        except Exception:
            rec.trace()
            rec.step(case["none"])
            rec.outcome(repr(case))
            rec.state(repr(case))
            return
        raise Violation("a topology rule which returned no network was accepted")
    nets = not (case["topo"][0] == "inplace" and case["opts"].get("copy_network") is False and not case["opts"].get("compression")) if case.get("topo") else True
    conform(case, rec, compare_networks=nets)
