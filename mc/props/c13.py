"""
Conversions. For all digraphs and multidigraphs of the bound, with node and edge attributes and all label types: to NetworkX and
back is the identity, and each NetworkX node and edge carries exactly the attributes of the network's; for all matrices over the
bound's entries, an adjacency matrix to a network and back is the identity (nodes without connections included); and the
adjacency matrix of any multigraph, for every order of its nodes, weight attribute and multi-edge mode, has in row i and column j
the weight of the connection from i to j.
"""
import itertools

import networkx as nx
import numpy as np

from mc import spaces
from mc.engine import canon, require, same
from mc.refevolve import build, norm_real, snap
from mc.target import ntm

ENTRIES = [0, 1, 2.5, -1]
NAMES = ["key", "keys", "label", "name", "weight", "type", "id", "data", "nodes", "edges", "default", "attr", "u", "v", "x", "k", "n", "G",
         "u_for_edge", "v_for_edge", "u_of_edge", "ebunch_to_add", "source", "target", "activity", "state", "in_degree", "out_degree", "color",
         "hyperedge_index", "unary", "degree", "pos", "_network", "two words", "", "é"]


def cases(tier):
    deep = tier == "thorough"
    for edges in spaces.digraphs(3):
        yield {"net": spaces.net(edges, 3, node_attrs=True)}
        yield {"net": spaces.net(edges, 3, "mixed")}
    for edges in spaces.multidigraphs(2, 3):
        yield {"net": spaces.net(edges, 2, "str", node_attrs=True)}
    # parallel connections which are alike, and weights of which some are zero
    pool = [{}, {"weight": 0}, {"weight": 1}, {"other": 0}, {"weight": -1, "other": 2}]
    for k in range(1, 4 if not deep else 5):
        for attrs in itertools.product(pool, repeat=k):
            yield {"net": {"nodes": [0, 1], "attrs": {}, "edges": [(0, 1, a) for a in attrs]}}
            if k == 2:
                yield {"net": {"nodes": ["b", "a"], "attrs": {}, "edges": [("a", "b", attrs[0]), ("b", "a", attrs[1]), ("a", "b", attrs[0])]}}
                yield {"net": {"nodes": [0], "attrs": {}, "edges": [(0, 0, a) for a in attrs]}}
    for name in NAMES:
        for value in ("a", 0, None, (1, 2)) if name != "weight" else (0, 3, 0.5):
            d = {name: value}
            yield {"net": {"nodes": [0, 1], "attrs": {0: d}, "edges": [(0, 1, d), (0, 1, d), (1, 1, {}), (0, 1, dict(d, other=2)), (1, 0, {"other": 1})]}}
    for labels in sorted(spaces.LABELS):
        for n in (0, 1, 2, 4, 5):
            for shape, edges in sorted(spaces.shapes(n).items()) if n else [("", [])]:
                yield {"net": spaces.net(edges, n, labels, node_attrs=n % 2 == 0)}
    for k, m in enumerate(itertools.product((0, 1e-12, -1e-300, 0.1, 1e308), repeat=4)):
        yield {"matrix": [list(m[:2]), list(m[2:])], "form": ("list", "array", "rows")[k % 3]}
    for n in (1, 2):
        for m in itertools.product(ENTRIES, repeat=n * n):
            for form in ("list", "array", "rows"):
                yield {"matrix": [list(m[i * n:i * n + n]) for i in range(n)], "form": form}
    for k, bits in enumerate(itertools.product((0, 1), repeat=9)):
        yield {"matrix": [list(bits[i * 3:i * 3 + 3]) for i in range(3)], "form": ("list", "array", "rows")[k % 3]}
    if deep:
        for bits in itertools.product((0, 3), repeat=16):
            yield {"matrix": [list(bits[i * 4:i * 4 + 4]) for i in range(4)], "form": "list"}
    # connections in another order than that of the nodes
    for edges in spaces.digraphs(3):
        if len(edges) > 1:
            yield {"net": spaces.net(edges[::-1], 3, "str")}
            yield {"net": spaces.net(edges[1::2] + edges[::2], 3, node_attrs=True)}
    for labels in ("int", "rev", "mixed"):
        for shape, edges in sorted(spaces.shapes(18).items()):
            yield {"net": spaces.net(edges, 18, labels, node_attrs=True)}
    for n in (5, 12, 30):
        for k in range(4):
            yield {"matrix": [[(i * 7 + j * (k + 3) + i * j) % (3 + k) - k for j in range(n)] for i in range(n)], "form": ("list", "array", "rows")[k % 3]}
    for edges in spaces.digraphs(3):
        yield {"nx": edges, "kind": "DiGraph"}
    for edges in spaces.multidigraphs(2, 2):
        yield {"nx": edges, "kind": "MultiDiGraph"}


def run(case, rec):
    rec.trace()
    if "net" in case:
        network(case["net"], rec)
    elif "matrix" in case:
        matrix(case, rec)
    else:
        foreign(case, rec)


def network(desc, rec):
    n = build(ntm.Network, desc)
    before = snap(norm_real(n))
    G = n.to_networkx()
    require(isinstance(G, nx.MultiDiGraph), "to_networkx gave a %s", type(G))
    same(list(G.nodes), desc["nodes"], "the nodes of the NetworkX graph")
    for label, attrs in G.nodes(data=True):
        same(attrs, desc["attrs"].get(label, {}), "the attributes of the NetworkX node %r" % (label,))
    same(sorted(((repr(i), repr(j), repr(sorted(d.items()))) for i, j, d in G.edges(data=True))),
         sorted(((repr(i), repr(j), repr(sorted(d.items()))) for i, j, d in desc["edges"])), "the edges of the NetworkX graph")
    back = ntm.Network.from_networkx(G)
    same(snap(norm_real(back)), before, "the network from its NetworkX graph")
    same(list(back.nodes), desc["nodes"], "the order of the nodes of the network from its NetworkX graph")
    require(back == n and n == back, "the network from its NetworkX graph does not equal it")
    for i, j, e in back.edges:
        e["changed"] = 1
    same(snap(norm_real(n)), before, "the network, after the one made from its NetworkX graph changed")
    rec.step(2)
    rec.state(before)
    labels = desc["nodes"]
    orders = list(itertools.permutations(labels)) if len(labels) <= 3 else [tuple(labels), tuple(reversed(labels))]
    for order in [None] + orders:
        for multi in (True, False):
            for weight in ("weight", "other", None):
                kw = {"sum_multiedges": multi, "weight": weight}
                if order is not None:
                    kw["nodelist"] = list(order)
                M = n.to_adjacency_matrix(**kw)
                at = {label: i for i, label in enumerate(order if order is not None else labels)}
                require(len(M) == len(labels) and all(len(r) == len(labels) for r in M), "the matrix has the wrong shape")
                between = {}
                for i, j, d in desc["edges"]:
                    between.setdefault((at[i], at[j]), []).append(d.get(weight, 1) if weight is not None else 1)
                for r in range(len(labels)):
                    for c in range(len(labels)):
                        ws = between.get((r, c), [])
                        ok = M[r][c] == sum(ws) if multi or not ws else M[r][c] in ws
                        require(ok, "the matrix (order %s, %s) has %r in row %d, column %d; the connection has the weights %s",
                                order, kw, M[r][c], r, c, ws)
                rec.step()
                rec.outcome(repr(M))
    same(n.to_adjacency_matrix(), n.to_adjacency_matrix(sum_multiedges=True, weight="weight"), "the default matrix")
    same(snap(norm_real(n)), before, "the network, after it was converted")


def matrix(case, rec):
    M = case["matrix"]
    n = len(M)
    given = {"list": M, "array": np.array(M), "rows": [np.array(r) for r in M]}[case["form"]]
    net = ntm.topology.from_adjacency_matrix(given)
    same(sorted(net.nodes), list(range(n)), "the nodes")
    for i in range(n):
        for j in range(n):
            require(net.has_edge(i, j) == (M[i][j] != 0), "has_edge(%d, %d) is %s", i, j, net.has_edge(i, j))
            if M[i][j] != 0:
                require(len(net.edge(i, j)) == 1 and set(net.edge(i, j)[0]) == {"weight"}
                        and net.edge(i, j)[0]["weight"] == M[i][j], "the edge %d -> %d is %s", i, j, net.edge(i, j))
    norm_real(net)
    for multi in (True, False):
        back = net.to_adjacency_matrix(nodelist=list(range(n)), sum_multiedges=multi)
        require([[x for x in r] for r in back] == M, "the matrix of the network is %s", back)
        rec.step()
    require(canon(M) == canon(case["matrix"]), "the matrix changed")
    rec.state(repr(M))
    rec.outcome(repr(M))


def foreign(case, rec):
    G = getattr(nx, case["kind"])()
    want = []
    for n in range(3 if case["kind"] == "DiGraph" else 2):
        G.add_node(n, **({"kind": n} if n else {}))
    for k, (i, j) in enumerate(case["nx"]):
        d = {"weight": k, "x": (i, j)} if k % 2 == 0 else {}
        G.add_edge(i, j, **d)
        want.append((i, j, d))
    net = ntm.Network.from_networkx(G)
    desc = {"nodes": list(G.nodes), "attrs": {n: dict(a) for n, a in G.nodes(data=True)}, "edges": want}
    same(snap(norm_real(net)), snap(norm_real(build(ntm.Network, desc))), "the network")
    same(list(net.nodes), list(G.nodes), "the order of the nodes")
    net.add_edge(0, 1, y=1)
    net.add_node(0, z=1)
    require("z" not in G.nodes[0] and G.number_of_edges() == len(want), "the NetworkX graph changed with the network")
    rec.step()
    rec.outcome(repr(case))
