"""
The other networks. Every lattice of up to three dimensions of the bound, periodic or not, with and without self-loops, from any
first label: exactly the nodes and the neighbours (once, in both directions) which its coordinates give. Every bipartite network
of the bound, with and without attributes; complete and disconnected ones of every size; and Watts-Strogatz networks over all
sequences of random answers up to a bound: undirected, of n nodes and n * (k // 2) connections, without self-loops, the ring
when nothing is re-connected, and the very graph that NetworkX makes from the same answers.
"""
import itertools

import networkx as nx
import numpy as np

from mc import spaces
from mc.choices import Chooser, PyRandom, explore, spread
from mc.engine import require, same
from mc.refevolve import norm_real
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    sizes = (1, 2, 3, 4, 5, 6)
    dims = [(a,) for a in range(1, 9)] + list(itertools.product(sizes[:5], repeat=2)) + list(itertools.product(sizes[:4], repeat=3))
    if deep:
        dims += list(itertools.product(sizes, repeat=3)) + list(itertools.product((1, 2, 3), repeat=4))
    for dim in dims:
        for periodic in (False, True):
            for loops in (False, True):
                for first in (0, 1, 7):
                    yield {"lattice": dim, "periodic": periodic, "loops": loops, "first": first}
    for dim in ((30,), (100,), (11, 12), (3, 25), (4, 5, 6), (2, 2, 2, 2), (3, 2, 2, 3)):
        for periodic, loops in itertools.product((False, True), repeat=2):
            yield {"lattice": dim, "periodic": periodic, "loops": loops, "first": len(dim) - 1}
    yield {"bipartite": (17, 12), "labels": "mixed", "attrs": True}
    yield {"bipartite": (1, 40), "labels": "int", "attrs": False}
    for n in (20, 33, 64):
        yield {"complete": n}
        yield {"disconnected": n}
        for k in (2, 4, 7):
            yield {"ws": (n, k, 0.0)}
            yield {"ws_seed": (n, k)}
    for labels in sorted(spaces.LABELS):
        for a in range(1, 5):
            for b in range(1, 5):
                for attrs in (False, True):
                    yield {"bipartite": (a, b), "labels": labels, "attrs": attrs}
    for n in range(1, 12):
        yield {"complete": n}
    for n in range(0, 9):
        yield {"disconnected": n}
    for labels in sorted(spaces.LABELS):
        for n in range(0, 6):
            yield {"disconnected": spaces.LABELS[labels](n)}
    yield {"disconnected": ("np", 4)}
    for nodes in ([b"a", "a", b"b"], [None, "None", 0], [1.5, "1.5", (1.5,)], [0, "", (), None], [frozenset([1]), (1,), 1]):
        yield {"disconnected": nodes}
    for n, k in ((7, 4), (13, 2), (20, 6), (33, 3), (64, 8)):
        for p in (0.001, 0.3, 0.995, 1.0, 1):
            for pattern in (0.618, 0.4142, 0.7320508):
                yield {"ws_pattern": (n, k, p), "pattern": pattern}
    for n in range(3, 9):
        for k in range(2, n):
            yield {"ws": (n, k, 0.0)}
            yield {"ws_seed": (n, k)}
    for n, k, p, bound in [(4, 2, 0.5, 8), (5, 2, 0.5, 7), (4, 2, 1.0, 9), (5, 2, 1.0, 10)] + (
            [(4, 2, 0.5, 9), (5, 2, 0.5, 10), (4, 2, 1.0, 10), (5, 4, 0.5, 13), (6, 2, 1.0, 12)] if deep else []):
        yield {"ws": (n, k, p), "bound": bound}


def run(case, rec):
    rec.trace()
    if "lattice" in case:
        lattice(case, rec)
    elif "bipartite" in case:
        bipartite(case, rec)
    elif "complete" in case:
        n = case["complete"]
        check(ntm.topology.complete(n), list(range(n)), {(i, j): {"weight": 1} for i in range(n) for j in range(n) if i != j}, rec)
    elif "disconnected" in case:
        d = case["disconnected"]
        if isinstance(d, tuple):
            net = ntm.topology.disconnected(np.array(range(d[1])))
            require(list(net.nodes) == list(range(d[1])) and not list(net.edges), "the nodes are %s", list(net.nodes))
            rec.step()
        else:
            net = ntm.topology.disconnected(d)
            want = list(range(d)) if isinstance(d, int) else d
            check(net, want, {}, rec)
            same(list(net.nodes), want, "the order of the nodes")
            net.add_edge("new", "other")
            require(len(ntm.topology.disconnected(d)) == len(want), "two networks share their nodes")
    elif "ws_pattern" in case:
        n, k, p = case["ws_pattern"]
        grid = (0.0, 0.0005, 0.25, 0.75, 0.999)
        net = ntm.topology.watts_strogatz_graph(n, k, p, PyRandom(spread(case["pattern"])(), grid))
        G = nx.watts_strogatz_graph(n, k, p, PyRandom(spread(case["pattern"])(), grid))
        graph(net, n, k)
        same({frozenset(e[:2]) for e in net.edges}, {frozenset(e) for e in G.edges}, "the connections")
        rec.step(n)
        rec.outcome(repr(sorted(e[:2] for e in net.edges)))
    elif "ws_seed" in case:
        n, k = case["ws_seed"]
        for seed in range(5):
            a, b = (ntm.topology.watts_strogatz_graph(n, k, 0.5, seed) for _ in range(2))
            same(norm_real(a), norm_real(b), "the network of the same seed")
            graph(a, n, k)
            rec.step()
    else:
        watts(case, rec)


def check(net, nodes, edges, rec):
    """Exactly these nodes, and exactly these edges, once each, with these attributes (equal, of any number type)."""
    same(sorted(net.nodes, key=repr), sorted(nodes, key=repr), "the nodes")
    norm_real(net)
    got = {}
    for i, j, attrs in net.edges:
        require((i, j) not in got, "%r is connected to %r more than once", i, j)
        got[(i, j)] = attrs
    require(set(got) == set(edges), "the connections %s are missing, and %s are too many", set(edges) - set(got), set(got) - set(edges))
    for e, attrs in edges.items():
        require(got[e] == attrs, "the connection %s has %s, expected %s", e, got[e], attrs)
    rec.step(1 + len(edges))
    rec.state(repr(sorted(map(repr, edges))))
    rec.outcome(repr((sorted(map(repr, nodes)), sorted(map(repr, edges)))))


def lattice(case, rec):
    dim, first = case["lattice"], case["first"]
    kw = {"periodic": case["periodic"], "self_loops": case["loops"], "first_label": first}
    if not case["periodic"] and not case["loops"] and first == 0:
        kw = {}
    net = ntm.topology.lattice(dim=dim, **kw)
    coords = list(itertools.product(*[range(d) for d in dim[::-1]]))
    label = {c: first + i for i, c in enumerate(coords)}
    edges = {}
    for c in coords:
        for k, size in enumerate(dim[::-1]):
            for d in (-1, 1):
                x = c[k] + d
                if case["periodic"]:
                    x %= size
                if 0 <= x < size and x != c[k]:
                    edges[(label[c], label[c[:k] + (x,) + c[k + 1:]])] = {}
        if case["loops"]:
            edges[(label[c], label[c])] = {}
    check(net, [label[c] for c in coords], edges, rec)


def bipartite(case, rec):
    a, b = case["bipartite"]
    names = spaces.LABELS[case["labels"]](a + b)
    one, two = names[:a], names[a:]
    attrs = {i: {j: {"weight": k * 10 + m, "t": "x"} if (k + m) % 3 else {} for m, j in enumerate(two)} for k, i in enumerate(one)}
    net = ntm.topology.bipartite(one, two, attrs) if case["attrs"] else ntm.topology.bipartite(one, two)
    edges = {}
    for i in one:
        for j in two:
            edges[(i, j)] = edges[(j, i)] = attrs[i][j] if case["attrs"] else {}
    check(net, names, edges, rec)
    # the two directions are separate connections
    if case["attrs"]:
        # what is said of other pairs, and in the other direction, doesn't count
        more = {i: {**attrs[i], "other": {"weight": -1}, None: {"weight": -1}} for i in one}
        more.update({j: {i: {"weight": -2} for i in names} for j in two})
        check(ntm.topology.bipartite(one, two, more), names, edges, rec)
    before = repr(attrs)
    net.update_edge(one[0], two[0], w=99)
    require("w" not in net.edge(two[0], one[0])[0], "the two directions share their attributes")
    require(repr(attrs) == before, "the attributes which were given changed")


def graph(net, n, k):
    same(sorted(net.nodes), list(range(n)), "the nodes")
    norm_real(net)
    es = [(i, j) for i, j, _ in net.edges]
    require(len(es) == len(set(es)) == 2 * n * (k // 2), "there are %d connections", len(es))
    for i, j in es:
        require(i != j and net.has_edge(j, i), "%d -> %d has no counterpart", i, j)


def watts(case, rec):
    n, k, p = case["ws"]
    seen = set()
    grid = (0.0, 0.75) if p == 0.5 else (0.0,)
    for ch, net in explore(lambda ch: ntm.topology.watts_strogatz_graph(n, k, p, PyRandom(ch, grid)), case.get("bound", 1000)):
        graph(net, n, k)
        G = nx.watts_strogatz_graph(n, k, p, PyRandom(Chooser(ch.trace), grid))
        same({frozenset(e[:2]) for e in net.edges}, {frozenset(e) for e in G.edges}, "the connections")
        require(all(e[2] == {"weight": 1} for e in net.edges), "a connection has other attributes: %s", list(net.edges))
        if p == 0:
            same(sorted(e[:2] for e in net.edges), sorted({(i, (i + s * d) % n) for i in range(n) for d in range(1, k // 2 + 1)
                                                           for s in (1, -1)}), "the ring")
        seen.add(repr(sorted(e[:2] for e in net.edges)))
        rec.step(len(ch.trace) + 1)
        rec.trace()
        rec.outcome(repr(sorted(e[:2] for e in net.edges)))
    for s in seen:
        rec.state(s)
    require(seen, "no network was made within the bound")
