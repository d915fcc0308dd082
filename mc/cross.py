"""
Every feature of evolve() with every other: the product of the update orders, the styles of topology rule, the storage options,
past conditions, perturbations, inputs, memoization, rotation systems, and the addition and removal of nodes, on graphs, labels
and activities which change from case to case. Each of the properties of evolve() is a fact about all of these combinations, so
that each of its checks goes through them, besides its own space.
"""
import itertools

from mc import spaces
from mc.refevolve import conform

PAST = [None, 1, 3]
INPUT = [None, "nodes", "common", "fn"]
TOPO = [None, "same", "fresh", "new", "inplace", "rotate"]
RULES = ["probe", "memo", "plan"]
GRAPHS = [
    [(0, 1), (1, 0), (0, 0), (0, 0)], [(0, 1), (0, 1), (1, 1)], [(1, 0), (2, 0), (0, 2), (2, 2), (2, 2), (1, 2)],
    [(0, 1), (1, 2), (2, 0)], [(1, 0), (1, 0), (0, 1), (0, 1), (0, 0), (1, 1)], [], [(2, 0), (1, 0), (0, 1), (0, 0), (2, 1)],
]
KINDS = ["int", "rev", "str", "one", "tuple", "neg", "mixed"]
VALUES = [[0, 1, 2 ** 64], [0, 1], ["a", 0, None], [0, 3.5, -1], [(1, 2), "", 0]]


def cases(tier):
    """The product, over all of its dimensions."""
    k = 0
    for order, topo, rule, past, inp, pert, rot, (comp, cp, pa, pn) in itertools.product(
            ("AF", "TF", "SY"), TOPO, RULES, PAST, INPUT, (False, True), (False, True), list(itertools.product((False, True), repeat=4))):
        if rule == "plan" and (order != "AF" or rot):
            continue  # nodes are added and removed in this order only
        if rot and topo not in (None, "new", "rotate") and not (topo == "same" and not cp):
            continue  # a copy has no rotation system (see known_findings.json)
        if topo == "rotate" and not rot:
            continue
        if topo == "inplace" and not cp and order == "SY":
            continue  # the rule would change the network before it is used
        for v in range(1 if tier != "thorough" else 5):
            k += 1
            yield {"cross": make(k, v, order, topo, rule, past, inp, pert, rot, comp, cp, pa, pn)}
    yield from large(tier)


SIZES = [(2, 300), (6, 130), (17, 40), (40, 12), (70, 4)]


def large(tier):
    """Larger networks and longer evolutions, with some of the combinations."""
    k = 0
    for (n, T) in SIZES:
        for order in ("AF", "TF", "SY"):
            for topo, rule, past, inp, pert in ((None, "probe", None, None, False), ("fresh", "probe", 7, None, True), ("inplace", "probe", None, "nodes", False),
                                                (None, "memo", 12, "common", True), ("new", "memo", None, None, False), ("inplace", "probe", 2, None, False), (None, "plan", None, None, True),
                                                ("fresh", "plan", 3, None, False), ("same", "probe", 40, "fn", True)):
                if rule == "plan" and order != "AF":
                    continue
                k += 1
                if tier == "thorough" or n < 17 or k % 2:
                    yield {"cross": make_large(k, n, T, order, topo, rule, past, inp, pert)}


def make_large(k, n, T, order, topo, rule, past, inp, pert):
    kind = KINDS[k % len(KINDS)] if inp != "nodes" else "int"
    names = spaces.LABELS[kind](n)
    edges = [(i, (i * m + m) % n) for i in range(n) for m in range(1 + (i + k) % 5)]  # in-degrees vary, some edges are parallel
    edges += [(i, 0) for i in range(1, n, 2)] + [(1, i) for i in range(n)]
    values = VALUES[k % len(VALUES)] if k % 3 else list(range(11))
    c = {"net": spaces.net(edges, n, kind, node_attrs=k % 2 == 0), "init": {l: values[i * i % len(values)] for i, l in enumerate(names)},
         "opts": {"update_order": order, "compression": k % 2 == 1, "persist_network": k % 4 != 2}}
    if k % 3 == 0 and not (topo == "inplace" and order == "SY"):
        c["opts"]["copy_network"] = False
    if k % 5 == 0:
        c["opts"]["persist_activities"] = False
    if rule == "memo":
        c["opts"]["memoize"] = True
        c["rule"] = ("nbr", values)
    elif rule == "plan":
        # a node is added at each timestep, and one removed which was added two timesteps before; old ones go, too
        plan, new = {}, [10 ** 6 + t for t in range(T)]
        for t in range(1, T):
            who = names[0]
            plan[(t, who)] = [("add", values[t % len(values)], {names[t % 2]: {"w": t}, new[t]: {}}, new[t])]
            if t > 2:
                plan[(t, new[t - 2])] = [("rm", new[t - 2])]
            if n > 4 and t % 3 == 0 and t // 3 + 1 < n // 2:
                plan[(t, names[1])] = [("rm", names[n - t // 3])]
        c["rule"] = ("plan", values, plan)
    else:
        c["rule"] = ("probe", values)
    if topo:
        x, y, z = names[0], names[1], names[n // 2]
        sc = [[("+", x, z, {"tag": k})], [("-", x, z)], [("~", y, x, {"q": (1, 2)}), ("+", z, z, {})], [], [("-", z, z), ("+", y, z, {"weight": 0})]]
        if rule == "plan":
            sc = [[("~", x, y, {"tag": k})], [("-", x, y)], []]
        c["topo"] = (topo, sc if topo != "same" else [[]])
    if past:
        c["past"] = [{l: values[(i + w) % len(values)] for i, l in enumerate(names)} for w in range(past)]
    if pert:
        c["pert"] = values[::-1]
    if inp is None:
        c["T"] = T
    elif inp == "nodes":
        c["inp"] = ("list", [[(t + i + k) % 3 for i in range(n)] for t in range(T - 1)])
    elif inp == "common":
        c["inp"] = ("list", [(t * t + k) % 17 for t in range(T - 1)])
    else:
        c["inp"] = ("fnstate", T, 3)
    return c


def make(k, v, order, topo, rule, past, inp, pert, rot, comp, cp, pa, pn):
    edges = GRAPHS[(k + k // 7 + v) % len(GRAPHS)]
    kind = KINDS[(k // 3 + k // 11 + v) % len(KINDS)] if inp != "nodes" else "int"
    values = VALUES[(k // 2 + k // 13 + v) % len(VALUES)]
    n = 3
    names = spaces.LABELS[kind](n)
    T = 4 + (k + v) % 3
    c = {"net": spaces.net(edges, n, kind, node_attrs=k % 2 == 0),
         "init": {names[(i + k) % n]: values[(i + k // 5) % len(values)] for i in range(n)},
         "opts": {"update_order": order, "compression": comp, "copy_network": cp, "persist_activities": pa, "persist_network": pn}}
    if rule == "memo":
        c["opts"]["memoize"] = True
        c["rule"] = ("ord" if rot and topo != "new" else "nbr", values)
    elif (comp + cp + pa + pn + pert + rot + "ATS".index(order[0]) + TOPO.index(topo) + PAST.index(past) + INPUT.index(inp)) % 2:
        c["opts"].update(memoize=True, memoization_key="tl")  # each invocation has a key of its own
    if rule == "plan":
        a, b = names[k % n], names[(k + 1) % n]
        new = "new" if inp != "nodes" else 3
        c["rule"] = ("plan", values, {
            (1, a): [("add", values[0], {b: {"w": 1}, new: {}}, new)], (2, b): [("rm", b)],
            (3, new): [("rm", new), ("rm", a)] if k % 3 else [("add", values[1], {new: {}}, b)]})
    elif rule == "probe":
        c["rule"] = ("probe", values)
    if rot:
        c["net"]["rot"] = {names[j]: tuple(dict.fromkeys(names[i] for i, jj in reversed(edges) if jj == j)) for j in range(n)}
    if topo:
        x, y, z = names
        sc = [[("+", x, y, {"tag": k})], [("-", x, y)], [("~", y, x, {"q": (1, 2)}), ("+", z, z, {})], [], [("-", z, z), ("+", y, z, {"weight": 0})]]
        if rule == "plan":
            sc = [[("~", x, y, {"tag": k})], [("-", x, y)], []]  # no edit brings back a node
        c["topo"] = (topo, sc if topo != "same" else [[]])
    if past:
        c["past"] = [{l: values[(i + w + k) % len(values)] for i, l in enumerate(names)} for w in range(past)]
    if pert:
        c["pert"] = ["same"] if k % 5 == 0 else values[::-1]
    if inp is None:
        c["T"] = T
    elif inp == "nodes":
        c["inp"] = ("list", [[(t + i + k) % 3 for i in range(4)] for t in range(T - 1)])
    elif inp == "common":
        c["inp"] = ("list", [values[(t + k) % len(values)] if not isinstance(values[(t + k) % len(values)], (str, tuple, type(None))) else 5
                             for t in range(T - 1)])
    else:
        c["inp"] = ("fnstate", T, 3)
    return c


def run(case, rec):
    case = case["cross"]
    shared = case.get("topo") and case["topo"][0] == "inplace" and not case["opts"].get("copy_network", True) and not case["opts"].get("compression")
    conform(case, rec, compare_networks=not shared, compare_log=not case["opts"].get("memoize") or "memoization_key" in case["opts"])
