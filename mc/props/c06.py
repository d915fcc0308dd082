"""
Memoization. With a rule which only depends on what the memoization key is made from, every run with memoize=True must give
what the definition gives without, for all graphs and states of the bound, and for activities which are easily confused in a
key (equal sums, equal concatenations, equal hashes, negative, None, empty, tuples); default keys without and with a rotation
system, custom keys made of any subset of the current activity, label, timestep, input and neighbourhood; several memoized
evolutions of different rules one after another; and the rule must run at most once for each distinct key of an evolution.
"""
import itertools

from mc import cross, spaces
from mc.engine import require
from mc.refevolve import _Key, conform, execute, fields, interpret
from mc.target import ntm

ALPHABETS = [
    [0, 1], [0, 1, 2], [1, 11, 111], [-1, -2], [0, None, ""], ["a", "ab", "b", "aab"], [(1,), (1, 1), 1], [0.5, -0.5, 1],
    [0, 10, 100], [1, 2, 12], [3, 1, 2, 0], ["1", 1, "11"], [None, "None", (1, 2), "(1, 2)"],
    # values which are close to each other
    [0.1 + 0.2, 0.3, 0.3 + 1e-9, 0.0, 5e-324], [2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2], [1e16, 1e16 + 2, -1e16], ["a", "A", "a ", " a"],
]


def rot_of(names, edges, k):
    """Orders the in-neighbours of each node, differently for each k."""
    out = {}
    for b, j in enumerate(names):
        inn = list(dict.fromkeys(i for i, t in edges if t == j))
        perms = list(itertools.permutations(inn))
        out[j] = perms[(k + b) % len(perms)] if perms else ()
    return out


def cases(tier):
    deep = tier == "thorough"
    opts = {"memoize": True}
    for edges in spaces.digraphs(3):
        for a in ALPHABETS if deep else ALPHABETS[:4:3] + ALPHABETS[1:2]:
            for s in list(spaces.states(3, 2))[1:7:2 if not deep else 1]:
                yield {"net": spaces.net(edges, 3), "init": [a[i] for i in s], "rule": ("nbr", a), "T": 5, "opts": opts}
    for n in (4, 6, 9):
        for shape, edges in sorted(spaces.shapes(n).items()):
            for a in ALPHABETS:
                for shift in range(4):
                    init = [a[(i * i + i + shift) % len(a)] for i in range(n)]
                    yield {"net": spaces.net(edges, n), "init": init, "rule": ("nbr", a), "T": 8, "opts": opts}
                    rot = rot_of(range(n), edges, shift)
                    if shape not in ("multi",):
                        yield {"net": spaces.net(edges, n, rot=rot), "init": init, "rule": ("ord", a), "T": 8, "opts": opts}
    for edges in spaces.digraphs(2):
        for a in ALPHABETS:
            for s in itertools.product(range(len(a)), repeat=2):
                yield {"net": spaces.net(edges, 2), "init": [a[i] for i in s], "rule": ("nbr", a), "T": 6, "opts": opts}
                for k in (0, 1):
                    yield {"net": spaces.net(edges, 2, rot=rot_of(range(2), edges, k)), "init": [a[i] for i in s],
                           "rule": ("ord", a), "T": 6, "opts": opts}
    for r in range(0, 6):
        for names in itertools.combinations("cltin", r):
            for edges in list(spaces.digraphs(2))[::1 if deep else 2]:
                for a in (ALPHABETS[1], ALPHABETS[2], ALPHABETS[4]):
                    for s in spaces.states(2, 2):
                        yield {"net": spaces.net(edges, 2), "init": [a[i] for i in s], "rule": ("key:" + "".join(names), a),
                               "inp": ("list", [[t % 2, (t + 1) % 3] for t in range(6)]),
                               "opts": {"memoize": True, "memoization_key": "".join(names)}}
    for names in ("o", "oc", "ol", "ot"):
        for edges in spaces.digraphs(2):
            for a in (ALPHABETS[1], ALPHABETS[3]):
                for s in spaces.states(2, 2):
                    yield {"net": spaces.net(edges, 2, rot=rot_of(range(2), edges, 1)), "init": [a[i] for i in s],
                           "rule": ("key:" + names, a), "T": 7, "opts": {"memoize": True, "memoization_key": names}}
    # with the other features
    for edges in spaces.digraphs(2):
        for extra in ({"pert": [0, 1, 2, 5]}, {"past": [[0, 1], [1, 1]]}, {"opts": {"compression": True}},
                      {"opts": {"persist_activities": False, "persist_network": False}},
                      {"topo": ("fresh", [[("+", 0, 1, {})], [("-", 0, 1)], [("+", 1, 1, {})]])},
                      {"topo": ("inplace", [[("+", 0, 1, {})], [("-", 0, 1)]]), "opts": {"update_order": "TF"}},
                      {"topo": ("new", [[("+", 0, 1, {})], [("-", 0, 1)]]), "opts": {"update_order": "SY"}}):
            for a in (ALPHABETS[1], ALPHABETS[3]):
                c = {"net": spaces.net(edges, 2), "init": [a[0], a[1]], "rule": ("nbr", a), "T": 7}
                c.update(extra)
                c["opts"] = dict(extra.get("opts", {}), memoize=True)
                yield c
    # NumPy results
    for edges in spaces.digraphs(2):
        for s in itertools.product(range(3), repeat=2):
            yield {"net": spaces.net(edges, 2), "init": [spaces.NUMPY[0], spaces.NUMPY[2]],
                   "rule": ("nbr", [spaces.NUMPY[i] for i in s] + [0]), "T": 5, "opts": opts}
    # one evolution after another, with different rules
    for edges in list(spaces.digraphs(2)):
        for x, y in itertools.product([[0, 1, 2], [2, 1, 0], [1, 1, 0], [5, 6]], repeat=2):
            yield {"two": (x, y), "edges": edges, "rot": False}
            yield {"two": (x, y), "edges": edges, "rot": True}
            for names in ("o", "n", "c", "cl", "t", ""):
                yield {"two": (x, y), "edges": edges, "rot": "o" in names, "key": names}
    for size in (100, 129, 257, 1000, 1025, 2500, 11000) + ((70000, 140000) if deep else ()):
        for key in (None, "o", "c"):
            yield {"many": size, "key": key}
    yield from cross.cases(tier)


def many(case, rec):
    """Many keys, to all of which the evolution comes again."""
    size, key = case["many"], case["key"]
    net = ntm.Network()
    for i in (0, 1):
        net.add_edge(i, i)
    if key == "o":
        net.rotation_system = {0: [0], 1: [1]}
    calls = []

    def rule(ctx):
        calls.append(ctx.neighbourhood_activities[0])
        return (ctx.neighbourhood_activities[0] + 1) % size
    kw = {} if key in (None, "o") else {"memoization_key": _Key("c", False)}
    plain = ntm.evolve(net, [0, size // 2], rule, timesteps=size + size // 2)
    want = {a for s in plain[:-1] for a in s.activities.values()}
    calls.clear()
    traj = ntm.evolve(net, [0, size // 2], rule, timesteps=size + size // 2, memoize=True, **kw)
    require([s.activities for s in traj] == [s.activities for s in plain], "with memoization, the evolution of %d states is another", size)
    require(len(calls) == len(want) and set(calls) == want, "the rule was invoked %d times for %d keys", len(calls), len(want))
    rec.trace()
    rec.step(len(traj))
    rec.state(size, key)
    rec.outcome(size, key, len(calls))


def run(case, rec):
    if "cross" in case:
        return cross.run(case, rec)
    if "many" in case:
        return many(case, rec)
    if "two" in case:
        opts = {"memoize": True}
        rule = "ord" if case["rot"] else "nbr"
        if "key" in case:
            opts["memoization_key"] = _Key(case["key"], case["rot"])  # the same object in each of the evolutions
            rule = "key:" + case["key"]
        for values in case["two"]:
            rot = rot_of(range(2), case["edges"], 1) if case["rot"] else None
            conform({"net": spaces.net(case["edges"], 2, rot=rot), "init": [0, 1], "rule": (rule, values),
                     "T": 5, "opts": opts}, rec, compare_log=False)
        return
    conform(case, rec, compare_log=False)
    once_per_key(case, rec)


def once_per_key(case, rec):
    """The rule runs at most once for each distinct key, and for every key which the evolution comes to."""
    opts = dict(case["opts"])
    wlog = interpret(case)[1]
    glog = execute(case)[1]
    names = opts.get("memoization_key", "o" if case["net"].get("rot") is not None else "n")
    got = [fields(names, v) for v in glog.rule]
    want = {fields(names, v) for v in wlog.rule}
    require(len(got) == len(set(got)), "the rule was invoked more than once for a key: %s",
            next((k for k in got if got.count(k) > 1), None))
    require(set(got) == want, "the rule was invoked for the keys %s, but the evolution comes to %s", got, want)
