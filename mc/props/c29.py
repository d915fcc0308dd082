"""
Wolfram physics models. For all configurations of the bound (relations between one, two, three and four nodes): the network must hold
the relations, all of them, in their order. For all rules of the bound and all configurations: each timestep must rewrite the relations
like the reference: disjoint groups of relations, found by scanning in order, are replaced by what the rule gives for them, with the
same node for the same symbol, and new nodes, numbered on from the highest, for the new symbols; all other relations are kept, in order.
"""
import itertools

from mc.engine import require, same
from mc.target import ntm

NODES = (0, 1, 4)
RULES = [
    ([("x", "y")], [("x", "y"), ("y", "z")]),
    ([("x", "y")], [("z", "y"), ("y", "x"), ("x", "z")]),
    ([("x", "x")], [("x", "y"), ("y", "x")]),
    ([("x", "y"), ("x", "z")], [("x", "z"), ("x", "w"), ("y", "w"), ("z", "w")]),
    ([("x", "y"), ("y", "z")], [("w", "y"), ("y", "z"), ("z", "w"), ("x", "w")]),
    ([("x", "y", "z")], [("x", "y", "w"), ("y", "w", "z")]),
    ([("x",)], [("x", "y"), ("y",)]),
    ([("x",), ("x", "y")], [("y",), ("x", "x", "z")]),
    ([("x", "x", "y"), ("y", "z")], [("z", "z", "x"), ("z", "w")]),
    ([("x", "y"), ("y", "x")], [("x",)]),
    ([("x", "y")], []),
    ([("x", "y", "z", "w")], [("w", "z"), ("y", "x", "v")]),
    ([("x", "y"), ("y", "z"), ("z", "x")], [("x", "y", "z")]),
    ([("x", "y"), ("z", "x"), ("w",)], [("w", "x"), ("w", "y"), ("w", "z"), ("v",)]),
]
ARITY = {a: list(itertools.product(NODES, repeat=a)) for a in (1, 2, 3, 4)}


def cases(tier):
    deep = tier == "thorough"
    upto3 = ARITY[1] + ARITY[2] + ARITY[3]
    for r in upto3 + ARITY[4]:
        yield {"hold": (r,)}
    for r in upto3:
        yield {"hold2": r, "deep": deep}
    for k in (9, 10, 11, 12, 25, 120):
        yield {"many": k}
    for k in range(len(RULES)):
        for r in [None] + ARITY[2] + [(1,), (0, 1, 4), (1, 1, 1), (4, 0, 1, 1)]:
            yield {"rule": k, "with": r, "deep": deep}
    for k, lhs in enumerate(patterns()):
        for j, rhs in enumerate(products(lhs)):
            if deep or len(lhs) == 1 or (k + j) % 3 == 0:
                yield {"lhs": lhs, "rhs": rhs}
    for k in (999, 1000, 1001, 1400):
        yield {"labels": k}
    for n in (4, 5, 6, 7):
        for i in range(n):
            for j in range(n):
                yield {"wide": n, "i": i, "j": j, "deep": deep}
    for k in range(len(RULES)):
        yield {"grow": k}
    # one longer relation, in every way its symbols may repeat, alone and with a pair
    for n in (3, 4):
        for flat in shaped(n):
            for pair in [None] + list(itertools.product(range(max(flat) + 2), repeat=2)):
                for first in (False, True) if pair else (False,):
                    if n == 3 or deep or pair in (None, (0, 1)):
                        yield {"long": flat, "pair": pair, "pair_first": first}


def shaped(n):
    for flat in itertools.product(range(n), repeat=n):
        first = list(dict.fromkeys(flat))
        if first == list(range(len(first))):
            yield flat


def patterns():
    """The left sides of one and two binary relations, up to the names of the symbols."""
    for n in (1, 2):
        for flat in itertools.product(range(4), repeat=2 * n):
            first = list(dict.fromkeys(flat))
            if first == list(range(len(first))):
                yield [tuple("xyzw"[s] for s in flat[2 * i:2 * i + 2]) for i in range(n)]


def products(lhs):
    pairs = list(itertools.product("xyn", repeat=2))
    for a in ([],) + tuple([p] for p in pairs):
        yield a
    for a, b in itertools.product(pairs, repeat=2):
        if len(lhs) == 1 or a <= b:
            yield [a, b]


def unify(pattern, relation, bound):
    """The bindings extended by those of the pattern, or None."""
    if len(pattern) != len(relation):
        return None
    bound = dict(bound)
    for s, x in zip(pattern, relation):
        if bound.setdefault(s, x) != x:
            return None
    return bound


def rewrite(config, lhs, rhs):
    left, aside, groups = list(config), [], []
    going = True
    while going:
        bound, taken = {}, []
        for pattern in lhs:
            found = next(((i, b) for i, b in ((i, unify(pattern, r, bound)) for i, r in enumerate(left)) if b is not None), None)
            going = found is not None
            if found:
                taken.append(left.pop(found[0]))
                bound = found[1]
        if len(taken) == len(lhs):
            groups.append(bound)
        else:
            aside += taken
    out = left + aside
    top = max([0] + [x for r in config for x in r])
    for bound in groups:
        for pattern in rhs:
            for s in pattern:
                if s not in bound:
                    top += 1
                    bound[s] = top
            out.append(tuple(bound[s] for s in pattern))
    return out


def hold(config, rec):
    model = ntm.WolframPhysicsModel(list(config), {"in": [], "out": []})
    net = model.network
    same(ntm.WolframPhysicsModel.network_to_config(net), list(config), "the relations of the network")
    require(set(net.nodes) == {x for r in config for x in r}, "the nodes are %s", net.nodes)
    got = sorted((a, b, attrs["label"]) for a, b, attrs in net.edges)
    want = sorted((a, b, str(i + 1)) for i, r in enumerate(config) for a, b in (zip(r, r[1:]) if len(r) > 1 else [(r[0], r[0])]))
    require(got == want, "the connections are %s, expected %s", got, want)
    rec.state(tuple(config))
    rec.trace()


def evolve(config, lhs, rhs, T, rec):
    rules = {"in": list(lhs), "out": list(rhs)}
    want = [list(config)]
    while len(want) < T and len(want[-1]) < 40:
        want.append(rewrite(want[-1], lhs, rhs))
    given = list(config)
    model = ntm.WolframPhysicsModel(given, rules)
    traj = ntm.evolve(network=model.network, topology_rule=model.topology_rule, timesteps=len(want))
    same(model.to_configurations(traj), want, "%s under %s -> %s", config, lhs, rhs)
    require(given == list(config), "the given configuration became %s", given)
    same(rules, {"in": list(lhs), "out": list(rhs)}, "the given rules, afterwards")
    for w in want:
        rec.state(tuple(w))
    rec.step(len(want) - 1)
    rec.outcome(tuple(want[-1]))
    rec.trace()


def run(case, rec):
    if "hold" in case:
        hold(case["hold"], rec)
    elif "hold2" in case:
        r = case["hold2"]
        upto3 = ARITY[1] + ARITY[2] + ARITY[3]
        for s in upto3 + ARITY[4]:
            hold((r, s), rec)
            hold((s, r), rec)
        for i, (s, t) in enumerate(itertools.product(upto3, repeat=2)):
            if case["deep"] or i % 4 == len(r):
                hold((r, s, t), rec)
    elif "many" in case:
        k = case["many"]
        hold([(i, i + 1) for i in range(k)], rec)
        hold([((i,), (i, i), (i, 1, i + 1), (1, i), (2, 2, 2, i))[i % 5] for i in range(k)], rec)
        hold([(1, 2)] * k, rec)
        hold([tuple(i * 7 % 5 for i in range(k))], rec)
        config = [(i % 3, i) for i in range(1, k + 1)] + [(1,)]
        for lhs, rhs in RULES:
            evolve(config, lhs, rhs, 3, rec)
    elif "labels" in case:
        k = case["labels"]
        hold([(i, i + 1) for i in range(k)], rec)
        hold([(i * 7 % k, 3, i) if i % 3 else (k - i,) for i in range(k)], rec)
        config = [(i, i + 1) for i in range(k)]
        evolve(config, [("x", "y", "z")], [("x", "z")], 2, rec)
        evolve(config + [(5, 4, 1)], [("x", "y", "z")], [("x", "z"), ("w", "x")], 2, rec)
    elif "wide" in case:
        # relations of many nodes: the highest node at any place of them, symbols which repeat at any two, and matches which fail there
        n, i, j = case["wide"], case["i"], case["j"]
        name = ["s%d" % x for x in range(n)]
        repeated = list(name)
        repeated[i] = repeated[j]
        top = [(x * 3 + i) % n for x in range(n)]
        top[i] = 40 + j
        other = [(x * 5 + j) % (n + 1) for x in range(n)]
        same_ = list(other)
        same_[i] = same_[j]
        rels = [tuple(top), tuple(other), tuple(same_), tuple(range(n)), tuple([7] * n)]
        for lhs, rhs in (([tuple(repeated)], [(name[j], "new"), tuple(repeated[::-1])]),
                         ([tuple(name)], [(name[i], name[j]), ("new", name[0], "newer")]),
                         ([tuple(repeated), (name[j], "o")], [("o", name[j], "new"), ("new",)]),
                         ([(name[j], "o"), tuple(repeated)], [tuple(name), ("new", "o")]),
                         ([tuple(name), tuple(repeated[::-1])], [tuple(repeated), (name[i], "new")]),
                         ([("o", "p")], [("p", "q"), ("q", "o", "r")])):
            for pairs in ([(same_[j], 9)], [(other[j], 2), (7, 3), (top[j], top[i])]) if not case["deep"] else itertools.combinations(
                    [(same_[j], 9), (other[j], 2), (7, 3), (top[j], top[i])], 2):
                for order in (rels, rels[::-1], rels[2:] + rels[:2], rels[3:4] + rels[1:3]):
                    evolve(list(order) + list(pairs), lhs, rhs, 3, rec)
                    evolve(list(pairs) + list(order), lhs, rhs, 3, rec)
    elif "grow" in case:
        lhs, rhs = RULES[case["grow"]]
        first = max(len(r) for r in lhs)
        for config in ([tuple([1] * len(r)) for r in lhs], [tuple(range(7, 7 + len(r))) for r in lhs], [tuple([i + 1] * first) for i in range(13)],
                       [tuple((i * j) % 5 for j in range(len(r))) for i in range(15) for r in lhs]):
            evolve(config, lhs, rhs, 6, rec)
    elif "long" in case:
        name = "xyzwv"
        lhs = [tuple(name[i] for i in case["long"])]
        if case["pair"]:
            lhs.insert(0 if case["pair_first"] else 1, tuple(name[i] for i in case["pair"]))
        rhs = [("x", "y"), ("y", "n", "x"), tuple(lhs[-1])] if "y" in lhs[0] + lhs[-1] else [("x", "n", "x"), tuple(lhs[0])]
        n = len(case["long"])
        over = ARITY[3] if n == 3 else list(itertools.product((0, 1, 4), repeat=4))[::2]
        if case["pair"]:
            over = over[::3]
        for i, r in enumerate(over):
            for j, q in enumerate(over):
                if n == 3 or (i + j) % 4 == 0:
                    evolve([r, q] if not case["pair"] else [(1, 4), r, (0, 1), q, (4, 0)], lhs, rhs, 3, rec)
    elif "rule" in case:
        lhs, rhs = RULES[case["rule"]]
        base = [] if case["with"] is None else [case["with"]]
        mixed = [(1,), (0,), (0, 1), (1, 0), (1, 1), (0, 1, 4), (1, 1, 4), (4, 0, 1, 1)] + ([(1, 4), (4, 4)] if case["deep"] else [])
        for more in itertools.chain([()], ((m,) for m in mixed), itertools.product(mixed, repeat=2),
                                    itertools.product(mixed, repeat=3) if case["deep"] else ()):
            if base or more:
                evolve(base + list(more), lhs, rhs, 4, rec)
                evolve(list(more) + base, lhs, rhs, 4, rec)
    else:
        for config in ([(1, 1)], [(1, 2), (2, 3), (2, 4)], [(1, 2), (1, 2), (2, 1)], [(3, 1), (1, 3), (1, 1)], [(5, 2), (2, 5), (2, 2), (5, 5)]):
            evolve(config, case["lhs"], case["rhs"], 3, rec)
