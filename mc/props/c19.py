"""
The majority rule. For all neighbourhoods of up to six nodes over up to four states (numbers and strings), with every answer which
the random number generator can give: the result must be a most frequent state of the neighbourhood; where there is only one, it
must be it whatever the generator answers; where several tie, each of them, and no other state, must be possible, and all equally
often. Evolved on networks, every trajectory must follow these choices, with plain Python activities.
"""
import collections
import itertools

from mc import spaces
from mc.choices import controlled, explore
from mc.engine import require
from mc.refevolve import build
from mc.target import ntm

ALPHABETS = [[0, 1, 2], [3, -1], ["a", "b", "ab"], [0.5, 2.0, -1.5], [7], [1, "1", "1.0"], [(0, 1), (1, 0)], [10 ** 17, 10 ** 17 + 1], [0, None, ""]]
# equal states, of several types
EQUAL = [[True, 1, 1.0, 0], [False, 0, 2, 2.0]]


def cases(tier):
    deep = tier == "thorough"
    for a in ALPHABETS:
        for n in range(1, 8 if deep else 7):
            for first in a:
                yield {"alphabet": a, "n": n, "first": first}
    for a in EQUAL:
        for n in range(1, 6 if deep else 5):
            for first in a:
                yield {"alphabet": a, "n": n, "first": first}
    for n in range(1, 6):
        yield {"alphabet": [0, 1, 2, 3, 4], "n": n if n < 5 or deep else 4, "first": n - 1}
    # larger neighbourhoods, by how many there are of each state
    for k in range(1, 14):
        yield {"counts": (2,) * k}
        yield {"counts": (1,) * k + (3,) * (k % 5)}
    for counts in [c for k in (1, 2, 3) for c in itertools.product((0, 4, 5, 9, 13, 28), repeat=k) if sum(c)] + [
            (3, 3, 3, 3, 2), (2,) * 6, (2,) * 8 + (1,), (1,) * 10, (60, 60), (100, 99, 100), (1, 300)]:
        yield {"counts": counts}
    for edges in spaces.digraphs(2):
        if all(any(t == j for _, t in edges) for j in range(2)):
            for s in spaces.states(2, 3):
                yield {"net": edges, "n": 2, "init": list(s), "T": 4}
    for shape, edges in sorted(spaces.shapes(4).items()):
        if all(any(t == j for _, t in edges) for j in range(4)):
            for s in ([0, 1, 0, 1], [0, 0, 1, 1], [0, 1, 2, 3], [2, 2, 1, 0]):
                yield {"net": edges, "n": 4, "init": s, "T": 3 if shape not in ("complete",) else 2}


def modes(acts):
    count = collections.Counter(acts)
    top = max(count.values())
    return {x for x in count if count[x] == top}


def run(case, rec):
    rec.trace()
    if "net" in case:
        return network(case, rec)
    if "counts" in case:
        for pool in (list(range(20)), [c for c in "hgfedcbazyxmnopqrst"], [1.5, -2.5, 1e9, 0.0, 3.25, -7.0, 2.0, 4.0, 5.0, 6.0, 8.0, 9.0, 10.0, 11.0, 12.0, 13.0, 14.0, 15.0, 16.0],
                     [10 ** 6 + i for i in range(20)], [5 - i for i in range(20)]):
            block = [x for x, k in zip(pool, case["counts"]) for _ in range(k)]
            left, mixed = collections.Counter(block), []
            while left:
                mixed += list(left)
                left -= collections.Counter(list(left))
            every = [block, block[::-1], mixed]
            judge(every, rec)
    else:
        judge([[case["first"]] + list(rest) for rest in itertools.product(case["alphabet"], repeat=case["n"] - 1)], rec)


def judge(every, rec):
    for acts in every:
        want = modes(acts)

        def body(ch):
            with controlled(ch):
                return ntm.rules.majority_rule(spaces.context(ntm, acts, acts[0]))
        got = collections.Counter()
        for ch, x in explore(body, 3):
            require(x in want, "the majority of %s is %r", acts, x)
            weight = 1.0
            for _, m in ch.trace:
                weight /= m
            got[x] += weight
            rec.step()
        require(set(got) == want, "the majority of %s may be %s, but only %s are possible", acts, want, set(got))
        require(all(abs(v - 1.0 / len(want)) < 1e-9 for v in got.values()), "the majority of %s is %s", acts, dict(got))
        rec.state(repr(acts))
        rec.outcome(repr(sorted(map(repr, want))), len(acts))


def network(case, rec):
    net = build(ntm.Network, spaces.net(case["net"], case["n"]))
    inc = {j: [i for i in dict.fromkeys(i for i, t in case["net"] if t == j)] for j in range(case["n"])}

    def body(ch):
        with controlled(ch):
            return ntm.evolve(net, case["init"], ntm.rules.majority_rule, timesteps=case["T"])
    possible = collections.defaultdict(set)
    for ch, traj in explore(body, 40):
        for t in range(1, case["T"]):
            old, new = traj[t - 1].activities, traj[t].activities
            for j in inc:
                require(new[j] in modes([old[i] for i in inc[j]]) and type(new[j]) is int, "t=%d: node %d is %r after %s", t, j,
                        new[j], old)
            key = tuple(sorted(old.items()))
            possible[key].add(tuple(sorted(new.items())))
        rec.trace()
        rec.step(case["n"] * (case["T"] - 1))
        rec.outcome(repr([s.activities for s in traj]))
    for old, news in possible.items():
        old = dict(old)
        want = set(itertools.product(*[[(j, x) for x in modes([old[i] for i in inc[j]])] for j in sorted(inc)]))
        require(news == want, "from %s only %d of %d states are possible", old, len(news), len(want))
        rec.state(repr(old))
