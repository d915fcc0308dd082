"""
Totalistic rules. All rules of two and three colours with small neighbourhoods, and for up to 36 colours and larger neighbourhoods
each rule with a single digit set (the next state is one digit of the rule's number, so these decide all of them), on all
neighbourhoods (of a basis, where there are too many): the next state must be the digit, in base k, which the sum of the
neighbourhood selects from the right; a rule number with more digits than there are sums must be refused; and one- and
two-dimensional automata must evolve accordingly from all states of the bound.
"""
import itertools

import numpy as np

from mc import spaces
from mc.engine import Violation, require, same
from mc.refevolve import build
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    for k, n in ((2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 1), (3, 2)) + (((3, 3), (4, 2), (2, 9)) if deep else ()):
        size = k ** (n * (k - 1) + 1)
        for lo in range(0, size, 8):
            yield {"k": k, "n": n, "rules": list(range(lo, min(lo + 8, size)))}
    for k, n in ((3, 3), (3, 5), (4, 3), (5, 3), (2, 9), (10, 2), (16, 2), (36, 1), (11, 3), (36, 3), (3, 9)):
        digits = n * (k - 1) + 1
        for place in range(digits):
            yield {"k": k, "n": n, "rules": sorted({d * k ** place for d in (1, k - 1, k // 2)} | {k ** digits - 1 - k ** place})}
    for k, n in ((2, 100), (2, 300), (3, 150), (36, 9)):
        top = n * (k - 1)
        for place in sorted({0, 1, 62, 63, 64, 127, 128, 129, 255, 256, 257, top // 2, top - 1, top}):
            if place <= top:
                yield {"k": k, "n": n, "rules": [k ** place, (k - 1) * k ** place]}
    for rule in (777, 993, 1599, 2049, 912, 357, 1635):
        for n in (5, 9, 16):
            yield {"ring": rule, "n": n}
    for rule in range(0, 3 ** 7, 31 if not deep else 3):
        yield {"ring3": rule}
    for edges in spaces.digraphs(3):
        for k, rule in ((2, 2), (2, 1), (3, 5), (3, 2), (5, 3)):
            yield {"edges": edges, "k": k, "rule": rule}
    for k, rule, sizes in ((2, 1, (1, 3, 2)), (2, 3, (3, 1, 4)), (3, 25, (1, 2, 3)), (16, 0xb4, (1, 3, 2)), (36, 35, (2, 1, 3))):
        yield {"sizes": sizes, "k": k, "rule": rule}
    for rule in (26, 126, 497702, 85507):
        yield {"grid": rule}


def digit(rule, k, total):
    return rule // k ** total % k


def neighbourhoods(k, n):
    if k ** n <= 300:
        yield from itertools.product(range(k), repeat=n)
        return
    # for each sum, some neighbourhoods of it, the digits in any place
    seen = set()
    for total in range(n * (k - 1) + 1):
        cells, left = [], total
        for _ in range(n):
            cells.append(min(left, k - 1))
            left -= cells[-1]
        for v in (tuple(cells), tuple(reversed(cells)), tuple(cells[1:] + cells[:1])):
            if v not in seen:
                seen.add(v)
                yield v
        even = [total // n + (1 if i < total % n else 0) for i in range(n)]
        if tuple(even) not in seen:
            seen.add(tuple(even))
            yield tuple(even)


def run(case, rec):
    rec.trace()
    if "rules" in case:
        k, n = case["k"], case["n"]
        spaces_n = list(neighbourhoods(k, n))
        for rule in case["rules"]:
            f = ntm.rules.totalistic_ca(k, rule)
            for cells in spaces_n:
                got, want = f(spaces.context(ntm, cells, cells[n // 2])), digit(rule, k, sum(cells))
                require(got == want and type(got) is int, "rule %d of %d colours gives %r for %s, expected %d", rule, k, got, cells, want)
                rec.step()
                if rule == case["rules"][0]:
                    for t in (np.int64, np.int32) + ((bool, np.int8) if k == 2 else ()):
                        got = f(spaces.context(ntm, [t(c) for c in cells], t(cells[n // 2])))
                        require(got == want, "rule %d of %d colours gives %r for %s as %s, expected %d", rule, k, got, cells, t, want)
                rec.state(k, rule, cells)
                rec.outcome(k, n, rule, sum(cells), got)
        for rule in (k ** (n * (k - 1) + 1), k ** (n * (k - 1) + 1) + 1, k ** (n * (k - 1) + 2)):
            f = ntm.rules.totalistic_ca(k, rule)
            try:
                got = f(spaces.context(ntm, (0,) * n))
            except Exception:
                rec.step()
            else:
                raise Violation("rule %d of %d colours and %d cells was not refused, and gave %r" % (rule, k, n, got))
        return
    if "sizes" in case:
        k, rule = case["k"], case["rule"]
        f = ntm.rules.totalistic_ca(k, rule)
        for n in case["sizes"] + case["sizes"]:
            for cells in neighbourhoods(k, n):
                require(f(spaces.context(ntm, cells, cells[n // 2])) == digit(rule, k, sum(cells)), "rule %d of %d colours for %s", rule, k, cells)
                rec.step()
        rec.outcome(repr(case))
        return
    if "edges" in case:
        k, rule, inc = case["k"], case["rule"], {j: [i for i in range(3) if (i, j) in case["edges"]] for j in range(3)}
        if any(rule >= k ** (len(v) * (k - 1) + 1) for v in inc.values()):
            return
        net = build(ntm.Network, spaces.net(case["edges"], 3))
        f = ntm.rules.totalistic_ca(k, rule)
        for init in itertools.product(range(min(k, 3)), repeat=3):
            for memoize in (False, True):
                traj = ntm.evolve(net, list(init), f, timesteps=3, memoize=memoize)
                now = list(init)
                for t in range(3):
                    same(traj[t].activities, dict(enumerate(now)), "rule %d at t=%d from %s", rule, t, init)
                    now = [digit(rule, k, sum(now[x] for x in inc[j])) for j in range(3)]
                rec.step(6)
                rec.state(k, rule, init)
        rec.outcome(repr(case))
        return
    if "grid" in case:
        rows, cols, k, T = 5, 6, 2, 6
        kind = "von Neumann" if case["grid"] < 64 else "Moore"
        net = ntm.topology.cellular_automaton2d(rows, cols, neighbourhood=kind)
        near = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if kind == "Moore" or abs(a) + abs(b) <= 1]
        cells = lambda c: [(c // cols + a) % rows * cols + (c % cols + b) % cols for a, b in near]  # noqa: E731
        rule, n = case["grid"] % 2 ** (len(near) + 1), rows * cols
        inits = [[1 if i in on else 0 for i in range(n)] for on in [(14,), (0,), (29, 3), (7, 8, 9), (1, 12, 23, 20)]]
    else:
        k, n = 3, case.get("n", 3)
        rule = case.get("ring", case.get("ring3"))
        T = 12 if "ring" in case else 2
        net = ntm.topology.cellular_automaton(n=n)
        cells = lambda c: [(c + d) % n for d in (-1, 0, 1)]  # noqa: E731
        if "ring" in case:
            inits = [[1 if i == n // 2 else 0 for i in range(n)], [i * i % 3 for i in range(n)], [2] * n]
        else:
            inits = [list(s) for s in itertools.product(range(3), repeat=3)]
    for init in inits:
        for memoize in (False, True):
            traj = ntm.evolve(net, init, ntm.rules.totalistic_ca(k, rule), timesteps=T, memoize=memoize)
            now = init
            for t in range(T):
                same(traj[t].activities, dict(enumerate(now)), "rule %d at t=%d from %s", rule, t, init)
                now = [digit(rule, k, sum(now[x] for x in cells(c))) for c in range(n)]
                rec.state("evolved", rule, tuple(now))
            rec.step(T * n)
