"""
Elementary and other binary rules. All 256 rules, with either numbering, on all neighbourhoods of three cells, and on all states
of rings of 3 to 6 cells; all rules of one-cell neighbourhoods; and for five and seven cells each rule with one bit set or one
bit cleared, on all neighbourhoods (the next state is one bit of the rule's number, so these decide all of them): the next state
must be the bit of the rule's number which the neighbourhood, read as a binary number with the leftmost cell first, selects from
the right (NKS) or the left. The conversions between numbers and bits must be inverse to each other for all numbers of the bound.
"""
import itertools

import numpy as np

from mc import spaces
from mc.engine import require, same
from mc.refevolve import build
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    for rule in range(256):
        yield {"rule": rule, "n": 3}
        yield {"ring": rule}
        if deep:
            yield {"ring": rule, "deep": True}
    for rule in range(4):
        yield {"rule": rule, "n": 1}
    for rule in range(16):
        yield {"rule": rule, "n": 2}
    for n in (4, 5) + ((6, 7) if deep else ()):
        for bit in range(2 ** n):
            yield {"rule": 1 << bit, "n": n}
            yield {"rule": (1 << 2 ** n) - 1 - (1 << bit), "n": n}
    for bit in range(0, 128, 1 if deep else 9):
        yield {"rule": 1 << bit, "n": 7}
    for low, high in itertools.product((0, 1, 31, 52, 62), (63, 64, 65, 100, 127)):
        yield {"rule": (1 << low) + (1 << high), "n": 7}
        yield {"rule": (1 << high + 1) - 1 - (1 << low), "n": 7}
    for digits in range(1, 13 if deep else 11):
        yield {"bits": digits}
    for order in ((3, 1, 2), (1, 3, 5), (2, 3, 1), (5, 4, 1, 3)):
        for rule in range(0, 256, 1 if deep else 5):
            yield {"sizes": order, "rule": rule}
    for edges in spaces.digraphs(3):
        for rule in (1, 2, 6, 8, 14) if not deep else range(16):
            yield {"edges": edges, "rule": rule}
    for rule in (30, 45, 90, 106, 110, 150, 184):
        for n in (7, 20, 33):
            yield {"long": rule, "n": n}
    for n in (9, 11, 13, 14):
        yield {"wide": n}
    yield {"single": 140 if deep else 80}


def select(rule, cells, nks):
    i = 0
    for c in cells:
        i = 2 * i + c
    if not nks:
        i = 2 ** len(cells) - 1 - i
    return rule >> i & 1


def rules_of(rule):
    return [(ntm.rules.nks_ca_rule(rule), True), (ntm.rules.binary_ca_rule(rule, scheme="nks"), True),
            (ntm.rules.binary_ca_rule(rule), False), (ntm.rules.binary_ca_rule(rule, None), False)]


def run(case, rec):
    rec.trace()
    if "bits" in case:
        return bits(case["bits"], rec)
    if "wide" in case:
        # neighbourhoods of many cells: a rule of one bit set, or cleared, at the places at which the numbers change their size
        n = case["wide"]
        size = 2 ** n
        at = sorted({0, 1, 63, 64, 255, 256, 511, size // 2 - 1, size // 2, size // 3, size - 2, size - 1} & set(range(size)))
        for bit in at:
            for rule in (1 << bit, (1 << size) - 1 - (1 << bit)):
                for f, nks in rules_of(rule):
                    for i in at:
                        for j in (i, size - 1 - i):
                            cells = [int(c) for c in bin(size + j)[3:]]
                            require(f(spaces.context(ntm, cells, cells[n // 2])) == select(rule, cells, nks),
                                    "a rule of %d cells with the bit %d gives a wrong state for %s", n, bit, cells)
                            rec.step()
                rec.state(n, bit)
                rec.outcome(n, bit)
        return
    if "single" in case:
        # numbers of many digits: one or two of them set, or all but one
        for digits in range(1, case["single"]):
            for i in range(digits):
                for num in (1 << i, (1 << digits) - 1 - (1 << i), (1 << i) + (1 << digits - 1), (1 << i) + (1 << (i * 7) % digits) + 1):
                    want = [num >> (digits - 1 - k) & 1 for k in range(digits)] if num < 1 << digits else None
                    if want is None:
                        continue
                    got = ntm.rules.int_to_bits(num, digits)
                    require([int(b) for b in got] == want, "%d is %s in binary", num, got)
                    require(ntm.rules.bits_to_int(want) == num and ntm.rules.bits_to_int(got) == num, "%s is the number %s", want,
                            ntm.rules.bits_to_int(want))
                    rec.step(2)
            rec.state(digits)
            rec.outcome(digits)
        return
    if "sizes" in case:
        # the same rule object on neighbourhoods of different sizes
        rule = case["rule"]
        for f, nks in rules_of(rule):
            for n in case["sizes"] + case["sizes"]:
                number = rule % 2 ** 2 ** n
                for cells in itertools.product((0, 1), repeat=n):
                    if number != rule:
                        continue  # not a rule of this size
                    require(f(spaces.context(ntm, cells, cells[n // 2])) == select(rule, cells, nks), "rule %d for %s", rule, cells)
                    rec.step()
        rec.outcome(repr(case))
        return
    if "edges" in case:
        # networks whose nodes have neighbourhoods of different sizes
        rule, inc = case["rule"], {j: [i for i in range(3) if (i, j) in case["edges"]] for j in range(3)}
        if any(rule >= 2 ** 2 ** len(v) for v in inc.values()):
            return
        net = build(ntm.Network, spaces.net(case["edges"], 3))
        net.rotation_system = inc
        for f, nks in rules_of(rule):
            for init in itertools.product((0, 1), repeat=3):
                for memoize in (False, True):
                    traj = ntm.evolve(net, list(init), f, timesteps=3, memoize=memoize)
                    now = list(init)
                    for t in range(3):
                        same(traj[t].activities, dict(enumerate(now)), "rule %d at t=%d from %s", rule, t, init)
                        now = [select(rule, [now[x] for x in inc[j]], nks) for j in range(3)]
                    rec.step(6)
                    rec.state(rule, init)
        rec.outcome(repr(case))
        return
    if "rule" in case:
        for f, nks in rules_of(case["rule"]):
            for cells in itertools.product((0, 1), repeat=case["n"]):
                got = f(spaces.context(ntm, cells, cells[len(cells) // 2]))
                want = select(case["rule"], cells, nks)
                require(got == want and not isinstance(got, (bool, str)), "rule %d gives %r for %s, expected %d", case["rule"],
                        got, cells, want)
                for t in (float, bool, np.int64, np.uint8, np.bool_, np.float64)[case["rule"] % 2:: 2]:
                    got = f(spaces.context(ntm, [t(c) for c in cells], t(cells[len(cells) // 2])))
                    require(got == want, "rule %d gives %r for %s as %s, expected %d", case["rule"], got, cells, t, want)
                rec.step()
                rec.state(case["rule"], cells, nks)
                rec.outcome(case["rule"], cells, int(got))
        return
    if "long" in case:
        n, rule = case["n"], case["long"]
        net = ntm.topology.cellular_automaton(n=n)
        init = [1 if i in (n // 2, 0) else 0 for i in range(n)]
        for memoize in (False, True):
            traj = ntm.evolve(net, init, ntm.rules.nks_ca_rule(rule), timesteps=40, memoize=memoize)
            now = init
            for t in range(40):
                same([traj[t].activities[i] for i in range(n)], now, "rule %d at t=%d", rule, t)
                now = [select(rule, [now[i - 1], now[i], now[(i + 1) % n]], True) for i in range(n)]
            rec.step(40 * n)
            rec.outcome(rule, n, repr(now))
        return
    rule = case["ring"]
    for n in (3, 4) if not case.get("deep") else (5, 6):
        net = ntm.topology.cellular_automaton(n=n)
        for init in itertools.product((0, 1), repeat=n):
            for f, nks in rules_of(rule)[::2]:
                traj = ntm.evolve(net, list(init), f, timesteps=2)
                want = [select(rule, [init[i - 1], init[i], init[(i + 1) % n]], nks) for i in range(n)]
                same(traj[1].activities, dict(enumerate(want)), "rule %d from %s", rule, init)
                rec.step(n)
                rec.state("ring", rule, init)


def bits(digits, rec):
    for num in range(2 ** digits):
        got = ntm.rules.int_to_bits(num, digits)
        want = [num >> (digits - 1 - i) & 1 for i in range(digits)]
        require([int(b) for b in got] == want and len(got) == digits, "%d is %s in binary", num, got)
        require(ntm.rules.bits_to_int(got) == num, "%s is the number %s", got, ntm.rules.bits_to_int(got))
        require(ntm.rules.bits_to_int(want) == num and ntm.rules.bits_to_int(tuple(want)) == num
                and ntm.rules.bits_to_int(np.array(want)) == num, "%s is the number %s", want, ntm.rules.bits_to_int(want))
        wide = [int(b) for b in ntm.rules.int_to_bits(num, digits + 3)]
        require(wide == [0, 0, 0] + want, "%d in %d digits is %s", num, digits + 3, wide)
        rec.step(4)
        rec.outcome(num, digits)
    rec.state(digits)
    big = (1 << 70) + 5
    require(ntm.rules.bits_to_int([int(c) for c in bin(big)[2:]]) == big, "a number of 71 bits is wrong")
