"""
Substitution systems. For all rule tables of the bound (windows of one, two and three symbols, replacements of up to two symbols, among
them none) and all axioms of the bound: each timestep must rewrite the string like the textbook system: each position with a complete
window to its right is replaced by what the rules give for the window, in order, the others vanish; constants stay; a system which dies
out stays empty; one system evolves again and again, or on from where it stopped; the symbols keep the type of the axiom's; the padded and string forms must say the same; the given rules aren't changed.
"""
import itertools

import numpy as np

from mc.engine import Violation, require, same
from mc.target import ntm

WORDS = ["", "1", "2", "12", "21", "11", "22"]


def cases(tier):
    deep = tier == "thorough"
    for r in itertools.product(WORDS + ["121", "2112"], repeat=2):
        yield {"rules": dict(zip("12", r)), "k": 1, "axioms": (1, 2, 3, 4), "T": 5, "ints": r[0] < r[1]}
    for i, r in enumerate(itertools.product(WORDS, repeat=4)):
        if deep or i % 4 == 1:
            yield {"rules": dict(zip(("11", "12", "21", "22"), r)), "k": 2, "axioms": (1, 3, 4) if i % 2 else (2, 4), "T": 5, "ints": i % 3 != 0}
    for i, r in enumerate(itertools.product(("", "1", "2", "12"), repeat=8)):
        if i % (5 if deep else 61) == 3:
            yield {"rules": dict(zip(("".join(w) for w in itertools.product("12", repeat=3)), r)), "k": 3, "axioms": (1, 2, 5), "T": 5,
                   "ints": i % 2 == 0}
    for r in itertools.product(("F", "F+F", "[G]-F", "", "GG"), repeat=2):
        yield {"rules": dict(zip("FG", r)), "k": 1, "constants": ["+", "-", "[", "]"], "words": ("F", "G", "F+G", "[F]", "+", "G-[F+G]"), "T": 4}
    for r in itertools.product(("F", "F+", "-+", "+"), repeat=3):
        yield {"rules": dict(zip("F+-", r)), "k": 1, "constants": ["+"], "words": ("F", "+", "F+-", "-+F"), "T": 4}
    yield {"rules": {"1": "12", "2": "1", "0": "2"}, "k": 1, "constants": ["2", "0"], "words": ("1", "12", "0", "2101"), "T": 4, "ints": True}
    yield {"made": True}
    yield {"rules": {}, "k": 1, "constants": ["1", "2", "0"], "words": ("1", "12", "0", "2101"), "T": 3, "ints": True}
    yield {"rules": {"1": "121"}, "k": 1, "constants": ["2", "0"], "words": ("1", "12", "0", "2101"), "T": 4, "ints": True}
    yield {"rules": {"F": "1F", "1": "11"}, "k": 1, "constants": ["2", "-"], "words": ("1", "F", "2F-1", "1F2-"), "T": 4}
    yield {"rules": {"A": "B ", "B": "A", " ": "é"}, "k": 1, "constants": ["é", "."], "words": ("A", "é", " A.", "B  B"), "T": 5}
    # long words, larger windows and alphabets, many timesteps
    yield {"rules": {"F": "F+F-F"}, "k": 1, "constants": ["+", "-"], "words": ("F", "+F", "F-F"), "T": 7, "limit": 2500}
    yield {"rules": {"a": "b", "b": "ab"}, "k": 1, "words": ("a",), "T": 16, "limit": 2500}
    yield {"rules": {"x": "", "y": "yx"}, "k": 1, "words": ("y" * 60 + "x" * 40, "xy" * 50), "T": 4, "limit": 300}
    for k in (4, 5, 6):
        table = {"".join(w): ("1", "2", "12", "21")[sum(map(int, w)) * (i + 1) % 4] for i, w in enumerate(itertools.product("12", repeat=k))}
        yield {"rules": table, "k": k, "axioms": (k - 1, k, k + 2), "T": 6, "ints": True, "limit": 300}
    # one long image among short ones, for each window
    for k in (1, 2, 3, 4):
        windows = ["".join(w) for w in itertools.product("12", repeat=k)]
        for i, long in enumerate(windows):
            for n in range(3, 11):
                if deep or k < 4 or (i + n) % 4 == 1:
                    yield {"rules": {w: "1211222121"[:n] if w == long else "12"[(j + n) % 2] for j, w in enumerate(windows)}, "k": k,
                           "words": (long, "1" + long, long + "21", "12212111"[n % 3:][:k + 3]), "T": 5, "limit": 80}
    for k in (1, 2, 3):
        windows = ["".join(w) for w in itertools.product("12", repeat=k)]
        for n in (17, 33, 70, 300):
            yield {"rules": {w: "12212"[j % 3:] * (n // 3) if j % 3 == n % 3 else "2" for j, w in enumerate(windows)}, "k": k,
                   "words": ("1" * k, "12" * k, "212" * k), "T": 3, "limit": 300}
    letters = "abcdefghijklmnopqrstuvwxyz"
    yield {"rules": {c: letters[(i + 1) % 26] + ("" if i % 5 else "z") for i, c in enumerate(letters)}, "k": 1, "words": (letters, letters[::-1]),
           "T": 12, "limit": 900}
    yield {"rules": {a + b: letters[(3 * i + j) % 26] for i, a in enumerate(letters) for j, b in enumerate(letters)}, "k": 2,
           "words": (letters, letters * 2), "T": 9, "limit": 900}
    # one system, evolved several times, for different numbers of timesteps, also on from where it stopped
    again = list(itertools.product((2, 3, 4), repeat=3)) + [(1, 2), (2, 2), (2, 5), (5, 2, 2)]
    for k, tables in ((1, [("12", "1"), ("", "12"), ("21", "2")]), (2, [("12", "1", "", "22"), ("2", "21", "1", "12")]),
                      (3, [("12", "1", "21", "2", "", "12", "1", "2")])):
        for r in tables:
            rules = dict(zip(("".join(w) for w in itertools.product("12", repeat=k)), r))
            for Ts in again:
                for how in ("anew", "same dict", "on"):
                    yield {"rules": rules, "k": k, "Ts": Ts, "how": how, "words": ("1", "12", "2112", "12121")}
    yield {"refuse": True}


def rewrite(word, rules, k):
    return "".join(rules[word[i:i + k]] for i in range(len(word) - k + 1))


def run(case, rec):
    if "refuse" in case:
        for rules in ({"1": "2", "12": "1"}, {"11": "1", "2": "1"}, {"12": "", "121": "1", "11": "2"}):
            try:
                ntm.SubstitutionSystem("12", rules)
            except Exception:
                continue
            raise Violation("rules for windows of different sizes were accepted: %s" % rules)
        return
    if "made" in case:
        return made(rec)
    rules, k = case["rules"], case["k"]
    if "Ts" in case:
        for word in case["words"]:
            repeatedly(word, rules, k, case, rec)
        return
    constants = case.get("constants")
    full = dict(rules)
    full.update({c: c for c in constants or ()})
    if "words" in case:
        words = case["words"]
    else:
        words = ["".join(w) for n in case["axioms"] for w in itertools.product("12", repeat=n)]
    for word in words:
        want = [word]
        while len(want) < case["T"] and len(want[-1]) < case.get("limit", 120):
            want.append(rewrite(want[-1], full, k))
        for ints in (False, True) if "ints" in case and case["ints"] else (False,):
            axiom = [int(c) for c in word] if ints else word if len(word) % 2 else list(word)
            given = dict(rules)
            consts = None if constants is None else list(constants)
            sub = ntm.SubstitutionSystem(axiom, given, consts) if consts else ntm.SubstitutionSystem(axiom, given)
            traj = ntm.evolve(network=sub.network, initial_conditions=sub.initial_conditions, activity_rule=sub.activity_rule,
                              timesteps=len(want))
            got = [[s.activities[x] for x in sorted(s.activities)] for s in traj]
            same(got, [[int(c) if ints else c for c in w] for w in want], "%s under %s", word, rules)
            same(given, rules, "the given rules, afterwards")
            require(consts is None or consts == list(constants), "the given constants became %s", consts)
            if ints:
                pad = ntm.SubstitutionSystem.pad(traj)
                width = max(len(w) for w in want)
                require(np.asarray(pad).tolist() == [[int(c) for c in w] + [0] * (width - len(w)) for w in want],
                        "%s under %s is padded to %s", word, rules, pad)
            else:
                same(ntm.SubstitutionSystem.to_string(traj), want, "%s under %s, as strings", word, rules)
            for s in traj:
                require(set(s.network.nodes) == set(s.activities), "the nodes are %s, and those with an activity %s", s.network.nodes,
                        s.activities)
            for w in want:
                rec.state(w)
            rec.outcome(want[-1])
            rec.step(sum(len(w) for w in want[:-1]))
            rec.trace()


def made(rec):
    """Padded and string forms of trajectories whose nodes are in any order: that of the labels counts."""
    wide = [tuple(range(n)) for n in (99, 100, 101, 999, 1000, 1001, 1203)] + [tuple(range(11050, 9950, -1)), tuple(i * 7 % 1301 for i in range(1301))]
    for rows in itertools.chain(zip(wide, wide[1:] + wide[:1]), itertools.product(((0,), (3, 1, 2), (10, 9, 2, 1), (5, 40, 7, 100, 6), (2, 0, 1)), repeat=3)):
        values = [{x: (x * x + t) % 7 for x in row} for t, row in enumerate(rows)]
        width = max(map(len, rows))
        want = [[acts[x] for x in sorted(acts)] for acts in values]
        traj = [ntm.State(acts, ntm.Network(0)) for acts in values]
        require(np.asarray(ntm.SubstitutionSystem.pad(traj)).tolist() == [w + [0] * (width - len(w)) for w in want], "%s is padded to %s",
                values, ntm.SubstitutionSystem.pad(traj))
        traj = [ntm.State({x: str(a) for x, a in acts.items()}, ntm.Network(0)) for acts in values]
        same(ntm.SubstitutionSystem.to_string(traj), ["".join(map(str, w)) for w in want], "%s, as strings", values)
        rec.state(rows)
        rec.outcome(repr(want))
        rec.step(2)


def repeatedly(word, rules, k, case, rec):
    sub = ntm.SubstitutionSystem(word, rules)
    network, init, at = sub.network, sub.initial_conditions, word
    if case["how"] == "same dict":
        init = dict(enumerate(init))
    trajs = []
    for T in case["Ts"]:
        traj = ntm.evolve(network=network, initial_conditions=init, activity_rule=sub.activity_rule, timesteps=T)
        want = [at]
        for _ in range(T - 1):
            want.append(rewrite(want[-1], rules, k))
        trajs.append((traj, want))
        if case["how"] == "on":
            network, init, at = traj[-1].network, traj[-1].activities, want[-1]
        rec.step(T - 1)
        rec.outcome(tuple(want))
    for n, (traj, want) in enumerate(trajs):
        same(ntm.SubstitutionSystem.to_string(traj), want, "evolution %d of %s from %s under %s (%s)", n + 1, case["Ts"], word, rules, case["how"])
        for s in traj:
            require(set(s.network.nodes) == set(s.activities), "evolution %d: the nodes are %s, and those with an activity %s", n + 1,
                    s.network.nodes, s.activities)
    rec.trace(len(trajs))
