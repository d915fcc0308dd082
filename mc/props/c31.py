"""
Information measures. For all strings of the bound, and pairs of them: the Shannon entropy, the joint entropy and the mutual information
must have their textbook values, and obey the laws between them. For all histories of the bound (of digits, longer numbers, words, floats;
as lists of activities and as trajectories): the averages over the nodes must be those of each node's history, each activity being one
symbol; the temporal distance must be within the history; a history without timesteps must be refused.
"""
import itertools
import math

import numpy as np

from mc.engine import Violation, require
from mc.target import ntm

TOL = 1e-9
SYMBOLS = {
    "digits": [0, 1, 2], "long": [1, 11, 111], "floats": [0.5, 1.5, -0.5], "words": ["a", "ab", "b"], "tuples": [(0, 1), (1, 0), (0,)],
    "negative": [-1, 1, 0], "numpy": [np.int64(0), np.int64(1), np.int64(10)], "bool": [True, False, None],
    "precise": [0.123456781, 0.123456782, 0.1234567810000001], "large": [10 ** 17, 10 ** 17 + 1, 10 ** 300],
    "wordy": ["a" * 40, "a" * 40 + "b", "a" * 39 + "b"], "blanks": ["a ", "a", " a"], "nulls": ["a\0", "a", "\0"],
    "lists": [[0], [0, 1], []],
}


def cases(tier):
    deep = tier == "thorough"
    for n in range(1, 7 if deep else 6):
        for first in range(3):
            yield {"strings": n, "first": first, "deep": deep}
    for n in (8, 16):
        yield {"long": n}
    for name in sorted(SYMBOLS):
        for rows, cols in ((1, 1), (1, 2), (2, 1), (3, 1), (4, 1), (5, 1), (2, 2), (3, 2)) + (((6, 1), (4, 2)) if deep else ()):
            yield {"table": name, "rows": rows, "cols": cols}
    for rows in (6, 7, 8) + ((9, 10) if deep else ()):
        for lo in range(0, 2 ** rows, 32):
            yield {"column": rows, "lo": lo, "symbols": ("digits", "words", "long", "tuples")[lo // 32 % 4]}
    for rows, cols in ((12, 1), (15, 3), (20, 2), (33, 5), (300, 2), (10, 70), (6, 300)):
        for a in range(1, 8) if rows * cols < 200 else (3, 5):
            yield {"longtable": (rows, cols, a)}
    for rows in (33, 65, 70):
        yield {"distinct": rows}
    for n in (101, 200, 1000) + ((70000,) if deep else (9000,)):
        yield {"rare": n}
    yield {"refuse": True}


def H(symbols):
    n = len(symbols)
    symbols = [repr(s) for s in symbols]
    counts = {}
    for s in symbols:
        counts[s] = counts.get(s, 0) + 1
    return -sum(c / n * math.log2(c / n) for c in counts.values()) + 0.0


def MI(x, y):
    return H(x) + H(y) - H(list(zip(x, y)))


def close(got, want, what, *args):
    require(abs(float(got) - want) <= TOL, "%s is %r, expected %r" % (what % args, got, want))


def pair(x, y, rec):
    close(ntm.joint_shannon_entropy(x, y), H(list(zip(x, y))), "the joint entropy of %s and %s", x, y)
    got = ntm.mutual_information(x, y)
    close(got, MI(x, y), "the mutual information of %s and %s", x, y)
    require(float(got) >= -TOL, "the mutual information of %s and %s is negative: %s", x, y, got)
    close(ntm.mutual_information(y, x), float(got), "the mutual information of %s and %s, the other way around", x, y)
    rec.step(3)


def run(case, rec):
    rec.trace()
    if "strings" in case:
        n = case["strings"]
        every = ["".join(w) for w in itertools.product("0aB", repeat=n)]
        for x in every:
            if x[0] != "0aB"[case["first"]]:
                continue
            got = ntm.shannon_entropy(x)
            close(got, H(x), "the entropy of %s", x)
            require(math.copysign(1, got) > 0, "the entropy of %s is negative zero", x)
            rec.state(x)
            rec.step()
            for y in every[:: (1 if n < 5 else 7) if not case["deep"] else 1 if n < 6 else 5]:
                pair(x, y, rec)
                rec.outcome(round(MI(x, y), 9))
            pair(x, x, rec)
    elif "long" in case:
        n = case["long"]
        for bits in range(0, 2 ** n, 1 if n < 9 else 97):
            x = "".join("01"[bits >> i & 1] for i in range(n))
            close(ntm.shannon_entropy(x), H(x), "the entropy of %s", x)
            pair(x, x[::-1], rec)
            pair(x, "".join("abcdefgh"[i % 8] for i in range(n)), rec)
            rec.state(x)
        for k in (2, 3, 5, 26):
            x = "".join(chr(97 + i % k) for i in range(k * 4))
            close(ntm.shannon_entropy(x), math.log2(k), "the entropy of %s", x)
    elif "rare" in case:
        n = case["rare"]
        for k in (1, 2, n // 3) if n < 2000 else (2,):
            for spread in (False, True):
                x = ["a"] * n
                for i in range(k):
                    x[i * n // k if spread else i] = "b"
                x = "".join(x)
                y = "".join("cd"[c == "b" or i == n // 2] for i, c in enumerate(x))
                z = "".join("abcdefghijklmnopqrstuvwxyz"[i * i // 7 % 26] for i in range(n))
                for u, v in ((x, x), (x, y), (y, x), (x, z), (z, z), (x, x[::-1])):
                    close(ntm.shannon_entropy(u), H(u), "the entropy of %s", u)
                    pair(u, v, rec)
                rec.state(x)
        history([[i % 7, int(i == 3)] for i in range(min(n, 200))], rec)
    elif "column" in case:
        a, b = SYMBOLS[case["symbols"]][:2]
        for bits in range(case["lo"], case["lo"] + 32):
            column = [b if bits >> i & 1 else a for i in range(case["column"])]
            history([[x] for x in column], rec)
            history([[x, y] for x, y in zip(column, column[1:] + column[:1])], rec)
    elif "longtable" in case:
        rows, cols, a = case["longtable"]
        history([[(r * r * a + c * r + (r >> a % 3)) % (2 + (a + c) % 4) for c in range(cols)] for r in range(rows)], rec)
    elif "distinct" in case:
        # as many symbols as there are timesteps, or nearly
        rows = case["distinct"]
        for m in (rows, rows - 1, rows // 2 + 1):
            table = [[r % m, "s%d" % (r * r % m)] for r in range(rows)]
            for got in (ntm.average_node_entropy(table), ntm.average_node_entropy(trajectory(table))):
                close(got, sum(H([row[i] for row in table]) for i in range(2)) / 2, "the average entropy of %s", table)
            close(ntm.average_mutual_information(table, 2), sum(MI([r[i] for r in table[:-2]], [r[i] for r in table[2:]]) for i in range(2)) / 2,
                  "the average mutual information of %s", table)
            x = [chr(200 + r % m) for r in range(rows)]
            close(ntm.shannon_entropy("".join(x)), H(x), "the entropy of %s", x)
            pair("".join(x), "".join(x[::-1]), rec)
    elif "table" in case:
        rows, cols = case["rows"], case["cols"]
        pool = SYMBOLS[case["table"]]
        for flat in itertools.product(pool, repeat=rows * cols):
            table = [list(flat[r * cols:(r + 1) * cols]) for r in range(rows)]
            history(table, rec)
    else:
        for f in (ntm.average_node_entropy, ntm.average_mutual_information):
            refuse(lambda: f([]), "%s of nothing" % f.__name__)
        for rows in (1, 2, 3, 4):
            table = [[r % 2, 1] for r in range(rows)]
            for d in (0, -1, -2, rows, rows + 1, rows + 5):
                refuse(lambda: ntm.average_mutual_information(table, temporal_distance=d), "a temporal distance of %d of %d" % (d, rows))
                refuse(lambda: ntm.average_mutual_information(trajectory(table), temporal_distance=d), "a distance of %d of %d" % (d, rows))


def refuse(f, what):
    try:
        f()
    except Exception:
        return
    raise Violation("accepted: " + what)


def trajectory(table):
    """A real evolution through the rows of the table."""
    net = ntm.topology.disconnected(len(table[0]))
    return ntm.evolve(net, list(table[0]), lambda ctx: table[ctx.timestep][ctx.node_label], timesteps=len(table))


def history(table, rec):
    rows, cols = len(table), len(table[0])
    columns = [[row[c] for row in table] for c in range(cols)]
    want = sum(H(c) for c in columns) / cols
    forms = [table, trajectory(table)]
    if all(type(x) in (int, float) for row in table for x in row):
        forms.append(np.array(table))
    for form in forms:
        close(ntm.average_node_entropy(form), want, "the average entropy of %s (%s)", table, type(form).__name__)
        for d in range(1, rows):
            close(ntm.average_mutual_information(form, temporal_distance=d), sum(MI(c[:-d], c[d:]) for c in columns) / cols,
                  "the average mutual information of %s at distance %d", table, d)
            if d == 1:
                close(ntm.average_mutual_information(form), sum(MI(c[:-1], c[1:]) for c in columns) / cols,
                      "the average mutual information of %s", table)
        rec.step(rows)
    rec.state(tuple(map(repr, table)))
    rec.outcome(round(want, 9))
