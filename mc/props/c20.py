"""
Rules by position (CTRBL) and Langton's loops. For every number of rows and columns of the bound the neighbours which are called
top, right, bottom and left must be those of the torus, and the rule must be given the center, top, right, bottom and left, in
this order, at every timestep. For all tables of one and (of a basis) of two entries, with and without rotations, the table must be
exactly the entries and their rotations, the given table must not change, and a state outside of it must be refused. All states of
3x3 tori must evolve as a basis of tables says. Langton's table must be the published one, closed under rotation, and a loop,
wherever it is put, must after 151 steps have produced its copy.
"""
import itertools

from mc.engine import Violation, require, same
from mc.props.langton import LOOP, TABLE
from mc.target import ntm


EXOTIC = ((0, -1), (0.5, -0.25), ("", "ab"), (None, "x"), ((0, 1), (1,)), (10 ** 20, 13), (False, "0"), (1, 0))


def cases(tier):
    deep = tier == "thorough"
    for rows in range(1, 8):
        for cols in range(1, 8):
            if rows * cols >= 9:
                yield {"dim": (rows, cols)}
    for dim in ((12, 17), (17, 12), (3, 33), (33, 3), (20, 20), (1, 40), (40, 1), (65, 2), (2, 65)):
        yield {"dim": dim}
    for key in itertools.product(range(2), repeat=5):
        for rot in (False, True, None):
            yield {"entries": [(key, 7)], "rot": rot}
    for key in itertools.permutations((1, 2, 3, 4)):
        for rot in (False, True):
            yield {"entries": [((0,) + key, "x")], "rot": rot}
            yield {"entries": [((0,) + key, "x"), ((0, 1, 2, 3, 4), "y"), ((9,) + key, "z")], "rot": rot}
    # states which aren't small integers
    for alphabet in ((0, 0.5, 1), (0, 1, 1.25), ("a", "b", "ab"), (None, 0, "0"), ((0,), (0, 1), 0), (-1, 1, -2), (2.5, 2, -2.5), (10 ** 20, 10 ** 20 + 1, 0)):
        for key in itertools.permutations(range(3)):
            given = tuple(alphabet[i] for i in (key[0],) + key + key[1:2])
            for rot in (False, True):
                yield {"entries": [(given, alphabet[key[1]])], "rot": rot, "alphabet": alphabet}
    keys = list(itertools.product(range(2), repeat=5))
    for a, b in itertools.combinations(keys[::1 if deep else 3], 2):
        yield {"entries": [(a, 5), (b, 6)], "rot": True}
        yield {"entries": [(a, 5), (b, 6)], "rot": False}
    for k in range(32):
        for lo in range(0, 512, 128):
            yield {"evolve": ("bit", k), "lo": lo, "hi": lo + (128 if deep else 32)}
    for name in ("sum", "position", "top", "right", "bottom", "left"):
        for lo in range(0, 512, 64):
            yield {"evolve": (name, 0), "lo": lo, "hi": lo + 64}
    yield {"langton": "table"}
    for k in range(len(EXOTIC)):
        for name in ("sum", "position", "top", "right", "bottom", "left"):
            yield {"exotic": k, "table": name}
    for row, col in ((0, 1), (2, 3), (10, 20), (3, 14)) if not deep else [(r, c) for r in range(0, 30, 3) for c in range(1, 30, 5)]:
        yield {"langton": "initial", "at": (row, col)}
    for row, col in ((12, 14),) if not deep else ((12, 14), (15, 18), (20, 14)):
        yield {"langton": "copies", "at": (row, col)}


def around(rows, cols, c):
    a, b = divmod(c, cols)
    return (c, (a - 1) % rows * cols + b, a * cols + (b + 1) % cols, (a + 1) % rows * cols + b, a * cols + (b - 1) % cols)


def rotations(key):
    c, rest = key[0], key[1:]
    return [(c,) + rest[i:] + rest[:i] for i in range(4)]


def reference_table(entries, rot):
    out = {}
    for key, image in entries:
        out[key] = image
        if rot:
            for r in rotations(key):
                out[r] = image
    return out


def full_table(kind, k):
    f = {"bit": lambda c, t, r, b, l: 1 if c * 16 + t * 8 + r * 4 + b * 2 + l == k else 0,
         "sum": lambda *x: sum(x) % 2, "position": lambda c, t, r, b, l: (c + t * r + b * (1 - l)) % 2,
         "top": lambda c, t, r, b, l: t, "right": lambda c, t, r, b, l: r, "bottom": lambda c, t, r, b, l: b,
         "left": lambda c, t, r, b, l: l}[kind]
    return {key: f(*key) for key in itertools.product(range(2), repeat=5)}


def run(case, rec):
    rec.trace()
    if "dim" in case:
        return layout(case["dim"], rec)
    if "exotic" in case:
        return exotic(case, rec)
    if "entries" in case:
        return table(case, rec)
    if "langton" in case:
        return langton(case, rec)
    rule_table = full_table(*case["evolve"])
    for rows, cols in ((3, 3), (4, 3)) if case["evolve"][0] != "bit" else ((3, 3),):
        ctrbl = ntm.CTRBLRule(dim=(rows, cols), rule_table=rule_table)
        for bits in range(case["lo"], case["hi"]):
            if rows * cols == 12:
                bits *= 7
            init = [bits >> i & 1 for i in range(rows * cols)]
            for memoize in (False, True):
                traj = ntm.evolve(ctrbl.network, init, ctrbl.activity_rule, timesteps=3, memoize=memoize)
                now = init
                for t in range(3):
                    same(traj[t].activities, dict(enumerate(now)), "t=%d from %s (memoize=%s)", t, init, memoize)
                    rec.state(case["evolve"], tuple(now))
                    now = [rule_table[tuple(now[x] for x in around(rows, cols, c))] for c in range(rows * cols)]
                rec.step(2 * rows * cols)
                rec.outcome(case["evolve"], tuple(now))


def exotic(case, rec):
    """States of any kind, in rectangles: a complete table, with and without rotations of (and further) entries."""
    one = dict(enumerate(EXOTIC[case["exotic"]]))
    table = {tuple(one[x] for x in key): one[v] for key, v in full_table(case["table"], 0).items()}
    more = {(9, a, b, "k", None): 5 for a in range(4) for b in range(4)}
    for rows, cols in ((3, 4), (4, 3), (5, 3), (3, 13)):
        layout((rows, cols), rec, table)
        for given in (dict(table), dict(table, **{}) if case["table"] == "sum" else {**more, **table}):
            for rot in (False, True) if case["table"] == "sum" else (False,):
                ctrbl = ntm.CTRBLRule(dim=(rows, cols), rule_table=given, add_rotations=rot)
                for k in range(6):
                    now = [one[(i * i + i // 3 * k + k) // 2 % 2] for i in range(rows * cols)]
                    traj = ntm.evolve(ctrbl.network, list(now), ctrbl.activity_rule, timesteps=8)
                    for t in range(8):
                        same(traj[t].activities, dict(enumerate(now)), "t=%d on %s of %s", t, (rows, cols), case)
                        rec.state(case["exotic"], case["table"], tuple(now))
                        now = [table[tuple(now[x] for x in around(rows, cols, c))] for c in range(rows * cols)]
                    rec.step(7 * rows * cols)
                    rec.outcome(tuple(now))


def layout(dim, rec, rule_table={}):
    rows, cols = dim
    rule = ntm.CTRBLRule(dim=dim, rule_table=rule_table)
    nmap, rot = rule.neighbourhood_map, rule.network.rotation_system
    same(sorted(nmap), list(range(rows * cols)), "the cells")
    same(sorted(rule.network.nodes), list(range(rows * cols)), "the nodes")
    for c in range(rows * cols):
        want = around(rows, cols, c)
        v = nmap[c]
        same((v.center, v.top, v.right, v.bottom, v.left), want, "the neighbours of cell %d", c)
        require(v == ntm.VonNeumannNeighbourhood(center=want[0], top=want[1], right=want[2], bottom=want[3], left=want[4]),
                "the neighbourhood of %d isn't equal to itself", c)
        for i in range(5):
            other = list(want)
            other[i] = -1
            require(not v == ntm.VonNeumannNeighbourhood(center=other[0], top=other[1], right=other[2], bottom=other[3],
                                                         left=other[4]), "different neighbourhoods are equal")
        same(tuple(rot[c]), want, "the rotation system at cell %d", c)
        same(set(rule.network.in_edges(c)), set(want), "the nodes connected to cell %d", c)
        rec.state(dim, c)
    rec.step(rows * cols)
    init = [i * 3 % 11 for i in range(rows * cols)]
    seen = {}

    def watch(ctx):
        seen.setdefault(ctx.timestep, {})[ctx.node_label] = (tuple(ctx.neighbour_labels), tuple(ctx.neighbourhood_activities))
        return (ctx.current_activity + 1) % 11
    ntm.evolve(rule.network, init, watch, timesteps=4)
    for t in (1, 2, 3):
        for c in range(rows * cols):
            want = around(rows, cols, c)
            same(seen[t][c], (want, tuple((init[x] + t - 1) % 11 for x in want)), "what cell %d sees at t=%d", c, t)
    rec.outcome(dim)


def table(case, rec):
    given = dict(case["entries"])
    before = repr(given)
    kw = {} if case["rot"] is None else {"add_rotations": case["rot"]}
    rule = ntm.CTRBLRule(dim=(3, 3), rule_table=given, **kw)
    want = reference_table(case["entries"], case["rot"])
    same(rule.rule_table, want, "the table")
    require(repr(given) == before, "the given table changed")
    alphabet = case.get("alphabet") or sorted({x for key, _ in case["entries"] for x in key} | {0, 1})[:4]
    for key in itertools.chain(itertools.product(alphabet, repeat=5), want):
        from mc import spaces
        ctx = spaces.context(ntm, list(key), key[0])
        try:
            got = rule.activity_rule(ctx)
        except Exception:
            require(key not in want, "the state %s was refused", key)
        else:
            require(key in want, "the state %s, which isn't in the table, gave %r", key, got)
            require(got == want[key], "the state %s gave %r, expected %r", key, got, want[key])
        rec.step()
    rec.state(before)
    rec.outcome(repr(sorted(map(repr, want.items()))))


def langton(case, rec):
    if case["langton"] == "table":
        loop = ntm.LangtonsLoop(dim=(20, 20))
        want = reference_table([(tuple(map(int, e[:5])), int(e[5])) for e in TABLE], True)
        got = loop.rule_table
        for key in sorted(set(got) | set(want)):
            require(got.get(key) == want.get(key), "the state %s becomes %r, expected %r", key, got.get(key), want.get(key))
            for r in rotations(key):
                require(got[r] == got[key], "the states %s and %s, rotations of each other, have different images", key, r)
            rec.step()
            rec.state(key)
        rec.outcome(len(got))
        return
    row, col = case["at"]
    rows, cols = row + 22, col + 30
    loop = ntm.LangtonsLoop(dim=(rows, cols))
    init = loop.init_loops(1, [row], [col])
    require(len(init) == rows * cols, "there are %d initial activities", len(init))
    pattern = {(r, c): int(LOOP[r][c]) for r in range(len(LOOP)) for c in range(len(LOOP[0])) if LOOP[r][c] != "."}
    for i in range(rows * cols):
        r, c = divmod(i, cols)
        require(init[i] == pattern.get((r - row, c - col + 1), 0), "the loop has %r in row %d, column %d", init[i], r, c)
    rec.step(rows * cols)
    rec.state(case["at"])
    if case["langton"] == "initial":
        two = ntm.LangtonsLoop(dim=(rows + 20, cols + 20)).init_loops(2, [row, row + 15], [col, col + 18])
        one = [ntm.LangtonsLoop(dim=(rows + 20, cols + 20)).init_loops(1, [r], [c]) for r, c in ((row, col), (row + 15, col + 18))]
        require((two == one[0] + one[1]).all(), "two loops aren't where they were put")
        rec.outcome(case["at"])
        return
    T = 152
    traj = ntm.evolve(loop.network, init, loop.activity_rule, timesteps=T, persist_network=False)
    want = reference_table([(tuple(map(int, e[:5])), int(e[5])) for e in TABLE], True)
    now = [int(x) for x in init]
    for t in range(T):
        require([traj[t].activities[i] for i in range(rows * cols)] == now, "the loop is different at t=%d", t)
        rec.state("t", t, tuple(now))
        if t < T - 1:
            now = [want[tuple(now[x] for x in around(rows, cols, c))] for c in range(rows * cols)]
        rec.step()
    # the parent's ring of 2s and the child's
    rings = sum(1 for r in range(rows - 9) for c in range(cols - 9) if ring_at(now, r, c, cols))
    require(rings == 2, "after 151 steps there are %d loops", rings)
    rec.outcome(tuple(now))


def ring_at(now, r, c, cols):
    """The inner sheath of a loop: a hollow square of 2s of side 8 around zeroes."""
    at = lambda a, b: now[(r + a) * cols + c + b]  # noqa: E731
    return all(at(2, 2 + i) == 2 and at(7, 2 + i) == 2 and at(2 + i, 2) == 2 and at(2 + i, 7) == 2 for i in range(6)) \
        and all(at(a, b) == 0 for a in range(3, 7) for b in range(3, 7))
