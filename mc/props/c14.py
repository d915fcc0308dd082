"""
Cellular automaton networks. For every number of cells and radius, and every number of rows and columns, radius and kind of
neighbourhood of the bound: each cell must be connected to exactly the cells which the definition of the (periodic)
neighbourhood gives, once, in both directions; the rotation system must list exactly those, with the cell itself in the middle,
in the order of their positions from left to right (for one dimension) or row by row (for cells away from the border, in two);
there must be none when the network isn't ordered; the adjacency matrices must say the same; and what the definition excludes
must be refused. A rule which reads the neighbours by position is then run on each network, over all (or a basis of) the states.
"""
import itertools

from mc.engine import Violation, require, same
from mc.refevolve import norm_real
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    for n in range(3, 40 if deep else 16):
        for r in range(0, n):
            for ordered in (True, False):
                yield {"d": 1, "n": n, "r": r, "ordered": ordered}
    for n in (64, 101, 200):
        for r in (1, 2, 7):
            yield {"d": 1, "n": n, "r": r, "ordered": True}
    yield {"d": 1, "n": None, "r": None, "ordered": True}
    top = 9 if deep else 7
    for rows in range(1, top):
        for cols in range(1, top):
            if rows * cols < 9:
                continue
            for kind in ("Moore", "von Neumann", "Hex"):
                for r in (1,) if kind == "Hex" else range(0, 4):
                    if kind == "Hex" and rows % 2:
                        continue
                    for ordered in (True, False):
                        yield {"d": 2, "rows": rows, "cols": cols, "r": r, "kind": kind, "ordered": ordered}
    for rows, cols in ((9, 4), (4, 11), (20, 3), (12, 12), (1, 30), (30, 1)):
        for kind in ("Moore", "von Neumann") + (("Hex",) if rows % 2 == 0 else ()):
            yield {"d": 2, "rows": rows, "cols": cols, "r": 1, "kind": kind, "ordered": True}
    for rows, cols, r in ((24, 24, 1), (12, 13, 2), (11, 10, 3), (14, 9, 4), (3, 40, 2), (40, 3, 3)):
        for kind in ("Moore", "von Neumann"):
            yield {"d": 2, "rows": rows, "cols": cols, "r": r, "kind": kind, "ordered": True}
    yield {"d": 2, "rows": 24, "cols": 25, "r": 1, "kind": "Hex", "ordered": True}
    for n in (41, 52, 67):
        for r in (15, 16, 17, 20, 25, 32, 33):
            if r < n:
                yield {"d": 1, "n": n, "r": r, "ordered": True}
    for rows, cols, r in ((13, 12, 5), (12, 15, 5), (17, 17, 6), (20, 5, 4), (5, 20, 5)):
        for kind in ("Moore", "von Neumann"):
            yield {"d": 2, "rows": rows, "cols": cols, "r": r, "kind": kind, "ordered": rows % 2 == 0}
    for n in range(-1, 3):
        yield {"refuse": ("1d", n)}
    for rows in range(0, 9):
        for cols in range(0, 9):
            if rows * cols < 9:
                yield {"refuse": ("2d", rows, cols)}
    for kind in ("moore", "", "Neumann", None):
        yield {"refuse": ("kind", kind)}
    yield {"refuse": ("boundary", "open")}


def ring(n, r):
    return {c: {(c + d) % n for d in range(-r, r + 1)} for c in range(n)}


def grid(rows, cols, r, kind):
    out = {}
    for a in range(rows):
        for b in range(cols):
            near = set()
            for da in range(-r, r + 1):
                for db in range(-r, r + 1):
                    if kind == "Moore":
                        ok = True
                    elif kind == "von Neumann":
                        ok = abs(da) + abs(db) <= r
                    else:
                        # six neighbours: left, right, and two in each of the rows above and below; even rows are shifted right
                        ok = da == 0 or db in ((0, 1) if a % 2 == 0 else (-1, 0))
                    if ok:
                        near.add(((a + da) % rows) * cols + (b + db) % cols)
            out[a * cols + b] = near
    return out


def run(case, rec):
    rec.trace()
    if "refuse" in case:
        return refuse(case["refuse"], rec)
    if case["d"] == 1:
        n, r = case["n"], case["r"]
        if n is None:
            net, n, r = ntm.topology.cellular_automaton(), 200, 1
        else:
            net = ntm.topology.cellular_automaton(n=n, r=r, ordered=case["ordered"])
        want = ring(n, r)
        M = ntm.topology.adjacency.cellular_automaton(n, r)
    else:
        rows, cols, r, kind = case["rows"], case["cols"], case["r"], case["kind"]
        n = rows * cols
        net = ntm.topology.cellular_automaton2d(rows=rows, cols=cols, r=r, neighbourhood=kind, ordered=case["ordered"])
        want = grid(rows, cols, r, kind)
        M = ntm.topology.adjacency.cellular_automaton2d(rows, cols, r, kind)
    same(sorted(net.nodes), list(range(n)), "the cells")
    require(len(M) == n and all(len(row) == n for row in M), "the adjacency matrix has the wrong shape")
    norm_real(net)
    for c in range(n):
        same(sorted(net.in_edges(c)), sorted(want[c]), "the cells connected to cell %d", c)
        same({j for j in range(n) if M[c][j]}, want[c], "the cells adjacent to cell %d in the matrix", c)
        for j in want[c]:
            require(len(net.edge(j, c)) == 1, "cell %d is connected to cell %d %d times", j, c, len(net.edge(j, c)))
            require(net.edge(j, c)[0].get("weight", 1) == 1, "the connection %d -> %d is %s", j, c, net.edge(j, c))
            require(M[c][j] == 1, "the matrix has %r", M[c][j])
    rec.step(n)
    if not case["ordered"]:
        require(net.rotation_system is None, "an unordered network has a rotation system")
        return
    rot = net.rotation_system
    same(sorted(rot), list(range(n)), "the cells of the rotation system")
    for c in range(n):
        order = list(rot[c])
        same(sorted(order), sorted(want[c]), "the neighbours of cell %d in the rotation system", c)
        require(order[len(order) // 2] == c, "cell %d isn't in the middle of its neighbourhood: %s", c, order)
        if case["d"] == 1:
            if 2 * r + 1 <= n:
                same(order, [(c + d) % n for d in range(-r, r + 1)], "the neighbourhood of cell %d", c)
        else:
            a, b = divmod(c, cols)
            if r <= a < rows - r and r <= b < cols - r:
                same(order, sorted(want[c]), "the neighbourhood of cell %d", c)
        rec.state(repr((case, order)))
    rec.outcome(repr(sorted((c, tuple(v)) for c, v in rot.items())))
    if n <= 12 and (case["d"] == 2 or 2 * r + 1 <= n):
        positions(net, n, want, case, r, rec)


def positions(net, n, want, case, r, rec):
    """A rule which depends on the position of each neighbour, from each state with up to two cells set."""
    for on in itertools.chain([()], itertools.combinations(range(n), 1), itertools.combinations(range(n), 2)):
        init = [3 if i in on else i % 2 for i in range(n)]

        def rule(ctx):
            require(ctx.neighbourhood_activities[len(ctx.neighbourhood_activities) // 2] == ctx.current_activity,
                    "the middle of the neighbourhood of cell %s isn't its own activity", ctx.node_label)
            require(set(ctx.neighbour_labels) == want[ctx.node_label], "cell %s sees the cells %s", ctx.node_label,
                    ctx.neighbour_labels)
            return sum((i + 1) * a for i, a in enumerate(ctx.neighbourhood_activities))
        got = ntm.evolve(net, init, rule, timesteps=2)[1].activities
        for c in range(n):
            if case["d"] == 1:
                order = [(c + d) % n for d in range(-r, r + 1)]
            else:
                a, b = divmod(c, case["cols"])
                if not (r <= a < case["rows"] - r and r <= b < case["cols"] - r):
                    continue
                order = sorted(want[c])
            require(got[c] == sum((i + 1) * init[x] for i, x in enumerate(order)), "cell %d is %s from %s", c, got[c], init)
        rec.step(n)


def refuse(what, rec):
    calls = {
        "1d": lambda: ntm.topology.cellular_automaton(n=what[1]),
        "2d": lambda: ntm.topology.cellular_automaton2d(rows=what[1], cols=what[2]),
        "kind": lambda: ntm.topology.cellular_automaton2d(rows=4, cols=4, neighbourhood=what[1]),
        "boundary": lambda: ntm.topology.adjacency.cellular_automaton(5, 1, boundary=what[1]),
    }
    try:
        calls[what[0]]()
    except Exception:
        rec.outcome(repr(what))
        rec.step()
    else:
        raise Violation("%s was not refused" % (what,))
