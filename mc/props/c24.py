"""
Sandpiles. For all configurations of the bound on 3x3 tori (grains 0, 3, 4 and 8), on the inner cells of closed 3x4, 4x4 and 5x3 piles
(0 to 7 grains), and for towers dropped at any cell of larger piles: at each timestep exactly the cells with four or more grains lose
four, and each of their von Neumann neighbours gains one; with a closed boundary the cells of the border become and stay empty; without
it the number of grains never changes; every closed pile must come to rest with less than four grains in every cell; and perturbed piles
must gain exactly what is dropped on them.
"""
import itertools

from mc.engine import require, same
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    for lo in range(0, 3 ** 9, 81):
        if deep or lo % 3 == 0:
            yield {"open": lo, "hi": lo + 81, "values": (0, 3, 4), "dim": (3, 3), "T": 4 if deep else 3}
    for lo in range(0, 2 ** 9, 64):
        yield {"open": lo, "hi": lo + 64, "values": (0, 8), "dim": (3, 3), "T": 6}
        yield {"open": lo, "hi": lo + 64, "values": (2, 5), "dim": (3, 3), "T": 6}
    for x in range(8):
        yield {"closed": (3, 3), "first": x}
        yield {"closed": (3, 4), "first": x}
        yield {"closed": (5, 3), "first": x}
        yield {"closed": (4, 4), "first": x, "values": tuple(range(8)) if deep else (0, 3, 4, 7)}
    for rows, cols in ((5, 5), (6, 4), (4, 7), (7, 7)):
        for c in range(rows * cols):
            for closed in (True, False):
                yield {"tower": (rows, cols), "at": c, "closed": closed, "grains": 30, "T": 40 if closed else 15}
    for rows, cols, grains in ((15, 15, 400), (9, 21, 1000), (30, 4, 77), (17, 18, 60), (3, 100, 90), (100, 3, 90)):
        for c in (0, rows * cols // 2, cols + 1, rows * cols - 2):
            for closed in (True, False):
                yield {"tower": (rows, cols), "at": c, "closed": closed, "grains": grains, "T": 30}
    for rows, cols in ((3, 3), (5, 5), (4, 6)):
        for c in range(rows * cols):
            yield {"drop": (rows, cols), "at": c, "closed": True}
            yield {"drop": (rows, cols), "at": c, "closed": False}


def pile(rows, cols, closed):
    near = [{((a - 1) % rows) * cols + b, ((a + 1) % rows) * cols + b, a * cols + (b - 1) % cols, a * cols + (b + 1) % cols}
            for a in range(rows) for b in range(cols)]
    border = {c for c in range(rows * cols) if closed and (c // cols in (0, rows - 1) or c % cols in (0, cols - 1))}
    return near, border


def following(now, near, border):
    return [0 if c in border else g + sum(1 for x in near[c] if now[x] >= 4) - (4 if g >= 4 else 0) for c, g in enumerate(now)]


def follow(dim, closed, init, T, rec, explicit=True, rest=False, perturbation=None, drop=None):
    rows, cols = dim
    near, border = pile(rows, cols, closed)
    sand = ntm.Sandpile(rows, cols, is_closed_boundary=closed) if not closed or explicit else ntm.Sandpile(rows, cols)
    traj = ntm.evolve(sand.network, init, sand.activity_rule, timesteps=T, perturbation=perturbation)
    now = list(init)
    for t in range(T):
        require(traj[t].activities == dict(enumerate(now)), "t=%d: %s, expected %s, from %s", t, traj[t].activities, now, init)
        rec.state(tuple(now))
        if t < T - 1:
            new = following(now, near, border)
            if drop:
                new = [g + drop(c, t + 1) for c, g in enumerate(new)]
            elif not closed:
                require(sum(traj[t + 1].activities.values()) == sum(init), "t=%d: there are %d grains, of %d", t + 1,
                        sum(traj[t + 1].activities.values()), sum(init))
            now = new
    rec.step((T - 1) * len(init))
    rec.outcome(tuple(now))
    if rest:
        require(all(g < 4 for g in traj[-1].activities.values()), "the pile isn't at rest after %d timesteps: %s", T, traj[-1].activities)


def run(case, rec):
    rec.trace()
    if "open" in case:
        v = case["values"]
        for i in range(case["open"], min(case["hi"], len(v) ** 9)):
            init = [v[i // len(v) ** c % len(v)] for c in range(9)]
            follow(case["dim"], False, init, case["T"], rec)
    elif "first" in case:
        rows, cols = case["closed"]
        _, border = pile(rows, cols, True)
        inner = [c for c in range(rows * cols) if c not in border]
        for rest in itertools.product(case.get("values", range(8)), repeat=len(inner) - 1):
            init = [0] * (rows * cols)
            for c, g in zip(inner, (case["first"],) + rest):
                init[c] = g
            follow((rows, cols), True, init, 30 if len(inner) > 1 else 8, rec, explicit=len(inner) % 2, rest=True)
        # grains on the border are gone
        follow((rows, cols), True, [case["first"]] * (rows * cols), 40, rec, rest=True)
    elif "tower" in case:
        rows, cols = case["tower"]
        init = [(c * c) % 4 for c in range(rows * cols)]
        init[case["at"]] += case["grains"]
        follow((rows, cols), case["closed"], init, case["T"], rec)
    else:
        rows, cols = case["drop"]

        def drop(c, t):
            return 1 if c == case["at"] and t % 3 else 0
        init = [(c * 5) % 4 for c in range(rows * cols)]
        follow((rows, cols), case["closed"], init, 25, rec, perturbation=lambda ctx: ctx.node_activity + drop(ctx.node_label, ctx.timestep),
               drop=drop)
