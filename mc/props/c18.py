"""
Game of Life and Wireworld. All 512 neighbourhoods of a Life cell, and all states of 3x3 and 3x4 tori (and, over several steps, of
a basis of larger ones with gliders and blinkers crossing the borders); all neighbourhoods of a Wireworld cell over its four
states, up to order, in every rotation, and all states of a 3x3 torus of heads and conductors, and loops of wire around which
electrons go: each next state must be the one which the published rule gives.
"""
import itertools

import numpy as np

from mc import spaces
from mc.engine import require, same
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    for lo in range(0, 512, 32):
        yield {"life": lo}
        yield {"life": lo, "typed": True}
    for lo in range(0, 512, 16):
        yield {"torus": (3, 3), "lo": lo, "hi": lo + 16, "T": 4}
    step = 64
    for lo in range(0, 4096, step):
        yield {"torus": (3, 4), "lo": lo, "hi": lo + step, "T": 2}
    if deep:
        for lo in range(0, 65536, 512):
            yield {"torus": (4, 4), "lo": lo, "hi": lo + 512, "T": 2}
        for lo in range(0, 32768, 512):
            yield {"torus": (5, 3), "lo": lo, "hi": lo + 512, "T": 2}
    glider = [(0, 1), (1, 2), (2, 0), (2, 1), (2, 2)]
    for rows, cols in ((6, 6), (5, 8), (9, 4)):
        for dr in range(0, rows, 2):
            for dc in range(0, cols, 3):
                yield {"pattern": [((r + dr) % rows) * cols + (c + dc) % cols for r, c in glider], "dim": (rows, cols), "T": 14}
                yield {"pattern": [((r + dr) % rows) * cols + (c + dc) % cols for r, c in [(1, 1), (1, 2), (1, 3), (2, 0)]],
                       "dim": (rows, cols), "T": 8}
    for rows, cols in ((25, 31), (40, 12), (3, 60)):
        for k in (2, 3, 5, 7):
            yield {"pattern": [c for c in range(rows * cols) if c * c // k % 7 < 3], "dim": (rows, cols), "T": 5}
    for n in (1, 2, 3, 4, 5):
        yield {"wire": n}
    yield {"wire9": True}
    for n in (10, 16, 25, 49, 121):
        yield {"wide": n}
    for lo in range(0, 512, 64):
        yield {"wiretorus": lo, "pair": (1, 3)}
        yield {"wiretorus": lo, "pair": (2, 3)}
        if deep:
            yield {"wiretorus": lo, "pair": (0, 1)}
            yield {"wiretorus": lo, "pair": (1, 2)}
    for start in range(12):
        yield {"circuit": start}


def moore(rows, cols):
    return [[(a + da) % rows * cols + (b + db) % cols for da in (-1, 0, 1) for db in (-1, 0, 1) if da or db]
            for a in range(rows) for b in range(cols)]


def life(me, others):
    return 1 if others == 3 or (me == 1 and others == 2) else 0


def wire(me, heads):
    return {0: 0, 1: 2, 2: 3, 3: 1 if heads in (1, 2) else 3}[me]


def check_life(rows, cols, init, T, rec, loose=False):
    net = ntm.topology.cellular_automaton2d(rows=rows, cols=cols)
    near = moore(rows, cols)
    traj = ntm.evolve(net, init, ntm.rules.game_of_life_rule, timesteps=T)
    compare(traj, init, T, lambda now, c: life(now[c], sum(now[x] for x in near[c])), rec, loose)


def compare(traj, init, T, following, rec, loose=False):
    now = init if not loose else [int(c) for c in init]
    require(len(traj) == T, "there are %d timesteps", len(traj))
    for t in range(T):
        if loose:
            require(traj[t].activities == dict(enumerate(now)), "t=%d, from %s: %s", t, init, traj[t].activities)
        else:
            same(traj[t].activities, dict(enumerate(now)), "t=%d, from %s", t, init)
        rec.state(tuple(now))
        now = [following(now, c) for c in range(len(now))]
    rec.step((T - 1) * len(init))
    rec.outcome(tuple(now))


def run(case, rec):
    rec.trace()
    if "typed" in case:
        for bits in range(case["life"], case["life"] + 32):
            cells = [bits >> i & 1 for i in range(9)]
            for t in (float, bool, np.float64):
                init = [t(c) for c in cells]
                check_life(3, 3, init if bits % 2 else np.array(init), 3, rec, loose=True)
    elif "life" in case:
        for bits in range(case["life"], case["life"] + 32):
            cells = [bits >> i & 1 for i in range(9)]
            forms = [cells, tuple(cells)] + [[t(c) for c in cells] for t in (float, bool, np.int64, np.float64, np.bool_, np.int8)]
            for nine in forms:
                got = ntm.rules.game_of_life_rule(spaces.context(ntm, nine, nine[4], label=4))
                require(got == life(cells[4], sum(cells) - cells[4]), "a cell of %s becomes %r", nine, got)
            rec.step(len(forms))
            rec.state("life", bits)
            rec.outcome("life", bits)
    elif "torus" in case:
        rows, cols = case["torus"]
        for bits in range(case["lo"], case["hi"]):
            check_life(rows, cols, [bits >> i & 1 for i in range(rows * cols)], case["T"], rec)
    elif "pattern" in case:
        rows, cols = case["dim"]
        check_life(rows, cols, [1 if i in case["pattern"] else 0 for i in range(rows * cols)], case["T"], rec)
    elif "wide" in case:
        # a wide neighbourhood with up to four heads, wherever in it they are
        n = case["wide"]
        k = n // 2
        places = [i for i in range(n) if n < 20 or i % (n // 12) == 0 or i in (n - 1, n - 2, n - 3)]
        for count in range(5 if n < 20 else 4):
            for at in itertools.combinations(places, count):
                for me in (0, 1, 2, 3):
                    around = [1 if i in at else (i * i) % 4 // 2 * 3 for i in range(n)]
                    around[k] = me
                    got = ntm.rules.wireworld_rule(spaces.context(ntm, around, me, label=k))
                    require(got == wire(me, around.count(1)), "a cell in the state %d, with %s, becomes %r", me, around, got)
                rec.step(4)
            rec.state("wide", n, count)
            rec.outcome("wide", n, count)
    elif "wire" in case or "wire9" in case:
        if "wire" in case:
            every = itertools.product(range(4), repeat=case["wire"])
        else:
            every = (m[i:] + m[:i] for m in itertools.combinations_with_replacement(range(4), 9) for i in range(9))
        for cells in every:
            for me in range(4):
                # the middle of the neighbourhood is the cell itself
                k = len(cells) // 2
                around = list(cells[:k]) + [me] + list(cells[k + 1:])
                got = ntm.rules.wireworld_rule(spaces.context(ntm, around, me, label=k))
                want = wire(me, around.count(1))
                require(got == want, "a cell in the state %d, with %s, becomes %r", me, around, got)
                for t in (float, np.int64, np.float64, np.uint8):
                    got = ntm.rules.wireworld_rule(spaces.context(ntm, [t(c) for c in around], t(me), label=k))
                    require(got == want, "a cell in the state %r, with %s, becomes %r", t(me), around, got)
                rec.step()
                rec.state("wire", tuple(around), me)
                rec.outcome("wire", me, around.count(1), got)
    elif "wiretorus" in case:
        a, b = case["pair"]
        for bits in range(case["wiretorus"], case["wiretorus"] + 64):
            check_wire(3, 3, [b if bits >> i & 1 else a for i in range(9)], 4, rec)
    else:
        # a loop of wire, an electron on it, and some spoilers
        rows, cols = 6, 7
        loop = [(1, c) for c in range(1, 5)] + [(r, 5) for r in range(2, 4)] + [(4, c) for c in range(4, 0, -1)] + [(r, 0) for r in range(3, 1, -1)]
        init = [0] * (rows * cols)
        for r, c in loop:
            init[r * cols + c] = 3
        k = case["circuit"] % len(loop)
        r, c = loop[k]
        init[r * cols + c] = 1
        r, c = loop[k - 1]
        init[r * cols + c] = 2
        check_wire(rows, cols, init, 30, rec)


def check_wire(rows, cols, init, T, rec):
    net = ntm.topology.cellular_automaton2d(rows=rows, cols=cols)
    near = moore(rows, cols)
    traj = ntm.evolve(net, init, ntm.rules.wireworld_rule, timesteps=T)
    compare(traj, init, T, lambda now, c: wire(now[c], sum(1 for x in near[c] if now[x] == 1)), rec)
