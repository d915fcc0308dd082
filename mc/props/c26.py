"""
Hopfield-Tank nets. For all point sets of the bound, hyperparameters and activities: the distances must be the Euclidean ones, for each
pair of points once; the connections are those of the complete network with self connections; the activity rule must follow the equation
of motion of Hopfield & Tank exactly; the permutation matrix must hold the outputs of the units; and for all permutations of three to six
points the tour graph must be that tour, with its length and positions, while matrices with two points in one position are refused.
"""
import itertools
import math

import numpy as np

from mc.engine import Violation, require, same
from mc.target import ntm

GRID = [(0, 0), (0, 1), (2, 0), (1, 3), (0.25, -1.5), (4, 4)]
SETS = [dict(), dict(dt=0.5, A=2, B=3, C=5, D=7, u_0=0.7, n=4), dict(dt=0.01, A=1, B=0, C=0, D=0, u_0=0.5, n=3),
        dict(dt=0.01, A=0, B=1, C=0, D=0, u_0=0.5, n=3), dict(dt=0.01, A=0, B=0, C=1, D=0, u_0=0.5, n=3),
        dict(dt=0.01, A=0, B=0, C=0, D=1, u_0=0.5, n=3), dict(dt=1e-05, A=100, B=100, C=90, D=110, u_0=0.02, n=12),
        dict(dt=2.5, A=0.5, B=0.25, C=0.125, D=2, u_0=1.5, n=0), dict(dt=0.5, A=-1, B=-2, C=3, D=-1, u_0=1e-4, n=-1),
        dict(dt=0.5, A=0, B=0, C=0, D=0), dict(dt=1e-3, u_0=50, n=2.5)]
CLOSE = ((0.1, 0.2), (0.15, 0.25), (0.6, 0.3), (0.9, 0.95), (0.5, 0.75))


def cases(tier):
    deep = tier == "thorough"
    for n in (2, 3, 4, 5):
        for pts in itertools.permutations(CLOSE, n):
            if n < 4:
                yield {"distances": pts}
        for pts in itertools.permutations(GRID, n):
            if n < 4 or deep or pts[0][0] == 0:
                yield {"distances": pts}
    for k in range(len(SETS)):
        for pts in list(itertools.combinations(GRID, 3)) + [GRID[:2], GRID[:4], GRID[1:6]] + ([GRID] if deep else []):
            yield {"motion": tuple(pts), "with": k, "T": 4}
    for k in range(len(SETS)):
        for n in (3, 4, 5):
            yield {"motion": CLOSE[:n], "with": k, "T": 4}
            yield {"motion": tuple((1e3 * x, 1e-3 * y) for x, y in CLOSE[:n]), "with": k, "T": 3}
    for k in (0, 1, 6):
        yield {"motion": tuple(GRID), "with": k, "T": 3}
        yield {"motion": ((0, 0), (0, 0), (1e3, -1e3)), "with": k, "T": 5}
        yield {"motion": ((1, 1), (1, 2), (2, 2), (3, 1)), "with": k, "T": 9}
    for n in (7, 8, 10, 12):
        for k in (1, 5):
            yield {"motion": tuple((i * 7 % 11, i * i % 13 / 4) for i in range(n)), "with": k, "T": 2}
    for n in (10, 30):
        yield {"distances": tuple((i * 7 % 11, i * i % 13 / 4) for i in range(n))}
        yield {"long tour": n}
    for n in (1, 2, 3, 4, 5, 6) + ((7,) if deep else ()):
        for first in range(n):
            yield {"tours": n, "first": first}
    for n in (2, 3):
        yield {"refused": n}


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) or (math.isnan(a) and math.isnan(b))


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def run(case, rec):
    rec.trace()
    if "distances" in case:
        pts = list(case["distances"])
        net = ntm.HopfieldTankTSPNet(pts)
        got = net.get_distances()
        require([(a, b) for a, b, _ in got] == list(itertools.combinations(range(len(pts)), 2)), "the pairs are %s", got)
        for a, b, d in got:
            require(close(d, dist(pts[a], pts[b])), "the distance of %s and %s is %s", pts[a], pts[b], d)
        require(net.adjacency_matrix == [[1] * len(pts) ** 2] * len(pts) ** 2, "the adjacency matrix is %s", net.adjacency_matrix)
        rec.state(tuple(pts))
        rec.outcome(tuple(got))
    elif "motion" in case:
        motion(case, rec)
    elif "long tour" in case:
        n = case["long tour"]
        pts = [(i * 7 % 11, i * i % 13 / 4) for i in range(n)]
        net = ntm.HopfieldTankTSPNet(pts)
        for step in (1, 3, 7):
            for start in range(n):
                order = [(start + step * k) % n for k in range(n)] if n % step else list(range(n))
                tour(net, pts, order, rec)
    elif "tours" in case:
        n = case["tours"]
        pts = GRID[:n] + [(7, 2)] * (n - len(GRID))
        net = ntm.HopfieldTankTSPNet(pts)
        rest = [i for i in range(n) if i != case["first"]]
        for perm in itertools.permutations(rest):
            order = (case["first"],) + perm      # order[k]: the point in position k of the tour
            tour(net, pts, order, rec)
    else:
        n = case["refused"]
        pts = GRID[:n]
        net = ntm.HopfieldTankTSPNet(pts)
        for cols in itertools.product(range(n), repeat=n):
            if len(set(cols)) < n:
                m = [[1 if cols[p] == k else 0 for k in range(n)] for p in range(n)]
                refuse(lambda: net.get_tour_graph(pts, m), m)
                rec.step()
        refuse(lambda: net.get_tour_graph(pts, [[1, 0, 0, 0]] * (n + 1)), "too many rows")
        refuse(lambda: net.get_tour_graph(pts, [[0] * (n + 1)] * n), "too many columns")


def tour(net, pts, order, rec):
    n = len(pts)
    for hot, cold in ((1, 0), (0.9, 0.2), (0.3, 1e-9)):
        m = [[hot if order[k] == p else cold for k in range(n)] for p in range(n)]
        G, pos, length = net.get_tour_graph(pts, np.array(m) if hot == 1 else m)
        legs = {frozenset((order[k], order[(k + 1) % n])) for k in range(n)}
        require(sorted(G.nodes) == list(range(n)), "the nodes of the tour are %s", list(G.nodes))
        require({frozenset(e) for e in G.edges} == legs, "the tour is %s, expected %s", list(G.edges), order)
        want = sum(dist(pts[order[k]], pts[order[(k + 1) % n]]) for k in range(n))
        require(close(length, want), "the length of the tour %s is %s, expected %s", order, length, want)
        require({i: tuple(p) for i, p in pos.items()} == dict(enumerate(pts)), "the positions are %s", pos)
    rec.state(tuple(order))
    rec.outcome(round(length, 9))
    rec.step(3)


def refuse(f, what):
    try:
        f()
    except Exception:
        return
    raise Violation("accepted: %s" % (what,))


def V(u, u0):
    return 0.5 * (1 + math.tanh(u / u0))


def motion(case, rec):
    pts = list(case["motion"])
    n = len(pts)
    kw = SETS[case["with"]]
    par = dict(dt=1.0, A=500, B=500, C=200, D=500, u_0=0.02, n=15)
    par.update(kw)
    net = ntm.HopfieldTankTSPNet(pts, **kw)
    network = ntm.topology.from_adjacency_matrix(net.adjacency_matrix)
    inits = [[0.0] * n * n, [0.01 * ((i * 7) % 5 - 2) for i in range(n * n)], [0.3 * ((i * 3) % 7 - 3) for i in range(n * n)]]
    inits += [[0.4 if i == c else -0.2 for i in range(n * n)] for c in range(n * n)]
    for init in inits:
        traj = ntm.evolve(network, init, net.activity_rule, timesteps=case["T"])
        for t in range(1, case["T"]):
            u = [float(traj[t - 1].activities[c]) for c in range(n * n)]
            v = [V(x, par["u_0"]) for x in u]
            for X in range(n):
                for i in range(n):
                    c = X * n + i
                    a = sum(v[X * n + j] for j in range(n) if j != i)
                    b = sum(v[Y * n + i] for Y in range(n) if Y != X)
                    d = sum(dist(pts[X], pts[Y]) * (v[Y * n + (i - 1) % n] + v[Y * n + (i + 1) % n]) for Y in range(n))
                    want = u[c] + par["dt"] * (-u[c] - par["A"] * a - par["B"] * b - par["C"] * (sum(v) - par["n"]) - par["D"] * d)
                    got = float(traj[t].activities[c])
                    tol = 1e-9 * max(1.0, abs(want), par["dt"] * (par["A"] + par["B"] + par["C"] * n + par["D"] * 10) * n)
                    require(abs(got - want) <= tol, "t=%d: unit %s becomes %s, expected %s (from %s)", t, (X, i), got, want, u)
            rec.state(tuple(u))
            rec.step(n * n)
        acts = ntm.get_activities_over_time_as_list(traj)
        for given in (acts, np.array(acts)):
            m = net.get_permutation_matrix(given)
            require(np.shape(m) == (n, n), "the permutation matrix has shape %s", np.shape(m))
            for X in range(n):
                for i in range(n):
                    require(close(float(m[X][i]), V(float(acts[-1][X * n + i]), par["u_0"])), "the permutation matrix has %s at %s, from %s",
                            m[X][i], (X, i), acts[-1])
            rec.outcome(tuple(np.round(np.ravel(m), 6)))
