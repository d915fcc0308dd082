"""
Fungal growth. For all sets of living agents of a 3x3 torus (and further starts on other grids), over constant and over enumerated answers
of the generator: a link must appear exactly between neighbours of which one lives, from it, when the draw is below 1 over its free links,
and in one of both directions, either being possible, between two which live; links stay; an agent's outgoing links must share equally;
the resource of an agent must be what its incoming links carry (its own without any) plus what it absorbs while living where there is
resource; the same seed, zero among them, must give the same growth.
"""
import contextlib
import io
import itertools

import numpy as np

from mc.choices import Chooser, controlled, explore
from mc.engine import Violation, require, same
from mc.target import ntm

DRAWS = (0.2, 0.3, 0.4, 0.6, 0.99, 1 - 2.0 ** -53)


def cases(tier):
    deep = tier == "thorough"
    for bits in range(1, 2 ** 9, 1 if deep else 2):
        yield {"dim": (3, 3), "alive": tuple(c for c in range(9) if bits >> c & 1), "T": 6 if deep else 5, "copy": bits % 3 == 0}
    # hardly any resource is resource
    for scale in (1e-6, 1e-9, 1e-300, 1e9):
        for bits in range(1, 2 ** 9, 7):
            yield {"dim": (3, 3), "alive": tuple(c for c in range(9) if bits >> c & 1), "T": 4, "copy": bits % 3 == 0, "scale": scale}
    for dim in ((3, 4), (4, 3), (5, 3), (4, 4)):
        n = dim[0] * dim[1]
        for pair in itertools.combinations_with_replacement(range(n), 2):
            if deep or pair[0] in (0, n - 1) or (pair[0] + pair[1]) % 5 == 0:
                yield {"dim": dim, "alive": tuple(set(pair)), "T": 6, "copy": pair[0] % 2 == 0}
    for c in range(9):
        yield {"draws": (3, 3), "alive": (c,), "T": 2, "bound": 4}
        yield {"draws": (3, 3), "alive": (c,), "T": 3, "bound": 10 if deep else 8}
        for d in range(c):
            yield {"draws": (3, 3), "alive": (c, d), "T": 2, "bound": 8}
    for dim, alive in (((8, 8), (0, 27, 63)), ((6, 9), (20,)), ((9, 6), (1, 2, 10, 53)), ((12, 3), (18,)), ((3, 12), (5, 17))) + (
            (((15, 16), (0, 77, 150, 239)), ((16, 15), (120,))) if deep else ()):
        yield {"dim": dim, "alive": alive, "T": 12, "copy": len(alive) > 2}
    # agents which die although they are linked, and ones which revive
    for t in (1, 2, 3):
        for c in range(9):
            for d in range(9):
                for also in (None, (t + 1, 4)) if deep else (None,):
                    kill = {(t, c): 0.0, (t, d): 0.0, (t + 2, c): 3.0, (2, (c + d) % 9): -1.0}
                    if also:
                        kill[also] = 0.0
                    yield {"dim": (3, 3), "alive": (c,), "T": 6, "copy": (c + d) % 2 == 0, "kill": sorted(kill.items())}
    for seed in (0, 1, 2, 7, 12345, 20210408):
        yield {"seed": seed}
    for dim in ((3, 3), (3, 4), (4, 4), (4, 5), (5, 4)) + (((9, 8), (16, 17)) if deep else ((7, 3),)):
        yield {"half": dim}
    yield {"refuse": True}


def links(dim):
    w, h = dim
    return {frozenset((y * w + x, b)) for x in range(w) for y in range(h) for b in (y * w + (x + 1) % w, (y + 1) % h * w + x)}


def layers(n, alive):
    return [None, [1 if c % 2 else 0 for c in range(n)], [0 if c in alive else 1 for c in range(n)]]


def follow(traj, init, dim, layer, R, draw, rec, kill={}):
    """`draw`: the constant answer, or None. Returns the links added at each timestep."""
    n = dim[0] * dim[1]
    L = layer if layer is not None else [1 if x != 0 else 0 for x in init]
    edges, now, grown = set(), list(init), []
    for t in range(len(traj)):
        got = set()
        net = traj[t].network
        for i, j, attrs in net.edges:
            require((i, j) not in got, "t=%d: the link %s occurs twice", t, (i, j))
            got.add((i, j))
        require(sorted(net.nodes) == list(range(n)), "t=%d: the agents are %s", t, net.nodes)
        if t > 0:
            require(edges <= got, "t=%d: the links %s are gone", t, edges - got)
            new = got - edges
            degree = lambda a: sum((a in e) for e in edges)  # noqa: E731
            for link in links(dim):
                i, j = sorted(link)
                added = [e for e in new if set(e) == link]
                if (i, j) in edges or (j, i) in edges or (now[i] <= 0 and now[j] <= 0):
                    require(not added, "t=%d: the link %s appeared", t, added)
                elif now[i] > 0 and now[j] > 0:
                    require(len(added) == 1, "t=%d: between the living %s and %s, %s appeared", t, i, j, added)
                else:
                    a, b = (i, j) if now[i] > 0 else (j, i)
                    free = 4 - degree(a)
                    require(added in ([], [(a, b)]), "t=%d: between the living %s and %s, %s appeared", t, a, b, added)
                    if draw is not None:
                        require(bool(added) == (draw < 1 / free), "t=%d: with a draw of %s and %d free links at %s, %s appeared", t, draw, free,
                                a, added)
                    require(added or free > 1, "t=%d: the last free link of %s, to %s, didn't appear", t, a, b)
            require(all(frozenset(e) in links(dim) for e in new), "t=%d: there are links %s", t, new)
            grown.append(frozenset(new))
            edges = got
            out = {a: sum(e[0] == a for e in edges) for a in range(n)}
            for i, j, attrs in net.edges:
                require(abs(attrs["weight"] - 1 / out[i]) < 1e-12, "t=%d: the link %s, of %d, carries %s", t, (i, j), out[i], attrs["weight"])
            nxt = []
            for c in range(n):
                into = [i for i, j in edges if j == c]
                nxt.append((sum(now[i] / out[i] for i in into) if into else now[c]) + (R * L[c] if now[c] > 0 else 0))
            now = [kill.get((t, c), x) for c, x in enumerate(nxt)]
        else:
            require(not got, "t=0: there are links: %s", got)
        for c in range(n):
            a = float(traj[t].activities[c])
            require(abs(a - now[c]) <= 1e-9 * max(1.0, abs(now[c])), "t=%d: agent %d has %s, expected %s", t, c, a, now[c])
        now = [float(traj[t].activities[c]) for c in range(n)]
        rec.state(frozenset(edges), tuple(round(x, 6) for x in now))
    rec.step((len(traj) - 1) * len(links(dim)))
    rec.outcome(frozenset(edges), tuple(round(x, 6) for x in now))
    rec.trace()
    return grown


def grow(dim, init, layer, R, T, copy, seed=None, kill=None):
    given = list(init)
    lay = None if layer is None else list(layer)
    if layer is None:
        model = ntm.FungalGrowthModel(R, dim[0], dim[1], given, seed=seed, verbose=False)
    else:
        model = ntm.FungalGrowthModel(R, dim[0], dim[1], given, resource_layer=lay, seed=seed, verbose=False)
    require(model.update_order is ntm.UpdateOrder.TOPOLOGY_FIRST, "the update order is %s", model.update_order)
    kw = {} if copy else {"copy_network": model.copy_network}
    if kill:
        kw["perturbation"] = lambda ctx: kill.get((ctx.timestep, ctx.node_label), ctx.node_activity)
    traj = ntm.evolve(network=model.network, initial_conditions=given, activity_rule=model.activity_rule, timesteps=T,
                      topology_rule=model.topology_rule, update_order=model.update_order, **kw)
    require(given == list(init) and (lay is None or lay == list(layer)), "the initial conditions or the resource layer changed")
    return traj


def half(dim, rec):
    """Between two living agents both directions are equally likely: of 20 equally likely answers, ten give each."""
    n = dim[0] * dim[1]
    for k in range(2):
        alive = range(n) if k else [c for c in range(n) if (c // dim[0] + c // 2) % 2 == 0 or c % dim[0] == 1]
        init = [1.0 if c in alive else 0.0 for c in range(n)]
        count = {}
        for answer in range(20):
            class Script(Chooser):
                def choose(self, options):
                    super().choose(options)
                    return answer % options
            with controlled(Script(), grid=tuple(0.025 + 0.05 * i for i in range(20))):
                traj = grow(dim, init, None, 1.0, 2, False)
            follow(traj, init, dim, None, 1.0, None, rec)
            for i, j, _ in traj[1].network.edges:
                count[i, j] = count.get((i, j), 0) + 1
        for link in links(dim):
            i, j = sorted(link)
            if i in alive and j in alive:
                require(count.get((i, j), 0) == 10 and count.get((j, i), 0) == 10, "%s: of 20 equally likely answers, %d give the link from %d to %d, %d the "
                        "other", dim, count.get((i, j), 0), i, j, count.get((j, i), 0))


def bounded(bound):
    class Bounded(Chooser):
        def choose(self, n):
            return super().choose(n) if len(self.trace) < bound else 0
    return Bounded


def run(case, rec):
    if "refuse" in case:
        for size in (1, 8, 10):
            try:
                ntm.FungalGrowthModel(1.0, 3, 3, [1.0] + [0.0] * 8, resource_layer=[1] * size, verbose=False)
            except (Exception, AssertionError):
                continue
            raise Violation("a resource layer of %d for 9 agents was accepted" % size)
        with contextlib.redirect_stdout(io.StringIO()):
            model = ntm.FungalGrowthModel(1.0, 3, 3, [1.0] + [0.0] * 8)
            traj = ntm.evolve(network=model.network, initial_conditions=[1.0] + [0.0] * 8, activity_rule=model.activity_rule, timesteps=4,
                              topology_rule=model.topology_rule, update_order=model.update_order)
        follow(traj, [1.0] + [0.0] * 8, (3, 3), None, 1.0, None, rec)
        return
    if "seed" in case:
        for dim in ((3, 3), (4, 5), (5, 4)):
            n = dim[0] * dim[1]
            init = [10.0 if c in (0, n // 2) else 0.0 for c in range(n)]
            runs = []
            for burn in (0, 3, 50):
                np.random.random(burn)
                traj = grow(dim, init, None, 10.0, 8, True, case["seed"])
                follow(traj, init, dim, None, 10.0, None, rec)
                runs.append([(s.activities, sorted(s.network.edges, key=repr)) for s in traj])
            require(runs[0] == runs[1] == runs[2], "the growth with seed %s differs", case["seed"])
            np.random.seed(case["seed"] + 1)
            grows = []
            for _ in range(4):
                grows.append(repr([(s.activities, s.network.edges) for s in grow(dim, init, None, 10.0, 8, True)]))
            require(len(set(grows)) > 1, "the growth without a seed is always the same")
        return
    if "half" in case:
        return half(case["half"], rec)
    dim = case.get("dim") or case["draws"]
    n = dim[0] * dim[1]
    if "dim" in case:
        kill = {tuple(k): v for k, v in case.get("kill", ())}
        for k, draw in enumerate(DRAWS):
            for R in (80000.0, 0.0) if len(case["alive"]) == 1 else (7.0,):
                layer = layers(n, case["alive"])[(k + len(case["alive"])) % 3]
                init = [0.0 if c not in case["alive"] else (1.5 + c) * case.get("scale", 1) for c in range(n)]
                R = R * case.get("scale", 1)
                with controlled(Chooser(), grid=(draw,)):
                    traj = grow(dim, init, layer, R, case["T"], case["copy"], kill=kill)
                follow(traj, init, dim, layer, R, draw, rec, kill)
        return
    init = [4.0 if c in case["alive"] else 0.0 for c in range(n)]

    def body(ch):
        with controlled(ch, grid=(0.1, 0.9)):
            return grow(dim, init, None, 2.0, case["T"], False)
    seen = set()
    for ch, traj in explore(body, chooser=bounded(case["bound"])):
        grown = follow(traj, init, dim, None, 2.0, None, rec)
        seen.add(grown[0])
    near = [link for link in links(dim) if link & set(case["alive"])]
    require(len(seen) == 2 ** min(len(near), 8, case["bound"]), "from %s, only %d growths are possible, of %d", case["alive"], len(seen),
            2 ** len(near))
