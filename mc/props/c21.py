"""
Rule tables. A table rule must give the table's image for every neighbourhood in it, refuse any other, and evolve accordingly.
For every sequence of answers of the random number generators (for tables small enough; and with the generator's extreme answers
for larger ones): a random table must have exactly the k ** (2r + 1) neighbourhoods, images among the k states, strong quiescence
and isotropy where asked for, the quiescent state it reports, and the lambda it reports, and be usable as a table rule, also with more than ten states; each of its free images must be quiescent
in exactly the fraction 1 - lambda of the answers, and any other state otherwise. A walk must change only as much of the table as
takes it to the given lambda, in one direction only, keeping strong quiescence and isotropy, report the lambda of what it returns,
and be able to reach every table of that kind.
"""
import collections
import itertools

import numpy as np

from mc import spaces
from mc.choices import Pinned, PinnedLast, controlled, explore, patterned
from mc.engine import Violation, require, same
from mc.target import ntm

GRID = tuple(0.05 + 0.1 * i for i in range(10))


def keys_of(k, r):
    return [np.base_repr(i, k).zfill(2 * r + 1) for i in range(k ** (2 * r + 1))]


def cases(tier):
    deep = tier == "thorough"
    for bits in range(256):
        yield {"table": bits}
    yield {"table3": True}
    for k, r in ((2, 0), (3, 0), (2, 1), (4, 0)) if not deep else ((2, 0), (3, 0), (2, 1), (4, 0), (5, 0)):
        for strong in (False, True):
            for iso in (False, True):
                for q in [None] + list(range(k)):
                    for lam in (None, 0.0, 0.5, 1.0):
                        yield {"random": (k, r), "strong": strong, "iso": iso, "q": q, "lam": lam}
    for k in (2, 3):
        for lam10 in range(0, 11, 1 if deep else 2):
            for q in range(k):
                yield {"fraction": (k, 0), "lam": lam10 / 10, "q": q}
    for k, r in ((3, 1), (4, 1), (2, 2), (2, 3), (11, 0), (36, 0), (12, 1)):
        for strong in (False, True):
            for iso in (False, True):
                for draw in (0.0, 0.9999):
                    yield {"extreme": (k, r), "strong": strong, "iso": iso, "draw": draw}
    # larger tables, with answers which vary from one to the next
    for k, r in ((2, 2), (3, 1), (4, 1), (2, 3), (3, 2), (11, 1)):
        for strong in (False, True):
            for iso in (False, True):
                for a in ((1, 1, 3), (3, 2, 2), (5, 0, 7), (7, 1, 4)) if k < 10 else ((1, 1, 3),):
                    yield {"extreme": (k, r), "strong": strong, "iso": iso, "draw": None, "answers": a}
    for k, r in ((2, 1), (3, 0), (3, 1)):
        for q in (-1, k, k + 1):
            yield {"refuse": (k, r), "q": q}
    for images in itertools.product(range(3), repeat=3):
        for q in range(3):
            for lam in (0.0, 1 / 3, 0.4, 0.5, 2 / 3, 0.9, 1.0):
                for strong in (False, True):
                    yield {"walk": images, "k": 3, "r": 0, "q": q, "lam": lam, "strong": strong, "iso": False}
    for bits in range(0, 256, 1 if deep else 5):
        images = tuple(bits >> i & 1 for i in range(8))
        for q in (0, 1):
            ones = sum(1 for x in images if x != q)
            for d in (-2, -1, 0, 1, 2):
                for eps in (0.0, 0.06, -0.06):
                    lam = (ones + d) / 8 + eps
                    if -0.01 < lam < 1.01:
                        for strong in (False, True):
                            for iso in (False, True):
                                if not strong and not iso or deep or eps == 0.0 or bits % 2:
                                    yield {"walk": images, "k": 2, "r": 1, "q": q, "lam": min(max(lam, 0.0), 1.0), "strong": strong,
                                           "iso": iso}
    # larger tables, with the generator's extreme answers
    for k, r in ((2, 2), (3, 1), (2, 3), (5, 1), (12, 1)):
        for q in (0, k - 1):
            for strong, iso in itertools.product((False, True), repeat=2):
                for start in range(0, 11, 2):
                    for lam in range(0, 11, 1 if k < 5 else 3):
                        yield {"long": (k, r), "q": q, "strong": strong, "iso": iso, "start": start / 10, "lam": lam / 10}


def run(case, rec):
    rec.trace()
    if "table" in case:
        table(case["table"], rec)
    elif "table3" in case:
        t = {k: (int(k, 3) * 7 + 1) % 3 for k in keys_of(3, 1)}
        rule = ntm.table_rule(t)
        for key in itertools.product(range(3), repeat=3):
            same(rule(spaces.context(ntm, list(key), key[1])), t["".join(map(str, key))], "the image of %s", key)
            rec.step()
        rule = ntm.table_rule({"ab": "x", "10": None, "": 5})
        for acts, want in ((("a", "b"), "x"), ((1, 0), None), ((), 5)):
            same(rule(spaces.context(ntm, list(acts))), want, "the image of %s", acts)
        # the states are written as they are, also negative ones, fractions, and numbers of several digits
        kinds = ((-1, 0, 1), (0.5, 0.25, 1.0), (10, 11, 12), (100, 36, 35), (True, False, None), ("A", "", "b"), ((1,), (2, 3), ()))
        for kind in kinds:
            every = list(itertools.product(kind, repeat=3))
            t = {"".join(str(x) for x in acts): "image %d" % i for i, acts in enumerate(every)}
            rule = ntm.table_rule(t)
            for acts in every:
                same(rule(spaces.context(ntm, list(acts), acts[1])), t["".join(str(x) for x in acts)], "the image of %s", acts)
                rec.step()
            for acts in ((7, 8, 9), ("z", 0, 1), (None, None, 5), (-3, 2.5, 44)):
                try:
                    got = rule(spaces.context(ntm, list(acts)))
                except Exception:
                    rec.step()
                else:
                    raise Violation("%s, which isn't in the table, gave %r" % (acts, got))
    elif "random" in case or "fraction" in case or "extreme" in case:
        random_table(case, rec)
    elif "refuse" in case:
        try:
            ntm.random_rule_table(*case["refuse"], quiescent_state=case["q"])
        except Exception:
            rec.step()
        else:
            raise Violation("the quiescent state %d was not refused" % case["q"])
    elif "long" in case:
        k, r = case["long"]
        q, start = case["q"], case["start"]
        keys = keys_of(k, r)
        case = dict(case, k=k, r=r, walk=[q if i * 7 % 10 >= start * 10 else (q + 1 + i % (k - 1)) % k for i in range(len(keys))])
        for end in (0, -1):
            walk(case, rec, end)
    else:
        walk(case, rec)


def table(bits, rec):
    t = {k: bits >> i & 1 for i, k in enumerate(keys_of(2, 1))}
    before = dict(t)
    rule = ntm.table_rule(t)
    for n in (3, 4):
        net = ntm.topology.cellular_automaton(n=n)
        for init in itertools.product((0, 1), repeat=n):
            got = ntm.evolve(net, list(init), rule, timesteps=2)[1].activities
            want = {i: t["%d%d%d" % (init[i - 1], init[i], init[(i + 1) % n])] for i in range(n)}
            same(got, want, "the next state of %s", init)
            rec.step(n)
            rec.state(bits, init)
    rec.outcome(bits)
    same(t, before, "the table")
    key = keys_of(2, 1)[bits % 8]
    part = {k: v for k, v in t.items() if k != key}
    rule = ntm.table_rule(part)
    for k in keys_of(2, 1):
        acts = [int(c) for c in k]
        try:
            got = rule(spaces.context(ntm, acts))
        except Exception:
            require(k == key, "the state %s was refused", k)
        else:
            require(k != key and got == part[k], "the state %s gave %r", k, got)


def random_table(case, rec):
    k, r = case.get("random") or case.get("fraction") or case.get("extreme")
    keys = keys_of(k, r)
    strong, iso = case.get("strong", False), case.get("iso", False)
    if "fraction" in case:
        grid = GRID
        lams, kw = case["lam"], {"lambda_val": case["lam"], "quiescent_state": case["q"]}
    elif "random" in case:
        grid = (0.1, 0.9)
        kw = {x: v for x, v in (("strong_quiescence", strong), ("isotropic", iso)) if v or case["lam"] == 0.5}
        if case["lam"] is not None:
            kw["lambda_val"] = case["lam"]
        if case["q"] is not None:
            kw["quiescent_state"] = case["q"]
        lams = case["lam"] if case["lam"] is not None else 1 - 1 / k
    else:
        grid = (case["draw"],) if case["draw"] is not None else (0.0, 0.3, 0.49, 0.51, 0.7, 0.9999)
        kw = {"strong_quiescence": strong, "isotropic": iso, "quiescent_state": k - 1, "lambda_val": 0.5}
        lams = 0.5
    possible = collections.defaultdict(set)
    weight = collections.defaultdict(float)
    seen = 0

    def body(ch):
        with controlled(ch, grid):
            return ntm.random_rule_table(k, r, **kw)
    # a table of 8 free images has 2 ** 8 sequences of answers, with three states 3 ** 3
    # (of an extreme table there is a single branch: the first of the other states is always chosen)
    how = (body, None, patterned(*case["answers"]) if "answers" in case else Pinned) if "extreme" in case else (body, 40)
    for ch, got in explore(*how):
        t, lam, q = got
        same(sorted(t), sorted(keys), "the neighbourhoods")
        if kw.get("quiescent_state") is not None:
            require(q == kw["quiescent_state"], "the quiescent state is %r", q)
        require(q in range(k), "the quiescent state is %r", q)
        require(all(v in range(k) for v in t.values()), "the images are %s", t)
        if strong:
            for s in range(k):
                key = np.base_repr(s, k) * (2 * r + 1)
                require(t[key] == s, "%s maps to %r", key, t[key])
        if iso:
            require(all(t[s] == t[s[::-1]] for s in keys), "the table isn't isotropic: %s", t)
        require(abs(lam - sum(1 for v in t.values() if v != q) / len(keys)) < 1e-12, "lambda is %r for %s and %r", lam, t, q)
        free = [s for s in keys if not (strong and len(set(s)) == 1)]
        for s in free:
            if lams == 0.0:
                require(t[s] == q, "lambda is 0, but %s maps to %r", s, t[s])
            if lams == 1.0:
                require(t[s] != q, "lambda is 1, but %s maps to the quiescent state", s)
            if "extreme" in case and case["draw"] is not None:
                require((t[s] == q) == (case["draw"] < 0.5), "%s maps to %r", s, t[s])
            possible[(q, s)].add(t[s])
            w = 1.0
            for _, m in ch.trace:
                w /= m
            weight[(q, s, t[s] == q)] += w
        seen += 1
        rec.step()
        rec.outcome(k, r, tuple(t[s] for s in keys))
        if seen == 1:
            rule = ntm.table_rule(t)
            for s in keys:
                states = [int(c, 36) for c in s]
                for acts in (states, [np.int64(x) for x in states]):
                    same(rule(spaces.context(ntm, acts, acts[r])), t[s], "the image of %s under a random table of %d states", states, k)
                    rec.step()
            net = ntm.topology.cellular_automaton(n=2 * r + 2 if r else 3, r=r)
            n = len(net)
            for first in range(0, k, 3):
                now = [(first + 5 * i) % k for i in range(n)]
                traj = ntm.evolve(net, list(now), rule, timesteps=4)
                for step in range(1, 4):
                    now = [t["".join(np.base_repr(now[(i + d) % n], 36) for d in range(-r, r + 1))] for i in range(n)]
                    same(traj[step].activities, dict(enumerate(now)), "t=%d of a random table of %d states", step, k)
                    rec.state(k, r, tuple(now))
    rec.state(repr(case))
    if "extreme" in case:
        return
    qs = range(k) if kw.get("quiescent_state") is None else [kw["quiescent_state"]]
    for q in qs:
        for s in [s for s in keys if not (strong and len(set(s)) == 1)]:
            want = {q} if lams == 0.0 else set(range(k)) - ({q} if lams == 1.0 else set())
            require(possible[(q, s)] == want, "%s may map to %s, expected %s", s, possible[(q, s)], want)
            if "fraction" in case:
                require(abs(weight[(q, s, True)] - (1 - lams)) < 1e-9, "%s maps to the quiescent state with the frequency %s, lambda is %s",
                        s, weight[(q, s, True)], lams)


def walk(case, rec, end=None):
    k, r, q, lam = case["k"], case["r"], case["q"], case["lam"]
    keys = keys_of(k, r)
    start = dict(zip(keys, case["walk"]))
    strong, iso = case["strong"], case["iso"]
    if strong:
        for s in range(k):
            start[np.base_repr(s, k) * (2 * r + 1)] = s
    if iso:
        for s in keys:
            start[s[::-1]] = start[s]
    lambda_of = lambda t: sum(1 for v in t.values() if v != q) / len(keys)  # noqa: E731
    down = lambda_of(start) > lam
    groups = sorted({tuple(sorted({s, s[::-1]})) for s in keys}) if iso else [(s,) for s in keys]
    groups = [g for g in groups if (start[g[0]] != q) == down and not (strong and len(set(g[0])) == 1)]

    kw = {"strong_quiescence": strong, "isotropic": iso}
    # what isn't asked for may be left out
    kw = {x: v for x, v in kw.items() if v or end == -1 or len(keys) < 8 and lam == 0.5}

    def body(ch):
        with controlled(ch):
            return ntm.table_walk_through(dict(start), lam, k, r, q, **kw)
    reached = set()
    how = (body, 40) if end is None else (body, None, PinnedLast if end else Pinned)
    for ch, (t, actual) in explore(*how):
        same(sorted(t), sorted(keys), "the neighbourhoods")
        require(abs(actual - lambda_of(t)) < 1e-12, "the walk reports the lambda %r for %s", actual, t)
        changed = [g for g in groups if t[g[0]] != start[g[0]]]
        require(sum(map(len, changed)) == sum(1 for s in keys if t[s] != start[s]), "the walk from %s (q=%s) changed %s", start, q, t)
        require(all(v in range(k) for v in t.values()), "the images are %s", t)
        for g in changed:
            require(len({t[s] for s in g}) == 1, "the walk broke the isotropy of %s", g)
            require((t[g[0]] == q) == down, "the walk went the wrong way at %s", g)
        if lambda_of(start) == lam:
            require(t == start, "the walk changed a table of the given lambda")
        else:
            there = actual <= lam if down else actual >= lam
            require(there or len(changed) == len(groups), "the walk stopped at %s on the way from %s to %s", actual, lambda_of(start), lam)
            for g in changed if end is None else changed[:1]:  # (each counts for the same)
                back = dict(t)
                back.update({s: start[s] for s in g})
                if len(groups) and all(len(x) == 1 for x in groups):
                    require(not (lambda_of(back) <= lam if down else lambda_of(back) >= lam),
                            "the walk from %s to %s went further than it had to, to %s", lambda_of(start), lam, actual)
        reached.add(tuple(t[s] for s in keys))
        rec.step(len(ch.trace) + 1)
        rec.outcome(tuple(t[s] for s in keys))
    rec.state(repr(case))
    if not iso and end is None:
        # the walk may reach every table which differs in as many places as it takes
        need = 0
        now = lambda_of(start) * len(keys)
        while need < len(groups) and (now - need > lam * len(keys) + 1e-9 if down else now + need < lam * len(keys) - 1e-9):
            need += 1
        want = set()
        others = [x for x in range(k) if x != q]
        for combo in itertools.combinations(groups, need):
            for images in itertools.product([q] if down else others, repeat=need):
                t = dict(start)
                for (s,), x in zip(combo, images):
                    t[s] = x
                want.add(tuple(t[s] for s in keys))
        require(reached == want, "from %s to lambda=%s the walk may reach %d tables, expected %d", start, lam, len(reached), len(want))
