"""
Helper functions. For all sizes, values and types of the bound: the simple initial conditions (of one and two dimensions) must be empty
but for their centre; over all answers of the generator, the random ones must hold only the given number of states in the centre, each
combination being possible, padded with the empty value; the binomial coefficients must be Pascal's; binary digits must be the number's,
padded to the longest; a trajectory's activities must be listed by node, by timestep; NumPy scalars must become the same Python value.
"""
import itertools

import numpy as np

from mc import spaces
from mc.choices import Chooser, Pinned, controlled, explore
from mc.engine import Violation, require, same
from mc.refevolve import build
from mc.target import ntm


def cases(tier):
    deep = tier == "thorough"
    for size in list(range(1, 41)) + [99, 100, 128, 255, 256, 257, 1000, 1001]:
        yield {"simple": size}
    for rows in list(range(1, 10)) + [19, 30, 33, 50, 64, 101, 130]:
        yield {"simple2d": rows}
    for size in range(0, 7):
        for n in [None] + list(range(0, size + 1)):
            yield {"random": size, "n": n, "deep": deep}
    for size in (7, 8, 15, 33, 64, 100, 101):
        for n in (0, 1, 2, 3, 5, 6):
            yield {"random": size, "n": n, "deep": False}
    for size in (10, 20, 65, 100):
        yield {"drawn": size}
    for k in (7, 100, 128, 129, 255, 256, 257, 300, 1000, 40000):
        yield {"many states": k}
    yield {"refuse": True}
    for n in list(range(0, 71)) + [100, 127, 128, 150, 170, 171, 172, 200, 256, 300, 400, 513, 1000, 1100]:
        yield {"ncr": n}
    for lo in range(0, 40):
        yield {"bits": lo}
    for n in (6, 11, 12, 25, 101):
        for labels in ("int", "rev", "one", "neg", "str", "tuple", "sparse"):
            yield {"listed": n, "labels": labels, "T": 12 if n < 20 else 4}
    for n in (1, 2, 3, 4):
        for labels in ("int", "rev", "one", "neg", "str", "tuple", "sparse"):
            yield {"listed": n, "labels": labels}
    yield {"numpy": True}


def run(case, rec):
    rec.trace()
    if "simple" in case:
        n = case["simple"]
        for val, dtype in ((1, int), (7, int), (-2, int), (0.5, float), (2, float), (1, np.int64), (3, np.float32), (2, np.uint8)):
            want = [dtype(0).item() if isinstance(dtype(0), np.generic) else dtype(0)] * n
            want[n // 2] = type(want[0])(val)
            same(ntm.init_simple(n, val=val, dtype=dtype), want, "init_simple(%d, %s, %s)", n, val, dtype)
            rec.state(n, val, str(dtype))
        same(ntm.init_simple(n), [1 if i == n // 2 else 0 for i in range(n)], "init_simple(%d)", n)
        rec.step(9)
    elif "simple2d" in case:
        rows = case["simple2d"]
        for cols in list(range(1, 10)) + [20, 31, 32] + ([40, 70, 101, 129] if rows > 30 else []):
            for kw, one, zero in (({}, 1, 0), ({"val": 5}, 5, 0), ({"val": 2, "dtype": float}, 2.0, 0.0), ({"val": -0.5, "dtype": float}, -0.5, 0.0)):
                want = [one if i == rows // 2 and j == cols // 2 else zero for i in range(rows) for j in range(cols)]
                same(ntm.init_simple2d(rows, cols, **kw), want, "init_simple2d(%d, %d, %s)", rows, cols, kw)
                rec.state(rows, cols, one)
                rec.step()
    elif "random" in case:
        randomly(case["random"], case["n"], case["deep"], rec)
    elif "many states" in case:
        k = case["many states"]
        for size, n in ((1, None), (3, None), (4, 2), (5, 1)):
            at = [i for i in range(size)][(size - (size if n is None else n)) // 2]
            for want in range(k) if k < 2000 else list(range(0, k, 97)) + [k - 1, 127, 128, 255, 256, 32767, 32768]:
                class Script(Chooser):
                    def choose(self, options):
                        super().choose(options)
                        require(options == k, "a site is drawn of %d states, expected %d", options, k)
                        return want
                for kw in ({}, {"dtype": np.int64}, {"dtype": np.uint16}):
                    with controlled(Script()):
                        got = ntm.init_random(size, k=k, n_randomized=n, **kw)
                    same(got, [want if at <= i < at + (size if n is None else n) else 0 for i in range(size)],
                         "init_random(%d, k=%d, n_randomized=%s, %s), each site drawn as %d", size, k, n, kw, want)
                    rec.step()
                rec.state(k, size, n, want)
                rec.outcome(tuple(got))
    elif "drawn" in case:
        drawn(case["drawn"], rec)
    elif "refuse" in case:
        for size in range(0, 5):
            for n in (-1, -3, size + 1, size + 4):
                refuse(lambda: ntm.init_random(size, n_randomized=n), "%d of %d randomized sites" % (n, size))
        for n, r in ((-1, 0), (0, -1), (-2, -2), (1.0, 1), (3, 1.0), ("3", 1), (None, 1), (3, None)):
            refuse(lambda: ntm.ncr(n, r), "ncr(%r, %r)" % (n, r))
    elif "ncr" in case:
        n = case["ncr"]
        row = [1]
        for _ in range(n):
            row = [a + b for a, b in zip([0] + row, row + [0])]
        for r in range(n + 5):
            same(ntm.ncr(n, r), row[r] if r <= n else 0, "ncr(%d, %d)", n, r)
            rec.state(n, r)
            rec.outcome(n, row[r] if r <= n else 0)
            rec.step()
    elif "bits" in case:
        lo = case["bits"]
        for others in ([], [0], [1], [7, 8], [1023, 0, 512], list(range(9)), [2 ** 40 + 1], [2 ** 53 + 1], [2 ** 61 + 3]):
            for a in (lo, lo * 13, lo * lo + 5):
                nums = [a] + others
                width = max(len(format(x, "b")) for x in nums)
                floats = [[float(x)] for x in nums] if max(nums) < 2 ** 53 else [[x, 1] for x in nums]
                for form in ([[x] for x in nums], floats, np.array([[x] for x in nums])):
                    got = ntm.binarize_for_plotting(form)
                    require(np.asarray(got).tolist() == [[int(c) for c in format(x, "0%db" % width)] for x in nums],
                            "the binary digits of %s are %s", nums, got)
                    rec.step()
                rec.state(tuple(nums))
    elif "listed" in case:
        n = case["listed"]
        names = spaces.LABELS[case["labels"]](n)
        T = case.get("T", 3)
        for shape, edges in sorted(spaces.shapes(n).items())[:None if n < 5 else 2]:
            net = build(ntm.Network, spaces.net(edges, n, case["labels"]))
            for values in itertools.product((0, 1.5, "a"), repeat=n) if n < 5 else [[(0, 1.5, "a")[(i * i + k) % 3] for i in range(n)] for k in (0, 1)]:
                init = dict(zip(names, values))
                traj = ntm.evolve(net, init if case["labels"] != "int" else list(values),
                                  lambda ctx: (ctx.timestep, ctx.node_label, ctx.current_activity), timesteps=T)
                got = ntm.get_activities_over_time_as_list(traj)
                order = sorted(names)
                want = [[init[x] for x in order]]
                for t in range(1, T):
                    want.append([(t, x, before) for x, before in zip(order, want[-1])])
                same(got, want, "the activities over time")
                rec.step(n)
                rec.state(case["labels"], tuple(values))
    else:
        for made, want in ((np.int64(5), 5), (np.int32(-1), -1), (np.float64(0.5), 0.5), (np.bool_(True), True), (np.float32(0.25), 0.25),
                           (np.uint8(200), 200), (np.str_("ab"), "ab"), (5, 5), ("x", "x"), (None, None), ((1, 2), (1, 2)), ([1], [1]),
                           (np.int64(0), 0), (0.0, 0.0), (False, False), ("", "")):
            same(ntm.check_np(made), want, "check_np of %r", made)


def randomly(size, n, deep, rec):
    m = size if n is None else n
    left = (size - m) // 2
    for k in (1, 2, 3, 4) if deep else (1, 2, 3):
        if k ** m > 800:
            continue
        for empty in (0, 9):
            for dtype in (None, np.int64, np.uint8):
                kw = {} if dtype is None else {"dtype": dtype}
                if n is not None:
                    kw["n_randomized"] = n
                if empty:
                    kw["empty_value"] = empty
                if k != 2:
                    kw["k"] = k

                def body(ch):
                    with controlled(ch):
                        return ntm.init_random(size, **kw)
                seen = set()
                for ch, got in explore(body):
                    require(type(got) is list and len(got) == size, "init_random(%d, %s) is %s", size, kw, got)
                    require(got[:left] == [empty] * left and got[left + m:] == [empty] * (size - m - left),
                            "init_random(%d, %s) is %s", size, kw, got)
                    require(all(type(x) is int and 0 <= x < k for x in got[left:left + m]), "init_random(%d, %s) is %s", size, kw, got)
                    seen.add(tuple(got))
                    rec.outcome(tuple(got))
                    rec.state(size, n, tuple(got))
                    rec.step()
                    rec.trace()
                require(len(seen) == k ** m, "init_random(%d, %s) has %d possible results, expected %d", size, kw, len(seen), k ** m)
    if 2 ** m <= 64:
        for k in (2, 3, 5.0):
            def drawn(ch):
                with controlled(ch, grid=(0.0, 0.5, 0.999)):
                    return ntm.init_random(size, k=k, n_randomized=n, dtype=float)
            seen = set()
            for ch, got in explore(drawn):
                require(len(got) == size and all(type(x) is float and 0 <= x < max(k - 1, 1e-9) for x in got), "floats to %s: %s", k - 1, got)
                require(got[:left] == [0.0] * left and got[left + m:] == [0.0] * (size - m - left), "floats: %s", got)
                seen.add(tuple(got))
                rec.step()
            if k == 3:
                for empty in (0.5, -0.25, 1e-9, 2):
                    with controlled(Pinned(), grid=(0.5,)):
                        got = ntm.init_random(size, k=k, n_randomized=n, dtype=float, empty_value=empty)
                    same(got, [float(empty)] * left + [1.0] * m + [float(empty)] * (size - m - left), "floats, with an empty value of %s", empty)
            require(len(seen) == 3 ** m, "floats to %s: %d results of %d", k - 1, len(seen), 3 ** m)
    # the real generator
    np.random.seed(7)
    for _ in range(20):
        got = ntm.init_random(size, k=3, n_randomized=n)
        require(len(got) == size and all(0 <= x < 3 for x in got), "init_random(%d) is %s", size, got)


def drawn(size, rec):
    """Many sites: every constant answer, and every single departure from it."""
    for n in (None, size, size - 1, size // 2, 4):
        m = size if n is None else n
        left = (size - m) // 2
        for k in (2, 5):
            seen = set()
            for constant in range(k):
                for at in range(-1, m):
                    class Script(Chooser):
                        def choose(self, options):
                            i = len(self.trace)
                            super().choose(options)
                            require(options == k, "a site is drawn of %d states, expected %d", options, k)
                            return (constant + 1) % k if i == at else constant
                    with controlled(Script()):
                        got = ntm.init_random(size, k=k, n_randomized=n, empty_value=7)
                    require(type(got) is list and len(got) == size, "init_random(%d, %s) is %s", size, n, got)
                    require(got[:left] == [7] * left and got[left + m:] == [7] * (size - m - left), "init_random(%d, %s) is %s", size, n, got)
                    mid = got[left:left + m]
                    require(mid.count((constant + 1) % k) == (1 if at >= 0 else 0) and mid.count(constant) == m - (at >= 0),
                            "init_random(%d, %s), with draws of %d but one, has %s", size, n, constant, mid)
                    seen.add(tuple(got))
                    rec.step()
                    rec.outcome(tuple(got))
                rec.trace()
            rec.state(size, n, k)
            require(len(seen) >= k * (m + 1) - (m == 1) * k, "some sites can't be random: %d results", len(seen))


def refuse(f, what):
    try:
        f()
    except Exception:
        return
    raise Violation("accepted: " + what)
