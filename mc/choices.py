"""
Stateless exploration of what the environment answers. The code under test runs with stand-ins for the random number
generators, each of which asks a Chooser; explore() runs the same body once for every sequence of answers.
"""
import contextlib
import random
import sys

import numpy as np

from mc.engine import Violation


class Pruned(Exception):
    """The run made more choices than the bound; it is left out (and counted) rather than judged."""


class Chooser:
    def __init__(self, prefix=(), limit=None):
        self.prefix = list(prefix)  # (choice, number of options) pairs
        self.trace = []
        self.limit = limit

    def choose(self, n):
        if n <= 0:
            raise Violation("a random choice was made from %d options" % n)
        i = len(self.trace)
        if i < len(self.prefix):
            c, m = self.prefix[i]
            if m != n:
                raise Violation("the same environment answers led to a different choice (%d options, was %d)" % (n, m))
        else:
            c = 0
        if self.limit is not None and i >= self.limit:
            raise Pruned()
        self.trace.append((c, n))
        return c

    @property
    def choices(self):
        return tuple(c for c, _ in self.trace)


class Pinned(Chooser):
    """Always the same answer, so that there is a single run: the option at the index `end` (0 or -1)."""
    end = 0

    def choose(self, n):
        if n <= 0:
            raise Violation("a random choice was made from %d options" % n)
        self.trace.append((0, 1))
        return n - 1 if self.end == -1 else 0


class PinnedLast(Pinned):
    end = -1


def patterned(a, b, c):
    """A chooser with a single run, whose answers vary: the option at an index which depends on how many answers were given."""
    class Patterned(Chooser):
        def choose(self, n):
            if n <= 0:
                raise Violation("a random choice was made from %d options" % n)
            i = len(self.trace)
            self.trace.append((0, 1))
            return (i * a + b + i * i // c) % n
    return Patterned


def spread(step):
    """A chooser with a single run, whose answers are spread evenly over the options (the multiples of an irrational number)."""
    class Spread(Chooser):
        def choose(self, n):
            if n <= 0:
                raise Violation("a random choice was made from %d options" % n)
            self.trace.append((0, 1))
            return int(len(self.trace) * (step + 1e-7) % 1 * n)
    return Spread


def explore(body, limit=None, chooser=Chooser):
    """Runs body(chooser) for every sequence of choices, in lexicographic order; yields (chooser, what body returned)."""
    prefix = []
    while True:
        ch = chooser(prefix, limit)
        try:
            out = body(ch)
        except Pruned:
            pass
        else:
            yield ch, out
        trace = ch.trace
        i = len(trace) - 1
        while i >= 0 and trace[i][0] + 1 >= trace[i][1]:
            i -= 1
        if i < 0:
            return
        prefix = trace[:i] + [(trace[i][0] + 1, trace[i][1])]


class _Rng:
    """Answers for the functions of numpy.random and random."""
    def __init__(self, ch, grid):
        self.ch = ch
        self.grid = grid

    def uniform01(self):
        return self.grid[self.ch.choose(len(self.grid))]

    def order(self, n):
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(self.ch.choose(len(left)) if len(left) > 1 else 0))
        return out

    # numpy.random
    def np_shuffle(self, x):
        x[:] = [x[i] for i in self.order(len(x))]

    def np_permutation(self, x):
        a = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        return a[self.order(len(a))]

    def _sized(self, size, one, dtype=None):
        if size is None:
            return one()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        n = int(np.prod(shape))
        return np.array([one() for _ in range(n)], dtype=dtype).reshape(shape)

    def np_choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
        options = [i for i in range(len(arr)) if p is None or p[i] > 0]
        if replace or size is None:
            return self._sized(size, lambda: arr[options[self.ch.choose(len(options))]])
        idx = []
        for _ in range(int(np.prod(size))):
            idx.append(options.pop(self.ch.choose(len(options))))
        return arr[idx].reshape(size)

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        out = self._sized(size, lambda: low + self.ch.choose(int(high - low)), dtype)
        return out if size is not None or dtype is int else np.dtype(dtype).type(out)

    def np_random(self, size=None):
        return self._sized(size, self.uniform01, float)

    def np_rand(self, *shape):
        return self.np_random(shape if shape else None)

    def np_uniform(self, low=0.0, high=1.0, size=None):
        return self._sized(size, lambda: low + (high - low) * self.uniform01(), float)

    def np_seed(self, *a):
        pass

    # random
    def py_shuffle(self, x):
        x[:] = [x[i] for i in self.order(len(x))]

    def py_choice(self, seq):
        return seq[self.ch.choose(len(seq))]

    def py_choices(self, population, weights=None, cum_weights=None, k=1):
        if cum_weights is not None:
            weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        options = [x for i, x in enumerate(population) if weights is None or weights[i] > 0]
        return [options[self.ch.choose(len(options))] for _ in range(k)]

    def py_random(self):
        return self.uniform01()

    def py_randint(self, a, b):
        return a + self.ch.choose(b - a + 1)

    def py_randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.ch.choose(len(r))]

    def py_sample(self, population, k):
        left = list(population)
        return [left.pop(self.ch.choose(len(left))) for _ in range(k)]

    def py_uniform(self, a, b):
        return a + (b - a) * self.uniform01()

    def py_seed(self, *a):
        pass


class PyRandom(random.Random):
    """A random.Random for code which is handed its generator."""
    def __init__(self, ch, grid):
        super().__init__(0)
        rng = _Rng(ch, grid)
        for name in ("shuffle", "choice", "choices", "random", "randint", "randrange", "sample", "uniform"):
            setattr(self, name, getattr(rng, "py_" + name))


NP = {"shuffle": "np_shuffle", "permutation": "np_permutation", "choice": "np_choice", "randint": "np_randint",
      "random": "np_random", "random_sample": "np_random", "ranf": "np_random", "sample": "np_random",
      "rand": "np_rand", "uniform": "np_uniform", "seed": "np_seed"}
PY = {"shuffle": "py_shuffle", "choice": "py_choice", "choices": "py_choices", "random": "py_random",
      "randint": "py_randint", "randrange": "py_randrange", "sample": "py_sample", "uniform": "py_uniform",
      "seed": "py_seed"}


@contextlib.contextmanager
def controlled(ch, grid=(0.0, 0.999999)):
    """Every draw made through numpy.random and random, inside, is a choice. `grid`: the values of a uniform draw."""
    rng = _Rng(ch, list(grid))
    stand_ins = [(np.random, k, getattr(rng, v)) for k, v in NP.items()]
    stand_ins += [(random, k, getattr(rng, v)) for k, v in PY.items()]
    originals = {id(getattr(mod, k)): new for mod, k, new in stand_ins}
    # a module of the code under test may hold the function itself, as after `from random import choice`
    for name, mod in list(sys.modules.items()):
        if name == "netomaton" or name.startswith("netomaton."):
            stand_ins += [(mod, k, originals[id(v)]) for k, v in list(vars(mod).items()) if id(v) in originals]
    saved = [(mod, k, getattr(mod, k)) for mod, k, _ in stand_ins]
    try:
        for mod, k, new in stand_ins:
            setattr(mod, k, new)
        yield rng
    finally:
        for mod, k, v in saved:
            setattr(mod, k, v)
