"""Puts every random draw of the code under test behind an explorer's decisions.

`install()` replaces the module level functions of `random` (and the ones of `numpy.random`
a scheduler could plausibly use) by dispatchers before celest is imported.  While a
`Controlled` block is active, each draw becomes a choice of the explorer; outside, the
original functions run.
"""
import contextlib
import itertools
import random

ACTIVE = None
_ORIGINAL = {}

# The two ends of the half-open interval a uniform draw comes from.
UNIFORM = [0.0, 1.0 - 2.0 ** -53]


class Draws:
    """Turns draws into choices of a `Chooser`; records them in `log`."""

    def __init__(self, chooser, uniform=None):
        self.chooser = chooser
        self.uniform = list(uniform or UNIFORM)
        self.log = []

    def pick(self, n, tag):
        return self.chooser.choose(n, tag)

    def random(self):
        value = self.uniform[self.pick(len(self.uniform), "random")]
        self.log.append(("random", value))
        return value

    def randrange(self, start, stop=None, step=1):
        items = range(start) if stop is None else range(start, stop, step)
        if not len(items):
            raise ValueError("empty range for randrange")
        value = items[self.pick(len(items), "randrange")]
        self.log.append(("randrange", list(items), value))
        return value

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        index = self.pick(len(seq), "choice")
        self.log.append(("choice", list(seq), index))
        return seq[index]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        population = list(population)
        if cum_weights is not None:
            cum = list(cum_weights)
            weights = [b - a for a, b in zip([0] + cum[:-1], cum)]
        if weights is None:
            weights = [1] * len(population)
        weights = [float(w) for w in weights]
        if len(weights) != len(population):
            raise ValueError("The number of weights does not match the population")
        total = sum(weights)
        if not total > 0 or total != total or total == float("inf"):
            raise ValueError("Total of weights must be greater than zero")
        if any(w < 0 for w in weights):
            raise ValueError("Weights must be non-negative")
        # An element of weight zero can never be drawn.
        possible = [i for i, w in enumerate(weights) if w > 0]
        result = []
        for _ in range(k):
            index = possible[self.pick(len(possible), "choices")]
            self.log.append(("choices", population, [w / total for w in weights], index))
            result.append(population[index])
        return result

    def sample(self, population, k, *, counts=None):
        items = list(population)
        if not 0 <= k <= len(items):
            raise ValueError("Sample larger than population or is negative")
        result = []
        for _ in range(k):
            result.append(items.pop(self.pick(len(items), "sample")))
        self.log.append(("sample", list(population), list(result)))
        return result

    def shuffle(self, x):
        items = self.sample(list(x), len(x))
        x[:] = items

    def uniform_between(self, a, b):
        return a + (b - a) * self.random()


_NAMES = {"random": "random", "randrange": "randrange", "randint": "randint",
          "choice": "choice", "choices": "choices", "sample": "sample",
          "shuffle": "shuffle", "uniform": "uniform_between"}


def install():
    if _ORIGINAL:
        return
    for name, method in _NAMES.items():
        original = getattr(random, name)
        _ORIGINAL[name] = original

        def dispatch(*args, _original=original, _method=method, **kw):
            if ACTIVE is None:
                return _original(*args, **kw)
            return getattr(ACTIVE, _method)(*args, **kw)
        dispatch.__name__ = name
        setattr(random, name, dispatch)


@contextlib.contextmanager
def controlled(draws):
    global ACTIVE
    previous, ACTIVE = ACTIVE, draws
    try:
        yield draws
    finally:
        ACTIVE = previous
