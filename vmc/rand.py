# coding: utf-8
"""The random module under the explorer's control: every answer is a choice point."""
import contextlib
import random as _random

from vmc.seam import replaced

NAMES = ('random', 'randint', 'randrange', 'choice', 'choices', 'shuffle', 'sample',
         'uniform', 'getrandbits')


class Controlled(_random.Random):
    """`choose(n)` answers 0..n-1.  `words` bounds the different results of choices()."""

    def __init__(self, choose, words=None, grain=4):
        _random.Random.__init__(self)
        self._choose = choose
        self._words = words
        self.grain = grain
        self.calls = 0

    def random(self):
        self.calls += 1
        return (self._choose(self.grain) + 0.5) / self.grain

    def getrandbits(self, k):
        self.calls += 1
        return self._choose(1 << min(k, 4))

    def _randbelow(self, n, *a):
        self.calls += 1
        return self._choose(n)

    def randint(self, a, b):
        self.calls += 1
        return a + self._choose(b - a + 1)

    def randrange(self, start, stop=None, step=1):
        self.calls += 1
        r = range(start) if stop is None else range(start, stop, step)
        return r[self._choose(len(r))]

    def choice(self, seq):
        self.calls += 1
        return seq[self._choose(len(seq))]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        self.calls += 1
        population = list(population)
        m = min(self._words or len(population), len(population))
        if self._words:
            j = self._choose(m)
            return [population[j]] * k
        return [population[self._choose(m)] for _ in range(k)]

    def sample(self, population, k):
        self.calls += 1
        pool = list(population)
        return [pool.pop(self._choose(len(pool))) for _ in range(k)]

    def shuffle(self, x, *a):
        self.calls += 1
        for i in range(len(x) - 1, 0, -1):
            j = self._choose(i + 1)
            x[i], x[j] = x[j], x[i]

    def uniform(self, a, b):
        return a + (b - a) * self.random()


@contextlib.contextmanager
def control(choose, words=None, grain=4):
    c = Controlled(choose, words, grain)
    with replaced(_random, {n: getattr(c, n) for n in NAMES}):
        yield c
