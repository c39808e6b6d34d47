# coding: utf-8
"""Exhaustive exploration of choice sequences (stateless, by replay)."""


class Choices(object):
    """Environment answers: replays a prefix, then takes choice 0 at later points."""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.trail = []          # (number of options, taken)

    def choose(self, n):
        i = len(self.trail)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise AssertionError('replay diverged: choice %d of %d at point %d' % (c, n, i))
        self.trail.append((n, c))
        return c

    @property
    def deviations(self):
        return sum(1 for _, c in self.trail if c)


def explore(body, bound=None, limit=None):
    """Run body(Choices) for every choice sequence with at most `bound` non-default
    choices.  Yields (choices, result)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Choices(prefix)
        res = body(ch)
        n += 1
        yield [c for _, c in ch.trail], res
        if limit is not None and n >= limit:
            raise AssertionError('exploration limit hit')
        dev = sum(1 for c in prefix if c)
        if bound is not None and dev >= bound:
            continue
        taken = [c for _, c in ch.trail]
        for i in range(len(ch.trail) - 1, len(prefix) - 1, -1):
            for alt in range(ch.trail[i][0] - 1, 0, -1):
                stack.append(taken[:i] + [alt])


def interleavings(counts, bound=None):
    """All merges of len(counts) threads of counts[i] steps, as lists of thread ids;
    with `bound`, at most that many switches away from an unfinished thread."""
    out = []

    def rec(left, seq, cur, used):
        if not any(left):
            out.append(list(seq))
            return
        for i in range(len(left)):
            if not left[i]:
                continue
            u = used + (1 if cur is not None and i != cur and left[cur] else 0)
            if bound is not None and u > bound:
                continue
            left[i] -= 1
            seq.append(i)
            rec(left, seq, i, u)
            seq.pop()
            left[i] += 1
    rec(list(counts), [], None, 0)
    return out
