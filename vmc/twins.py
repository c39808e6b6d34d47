# coding: utf-8
"""Families of crystals that are easily taken for one another: the same fractional sites and
species on different lattices, the same lattice and sites with other species, the same lattice
and species at other sites.  A program that remembers anything about one cell must not answer
with it for another, so the checks run them one after another in one process."""
from fractions import Fraction as F

from vmc.cells import Crystal, O

H = F(1, 2)
Q = F(1, 4)
BASES = {
    'edge': [O, (H, F(0), F(0)), (F(0), H, F(0)), (F(0), F(0), H)],
    'pair': [O, (H, H, H)],
    'chain': [O, (F(0), F(0), Q), (F(0), F(0), H), (F(0), F(0), 3 * Q)],
    'line': [O, (Q, F(0), F(0)), (H, F(0), F(0)), (3 * Q, F(0), F(0))],
}
LATS = ['cubP', 'tetP', 'ortP', 'hexP', 'fcc', 'mono', 'tric']


def colours(k):
    return [[5] * k, [5] * (k - 1) + [7], [7] + [5] * (k - 1), [7] * k, [5, 7] * (k // 2)]


def families(lats=None, bases=None):
    """Lists of crystals to be visited in order, then backwards."""
    lats = lats or LATS
    for b in bases or sorted(BASES):
        for c in range(len(colours(len(BASES[b])))):
            yield ('lattice', b, c), [Crystal.of(l, list(zip(BASES[b], colours(len(BASES[b]))[c])))
                                      for l in lats]
    for l in lats:
        for b in bases or sorted(BASES):
            yield ('species', l, b), [Crystal.of(l, list(zip(BASES[b], c)))
                                      for c in colours(len(BASES[b]))]
        yield ('sites', l), [Crystal.of(l, list(zip(BASES[b], [5] * len(BASES[b]))))
                             for b in bases or sorted(BASES)]


def tour(lats=None, bases=None):
    """(key, step, crystal): every family forwards and backwards."""
    for key, fam in families(lats, bases):
        for step, cr in enumerate(fam + fam[::-1]):
            yield key, step, cr
