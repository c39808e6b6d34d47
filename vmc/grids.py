# coding: utf-8
"""Grid structures (depth x width x length sites on a lattice) as exact crystals."""
from fractions import Fraction as F
from itertools import product
from math import sqrt

from vmc import crystal as X

_s3 = sqrt(3.0)
# name -> (matrix rows as given to the code, exact Gram matrix)
GRID_LAT = {
    'bcc': [[-0.5, -0.5, -0.5], [-0.5, 0.5, 0.5], [0.5, -0.5, 0.5]],
    'fcc': [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
    'scc': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'triflat': [[0, 0, 20], [1, 0, 0], [0.5, _s3 / 2, 0]],
    'tetra': [[1, 0, 0], [0, 1, 0], [0, 0, 1.5]],
    'ortho': [[1.25, 0, 0], [0, 1.5, 0], [0, 0, 2]],
    'mono': [[1.5, 0, 0], [0, 1.25, 0], [0.25, 0, 2]],
    'tric': [[2, 0, 0], [0.25, 1.5, 0], [0.5, 0.25, 1.25]],
    # almost of higher symmetry, far from right angles, and steps much shorter than 1
    'near': [[1, 0, 0], [0, 1.015625, 0], [0, 0, 1.0078125]],
    'skew': [[1, 0, 0], [2.75, 0.75, 0], [0.5, -1.5, 1.25]],
    'dense': [[0.375, 0, 0], [0.25, 0.5, 0], [0, 0.125, 1.25]],
}
# those beyond the common shapes, explored on smaller grids
ODD = ('near', 'skew', 'dense')
GRID_GRAM = {k: X.gram_of([[F(x) for x in r] for r in v]) for k, v in GRID_LAT.items()
             if k != 'triflat'}
GRID_GRAM['triflat'] = [[F(400), F(0), F(0)], [F(0), F(1), F(1, 2)], [F(0), F(1, 2), F(1)]]


def positions(size):
    d, w, l = size
    return [(F(a, d), F(b, w), F(c, l)) for a in range(d) for b in range(w) for c in range(l)]


def grid_gram(lat, size):
    g = GRID_GRAM[lat]
    return [[g[i][j] * size[i] * size[j] for j in range(3)] for i in range(3)]


def group(lat, size):
    """Permutations (of the row-major site list) induced by the symmetry of the grid."""
    g = grid_gram(lat, size)
    sites = [(p, 1) for p in positions(size)]
    return sorted(X.site_permutations(g, sites))
