# coding: utf-8
"""The alphabets: lattices (with exact Gram matrices), bases, and ways to hand the
same crystal to the implementation (site order, periodic images, orientation)."""
from fractions import Fraction as F
from itertools import product, combinations
from math import sqrt

import numpy as np

from vmc import crystal as X


def _frac(rows):
    return [[F(x) for x in r] for r in rows]


# name -> (float rows, exact gram)
LAT = {}


def _add(name, rows, gram=None):
    g = X.gram_of(_frac(rows)) if gram is None else _frac(gram)
    LAT[name] = (np.array([[float(x) for x in r] for r in rows]), g)


_add('cubP', [[4, 0, 0], [0, 4, 0], [0, 0, 4]])
_add('fcc', [[0, 2, 2], [2, 0, 2], [2, 2, 0]])
_add('bcc', [[-2, 2, 2], [2, -2, 2], [2, 2, -2]])
_add('tetP', [[4, 0, 0], [0, 4, 0], [0, 0, 6]])
_add('tetI', [[2, 2, -3], [-2, 2, 3], [2, -2, 3]])
_add('ortP', [[4, 0, 0], [0, 5, 0], [0, 0, 6]])
_add('ortC', [[2, F(5, 2), 0], [-2, F(5, 2), 0], [0, 0, 7]])
_s3 = sqrt(3.0)
_add('hexP', [[4, 0, 0], [-2, 2 * _s3, 0], [0, 0, 6]],
     [[16, -8, 0], [-8, 16, 0], [0, 0, 36]])
_add('hex60', [[4, 0, 0], [2, 2 * _s3, 0], [0, 0, 5]],
     [[16, 8, 0], [8, 16, 0], [0, 0, 25]])
# rhombohedral, a = 4, cos(alpha) = 1/4
_c = 0.25
_sx = sqrt(1 - _c * _c)
_ux = (_c - _c * _c) / _sx
_add('rho', [[4, 0, 0], [4 * _c, 4 * _sx, 0],
             [4 * _c, 4 * _ux, 4 * sqrt(1 - _c * _c - _ux * _ux)]],
     [[16, 4, 4], [4, 16, 4], [4, 4, 16]])
_add('mono', [[4, 0, 0], [0, 5, 0], [1, 0, 6]])
_add('tric', [[4, 0, 0], [1, 5, 0], [F(3, 2), F(1, 2), 6]])
# left-handed, badly shaped description of a cubic lattice
_add('skew', [[4, 0, 0], [4, 4, 0], [0, -4, -4]])
# a far worse description of a tetragonal lattice
_add('wild', [[4, 0, 0], [8, 4, 0], [-4, 12, 6]])
# slab for the two-dimensional generator
# almost cubic: 0.006 A off
_add('near', [[4, 0, 0], [0, F(641, 160), 0], [0, 0, F(641, 160)]])
# equal edges and an angle a few degrees off 90 (rational rotation) or 120
_add('bent', [[4, 0, 0], [F(-400, 2501), F(9996, 2501), 0], [0, 0, 4]])
_add('benth', [[4, 0, 0], [-1.875, 4 * sqrt(1 - 0.46875 ** 2), 0], [0, 0, 6]],
     [[16, F(-15, 2), 0], [F(-15, 2), 16, 0], [0, 0, 36]])
_add('flat', [[6, 0, 0], [0, 5, 0], [0, 0, 4]])
_add('slab4', [[4, 0, 0], [0, 4, 0], [0, 0, 20]])
_add('slab3', [[4, 0, 0], [-2, 2 * _s3, 0], [0, 0, 20]],
     [[16, -8, 0], [-8, 16, 0], [0, 0, 400]])
_add('slabr', [[4, 0, 0], [0, 6, 0], [0, 0, 20]])

# a rotation that mixes all axes (proper, orthogonal, rational 3-4-5 / 5-12-13 product)
_ra = np.array([[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1.0]])
_rb = np.array([[1.0, 0, 0], [0, 5 / 13., -12 / 13.], [0, 12 / 13., 5 / 13.]])
ROT = np.matmul(_ra, _rb)
MIRROR = np.diag([1.0, 1.0, -1.0])


def grid(q):
    return [tuple(F(i, q) for i in t) for t in product(range(q), repeat=3)]


O = (F(0), F(0), F(0))
H = F(1, 2)


def P(*a):
    return tuple(F(x) for x in a)


# named parent crystals: (lattice name, sites)
PARENTS = {
    'sc': ('cubP', [(O, 29)]),
    'fcc': ('fcc', [(O, 29)]),
    'bcc': ('bcc', [(O, 26)]),
    'cscl': ('cubP', [(O, 55), (P(H, H, H), 17)]),
    'nacl': ('fcc', [(O, 11), (P(H, H, H), 17)]),
    'zns': ('fcc', [(O, 30), (P(F(1, 4), F(1, 4), F(1, 4)), 16)]),
    'dia': ('fcc', [(O, 6), (P(F(1, 4), F(1, 4), F(1, 4)), 6)]),
    'perov': ('cubP', [(O, 38), (P(H, H, H), 22), (P(H, H, 0), 8),
                       (P(H, 0, H), 8), (P(0, H, H), 8)]),
    'hcp': ('hexP', [(P(F(1, 3), F(2, 3), F(1, 4)), 12), (P(F(2, 3), F(1, 3), F(3, 4)), 12)]),
    'graph': ('hexP', [(P(F(1, 3), F(2, 3), 0), 6), (P(F(2, 3), F(1, 3), 0), 6)]),
    'hex1': ('hexP', [(O, 5)]),
    'rho1': ('rho', [(O, 83)]),
    'tet2': ('tetP', [(O, 22), (P(H, H, F(1, 4)), 8)]),
    'ort2': ('ortP', [(O, 50), (P(H, 0, F(1, 4)), 16)]),
    'mono1': ('mono', [(O, 40)]),
    'mono3': ('mono', [(P(0, 0, 0), 40), (P(F(1, 4), H, F(1, 8)), 8),
                       (P(F(3, 4), H, F(7, 8)), 8)]),
    'tric2': ('tric', [(O, 14), (P(F(1, 4), F(1, 8), F(3, 8)), 8)]),
    'chir': ('cubP', [(P(F(1, 8), F(1, 4), F(3, 8)), 33), (P(F(3, 8), F(1, 8), F(1, 4)), 33),
                      (P(F(1, 4), F(3, 8), F(1, 8)), 33)]),
    # symmetry broken by 0.005 and 0.006 A: well above the tolerance of 0.001 A
    'off': ('cubP', [(O, 55), (P(H + F(1, 768), H, H), 17)]),
    'near': ('near', [(O, 29)]),
    'bent': ('bent', [(O, 29)]),
    'benth': ('benth', [(O, 29)]),
    # almost a supercell: the second atom is 0.004 A off the centre
    'nbcc': ('cubP', [(O, 26), (P(H + F(1, 1000), H, H), 26)]),
    # Wyckoff positions a and A of one group (47)
    'pmmm': ('ortP', [(O, 26)] + [(P(a * F(3, 25), b * F(17, 100), c * F(21, 100)), 8)
                                  for a in (1, -1) for b in (1, -1) for c in (1, -1)]),
    'sc16': ('bcc', [(P(F(1, 16), F(1, 16), 0), 5), (P(0, H, H), 5)]),
}


def model(lat, sites):
    return LAT[lat][1], sites


class Crystal(object):
    """Exact crystal plus the arrays to hand to the implementation."""

    def __init__(self, rows, gram, sites):
        self.rows = rows          # float 3x3
        self.gram = gram          # exact
        self.sites = sites        # [((Fraction,)*3, Z)]

    @classmethod
    def parent(cls, name):
        """name-G: the species of the last site becomes vacancies; name-g: that of the first."""
        name, _, hole = name.partition('-')
        lat, sites = PARENTS[name]
        if hole:
            gone = sites[-1 if hole == 'G' else 0][1]
            sites = [(p, 0 if z == gone else z) for p, z in sites]
        return cls(LAT[lat][0], LAT[lat][1], list(sites))

    @classmethod
    def of(cls, lat, sites):
        return cls(LAT[lat][0], LAT[lat][1], list(sites))

    def super(self, h):
        rows = np.array([[sum(h[i][k] * self.rows[k][j] for k in range(3))
                          for j in range(3)] for i in range(3)])
        return Crystal(rows, X.super_gram(self.gram, h), X.expand(self.sites, h))

    def mirror(self):
        return Crystal(np.matmul(self.rows, MIRROR), self.gram, self.sites)

    def numbers(self, order=None):
        idx = range(len(self.sites)) if order is None else order
        return [self.sites[i][1] for i in idx]

    def arrays(self, variant=0):
        """(lattice, positions, numbers) for GeneralCell, in one of a few equivalent
        descriptions: 0 plain, 1 reversed order and shifted images, 2 rotated and
        interleaved order, 3 images far out (arrays of integers where possible), 4 as 1 with six decimals, 5 mirror
        image (left-handed lattice), rotated order, 6 as 5 with four decimals (as files have them;
        six if the cell is large)."""
        rounded = {4: 6, 6: 4}.get(variant)
        if rounded:
            if max(float(np.linalg.norm(r)) for r in self.rows) > 7:
                rounded = 6
            variant = {4: 1, 6: 5}[variant]
        n = len(self.sites)
        order = list(range(n))
        lat = self.rows.copy()
        if variant == 1:
            order.reverse()
        elif variant == 2:
            order = order[1::2] + order[0::2]
            lat = np.matmul(lat, ROT.T)
        elif variant == 5:
            order = order[1:] + order[:1]
            lat = np.matmul(lat, MIRROR)
        pos = []
        for k, i in enumerate(order):
            p = [float(x) for x in self.sites[i][0]]
            if variant == 1:
                s = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (-1, 1, 0)][k % 4]
                p = [a + b for a, b in zip(p, s)]
            elif variant == 3:
                s = [(-2, 0, 1), (3, -1, 0), (0, 2, -2)][k % 3]
                p = [a + b for a, b in zip(p, s)]
            pos.append(p)
        num = [self.sites[i][1] for i in order]
        if variant == 3:
            # arrays of integers where that is possible
            if np.array_equal(lat, np.rint(lat)):
                lat = np.array([[int(x) for x in r] for r in lat])
            if all(x == int(x) for p in pos for x in p):
                return lat, np.array([[int(x) for x in p] for p in pos]), np.array(num)
        if rounded:
            lat = np.around(lat, rounded)
            pos = np.around(np.array(pos), rounded)
        return lat, np.array(pos, dtype=float), np.array(num)

    def cell(self, variant=0):
        from ababe.stru.scaffold import GeneralCell
        return GeneralCell(*self.arrays(variant))

    def perms(self):
        return X.site_permutations(self.gram, self.sites)

    def describe(self):
        return {'lattice': [[round(float(x), 6) for x in r] for r in self.rows],
                'sites': [[[str(x) for x in p], z] for p, z in self.sites]}


def site_index(cell, sites, R, tol=2e-4):
    """index[i] = model site of implementation site i (any species)."""
    pos = cell.positions.tolist()
    m = X.match_sites(pos, [0] * len(pos), [(p, 0) for p, _ in sites], tol)
    R.check(m is not None, 'sites of the cell are not those of the crystal',
            lambda: {'positions': pos, 'sites': sites})
    return m


def colouring(cell, m):
    """Occupation of the model sites as a tuple of atomic numbers."""
    nums = cell.numbers.tolist()
    out = [None] * len(m)
    for i, j in enumerate(m):
        out[j] = int(nums[i])
    return tuple(out)
