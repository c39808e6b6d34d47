# coding: utf-8
"""C08: the disjunct test of grid structures."""
from itertools import combinations, product

from vmc import crystal as X
from vmc.grids import GRID_LAT, positions, grid_gram

ID = 'C08'
RULE = {
    'quick': 'every speckle placement on every grid with <= 6 sites (all sizes) and, up to 3..4 '
             'speckles, on 9 grids of 8..16 sites, on the 4 documented lattices and 7 more (almost '
             'symmetric, strongly skewed, steps much shorter than the limit)',
    'thorough': 'every placement on every grid with <= 9 sites; up to 5 speckles on larger ones',
}
ASSUMPTIONS = ['no distance lies within 0.002 of the threshold 1.01']
LATS = ['bcc', 'fcc', 'scc', 'triflat', 'tetra', 'ortho', 'mono', 'tric', 'near', 'skew', 'dense']
BIG = [(1, 3, 3), (2, 2, 2), (1, 2, 4), (3, 1, 3), (1, 3, 4), (2, 2, 3), (1, 1, 8), (1, 4, 4),
       (2, 2, 4)]


def units(tier):
    top = 6 if tier == 'quick' else 9
    ss = [s for s in product(range(1, top + 1), repeat=3) if s[0] * s[1] * s[2] <= top]
    ss += [b for b in BIG if b[0] * b[1] * b[2] > top]
    ss.sort(key=lambda s: -s[0] * s[1] * s[2])
    return [[lat, s] for s in ss for lat in LATS
            if LATS.index(lat) < 6 or s[0] * s[1] * s[2] <= (4 if tier == 'quick' else 6) or
            s in ((6, 1, 1), (1, 6, 1), (1, 1, 6), (3, 2, 1), (2, 2, 2))]


def run(unit, R):
    from ababe.stru.scaffold import CStru
    from ababe.stru.sogen import is_speckle_disjunct
    from ababe.stru.element import Specie
    import numpy as np
    lat, size = unit[0], tuple(unit[1])
    m = [list(r) for r in GRID_LAT[lat]]
    pos = positions(size)
    g = grid_gram(lat, size)
    k = len(pos)
    self_d2 = X.shortest_lattice_d2(g)
    d2 = {}
    for i in range(k):
        d2[i, i] = self_d2
        for j in range(i + 1, k):
            d2[i, j] = X.min_image_d2(g, tuple(a - b for a, b in zip(pos[i], pos[j])))
    thr = 1.01 ** 2
    sp = Specie('B')
    top = k if k <= 9 else ((4 if k <= 12 else 3) if R.quick else 5)
    for sea in (0, 29):
        for n in range(0, top + 1):
            for c in combinations(range(k), n):
                a = [sea] * k
                for i in c:
                    a[i] = sp.Z
                cs = CStru.from_array(m, np.array(a).reshape(size))
                want = all(d2[i, j] > thr for i in c for j in c if i <= j)
                got = bool(is_speckle_disjunct(cs, sp))
                R.check(got == want, 'is_speckle_disjunct is wrong',
                        {'lattice': lat, 'grid': size, 'speckles': [pos[i] for i in c],
                         'got': got})
                R.state(lat, size, sea, c)
                R.trans()
                R.outcome(got, n)
        if k > 6:
            break
    R.trace()
    R.sample({'lattice': lat, 'grid': size})
