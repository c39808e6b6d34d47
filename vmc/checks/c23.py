# coding: utf-8
"""C23: neighbours of a grid site within a distance (2-D and 3-D grids)."""
from fractions import Fraction as F
from itertools import product
from math import sqrt

from vmc import grids as G
from vmc import crystal as X

ID = 'C23'
RULE = {
    'quick': '3-D grids d x w x l with <= 12 sites (and 3x3x3, 2x3x4) on 3 of 11 lattices in turn, 2-D grids up '
             'to 5 x 5 on 7 lattices; 5 grids of 64..138 sites (every ninth site); every site; cut-offs just below and just above every '
             'distinct distance between two sites of the grid, zero-neighbour and all-neighbour '
             'cut-offs included, and exactly at a distance where the arithmetic is exact',
    'thorough': '3-D grids with <= 24 sites, 2-D grids up to 7 x 7',
}
ASSUMPTIONS = ['finite grids: no periodic images', 'positions are tuples']
LAT2 = {
    'square': ([[1, 0], [0, 1]], [[F(1), F(0)], [F(0), F(1)]]),
    'rect': ([[2, 0], [0, 1.5]], [[F(4), F(0)], [F(0), F(9, 4)]]),
    'hex': ([[2, 0], [1, sqrt(3)]], [[F(4), F(2)], [F(2), F(4)]]),
    'oblique': ([[1.5, 0.25], [0.5, 1.25]], None),
    'boron': ([[2, 0], [1, 1.732058]], None),
    'skew': ([[1, 0], [2.875, 0.625]], None),
    'flipped': ([[-0.5, 2.5], [-0.25, 1.5]], None),
}
for _k, (_m, _g) in list(LAT2.items()):
    if _g is None:
        _f = [[F(x) for x in r] for r in _m]
        LAT2[_k] = (_m, [[sum(a * b for a, b in zip(p, q)) for q in _f] for p in _f])


def units(tier):
    top = 12 if tier == 'quick' else 24
    shapes = [(a, b, c) for a in range(1, top + 1) for b in range(1, top + 1)
              for c in range(1, top + 1) if a * b * c <= top]
    big = [(3, 3, 3), (2, 3, 4), (4, 3, 2)]
    out = []
    for i, s in enumerate(shapes + big):
        lats = sorted(G.GRID_LAT)
        if tier == 'quick':
            lats = [lats[(i + j) % len(lats)] for j in range(3)]
        for lat in lats:
            out.append(['3d', lat, s])
    n = 5 if tier == 'quick' else 7
    for lat in sorted(LAT2):
        for s in product(range(1, n + 1), repeat=2):
            out.append(['2d', lat, s])
    out += [['3d', 'scc', (4, 4, 4)], ['3d', 'mono', (5, 4, 4)], ['3d', 'fcc', (2, 3, 23)],
            ['2d', 'square', (9, 9)], ['2d', 'hex', (2, 67)]]
    # merge into fewer units
    return [out[i::48] for i in range(48) if out[i::48]]


def one(kind, lat, s, R):
    import numpy as np
    from ababe.stru.element import GhostSpecie
    from ababe.stru.scaffold import SitesGrid, CStru
    from ababe.stru.scaffold2d import SitesGrid2d, CStru2d
    s = tuple(s)
    if kind == '3d':
        m, gram = G.GRID_LAT[lat], G.GRID_GRAM[lat]
        st = CStru(m, SitesGrid.sea(*(list(s) + [GhostSpecie()])))
    else:
        m, gram = LAT2[lat]
        st = CStru2d(m, SitesGrid2d.sea(s[0], s[1], GhostSpecie()))
    k = len(s)
    sites = list(product(*[range(x) for x in s]))

    def d2(p, q):
        v = [a - b for a, b in zip(p, q)]
        return sum(gram[i][j] * v[i] * v[j] for i in range(k) for j in range(k))
    table = {}
    for p in sites:
        for q in sites:
            v = tuple(a - b for a, b in zip(p, q))
            if v not in table:
                table[v] = sqrt(float(d2(p, q)))
    vals = sorted(set(round(x, 9) for x in table.values() if x > 0))
    cuts = [(vals[0] if vals else 1.0) / 2, 0.0]
    for v in vals:
        cuts += [v - 1e-4, v + 1e-4]
    cuts = [c for c in cuts if c >= 0 and all(abs(c - v) > 5e-5 for v in vals)]
    exact = [v for v in vals if lat in ('scc', 'square') and v == int(v)]
    if R.quick and len(cuts) > 12:
        cuts = cuts[:8] + (cuts[8::5] if len(cuts) < 60 else cuts[8::len(cuts) // 4]) + [cuts[-1]]
        exact = exact[:3]
    if R.quick and len(sites) > 30:
        sites_asked = sites[::9] + sites[-1:]
    else:
        sites_asked = sites
    for p in sites_asked:
        ds = [(q, table[tuple(a - b for a, b in zip(p, q))]) for q in sites if q != p]
        for c in cuts + exact:
            got = st.get_neighbors(p, c)
            want = set(q for q, d in ds if d <= c + 1e-9)
            g = [tuple(int(x) for x in q) for q in got]
            R.check(len(g) == len(set(g)) and set(g) == want, 'the neighbours of a site are wrong',
                    lambda: {'lattice': lat, 'grid': s, 'site': p, 'cut-off': c,
                             'got': sorted(g), 'want': sorted(want)})
            if hasattr(got, 'clear'):
                # what a caller does to the answer is not seen by the next one
                got.clear()
                again = set(tuple(int(x) for x in q) for q in st.get_neighbors(p, c))
                R.check(again == want, 'the neighbours of a site change with the set an earlier '
                        'caller got', lambda: {'lattice': lat, 'grid': s, 'site': p,
                                               'cut-off': c, 'got': sorted(again)})
            R.state(kind, lat, s, p, round(c, 6))
            R.outcome(len(want))
            R.trans()
    R.trace()
    R.sample({'lattice': lat, 'grid': s, 'cut-offs': [round(c, 4) for c in cuts[:6]]})


def run(unit, R):
    for kind, lat, s in unit:
        one(kind, lat, s, R)
