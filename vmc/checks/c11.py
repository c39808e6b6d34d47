# coding: utf-8
"""C11: primitivity test; refined, primitive and shaped cells are the same crystal."""
from fractions import Fraction
from itertools import combinations, product

import numpy as np

from vmc import crystal as X
from vmc.cells import LAT, MIRROR, PARENTS, Crystal, grid, site_index, O
from vmc.isometry import same_crystal
from vmc.twins import BASES, colours, tour

ID = 'C11'
RULE = {
    'quick': 'every HNF supercell (index <= 4, <= 8 sites) of 25 parent crystals, undecorated and '
             'with substitutions (every single site up to 4 sites, else one site; one pair); every 2-site basis on the 1/4 grid of 12 '
             'lattices, and on 4 lattices two sites half a lattice vector apart with a third, for the primitivity test; 2 cells of 132 '
             'and 260 sites; cells whose numbers are assigned anew',
    'thorough': 'supercells of index <= 6 (<= 12 sites) with every one- and two-site '
                'substitution, 3 descriptions of 6 in turn; 3-site bases on the 1/2 and 1/3 grids',
}
ASSUMPTIONS = ['reference: exact pure translations; complete search for an isometry between the '
               'given and the returned crystal (0.005 A)',
               'a mirror image is not the same crystal (left-handed lattices are among the descriptions)']
LATS = ['cubP', 'fcc', 'bcc', 'tetP', 'ortP', 'hexP', 'rho', 'mono', 'tric', 'skew', 'tetI', 'wild']


def units(tier):
    top, sites = (4, 8) if tier == 'quick' else (6, 12)
    out = []
    for name in sorted(PARENTS):
        k = len(PARENTS[name][1])
        for n in range(top, 0, -1):
            if n * k <= sites:
                parts = 1 if tier == 'quick' else 4
                for j in range(parts):
                    out.append(['dec', name, n, j, parts])
    for lat in LATS:
        out.append(['prim', lat, 2, 4])
        if tier != 'quick':
            out.append(['prim', lat, 3, 2])
            out.append(['prim', lat, 3, 3])
    for lat in HALF:
        out.append(['half', lat, 2])
    out.sort(key=lambda u: -u[2])
    return [['again'], ['long']] + [['twins', l] for l in ('tetP', 'ortP', 'mono')] + out


HALF = ['cubP', 'tetP', 'hexP', 'tric']


def half(lat, R):
    """Two sites half a lattice vector apart and a third of every kind, anywhere."""
    h = Fraction(1, 2)
    for i, t in enumerate([(h, 0, 0), (0, 0, h), (h, h, 0), (h, h, h)]):
        t = tuple(Fraction(x) for x in t)
        for j, p in enumerate(grid(4)):
            if p in (O, t):
                continue
            for col in ((5, 5, 0), (0, 0, 5), (5, 0, 5), (5, 5, 7)):
                cr = Crystal.of(lat, list(zip((O, t, p), col)))
                verify(cr, (i + j) % 7, R, ('half', lat, i, j, col), cells=False)


def again(R):
    """One cell whose numbers are assigned anew."""
    for base in ('pair', 'chain', 'edge'):
        cols = colours(len(BASES[base]))
        for hist in product(range(len(cols)), repeat=3):
            crs = [Crystal.of('ortP', list(zip(BASES[base], cols[h]))) for h in hist]
            cell = crs[0].cell(0)
            m = site_index(cell, crs[0].sites, R)
            for i, cr in enumerate(crs):
                if i:
                    cell.numbers = np.array([cr.sites[j][1] for j in m])
                verify(cr, 0, R, ('again', base, hist[:i + 1]), i == 2 or base == 'pair', cell)


def long(R):
    """More sites than a small integer can number."""
    for name, (a, b, c) in (('mono3', (1, 1, 44)), ('tric2', (2, 1, 65))):
        cr = Crystal.parent(name).super(((a, 0, 0), (0, b, 0), (0, 0, c)))
        sites = [(p, 83 if i in (100, 129) else z) for i, (p, z) in enumerate(cr.sites)]
        verify(Crystal(cr.rows, cr.gram, sites), 0, R, ('long', name))


def verify(cr, variant, R, tag, cells=True, cell=None):
    cell = cell or cr.cell(variant)
    rows = np.matmul(cr.rows, MIRROR) if variant in (5, 6) else cr.rows
    trans = sorted(X.pure_translations(cr.sites))
    prim = len(trans) == 1
    got = bool(cell.is_primitive())
    R.check(got == prim, 'is_primitive is wrong',
            lambda: {'cell': cr.describe(), 'variant': variant, 'got': got})
    R.trans()
    if cells:
        snap = (cell.lattice.tolist(), cell.positions.tolist(), cell.numbers.tolist())
        nums = [z for _, z in cr.sites]
        pos = [p for p, _ in cr.sites]
        k = len(nums)

        def compare(c, what, atoms):
            n = [int(z) for z in c.numbers]
            if atoms is not None:
                R.check(len(n) == atoms, what + ': wrong number of atoms',
                        lambda: {'cell': cr.describe(), 'got': len(n), 'want': atoms})
            R.check(same_crystal(rows, pos, nums, trans, c.lattice.tolist(),
                                 c.positions.tolist(), n, proper=True),
                    what + ': not the same crystal',
                    lambda: {'cell': cr.describe(), 'variant': variant,
                             'lattice': c.lattice.tolist(), 'positions': c.positions.tolist(),
                             'numbers': n})
            R.trans()
        p = cell.get_refined_pcell()
        compare(p, 'get_refined_pcell', k // len(trans))
        R.check(bool(p.is_primitive()), 'get_refined_pcell: not primitive',
                lambda: {'cell': cr.describe()})
        compare(cell.get_refined_cell(), 'get_refined_cell', None)
        compare(cell.get_shaped_cell(), 'get_shaped_cell', k)
        R.check(snap == (cell.lattice.tolist(), cell.positions.tolist(), cell.numbers.tolist()),
                'the cell was modified', lambda: {'cell': cr.describe()})
        R.outcome(k, len(trans))
    R.state(tag, variant)
    R.trace()
    R.sample({'cell': cr.describe(), 'pure_translations': len(trans)})


def run(unit, R):
    if unit[0] in ('again', 'long'):
        return (again if unit[0] == 'again' else long)(R)
    if unit[0] == 'twins':
        for key, step, cr in tour(lats=['cubP', unit[1]], bases=['pair', 'line']):
            verify(cr, 0, R, ('twins', unit[1], key, step), cells=step % 3 == 0)
        return
    if unit[0] == 'half':
        return half(unit[1], R)
    if unit[0] == 'prim':
        _, lat, k, q = unit
        pts = [p for p in grid(q) if p != O]
        for i, c in enumerate(combinations(pts, k - 1)):
            for col in ([5] * k, [5] * (k - 1) + [0]):
                cr = Crystal.of(lat, list(zip([O] + list(c), col)))
                verify(cr, i % 7, R, (lat, k, q, i, col[-1]), cells=False)
        return
    _, name, n, j, parts = unit
    base = Crystal.parent(name)
    for i, h in enumerate(X.all_hnfs(n)):
        if i % parts != j:
            continue
        cr = base.super(h)
        k = len(cr.sites)
        decs = [()] + [(a,) for a in range(k)]
        if R.quick:
            if k > 4:
                decs = [(), (i % k,)]
            if k > 1:
                decs.append(((i + k // 2) % k, i % k))
        else:
            decs += list(combinations(range(k), 2))
        for d in sorted(set(tuple(sorted(set(x))) for x in decs)):
            z = (0, 83)[(i + len(d)) % 2]
            c2 = Crystal(cr.rows, cr.gram,
                         [(p, z if m in d else c) for m, (p, c) in enumerate(cr.sites)])
            for v in ([i % 7] if R.quick else [i % 6, (i + 1) % 7, (i + 3) % 7]):
                verify(c2, v, R, (name, h, d))
