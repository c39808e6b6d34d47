# coding: utf-8
"""C01: the site permutations of a cell are exactly its crystal symmetry group."""
from fractions import Fraction as F
from itertools import combinations, product

from vmc import crystal as X
from vmc.cells import LAT, PARENTS, Crystal, grid, site_index, O
from vmc.twins import BASES, colours, tour

ID = 'C01'
RULE = {
    'quick': 'every basis of 1..2 sites on the 1/4 grid, 3 sites on the 1/2 grid (one and two '
             'species), of 16 lattices; every HNF supercell of 25 parent crystals up to index 4 '
             '(cells of <= 12 sites); 8 supercells of 11..27 sites and 3 of 130..260; each '
             'handed over in one of 6 equivalent descriptions (order, images, origin, orientation, handedness); '
             'families of 5..7 crystals that share sites, species or lattice, one after the '
             'other in one process, forwards and backwards; cells whose numbers are assigned anew',
    'thorough': 'as quick with 2 sites on the 1/8, 1/6 and 1/5 grids, 3 sites on the 1/4 grid, 4 '
                'sites on the 1/2 grid, supercells up to index 8 (<= 24 sites), all 6 descriptions',
}
ASSUMPTIONS = ['every feature that breaks a symmetry is 0.004 A or larger (tolerance of the code: 0.001 A); sites more than 0.1 A apart',
               'reference: rational search for all integral isometries of the Gram matrix']

LATS = ['cubP', 'fcc', 'bcc', 'tetP', 'tetI', 'ortP', 'ortC', 'hexP', 'hex60', 'rho',
        'mono', 'tric', 'skew', 'wild', 'bent', 'benth']


def bases(spec):
    """All bases of a family, up to the choice of origin (first site at 0)."""
    k, q = spec
    pts = [p for p in grid(q) if p != O]
    if k == 1:
        yield [(O, 5)]
        return
    colour = [(5,) * k, (5,) * (k - 1) + (7,)]
    if k == 3:
        colour.append((7, 5, 5))
    for c in combinations(pts, k - 1):
        for col in colour:
            if k == 4 and col != colour[0]:
                continue
            yield list(zip([O] + list(c), col))


def units(tier):
    out = []
    fam = [(1, 1), (2, 4), (3, 2), (2, 3)] if tier == 'quick' else \
        [(1, 1), (2, 8), (2, 6), (2, 5), (3, 2), (3, 3), (3, 4), (4, 2)]
    for lat in LATS:
        for f in fam:
            parts = {(2, 8): 4, (2, 6): 2, (3, 3): 8, (3, 4): 24}.get(f, 1)
            for j in range(parts):
                out.append(['basis', lat, f, j, parts])
    top = 4 if tier == 'quick' else 8
    for name in sorted(PARENTS):
        for n in range(1, top + 1):
            if n * len(PARENTS[name][1]) <= (12 if tier == 'quick' else 24):
                out.append(['super', name, n])
    return [['twins', b] for b in sorted(BASES)] + [['again', b] for b in sorted(BASES)] + \
        [['long', i] for i in range(len(LONG))] + [['diag', name, d] for name, d in
            (BIG if tier == 'quick' else BIG + BIGGER)] + out


BIG = [('nacl', (2, 2, 2)), ('perov', (2, 2, 1)), ('sc', (3, 3, 3)), ('hcp', (3, 3, 1)),
       ('chir', (2, 2, 2)), ('tric2', (1, 3, 3)), ('sc', (1, 1, 11)), ('rho1', (2, 2, 3))]
# more sites than a small integer can number
LONG = [('mono3', (1, 1, 44)), ('ort2', (1, 66, 1)), ('tric2', (2, 1, 65))]
BIGGER = [('sc', (4, 4, 3)), ('zns', (3, 3, 3)), ('perov', (2, 2, 2)), ('graph', (4, 4, 1)),
          ('mono3', (3, 2, 2)), ('sc', (1, 1, 24))]

SHIFT = (F(13, 100), F(27, 100), F(41, 100))


def again(base, R):
    """One cell whose numbers are assigned anew, in every order of two of the colourings."""
    import numpy as np
    cols = colours(len(BASES[base]))
    for lat in ('cubP', 'ortP', 'hexP'):
        for hist in product(range(len(cols)), repeat=3):
            crs = [Crystal.of(lat, list(zip(BASES[base], cols[h]))) for h in hist]
            cell = crs[0].cell(0)
            m = site_index(cell, crs[0].sites, R)
            for i, cr in enumerate(crs):
                if i:
                    cell.numbers = np.array([cr.sites[j][1] for j in m])
                verify(cr, 0, R, ('again', lat, base, hist[:i + 1]), cell)


def verify(cr, variant, R, tag, cell=None):
    if variant % 2:
        # the same crystal with its origin elsewhere
        cr = Crystal(cr.rows, cr.gram,
                     [(X.wrap(tuple(a + b for a, b in zip(p, SHIFT))), z) for p, z in cr.sites])
    cell = cell or cr.cell(variant)
    k = len(cr.sites)
    m = site_index(cell, cr.sites, R)
    rots = X.lattice_rotations(cr.gram)
    ops = X.space_group_ops(cr.gram, cr.sites, rots)
    index = {X.wrap(p): i for i, (p, _) in enumerate(cr.sites)}
    ref = set(X.op_permutation(w, t, cr.sites, index) for w, t in ops)
    got = set()
    for perm in cell.get_symmetry_permutation():
        perm = [int(i) for i in perm]
        R.check(sorted(perm) == list(range(k)), 'a symmetry permutation is no permutation',
                {'perm': perm, 'cell': cr.describe(), 'variant': variant})
        img = [None] * k
        for slot, i in enumerate(perm):
            img[m[i]] = m[slot]
        got.add(tuple(img))
    R.check(got == ref, 'site permutations differ from the symmetry group of the crystal',
            lambda: {'cell': cr.describe(), 'variant': variant, 'found': len(got),
                     'expected': len(ref), 'wrong': sorted(got - ref)[:3],
                     'missing': sorted(ref - got)[:3]})
    # the operations themselves
    sym = cell.get_symmetry()
    seen = set()
    for w, t in zip(sym['rotations'].tolist(), sym['translations'].tolist()):
        key = (tuple(tuple(int(x) for x in r) for r in w),
               tuple(int(round((x % 1) * 2520)) % 2520 for x in t))
        seen.add(key)
    want = set((tuple(tuple(r) for r in w),
                tuple(int(round(float(x) * 2520)) % 2520 for x in t)) for w, t in ops)
    near = all(any(s[0] == r[0] and all(min(abs(a - b), 2520 - abs(a - b)) <= 3
                                        for a, b in zip(s[1], r[1])) for r in want)
               for s in seen - want)
    R.check(len(seen) == len(want) and near,
            'symmetry operations differ from those of the crystal',
            lambda: {'cell': cr.describe(), 'variant': variant,
                     'found': len(seen), 'expected': len(want)})
    # sites of one orbit carry one Wyckoff letter
    wy = list(cell.get_wyckoffs())
    R.check(len(wy) == k, 'one Wyckoff letter per site expected', {'wyckoffs': wy})
    letter = {}
    for i, j in enumerate(m):
        letter[j] = wy[i]
    for g in ref:
        for i in range(k):
            R.check(letter[i] == letter[g[i]],
                    'equivalent sites carry different Wyckoff letters',
                    {'cell': cr.describe(), 'wyckoffs': wy})
    R.state(tag, variant)
    R.outcome(len(ref), k)
    R.trans(len(ref) + len(want))
    R.trace()
    R.sample({'cell': cr.describe(), 'site_permutations': len(ref)})


def run(unit, R):
    if unit[0] == 'twins':
        for key, step, cr in tour(bases=[unit[1]] + sorted(set(BASES) - {unit[1]})[:1]):
            verify(cr, 0, R, ('twins', key, step))
    elif unit[0] == 'again':
        again(unit[1], R)
    elif unit[0] == 'long':
        name, (a, b, c) = LONG[unit[1]]
        cr = Crystal.parent(name).super(((a, 0, 0), (0, b, 0), (0, 0, c)))
        for v in (1, 2) if R.quick else range(7):
            verify(cr, v, R, ('long', name))
    elif unit[0] == 'basis':
        _, lat, f, j, parts = unit
        for i, b in enumerate(bases(f)):
            if i % parts != j:
                continue
            cr = Crystal.of(lat, b)
            for v in ([i % 7] if R.quick else range(7)):
                verify(cr, v, R, (lat, tuple(f), i))
    elif unit[0] == 'diag':
        _, name, (a, b, c) = unit
        cr = Crystal.parent(name).super(((a, 0, 0), (0, b, 0), (0, 0, c)))
        for v in range(7):
            verify(cr, v, R, (name, a, b, c))
    else:
        _, name, n = unit
        base = Crystal.parent(name)
        for i, h in enumerate(X.all_hnfs(n)):
            cr = base.super(h)
            for v in ([i % 7] if R.quick else range(7)):
                verify(cr, v, R, (name, h))
