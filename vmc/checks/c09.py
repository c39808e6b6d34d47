# coding: utf-8
"""C09: superlattice enumeration (3-D and layered): complete and irredundant."""
from vmc import crystal as X
from vmc.cells import LAT, PARENTS, Crystal
from vmc.twins import families

ID = 'C09'
RULE = {
    'quick': '3-D: indices 1..5 on 14 crystals of 11 lattices, 6..7 on three of them; layered: '
             'indices 1..8 on 8 crystals and one of 21..29 on five; all sublattices of each index, and all ordered pairs '
             'of them for the equality test (index <= 3; layered <= 4)',
    'thorough': '3-D: indices 1..8 on all, 9..12 on three; layered: 1..16; pairs up to index 4/8',
}
ASSUMPTIONS = ['reference: Hermite normal forms of all index-n sublattices modulo the exact '
               'point group of the crystal']

P3 = ['sc', 'fcc', 'bcc', 'nacl', 'zns', 'hcp', 'hex1', 'rho1', 'tet2', 'ort2', 'mono1', 'mono3',
      'tric2', 'chir', 'off', 'near']
DEEP = ['bcc', 'hex1', 'tet2']
SLAB = [('slab4', [((0, 0, 0), 29)]), ('slab3', [((0, 0, 0), 6)]), ('slabr', [((0, 0, 0), 6)]),
        ('slab4', [((0, 0, 0), 29), (('1/2', '1/4', '0'), 8)]),
        ('slab3', [(('1/3', '2/3', '0'), 6), (('2/3', '1/3', '0'), 6)]),
        ('tric', [((0, 0, 0), 14)]), ('flat', [((0, 0, 0), 29)]),
        ('flat', [((0, 0, 0), 29), (('1/4', '1/2', '0'), 8)])]


# layered superlattices of a large index (differences between them are small fractions)
LARGE = [(5, 29), (2, 23), (0, 25), (1, 21), (7, 24)]


# more than forty inequivalent ones of one index
MANY = [('3d', 'rho1', 8), ('2d', 2, 36), ('2d', 6, 40)]


def units(tier):
    out = [list(m) for m in MANY]
    out += [[k, w, n, 6] for k, ws in (('3d', ('hcp', 'graph', 'zns', 'chir')), ('2d', (1, 4)))
            for w in ws for n in (2, 3, 4)]
    top, deep, layer = (5, 7, 8) if tier == 'quick' else (8, 12, 16)
    for name in DEEP:
        for n in range(deep, top, -1):
            out.append(['3d', name, n])
    for n in range(top, 0, -1):
        for name in P3:
            out.append(['3d', name, n])
    for n in range(layer, 0, -1):
        for i in range(len(SLAB)):
            out.append(['2d', i, n])
    for i, n in LARGE if tier == 'quick' else LARGE + [(k, n) for k in range(8) for n in (20, 24)]:
        out.append(['2d', i, n])
    out += [['twins', k, n] for n in (2, 3) for k in ('pair', 'chain', 'edge')]
    for name in P3:
        for n in range(1, (3 if tier == 'quick' else 4) + 1):
            out.append(['pairs3', name, n])
    for i in range(len(SLAB)):
        for n in range(1, (4 if tier == 'quick' else 8) + 1):
            out.append(['pairs2', i, n])
    return out


def slab(i):
    from fractions import Fraction as F
    lat, sites = SLAB[i]
    return Crystal.of(lat, [(tuple(F(x) for x in p), z) for p, z in sites])


def orbit_rep(h, rots, cache):
    """Canonical member of the orbit of the row lattice h under the rotations."""
    r = cache.get(h)
    if r is None:
        # row vectors n map to (W n^T)^T = n W^T
        orb = {X.hnf(X.mat_mul([list(x) for x in h], X.transpose(w))) for w in rots}
        r = min(orb)
        for o in orb:
            cache[o] = r
    return r


def as_rows(m):
    return [[int(round(float(x))) for x in r] for r in m.tolist()]


def run(unit, R):
    kind, which, n = unit[:3]
    if kind == 'twins':
        for key, fam in families(bases=[which]):
            for step, cr in enumerate(fam + fam[::-1]):
                explore('3d', ('twins', key, step), n, cr, 0, R)
            if key[0] == 'lattice':
                for step, cr in enumerate(fam + fam[::-1]):
                    explore('pairs3', ('twins', key, step), n, cr, 0, R)
        return
    two = kind in ('2d', 'pairs2')
    explore(kind, which, n, slab(which) if two else Crystal.parent(which), unit[3] if len(unit) > 3 else (0, 1, 2, 4, 5)[n % 5], R)


def explore(kind, which, n, cr, variant, R):
    from ababe.stru.grid import SuperLatticeGenerator, SuperLatticeGenerator2D, SuperLatticeCell
    two = kind in ('2d', 'pairs2')
    cell = cr.cell(variant)
    ops = X.space_group_ops(cr.gram, cr.sites)
    rots = [list(map(list, w)) for w in {tuple(map(tuple, w)) for w, t in ops}]
    Gen = SuperLatticeGenerator2D if two else SuperLatticeGenerator
    all_h = X.all_hnfs_2d(n) if two else X.all_hnfs(n)
    cache = {}
    tag = {'crystal': which if not two else SLAB[which], 'index': n}
    if kind in ('3d', '2d'):
        dups = [as_rows(s.lat_coeff) for s in Gen.hnfs_from_n_dups(cell, n)]
        forms = [X.hnf(m) for m in dups]
        R.check(sorted(forms) == sorted(all_h),
                'not every sublattice of the index exactly once', tag)
        subs = Gen.hnfs_from_n(cell, n)
        mats = [as_rows(s.lat_coeff) for s in subs]
        if two:
            for m in mats:
                R.check(m[2] == [0, 0, 1] and m[0][2] == 0 and m[1][2] == 0,
                        'a layered superlattice changes the stacking direction',
                        {'matrix': m, 'of': tag})
        reps = []
        for m in mats:
            R.check(abs(X.det3(m)) == n, 'a superlattice of another volume',
                    {'matrix': m, 'of': tag})
            reps.append(orbit_rep(X.hnf(m), rots, cache))
        want = {orbit_rep(h, rots, cache) for h in all_h}
        R.check(len(set(reps)) == len(reps), 'two equivalent superlattices', tag)
        R.check(set(reps) == want, 'a superlattice is missing',
                dict(tag, missing=sorted(want - set(reps))[:3], got=len(reps), want=len(want)))
        for h in all_h:
            R.state(kind, which, h)
        R.trans(len(all_h) + len(reps))
        R.trace()
        R.outcome(len(want), len(all_h))
        R.sample(dict(tag, kind=kind, sublattices=len(all_h), inequivalent=len(want)))
    else:
        import numpy as np
        cells = [SuperLatticeCell(cell, np.array(h)) for h in all_h]
        for h, a in zip(all_h, cells):
            for g, b in zip(all_h, cells):
                want = orbit_rep(h, rots, cache) == orbit_rep(g, rots, cache)
                R.check(bool(a == b) == want, 'equality of superlattices is wrong',
                        dict(tag, a=h, b=g, want=want))
                R.state(kind, which, h, g)
                R.trans()
        R.trace()
