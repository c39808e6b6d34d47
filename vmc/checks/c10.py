# coding: utf-8
"""C10: building a supercell gives the same crystal."""
import numpy as np

from vmc import crystal as X
from vmc.cells import PARENTS, Crystal
from vmc.twins import tour

ID = 'C10'
RULE = {
    'quick': 'every Hermite normal form of index 1..5 and every diagonal a x b x c <= 10 on 24 '
             'parent crystals, to index 3 on 6 more with vacancies (5 descriptions in turn, one left-handed), through both builders',
    'thorough': 'every Hermite normal form of index 1..12 and every diagonal <= 30, 5 descriptions',
}
ASSUMPTIONS = ['scale matrices are integral, upper triangular, positive (Hermite form)',
               'reference: coset enumeration in rational arithmetic']


def units(tier):
    top = 5 if tier == 'quick' else 12
    dtop = 10 if tier == 'quick' else 30
    out = []
    for name in sorted(PARENTS):
        for n in range(top, 0, -1):
            out.append(['hnf', name, n])
        out.append(['diag', name, dtop])
    for name in HOLES:
        for n in range(1, 4 if tier == 'quick' else 9):
            out.append(['hnf', name, n])
    out.append(['twins', 'all', 0])
    out += [['steep', name, i] for name in ('sc', 'tric2', 'mono3') for i in range(len(STEEP))]
    return out


HOLES = ['perov-G', 'perov-g', 'mono3-g', 'mono3-G', 'zns-G', 'cscl-g']
KINDS = (0, 1, 2, 3, 5)
# off-diagonal entries as large as they can be
STEEP = [((1, 0, 6), (0, 1, 6), (0, 0, 7)), ((3, 2, 4), (0, 3, 4), (0, 0, 5)),
         ((4, 3, 4), (0, 4, 4), (0, 0, 5)), ((4, 3, 3), (0, 4, 3), (0, 0, 4)),
         ((2, 10, 0), (0, 11, 0), (0, 0, 1)), ((5, 4, 4), (0, 5, 4), (0, 0, 5)),
         ((1, 12, 12), (0, 13, 0), (0, 0, 13)), ((6, 0, 6), (0, 6, 6), (0, 0, 7)),
         ((1, 4, 1), (0, 5, 1), (0, 0, 2))]


def same(cell, cr, rot, R, what, tag):
    """cell is exactly the crystal cr (model sites in the coordinates of cr.rows)."""
    rows = np.matmul(cr.rows, rot) if rot is not None else cr.rows
    R.check(np.allclose(cell.lattice, rows, atol=1e-8), what + ': lattice is not scale x lattice',
            dict(tag, lattice=cell.lattice.tolist(), want=rows.tolist()))
    R.check(len(cell.positions) == len(cr.sites) == len(cell.numbers),
            what + ': wrong number of atoms',
            dict(tag, got=len(cell.positions), want=len(cr.sites)))
    m = X.match_sites(cell.positions.tolist(), [int(z) for z in cell.numbers], cr.sites, 1e-6)
    R.check(m is not None, what + ': atoms are not those of the crystal', tag)


def run(unit, R):
    from ababe.stru.grid import SuperLatticeCell
    from vmc.cells import MIRROR, ROT
    kind, name, n = unit
    if kind == 'twins':
        for key, step, cr in tour(lats=['cubP', 'ortP', 'hexP', 'tric']):
            for h in (((2, 1, 0), (0, 2, 0), (0, 0, 1)), ((1, 0, 0), (0, 1, 1), (0, 0, 3))):
                cell = cr.cell(0)
                hm = np.array(h)
                want = cr.super(h)
                tag = {'crystal': cr.describe(), 'matrix': h}
                same(cell.supercell(hm), want, None, R, 'supercell', tag)
                same(SuperLatticeCell(cell, hm).to_general_cell(), want, None, R,
                     'to_general_cell', tag)
                cell.numbers = np.array(cell.numbers.tolist()[::-1])
                back = Crystal(cr.rows, cr.gram, [(p, int(z)) for p, z in zip(
                    [cr.sites[i][0] for i in X.match_sites(
                        cell.positions.tolist(), [0] * len(cr.sites),
                        [(p, 0) for p, _ in cr.sites], 1e-6)], cell.numbers)])
                same(cell.supercell(hm), back.super(h), None, R, 'supercell', tag)
                same(SuperLatticeCell(cell, hm).to_general_cell(), back.super(h), None, R,
                     'to_general_cell', tag)
                R.state(key, step, h)
                R.trans(4)
            R.trace()
        return
    base = Crystal.parent(name)
    if kind == 'steep':
        mats = [STEEP[n]]
    elif kind == 'hnf':
        mats = X.all_hnfs(n)
    else:
        mats = [((a, 0, 0), (0, b, 0), (0, 0, c)) for a in range(1, n + 1)
                for b in range(1, n // a + 1) for c in range(1, n // (a * b) + 1)]
    for i, h in enumerate(mats):
        want = base.super(h)
        for v in ([KINDS[i % 5]] if R.quick else KINDS):
            cell = base.cell(v)
            rot = {2: ROT.T, 5: MIRROR}.get(v)
            snap = (cell.lattice.tolist(), cell.positions.tolist(), cell.numbers.tolist())
            tag = {'parent': name, 'matrix': h, 'variant': v}
            hm = np.array(h)
            same(cell.supercell(hm), want, rot, R, 'supercell', tag)
            same(SuperLatticeCell(cell, hm).to_general_cell(), want, rot, R,
                 'to_general_cell', tag)
            R.check(hm.tolist() == [list(r) for r in h], 'the scale matrix was modified', tag)
            R.check(snap == (cell.lattice.tolist(), cell.positions.tolist(),
                             cell.numbers.tolist()), 'the unit cell was modified', tag)
            R.state(kind, name, h, v)
            R.trans(2 * len(want.sites))
            R.trace()
            R.outcome(len(want.sites))
    R.sample({'parent': name, 'kind': kind, 'n': n, 'matrices': len(mats)})
