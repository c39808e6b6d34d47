# coding: utf-8
"""C12: the minimal-distance restriction."""
from fractions import Fraction as F
from itertools import combinations
from math import sqrt

import numpy as np

from vmc import crystal as X
from vmc.cells import LAT, PARENTS, Crystal, grid, O
from vmc.twins import BASES, tour

ID = 'C12'
RULE = {
    'quick': 'every 1..2-site basis on the 1/4 grid and 3-site basis on the 1/2 grid of 10 '
             'lattices, and every HNF supercell (index <= 4, <= 8 sites) of 25 parents (and 7 with vacancies, judged as a species); '
             'thresholds just below and just above each of the first distances of each species '
             '(+-0.001 A), exactly at it where the arithmetic is exact, and with no such atom; one restriction '
             'object asked about families of cells one after the other and about a cell whose '
             'numbers are reassigned',
    'thorough': '2-site bases on the 1/8 grid, 3-site on the 1/3 grid, supercells to index 6',
}
ASSUMPTIONS = ['reference: complete search over periodic images bounded by the inverse Gram matrix']
LATS = ['cubP', 'fcc', 'bcc', 'tetP', 'ortP', 'hexP', 'rho', 'mono', 'tric', 'skew', 'wild']


def units(tier):
    quick = tier == 'quick'
    out = []
    for lat in LATS:
        for f in ([(1, 1), (2, 4), (3, 2)] if quick else [(1, 1), (2, 8), (3, 2), (3, 3)]):
            out.append(['basis', lat, f])
    for name in sorted(PARENTS):
        for n in range(1, (4 if quick else 6) + 1):
            if n * len(PARENTS[name][1]) <= (8 if quick else 12):
                out.append(['super', name, n])
    # vacancies are a species like any other
    for name in ('perov-G', 'perov-g', 'mono3-G', 'mono3-g', 'zns-G', 'cscl-g', 'tric2-G'):
        for n in range(1, 4 if quick else 7):
            if n * len(PARENTS[name[:-2]][1]) <= (10 if quick else 15):
                out.append(['super', name, n])
    out.append(['exact'])
    out += [['twins', b] for b in sorted(BASES)]
    out += [['reuse', lat] for lat in LATS]
    return out


def min_d2(gram, pts):
    """Smallest squared distance between two atoms of the set (periodic images too)."""
    best = X.shortest_lattice_d2(gram)
    for a, b in combinations(pts, 2):
        d = X.min_image_d2(gram, tuple(x - y for x, y in zip(a, b)))
        best = min(best, d)
    return best


def verify(cr, variant, R, tag):
    from ababe.stru.restriction import MinDistanceRestriction
    from ababe.stru.element import Specie
    cell = cr.cell(variant)
    for z in sorted(set(c for _, c in cr.sites)):
        sp = Specie.from_num(z)
        d = sqrt(float(min_d2(cr.gram, [p for p, c in cr.sites if c == z])))
        for t, want in ((d - 1e-3, True), (d + 1e-3, False), (0.0, True), (d / 2, True),
                        (1.7 * d, False)):
            got = bool(MinDistanceRestriction((sp, t)).is_satisfied(cell))
            R.check(got == want, 'MinDistanceRestriction is wrong',
                    lambda: {'cell': cr.describe(), 'variant': variant, 'species': z,
                             'threshold': t, 'shortest distance': d, 'got': got})
            R.trans()
        R.state(tag, variant, z)
        R.outcome(round(d, 4))
    r = MinDistanceRestriction((Specie('W'), 3.0))
    R.check(bool(r.is_satisfied(cell)), 'a restriction on an absent element must hold',
            lambda: {'cell': cr.describe()})
    R.trace()
    R.sample({'cell': cr.describe(), 'species': z, 'shortest': d})


def reuse(latname, R):
    """The same restriction objects asked about one cell after the other, and about one cell
    whose numbers are reassigned."""
    from ababe.stru.restriction import MinDistanceRestriction
    from ababe.stru.element import Specie
    base = X.shortest_lattice_d2(LAT[latname][1])
    limits = [sqrt(float(base)) * f for f in (0.23, 0.41, 0.613, 0.829, 1.07)]
    held = {(z, t): MinDistanceRestriction((Specie.from_num(z), t)) for z in (5, 7)
            for t in limits}
    pts = [p for p in grid(4 if not R.quick else 2) if p != O]
    if R.quick:
        pts += [(F(1, 4), F(0), F(0)), (F(1, 4), F(1, 2), F(0)), (F(3, 4), F(1, 4), F(1, 4))]
    fam = []
    for p in pts:
        for col in ((5, 5), (5, 7), (7, 5)):
            fam.append(Crystal.of(latname, list(zip([O, p], col))))
    memo = {}

    def shortest(q):
        if q not in memo:
            memo[q] = sqrt(float(min_d2(LAT[latname][1], q)))
        return memo[q]

    def ask(cell, sites, step, seen):
        for (z, t), r in held.items():
            q = tuple(p for p, c in sites if c == z)
            d = shortest(q) if q else None
            if d is not None and abs(d - t) < 1e-4:
                continue
            got = bool(r.is_satisfied(cell))
            R.check(got == (d is None or d > t), 'a restriction asked before answers differently',
                    lambda: {'lattice': latname, 'sites': [[str(x) for x in p] + [c]
                                                           for p, c in sites],
                             'species': z, 'threshold': t, 'shortest distance': d, 'got': got,
                             'step': seen})
            R.trans()
        R.state(latname, 'reuse', step)
    for step, cr in enumerate(fam + fam[::-1]):
        ask(cr.cell(0), cr.sites, step, step)
        if step % 3 == 0:
            cell = cr.cell(0)
            pos = [X.match_sites(cell.positions.tolist(), [0, 0], [(p, 0) for p, _ in cr.sites],
                                 1e-6)][0]
            for col in ((7, 7), (5, 7), (7, 5), (5, 5)):
                cell.numbers = np.array(col)
                ask(cell, [(cr.sites[pos[i]][0], col[i]) for i in range(2)],
                    (step, col), (step, 'numbers', col))
    R.trace()


def run(unit, R):
    if unit[0] == 'reuse':
        return reuse(unit[1], R)
    from ababe.stru.restriction import MinDistanceRestriction
    from ababe.stru.element import Specie
    if unit[0] == 'twins':
        for key, step, cr in tour(bases=[unit[1]]):
            verify(cr, 0, R, ('twins', key, step))
    elif unit[0] == 'exact':
        # distances representable exactly: '> threshold' is strict
        for name in ('cubP', 'tetP', 'ortP'):
            for p in grid(4):
                sites = [(O, 5)] + ([(p, 5)] if p != O else [])
                if p != O and sum(1 for x in p if x) > 1:
                    continue
                cr = Crystal.of(name, sites)
                cell = cr.cell(0)
                d2 = min_d2(cr.gram, [q for q, _ in sites])
                d = sqrt(float(d2))
                if d * d != float(d2) or d != int(d * 4) / 4.0:
                    continue
                got = bool(MinDistanceRestriction((Specie('B'), d)).is_satisfied(cell))
                R.check(not got, 'a distance equal to the threshold does not exceed it',
                        {'cell': cr.describe(), 'threshold': d})
                R.state(name, p)
                R.trans()
        R.trace()
    elif unit[0] == 'basis':
        _, lat, (k, q) = unit
        pts = [p for p in grid(q) if p != O]
        for i, c in enumerate(combinations(pts, k - 1)):
            cols = [(5,) * k] if k == 1 else [(5,) * k, (5,) * (k - 1) + (7,)]
            for col in cols:
                verify(Crystal.of(lat, list(zip([O] + list(c), col))), i % 7, R,
                       (lat, k, q, i, col))
    else:
        base = Crystal.parent(unit[1])
        for i, h in enumerate(X.all_hnfs(unit[2])):
            verify(base.super(h), i % 7, R, (unit[1], h))
