# coding: utf-8
"""C13: space group report and restriction."""
from fractions import Fraction as F
from math import sqrt

import numpy as np

from vmc.cells import MIRROR, ROT
from vmc.twins import BASES, LATS, colours, tour

ID = 'C13'

# the 11 enantiomorphic pairs of space-group types
PAIR = {76: 78, 91: 95, 92: 96, 144: 145, 151: 153, 152: 154, 169: 170, 171: 172, 178: 179,
        180: 181, 212: 213}
PAIR.update({b: a for a, b in list(PAIR.items())})
RULE = {
    'quick': 'one crystal of each of the 230 space-group types (general position and origin '
             'decoration, three descriptions, one of them the mirror image); restriction lists: that number alone, every other '
             'number, all numbers, none, each digit of the group symbol; families of cells that '
             'share sites, species or lattice in one process; 4 bases on 21 lattices (some just off a higher symmetry) in '
             '9 colourings, four with vacancies; and every sequence of 3 '
             'reassignments of the numbers of a cell',
    'thorough': 'the crystals of all 530 Hall settings, four descriptions',
}
ASSUMPTIONS = ['spglib\'s database of space-group operations (input data of the reference)',
               'the general-position crystals have no accidental symmetry (checked by spglib '
               'directly)']


HELD = {}


def settings(all_of_them):
    import spglib
    out, seen = [], set()
    for hall in range(1, 531):
        t = spglib.get_spacegroup_type(hall)
        n = t['number']
        if all_of_them or n not in seen:
            seen.add(n)
            out.append((hall, n))
    return out


def units(tier):
    s = settings(tier == 'thorough')
    k = 46 if tier == 'quick' else 106
    return [[list(x) for x in s[i::k]] for i in range(k)] + \
        [['twins', b] for b in sorted(BASES)] + [['lats', b] for b in sorted(BASES)]


def lattice_for(n, ops):
    """A lattice invariant under the rotations, otherwise generic: average a generic
    metric over the point group."""
    g0 = np.array([[31.0, 1.7, 2.3], [1.7, 44.0, 3.1], [2.3, 3.1, 59.0]])
    g = np.zeros((3, 3))
    for r in ops['rotations']:
        g = g + np.matmul(np.matmul(r.T, g0), r)
    g = g / len(ops['rotations'])
    return np.linalg.cholesky(g)


def crystal(hall, n):
    """Orbit of one heavy and one light generic point."""
    import spglib
    ops = spglib.get_symmetry_from_database(hall)
    lat = lattice_for(n, ops)
    pos, num = [], []
    for p, z in (((0.137, 0.061, 0.211), 30), ((0.2713, 0.3329, 0.0727), 16),
                 ((0.0421, 0.1537, 0.3813), 8)):
        seen = []
        for r, t in zip(ops['rotations'], ops['translations']):
            q = (np.dot(r, p) + t) % 1.0
            if not any(np.abs((q - s + 0.5) % 1.0 - 0.5).max() < 1e-5 for s in seen):
                seen.append(q)
        pos.extend(seen)
        num.extend([z] * len(seen))
        if len(seen) > 60:
            # one orbit of a big group is enough to fix it; keep the cell small
            pass
    return lat, np.array(pos), np.array(num)


def number(lat, pos, num):
    import spglib
    return spglib.get_symmetry_dataset((np.array(lat), np.array(pos), np.array(num)),
                                       symprec=1e-3)['number']


def one(cell, ref, R, tag):
    """The group of one cell, by new restrictions and by those that judged others before."""
    from ababe.stru.restriction import SpaceGroupRestriction
    text = cell.get_spacegroup()
    R.check(text.replace(' ', '').endswith('(%d)' % ref), 'the reported space group is wrong',
            lambda: dict(tag, want=ref, got=text))
    for l, want in (([ref], True), ([ref % 230 + 1], False)):
        R.check(bool(SpaceGroupRestriction(l).is_satisfied(cell)) == want,
                'SpaceGroupRestriction is wrong', lambda: dict(tag, group=text, list=l))
        # the same for one that has judged other cells before
        if tuple(l) not in HELD and len(HELD) < 4:
            HELD[tuple(l)] = SpaceGroupRestriction(l)
    for l, r in sorted(HELD.items()):
        R.check(bool(r.is_satisfied(cell)) == (ref in l),
                'a SpaceGroupRestriction asked before answers differently',
                lambda: dict(tag, group=text, list=l))
        R.trans()
    R.outcome(ref)
    R.trans(3)


def twins(base, R):
    """Cells that share sites, species or lattice one after the other, and one cell whose
    numbers are reassigned in every order of two occupations."""
    from itertools import product
    HELD.clear()
    for key, step, cr in tour(bases=[base]):
        cell = cr.cell(0)
        one(cell, number(*cr.arrays(0)), R, {'crystal': cr.describe()})
        R.state(key, step)
        R.trace()
    cols = colours(len(BASES[base]))
    from vmc.cells import Crystal
    for lat in ('cubP', 'ortP', 'hexP') if R.quick else LATS:
        for hist in product(range(len(cols)), repeat=3):
            cr = Crystal.of(lat, list(zip(BASES[base], cols[hist[0]])))
            cell = cr.cell(0)
            pos = cell.positions.tolist()
            for h in hist:
                cell.numbers = np.array(cols[h])
                one(cell, number(cr.rows, pos, cols[h]), R,
                    {'crystal': cr.describe(), 'numbers': [cols[x] for x in hist]})
            R.state(lat, base, hist)
            R.trace()


def lats(base, R):
    """Every lattice of the table (some a little off a more symmetric one) under every
    colouring, with vacancies as a species."""
    from vmc.cells import LAT, Crystal
    pts = BASES[base]
    k = len(pts)
    for lat in sorted(LAT):
        for i, c in enumerate(colours(k) + [[5] * (k - 1) + [0], [0] * (k - 1) + [5],
                                            [0, 5] * (k // 2), [0] * k]):
            cr = Crystal.of(lat, list(zip(pts, c)))
            ref = number(*cr.arrays(0))
            for v in (0, 1 + i % 3):
                one(cr.cell(v), ref, R, {'crystal': cr.describe(), 'variant': v})
                R.state(lat, base, tuple(c), v)
        R.trace()


def run(unit, R):
    import spglib
    from ababe.stru.scaffold import GeneralCell
    from ababe.stru.restriction import SpaceGroupRestriction
    if unit[0] == 'lats':
        HELD.clear()
        return lats(unit[1], R)
    if unit[0] == 'twins':
        return twins(unit[1], R)
    for hall, n in unit:
        lat, pos, num = crystal(hall, n)
        plain = spglib.get_symmetry_dataset((lat, pos, num), symprec=1e-3)['number']
        if plain != n:
            # not the crystal we meant (accidental symmetry): judge it by the database number
            R.note('accidental symmetry')
        for v in (0, 1, 3) if R.quick else (0, 1, 2, 3):
            ref = plain
            if v == 1:
                order = np.arange(len(num))[::-1]
                cell = GeneralCell(lat, (pos[order] + np.array([0, 1, -1])), num[order])
            elif v == 2:
                cell = GeneralCell(np.matmul(lat, ROT.T), pos, num)
            elif v == 3:
                # the mirror image: the other one of an enantiomorphic pair
                ref = PAIR.get(plain, plain)
                order = np.roll(np.arange(len(num)), 1)
                cell = GeneralCell(np.matmul(lat, MIRROR), pos[order], num[order])
            else:
                cell = GeneralCell(lat, pos, num)
            text = cell.get_spacegroup()
            R.check(text.replace(' ', '').endswith('(%d)' % ref),
                    'the reported space group is wrong', {'hall': hall, 'want': ref, 'got': text})
            digits = sorted(set(int(c) for c in text.split('(')[0] if c.isdigit()) - {ref})
            lists = [([ref], True), ([], False), (list(range(1, 231)), True),
                     ([x for x in range(1, 231) if x != ref], False),
                     ([1 if ref != 1 else 2, ref], True),
                     ([230, ref, 1, ref], True), ([ref, 230 if ref != 230 else 2, 3], True),
                     ([x for x in (230, 191, 2, 225, 1, 14) if x != ref], False),
                     ([ref + 1 if ref < 230 else 1], False)]
            lists += [([d], False) for d in digits if 1 <= d]
            lists += [([x], False) for x in (ref // 10, ref % 10, ref % 100) if x and x != ref]
            for l, want in lists:
                got = bool(SpaceGroupRestriction(l).is_satisfied(cell))
                R.check(got == want, 'SpaceGroupRestriction is wrong',
                        {'hall': hall, 'group': text, 'list': l[:5], 'got': got})
                R.trans()
            R.state(hall, v)
            R.outcome(ref)
            R.trace()
        R.sample({'hall': hall, 'group': text, 'atoms': len(num)})
