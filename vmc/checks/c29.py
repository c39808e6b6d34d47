# coding: utf-8
"""C29: a cell presents the same sites whatever the description, and its accessors agree."""
from fractions import Fraction as F
from itertools import combinations, permutations, product

import numpy as np

from vmc import crystal as X
from vmc.cells import LAT, PARENTS, Crystal, grid, O
from vmc.iokit import formula, match

ID = 'C29'
RULE = {
    'quick': 'every site order of bases of 1..4 sites x three choices of periodic images on 6 lattices, '
             '6 bases each (coordinates on the 1/4, 1/3, 1/6 and 1/10 grids, and sites that are 0.002 to 0.008 apart), every choice of images per '
             'site out of 3 for one order; every assignment of 3 '
             'elements to them; '
             'every sequence of 3 reassignments of the numbers out of 5 on 8 crystals, symmetry and '
             'accessors observed after each; three cells of 1092..1100 sites with one or two other atoms',
    'thorough': '16 lattices, 5 sites, reassignment sequences of length 4',
}
ASSUMPTIONS = ['sites are at least 0.002 apart in some fractional coordinate',
               'reference: exact crystal model; the sequence of sites is only required to be the '
               'same for every description, whatever it is']
BASES = [
    [(0, 0, 0), (F(1, 2), F(1, 4), 0), (F(1, 4), F(3, 4), F(1, 2)), (0, F(1, 2), F(3, 4)),
     (F(3, 4), 0, F(1, 4))],
    [(F(1, 3), F(2, 3), 0), (F(2, 3), F(1, 3), F(1, 2)), (0, 0, F(1, 3)), (F(1, 3), 0, F(2, 3)),
     (0, F(2, 3), F(1, 6))],
    [(F(5, 6), F(1, 6), F(1, 2)), (F(1, 6), F(5, 6), F(1, 2)), (0, F(1, 2), F(1, 6)),
     (0, 0, F(5, 6)), (F(1, 2), F(1, 2), 0)],
    [(F(1, 3), F(1, 2), 0), (F(1, 3), F(1, 10), F(1, 5)), (F(7, 10), F(1, 3), F(1, 10)),
     (F(7, 10), F(1, 3), F(9, 10)), (F(7, 10), F(1, 9), F(2, 7))],
    [(F(1, 4), F(1, 4), F(1, 4)), (F(1, 4), F(1, 4), F(3, 4)), (F(1, 4), F(3, 4), F(1, 4)),
     (F(3, 4), F(1, 4), F(1, 4)), (0, F(1, 4), F(1, 4))],
    # sites that are hardly apart
    [(F(52, 500), F(1, 2), F(1, 4)), (F(48, 500), F(1, 2), F(1, 4)), (F(49, 500), F(252, 500), F(1, 4)),
     (0, F(1, 3), F(998, 1000)), (0, F(1, 3), 0)],
]
LATS = ['cubP', 'fcc', 'hexP', 'rho', 'mono', 'tric']
ELE = [5, 0, 29]
SHIFTS = [lambda i: (0, 0, 0), lambda i: [(1, 0, -1), (-1, 2, 0), (0, -3, 1)][i % 3],
          lambda i: [(0, -1, 0), (2, 0, 0), (-1, -1, -1)][(i + 1) % 3]]


def units(tier):
    quick = tier == 'quick'
    out = []
    for lat in LATS if quick else sorted(LAT):
        for b in range(len(BASES)):
            for k in range(1, 5 if quick else 6):
                out.append(['desc', lat, b, k])
    for name in ('sc', 'cscl', 'zns', 'hcp', 'tet2', 'ort2', 'mono3', 'perov'):
        out.append(['reassign', name, 3 if quick else 4])
    out.sort(key=lambda u: -u[-1])
    out = [['long', k] for k in range(3)] + out
    return out


def describe(sites, order, s):
    shift = SHIFTS[s] if isinstance(s, int) else lambda i: (s[i],) * 3
    pos = [[float(x) + y for x, y in zip(sites[i][0], shift(i))] for i in order]
    return np.array(pos, dtype=float), np.array([sites[i][1] for i in order])


def check_views(c, cr, R, tag):
    """Every accessor of the cell against the model."""
    from ababe.stru.element import Specie
    nums = [int(z) for z in c.numbers]
    zs = [z for _, z in cr.sites]
    R.check(np.array_equal(c.lattice, cr.rows), 'the lattice is changed', tag)
    R.check(match(list(zip(c.positions.tolist(), nums)), cr.sites, 1e-9),
            'the sites are not those given',
            lambda: dict(tag, positions=c.positions.tolist(), numbers=nums))
    R.check(c.num_count == len(zs), 'num_count is wrong', lambda: dict(tag, got=c.num_count))
    R.check(c.comment == formula(zs), 'comment is not the formula',
            lambda: dict(tag, got=c.comment, want=formula(zs)))
    for z in set(zs) | {74}:
        R.check(c.get_speckle_num(Specie.from_num(z)) == zs.count(z),
                'get_speckle_num is wrong', lambda: dict(tag, element=z))
        got = np.array(c.get_cartesian(Specie.from_num(z))).reshape(-1, 3).tolist()
        want = [[float(sum(p[k] * cr.rows[k][j] for k in range(3))) for j in range(3)]
                for p, n in zip(c.positions.tolist(), nums) if n == z]
        R.check(len(got) == len(want) and all(abs(x - y) < 1e-8 for a, b in zip(got, want)
                                              for x, y in zip(a, b)),
                'get_cartesian(element) is wrong', lambda: dict(tag, element=z, got=got))
        R.trans(2)
    got = c.get_cartesian().tolist()
    want = [[float(sum(p[k] * cr.rows[k][j] for k in range(3))) for j in range(3)]
            for p in c.positions.tolist()]
    R.check(all(abs(x - y) < 1e-8 for a, b in zip(got, want) for x, y in zip(a, b)) and
            len(got) == len(want), 'get_cartesian() is wrong', lambda: dict(tag, got=got))
    s = c.spg_cell
    R.check(len(s) == 3 and np.array_equal(s[0], c.lattice) and
            np.array_equal(s[1], c.positions) and np.array_equal(s[2], c.numbers),
            'spg_cell is not the cell', tag)
    R.trans(4)


def desc(lat, b, k, R):
    from ababe.stru.scaffold import GeneralCell
    pts = [tuple(F(x) for x in p) for p in BASES[b][:k]]
    orders = list(permutations(range(k)))
    ids = {}
    first = None
    for ci, col in enumerate(product(ELE, repeat=k)):
        cr = Crystal.of(lat, list(zip(pts, col)))
        seen = None
        for oi, order in enumerate(orders):
            # the first occupation: every choice of images in the given order
            for s in list(range(3)) + (list(product((0, -1, 1), repeat=k))
                                       if ci == 1 and oi == 0 else []):
                if R.quick and k == 4 and isinstance(s, int) and (ci + oi) % 3 != s:
                    continue
                if R.quick and k == 4 and isinstance(s, int) and ci and (oi + ci) % 5:
                    continue
                pos, num = describe(cr.sites, order, s)
                lt = cr.rows.copy()
                snap = (lt.tolist(), pos.tolist(), num.tolist())
                c = GeneralCell(lt, pos, num)
                tag = {'cell': cr.describe(), 'order': order, 'images': s}
                R.check(match(list(zip(c.positions.tolist(), [int(z) for z in c.numbers])),
                              cr.sites, 1e-9), 'the sites are not those given',
                        lambda: dict(tag, positions=c.positions.tolist(),
                                     numbers=c.numbers.tolist()))
                # the same sequence of sites for every description
                idx = X.match_sites(c.positions.tolist(), [0] * k, [(p, 0) for p in pts], 1e-6)
                if first is None:
                    first = idx
                R.check(idx == first, 'the sequence of sites depends on the description',
                        lambda: dict(tag, got=idx, want=first))
                R.check(seen is None or seen == c.id, 'the identity depends on the description',
                        tag)
                seen = c.id
                if oi == 0 and s == 0 or isinstance(s, int) and (oi + s + ci) % 7 == 0:
                    check_views(c, cr, R, tag)
                    c.id, c.comment
                    c.get_symmetry_permutation(), c.get_spacegroup()
                R.check(snap == (lt.tolist(), pos.tolist(), num.tolist()),
                        'the arrays given were modified', tag)
                R.state(lat, b, col, order, s)
                R.trans(3)
                R.trace()
        if seen is not None:
            R.check(seen not in ids, 'two occupations of the same sites share their identity',
                    lambda: {'cells': [ids[seen], col], 'lattice': lat})
            ids[seen] = col
        R.outcome(k, len(set(col)))
    R.sample({'lattice': lat, 'sites': [[str(x) for x in p] for p in pts], 'cells': len(ids)})


def reassign(name, depth, R):
    from ababe.stru.scaffold import GeneralCell
    base = Crystal.parent(name)
    if len(base.sites) == 1:
        base = base.super(((2, 0, 0), (0, 1, 0), (0, 0, 1)))
    k = len(base.sites)
    pats = [[z for _, z in base.sites], [5] * k, [5] * (k - 1) + [7], [7] + [5] * (k - 1),
            [0] * k if k < 3 else [5, 7] + [8] * (k - 2)]
    want = {}
    for hist in product(range(len(pats)), repeat=depth):
        c = base.cell(sum(hist) % 4 if sum(hist) % 4 != 2 else 0)
        idx = X.match_sites(c.positions.tolist(), [0] * k, [(p, 0) for p, _ in base.sites], 1e-6)
        for step, h in enumerate(hist):
            cr = Crystal(base.rows, base.gram, [(p, z) for (p, _), z in zip(base.sites, pats[h])])
            new = [pats[h][j] for j in idx]
            # an array, or a view of one
            c.numbers = (np.array(new) if step % 3 == 0 else np.array(new[::-1])[::-1]
                         if step % 3 == 1 else np.array([new, new]).T[:, 0])
            tag = {'crystal': name, 'numbers': [pats[x] for x in hist[:step + 1]]}
            R.check([int(z) for z in c.numbers] == [pats[h][j] for j in idx],
                    'numbers are not those assigned', tag)
            if h not in want:
                perms = cr.perms()
                want[h] = (perms, len(X.pure_translations(cr.sites)))
            perms = sorted(set(tuple(int(x) for x in p) for p in c.get_symmetry_permutation()))
            # to model sites; a set closed under inverses is the same either way round
            model = set()
            for p in perms:
                q = [None] * k
                for i, j in enumerate(p):
                    q[idx[i]] = idx[j]
                model.add(tuple(q))
            R.check(model == set(tuple(p) for p in want[h][0]),
                    'symmetry is not that of the numbers assigned',
                    lambda: dict(tag, got=sorted(model), want=sorted(want[h][0])))
            R.check(bool(c.is_primitive()) == (want[h][1] == 1),
                    'primitivity is not that of the numbers assigned', tag)
            check_views(c, cr, R, tag)
            fresh = GeneralCell(c.lattice.copy(), c.positions.copy(), np.array([int(z) for z in c.numbers]))
            R.check(c.get_spacegroup() == fresh.get_spacegroup() and
                    list(c.get_wyckoffs()) == list(fresh.get_wyckoffs()),
                    'space group or Wyckoff letters are not those of the numbers assigned', tag)
            R.check(c.get_refined_pcell().comment == fresh.get_refined_pcell().comment and
                    c.get_refined_cell().comment == fresh.get_refined_cell().comment and
                    c.get_shaped_cell().comment == c.comment,
                    'a derived cell is not that of the numbers assigned', tag)
            R.check(c.id == cr.cell(0).id, 'the identity is not that of the numbers assigned', tag)
            R.trans(4)
        R.state(name, hist)
        R.trace()
    R.sample({'crystal': name, 'patterns': pats})


def long_cell(k, R):
    """Cells of more than a thousand sites: every place of one other atom on a coarse mesh."""
    from ababe.stru.element import Specie
    from ababe.stru.scaffold import GeneralCell
    size = [(10, 10, 11), (1, 100, 11), (7, 13, 12)][k]
    lat = np.diag([4.0 * x for x in size])
    idx = list(product(*[range(x) for x in size]))
    pos = np.array([[float(a) / x for a, x in zip(i, size)] for i in idx])
    n = len(idx)
    order = np.array([(7 * i + 5) % n for i in range(n)] if n % 7 else
                     [(11 * i + 5) % n for i in range(n)])
    assert len(set(order.tolist())) == n
    spots = [0, 1, 2, 3, 4, n // 4, n // 3, n // 2, n // 2 + 1, 2 * n // 3, n - 5, n - 4, n - 2,
             n - 1]
    seen = {}
    for at in [()] + [(s,) for s in spots] + list(combinations(spots[3:9], 2)):
        num = np.full(n, 26, dtype=int)
        num[list(at)] = 0 if k == 1 else 79
        tag = {'size': size, 'other atoms at': at}
        a = GeneralCell(lat, pos.copy(), num.copy())
        b = GeneralCell(lat, pos[order], num[order])
        R.check(a.id == b.id and a.numbers.tolist() == b.numbers.tolist(),
                'the sequence of the sites depends on the order they are given in', tag)
        R.check(a.id not in seen, 'different occupations have the same identity',
                dict(tag, other=seen.get(a.id)))
        seen[a.id] = at
        R.check(a.num_count == n and a.comment == formula(num.tolist()) and
                a.get_speckle_num(Specie('Fe')) == n - len(at), 'counts or formula are wrong', tag)
        where = {tuple(round(x * s) % s for x, s in zip(p, size))
                 for p, z in zip(a.positions.tolist(), a.numbers.tolist()) if z != 26}
        R.check(where == {idx[i] for i in at}, 'another site carries the other atom',
                dict(tag, got=sorted(where)))
        R.state('long', size, at)
        R.trans(4)
    R.trace()


def run(unit, R):
    if unit[0] == 'long':
        long_cell(unit[1], R)
    elif unit[0] == 'desc':
        desc(unit[1], unit[2], unit[3], R)
    else:
        reassign(unit[1], unit[2], R)
