# coding: utf-8
"""C17: the sphere query and the atom-removing clarifiers."""
from fractions import Fraction as F
from itertools import combinations, product
from math import sqrt

import numpy as np

from vmc import crystal as X
from vmc.cells import LAT, PARENTS, Crystal, grid, O
from vmc.twins import BASES, tour

ID = 'C17'
RULE = {
    'quick': '9 lattices x 1..2-site bases on the 1/4 (1/2 for pairs) grid and HNF supercells '
             '(index <= 2, <= 4 sites) of 25 parents; centres: every site, its images and grid '
             'points; radii 0 and just below and above site distances (+-0.001 A), '
             'beyond two cell lengths for one site; with and without an element filter; removal: every '
             'pair of elements (centre, removed; every third supercell) and lists of 1..2 centres; strictness of the '
             'radius where the arithmetic is exact; every query again after every edit of a '
             'cell that has answered it before; the same clarifiers on one cell after the other',
    'thorough': 'pairs on the 1/4 grid, supercells to index 4 (<= 8 sites)',
}
ASSUMPTIONS = ['reference: complete search over periodic images bounded by the inverse Gram matrix']
LATS = ['cubP', 'fcc', 'bcc', 'ortP', 'hexP', 'rho', 'mono', 'tric', 'skew', 'wild']
EPS = 1e-3


def units(tier):
    quick = tier == 'quick'
    out = []
    for lat in LATS:
        out.append(['basis', lat, 1, 4 if lat != 'wild' or not quick else 2])
        out.append(['basis', lat, 2, 2 if quick else 4])
    for name in sorted(PARENTS):
        for n in range(1, 3 if quick else 5):
            if n * len(PARENTS[name][1]) <= (4 if quick else 8):
                out.append(['super', name, n])
    for lat in ('cubP', 'hexP', 'tric'):
        for i in range(3):
            out.append(['edited', lat, i])
    for b in sorted(BASES):
        out.append(['reuse', b])
    out.append(['exact'])
    out.append(['reject'])
    return out


def dists(cr, centre):
    """distance of the nearest image of each site to the centre"""
    out = []
    for p, _ in cr.sites:
        d2 = X.min_image_d2(cr.gram, tuple(a - b for a, b in zip(p, centre)))
        out.append(sqrt(float(d2)))
    return out


def make(cr, variant):
    """ModifiedCell and the model site of each of its sites"""
    from ababe.stru.scaffold import ModifiedCell
    lat, pos, num = cr.arrays(variant)
    m = ModifiedCell(lat, pos, num)
    idx = X.match_sites(pos.tolist(), [0] * len(pos), [(p, 0) for p, _ in cr.sites], 1e-6)
    return m, idx


def radii(ds, big):
    vals = sorted(set(round(d, 6) for d in ds))
    out = [0.0] + ([big] if big else [])
    for v in vals:
        out.append(v + EPS)
        if v > 2 * EPS:
            out.append(v - EPS)
    return [r for r in out if all(abs(r - d) > EPS / 2 for d in ds) or r == 0.0]


def remaining(m):
    return sorted((tuple(round(x, 7) for x in s.position), int(s.element.Z)) for s in m)


def verify(cr, variant, centres, R, tag, clar=True):
    from ababe.stru.element import Specie
    from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier
    m, idx = make(cr, variant)
    zs = sorted(set(z for _, z in cr.sites))
    ds = {c: dists(cr, c) for c in centres}
    big = 2.2 * max(sqrt(float(cr.gram[i][i])) for i in range(3)) if len(cr.sites) <= (1 if R.quick else 2) else None
    for ci, c in enumerate(centres):
        shift = [(0, 0, 0), (1, 0, -1), (-2, 1, 0)][ci % 3]
        centre = [float(a) + b for a, b in zip(c, shift)]
        if ci % 2:
            centre = tuple(centre)
        rs = radii(ds[c], big)
        for r in rs if len(rs) < 8 or not R.quick else rs[:4] + rs[4::3]:
            for z in [None] + zs + ([74] if r == rs[-1] else []):
                got = m.get_points_incell_insphere(centre, r, None if z is None
                                                   else Specie.from_num(z))
                want = {i for i in range(len(m))
                        if ds[c][idx[i]] < r and (z is None or cr.sites[idx[i]][1] == z)}
                R.check(set(got.keys()) == want and
                        all(got[i] == m[i] for i in want), 'sphere query is wrong',
                        lambda: {'cell': cr.describe(), 'centre': centre, 'r': r, 'element': z,
                                 'got': sorted(got), 'want': sorted(want), 'variant': variant})
                R.trans()
            R.state(tag, variant, c, round(r, 6))
    if not clar:
        return
    # removal around every atom of one element
    alld = {i: dists(cr, p) for i, (p, _) in enumerate(cr.sites)}
    rs = radii([d for v in alld.values() for d in v], None if R.quick else 9.0)
    if R.quick and len(rs) > 4:
        rs = [rs[0], rs[2], rs[len(rs) // 2], rs[-1 - len(tag) % 2]]
    for ze, zr, r in product(zs + [74], [None] + zs + [74], rs):
        if R.quick and variant % 2 and zr is None:
            continue
        if 74 in (ze, zr) and r != rs[-1]:
            continue
        m, idx = make(cr, variant)
        full = remaining(m)
        got = VerboseAtomRemoveClarifier(
            Specie.from_num(ze), r, None if zr is None else Specie.from_num(zr)).clarify(m)
        keep = [i for i in range(len(idx)) if not (
            (zr is None or cr.sites[idx[i]][1] == zr) and
            any(alld[j][idx[i]] < r for j, (_, z) in enumerate(cr.sites) if z == ze))]
        m2, _ = make(cr, variant)
        want = sorted(remaining(m2)[0:0] + [
            (tuple(round(x, 7) for x in m2[i].position), int(m2[i].element.Z)) for i in keep])
        R.check(remaining(got) == want, 'removal around an element is wrong',
                lambda: {'cell': cr.describe(), 'around': ze, 'remove': zr, 'r': r,
                         'before': full, 'left': remaining(got), 'want': want})
        R.state(tag, variant, 'verbose', ze, zr, round(r, 6))
        R.trans()
    for cs in [(c,) for c in centres[:2]] + list(combinations(centres[:3], 2)):
        dd = [d for c in cs for d in ds[c]]
        rr = radii(dd, None)
        for r, zr in product(rr[1:6:2], [None] + zs[:1]):
            m, idx = make(cr, variant)
            before = [(tuple(round(x, 7) for x in s.position), int(s.element.Z)) for s in m]
            got = AtomRemoveClarifier([[float(x) for x in c] for c in cs], r,
                                      None if zr is None else Specie.from_num(zr)).clarify(m)
            want = sorted(before[i] for i in range(len(idx)) if not (
                (zr is None or cr.sites[idx[i]][1] == zr) and
                any(ds[c][idx[i]] < r for c in cs)))
            R.check(remaining(got) == want, 'removal around points is wrong',
                    lambda: {'cell': cr.describe(), 'centres': cs, 'remove': zr, 'r': r,
                             'left': remaining(got), 'want': want})
            R.state(tag, variant, 'points', cs, zr, round(r, 6))
            R.trans()
    R.trace()
    R.sample({'cell': cr.describe(), 'centres': [[str(x) for x in c] for c in centres[:3]]})


def near(lat, pos, centre):
    """distance of the nearest image, by a search over more images than can matter here"""
    best = None
    d0 = [a - b for a, b in zip(pos, centre)]
    d0 = [x - round(x) for x in d0]
    for t in product(range(-2, 3), repeat=3):
        v = [sum((d0[k] + t[k]) * lat[k][j] for k in range(3)) for j in range(3)]
        d = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
        best = d if best is None or d < best else best
    return best


def edited_unit(latname, start, R):
    """What was asked of a cell before it is edited does not show in the answers after."""
    from ababe.stru.element import Specie
    from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier
    from vmc.checks import c16
    lat = LAT[latname][0]
    rows = lat.tolist()
    inv = np.linalg.inv(lat)
    first = c16.START[start]
    centres = [[0.0, 0.0, 0.0], (0.5, 0.5, 0.0), [0.125, 0.625, 1.375]]

    def ask(m, seq, hist, brief=False):
        zs = [None] + sorted(set(z for _, z in seq))[:1 if brief or R.quick else 9]
        for c in centres[:1 if brief else 2 if R.quick else 3]:
            ds = [near(rows, p, c) for p, _ in seq]
            lim = sorted(set(round(d, 5) for d in ds))
            rs = [a + (b - a) / 2 for a, b in zip(lim, lim[1:]) if b - a > 2e-3] + [3.7]
            for r, z in product(rs[-2:-1] if brief else rs[-2:] if R.quick else rs[-4:], zs):
                if any(abs(d - r) < 1e-4 for d in ds):
                    continue
                got = m.get_points_incell_insphere(c, r, None if z is None
                                                   else Specie.from_num(z))
                want = {i for i, (d, s) in enumerate(zip(ds, seq))
                        if d < r and z in (None, s[1])}
                R.check(set(got) == want and all(got[i] is m[i] for i in want),
                        'sphere query after an edit is wrong',
                        {'start': first, 'edits': hist, 'lattice': latname, 'centre': c, 'r': r,
                         'element': z, 'got': sorted(got), 'want': sorted(want)})
                R.trans()

    def play(hist, look):
        m = c16.make(first, lat.copy())
        seq = list(first)
        for k, op in enumerate(hist):
            if look:
                ask(m, seq, hist[:k], True)
            c16.apply(m, op, R, seq)
            seq = c16.model(seq, op, inv)
        return m, seq

    def go(hist):
        for look in (False, True):
            m, seq = play(hist, look)
            ask(m, seq, hist)
            R.state(latname, start, tuple(hist), look)
            R.trace()
        if seq and len(hist) == 1:
            # the clarifiers on a cell with a past
            near_ = [[near(rows, p, q) for q, _ in seq] for p, _ in seq]
            for ze in sorted(set(z for _, z in seq)):
                for r in (1.0, 2.2, 4.1):
                    if any(abs(d - r) < 1e-4 for v in near_ for d in v):
                        continue
                    m, _ = play(hist, True)
                    got = VerboseAtomRemoveClarifier(Specie.from_num(ze), r, None).clarify(m)
                    want = [s for i, s in enumerate(seq) if not any(
                        near_[j][i] < r for j, (_, z) in enumerate(seq) if z == ze)]
                    R.check(len(got) == len(want) and all(c16.same(
                        (tuple(s.position), s.element.Z), w) for s, w in zip(got, want)),
                        'removal around an element after an edit is wrong',
                        lambda: {'start': first, 'edits': hist, 'lattice': latname, 'around': ze,
                                 'r': r, 'left': remaining(got), 'want': want})
                    R.trans()
        if len(hist) < (1 if R.quick else 2):
            for op in c16.ops(len(seq), len(hist) == 0):
                go(hist + [op])
    go([])
    R.sample({'start': first, 'lattice': latname})


def reuse(base, R):
    """The same clarifiers applied to one cell after the other."""
    from ababe.stru.element import Specie
    from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier
    five, seven = Specie.from_num(5), Specie.from_num(7)
    points = [(F(0), F(0), F(1, 8)), (F(5, 8), F(1, 2), F(1, 4))]
    fl = [[float(x) for x in c] for c in points]
    held = [(None, None, r, z, AtomRemoveClarifier(fl, r, z and Specie.from_num(z)))
            for r in (1.3, 2.117, 3.31) for z in (None, 5)]
    held += [(ze, None, r, z, VerboseAtomRemoveClarifier(five if ze == 5 else seven, r,
                                                         z and Specie.from_num(z)))
             for ze in (5, 7) for r in (0.0, 1.9, 2.713) for z in (None, 7)]
    for key, step, cr in tour(bases=[base]):
        at = {c: dists(cr, c) for c in points}
        own = [dists(cr, p) for p, _ in cr.sites]
        for ze, _, r, zr, tool in held:
            ds = [at[c] for c in points] if ze is None else \
                [own[j] for j, (_, z) in enumerate(cr.sites) if z == ze]
            if any(abs(d - r) < 1e-4 for v in ds for d in v if d or r):
                continue
            m, idx = make(cr, 0)
            before = [(tuple(round(x, 7) for x in s.position), int(s.element.Z)) for s in m]
            got = tool.clarify(m)
            want = sorted(before[i] for i in range(len(idx)) if not (
                zr in (None, cr.sites[idx[i]][1]) and any(v[idx[i]] < r for v in ds)))
            R.check(remaining(got) == want, 'a clarifier that was used before removes other atoms',
                    lambda: {'cell': cr.describe(), 'around': ze, 'remove': zr, 'r': r,
                             'step': step, 'left': remaining(got), 'want': want})
            R.state('reuse', key, step, ze, r, zr)
            R.trans()
        R.trace()


def run(unit, R):
    if unit[0] == 'reuse':
        return reuse(unit[1], R)
    from ababe.stru.element import Specie
    from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier
    from ababe.stru.scaffold import ModifiedCell
    if unit[0] == 'edited':
        edited_unit(unit[1], unit[2], R)
    elif unit[0] == 'basis':
        _, lat, k, q = unit
        if k == 1:
            cr = Crystal.of(lat, [(O, 5)])
            verify(cr, 0, grid(q), R, (lat, 1), clar=True)
            cr = Crystal.of(lat, [((F(1, 4), F(1, 2), F(3, 4)), 5)])
            verify(cr, 3, grid(2), R, (lat, 1, 'shifted'), clar=True)
            return
        for i, p in enumerate(x for x in grid(q) if x != O):
            for z in (5, 7):
                cr = Crystal.of(lat, [(O, 5), (p, z)])
                mid = tuple(x / 2 for x in p)
                verify(cr, (0, 1, 2, 3, 5)[i % 5], ([p] if R.quick else [O, p]) + [mid, (F(1, 4), F(1, 8), F(7, 8))], R, (lat, p, z))
    elif unit[0] == 'super':
        base = Crystal.parent(unit[1])
        for i, h in enumerate(X.all_hnfs(unit[2])):
            cr = base.super(h)
            k = len(cr.sites)
            sites = [(p, z if (j + i) % 3 else 50) for j, (p, z) in enumerate(cr.sites)]
            cr = Crystal(cr.rows, cr.gram, sites)
            cs = [sites[j][0] for j in range(min(k, 2))] + [(F(1, 8), F(3, 8), F(5, 8))]
            verify(cr, (0, 1, 2, 3, 5)[i % 5], cs, R, (unit[1], h), clar=not R.quick or i % 3 == 0)
    elif unit[0] == 'exact':
        # distances the arithmetic represents exactly: the radius itself is outside
        for name in ('cubP', 'tetP', 'ortP'):
            for p in grid(4):
                if sum(1 for x in p if x) > 1:
                    continue
                cr = Crystal.of(name, [(O, 5), (p, 7)] if p != O else [(O, 5)])
                m, idx = make(cr, 0)
                for i, d in enumerate(dists(cr, O)):
                    if d == 0 or d != int(d * 4) / 4.0:
                        continue
                    got = m.get_points_incell_insphere([0.0, 0.0, 0.0], d)
                    R.check(idx.index(i) not in got, 'a site at distance r is inside the sphere',
                            {'cell': cr.describe(), 'r': d})
                    R.state(name, p, d)
                    R.trans()
        R.trace()
    else:
        for cr in (Crystal.parent('zns'), Crystal.parent('cscl')):
            for c in (AtomRemoveClarifier([[0, 0, 0]], 1.0, Specie('S')),
                      VerboseAtomRemoveClarifier(Specie('Zn'), 1.0, Specie('S'))):
                for bad in (cr.cell(0), None, [1, 2], 'POSCAR'):
                    try:
                        c.clarify(bad)
                    except ValueError:
                        pass
                    else:
                        R.fail('a clarifier takes something that is no ModifiedCell', repr(bad))
                    R.state(type(c).__name__, type(bad).__name__)
                    R.trans()
        R.trace()
