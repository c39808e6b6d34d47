# coding: utf-8
"""C18: perturb() and translate_sites() move sites by exact Cartesian displacements."""
from itertools import product
from math import sqrt

import numpy as np

from vmc.cells import LAT
from vmc.explore import explore
from vmc.seam import replaced

ID = 'C18'
RULE = {
    'quick': 'perturb: every sequence of random draws out of 9 vectors (the zero vector, axes, '
             'generic, tiny, huge) for cells of 1..2 sites (3 sites: at most 2 non-default draws) '
             'on 6 lattices x 5 distances; translate: every pair of translations out of 4 vectors '
             'x every site on 16 lattices',
    'thorough': '16 lattices, 3 sites with every draw, triples of translations',
}
ASSUMPTIONS = ['the random source is numpy.random (randn, normal, standard_normal); a cell that '
               'draws otherwise is still judged, on the draws it makes']
DRAWS = [(0.3, -1.2, 0.7), (0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, 2.0),
         (-0.5, 0.5, 0.5), (1e-7, -2e-7, 1e-7), (40.0, 30.0, -20.0), (-1.0, -1.0, 0.0)]
DIST = [0.2, 0.0, 0.05, 1.0, 3.5]
POS = [(0.0, 0.0, 0.0), (0.25, 0.5, 0.75), (-0.5, 1.25, 0.125)]
NUM = [30, 16, 0]
LATS = ['cubP', 'fcc', 'hexP', 'mono', 'tric', 'skew', 'wild']
VECS = [(0.5, 0.0, 0.0), (0.0, -1.25, 2.0), (-0.1, 0.2, -0.3), (0.0, 0.0, 0.0)]


def units(tier):
    out = []
    for lat in LATS if tier == 'quick' else sorted(LAT):
        for n in (1, 2, 3):
            for d in range(len(DIST)):
                out.append(['perturb', lat, n, d])
    out += [['translate', lat] for lat in sorted(LAT)]
    return out


def make(lat, n):
    from ababe.stru.scaffold import ModifiedCell
    return ModifiedCell(lat, np.array(POS[:n]), np.array(NUM[:n]))


def cart(lat, f):
    return [float(sum(f[k] * lat[k][j] for k in range(3))) for j in range(3)]


class Draws(object):
    """numpy.random stand-ins that answer with a chosen row per vector."""

    def __init__(self, ch):
        self.ch = ch
        self.rows = []
        self.zeros = 0

    def row(self):
        # at most three zero vectors in a row, so that the history is finite
        j = self.ch.choose(len(DRAWS))
        if DRAWS[j] == (0.0, 0.0, 0.0):
            self.zeros += 1
            if self.zeros > 2:
                j = 0
        self.rows.append(DRAWS[j])
        return list(DRAWS[j])

    def fill(self, shape):
        if shape is None or shape == ():
            return self.row()[0]
        if isinstance(shape, int):
            shape = (shape,)
        if shape[-1] == 3:
            n = 1
            for s in shape[:-1]:
                n *= s
            return np.array([self.row() for _ in range(n)]).reshape(shape)
        n = 1
        for s in shape:
            n *= s
        vals = []
        while len(vals) < n:
            vals += self.row()
        return np.array(vals[:n]).reshape(shape)

    def randn(self, *shape):
        return self.fill(shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.fill(size)

    def standard_normal(self, size=None):
        return self.fill(size)

    def fakes(self):
        return {k: getattr(self, k) for k in ('randn', 'normal', 'standard_normal')}


def perturb_unit(latname, n, d, R):
    lat = LAT[latname][0]
    rows = lat.tolist()
    dist = DIST[d]

    def body(ch):
        dr = Draws(ch)
        m = make(lat, n)
        with replaced(np.random, dr.fakes()):
            if dist == 0.2 and len(ch.prefix) % 2:
                m.perturb()
            else:
                m.perturb(dist)
        moves = []
        R.check(len(m) == n and m.numbers.tolist() == NUM[:n] and
                np.array_equal(m.lattice, lat), 'perturb() changed more than the positions')
        for i in range(n):
            delta = cart(rows, [a - b for a, b in zip(m[i].position, POS[i])])
            length = sqrt(sum(x * x for x in delta))
            R.check(abs(length - dist) < 1e-7, 'a site is not moved by the given distance',
                    lambda: {'lattice': latname, 'site': i, 'distance': dist, 'moved': length,
                             'draws': dr.rows})
            moves.append(tuple(round(float(x), 6) + 0.0 for x in delta))
        R.trans(n)
        # the draws that count, one per site
        eff = [r for r in dr.rows if any(r)]
        if len(eff) == n and dist:
            for mv, r in zip(moves, eff):
                k = sqrt(sum(x * x for x in r))
                R.check(all(abs(a - b / k * dist) < 1e-5 for a, b in zip(mv, r)),
                        'a site is not moved along its own random vector',
                        lambda: {'moves': moves, 'draws': dr.rows})
        return tuple(moves)

    bound = None if n < 3 or not R.quick else 2
    joint = set()
    for ch, moves in explore(body, bound=bound):
        joint.add(moves)
        R.state(latname, n, d, tuple(ch))
        R.outcome(moves)
        R.trace()
    if dist:
        # no two sites share their vector
        for i in range(n):
            for j in range(i):
                R.check(any(mv[i] != mv[j] for mv in joint),
                        'two sites are always moved by the same vector',
                        {'lattice': latname, 'sites': (j, i), 'draws': len(joint)})
    R.sample({'lattice': latname, 'distance': dist, 'choices': ch})


def translate_unit(latname, R):
    lat = LAT[latname][0]
    rows = lat.tolist()
    n = 3
    steps = [(i, v) for i in range(n) for v in VECS]
    for hist in product(steps, repeat=2 if R.quick else 3):
        m = make(lat, n)
        want = [cart(rows, p) for p in POS]
        for i, v in hist:
            m.translate_sites(i, np.array(v))
            want[i] = [a + b for a, b in zip(want[i], v)]
            got = [cart(rows, s.position) for s in m]
            R.check(all(abs(a - b) < 1e-8 for p, q in zip(got, want) for a, b in zip(p, q)),
                    'translate_sites() does not move the one site by the Cartesian vector',
                    lambda: {'lattice': latname, 'history': hist, 'got': got, 'want': want})
            R.trans()
        R.check(m.numbers.tolist() == NUM[:n] and np.array_equal(m.lattice, lat),
                'translate_sites() changed more than a position')
        R.state(latname, hist)
        R.trace()
    # the conversions used are inverse to each other
    m = make(lat, 1)
    for p in product((-1.25, 0.0, 0.3, 0.5), repeat=3):
        c = m.get_cartesian_from_frac(np.array(p))
        R.check(all(abs(a - b) < 1e-9 for a, b in zip(c, cart(rows, p))) and
                all(abs(a - b) < 1e-9 for a, b in zip(m.get_frac_from_cart(c), p)),
                'fractional / Cartesian conversion is wrong', {'lattice': latname, 'p': p})
        R.state(latname, 'conv', p)
        R.trans(2)


def run(unit, R):
    if unit[0] == 'perturb':
        perturb_unit(unit[1], unit[2], unit[3], R)
    else:
        translate_unit(unit[1], R)
