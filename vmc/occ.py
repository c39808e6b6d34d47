# coding: utf-8
"""Shared by the occupation-enumeration checks (C02..C05): parent cells, the model
(colourings of the sites modulo the exact symmetry group) and its comparison."""
from itertools import combinations

from vmc import crystal as X
from vmc.cells import PARENTS, Crystal, site_index, colouring


def diag(a, b, c):
    return ((a, 0, 0), (0, b, 0), (0, 0, c))


# vacancies as a species of the parent
HOLES = [('nacl-G', (1, 1, 2)), ('zns-G', (2, 1, 1)), ('perov-G', (1, 1, 1)), ('perov-g', (1, 1, 1)),
         ('mono3-G', (1, 1, 1)), ('mono3-g', (1, 1, 2)), ('ort2-G', (1, 3, 1)), ('sc-g', (1, 1, 4))]


def cells(max_sites, extra=(), hnf_top=4):
    """[(parent, hnf)] every HNF supercell (index <= hnf_top) of every parent with at
    most max_sites sites, plus some larger ones."""
    out = []
    for name in sorted(PARENTS):
        k = len(PARENTS[name][1])
        for n in range(1, hnf_top + 1):
            if n * k <= max_sites:
                out.extend([name, h] for h in X.all_hnfs(n))
    if max_sites:
        out.extend([name, diag(*d)] for name, d in HOLES if name != 'mono3-g' or max_sites > 5)
    out.extend([name, diag(*d)] for name, d in extra)
    return out


def build(name, h, variant=0):
    """(crystal, cell) of a supercell of a parent, or of a given crystal."""
    cr = name if isinstance(name, Crystal) else Crystal.parent(name).super(h)
    cell = cr.cell(variant)
    return cr, cell


class Model(object):
    """Colourings of the sites of one parent cell modulo its symmetry."""

    def __init__(self, cr, cell, R):
        self.cr = cr
        self.m = site_index(cell, cr.sites, R)
        self.base = tuple(z for _, z in cr.sites)
        self.perms = sorted(cr.perms())
        self._rep = {}
        self.lat = [[float(x) for x in r] for r in cell.lattice.tolist()]
        self.pos = cell.positions.tolist()
        # site 'letters' of the model: orbits of the sites
        self.orbit_of = [min(p[i] for p in self.perms) for i in range(len(self.base))]

    def rep(self, colours):
        r = self._rep.get(colours)
        if r is None:
            orb = {X.colour_apply(p, colours) for p in self.perms}
            r = min(orb)
            for o in orb:
                self._rep[o] = r
        return r

    def put(self, colours, idx, z):
        c = list(colours)
        for i in idx:
            c[i] = z
        return tuple(c)

    def read(self, cell, R, what):
        """Colouring of an output cell; its lattice and sites must be the parent's."""
        pos = cell.positions.tolist()
        R.check(len(pos) == len(self.pos) and len(cell.numbers) == len(self.pos),
                what + ': number of sites changed', {'cell': self.cr.describe()})
        ok = all(abs(a - b) < 1e-9 for r, s in zip(cell.lattice.tolist(), self.lat)
                 for a, b in zip(r, s))
        R.check(ok, what + ': lattice changed', {'cell': self.cr.describe()})
        if all(abs(a - b) < 1e-9 for p, q in zip(pos, self.pos) for a, b in zip(p, q)):
            m = self.m
        else:
            m = site_index(cell, self.cr.sites, R)
        return colouring(cell, m)

    def one_per_orbit(self, got, space, R, what, extra=None):
        """`got` (colourings) holds exactly one member of each orbit of `space`."""
        space = set(space)
        reps = {}
        for c in got:
            R.check(c in space, what + ': a structure outside the requested set',
                    lambda: {'structure': c, 'cell': self.cr.describe(), 'call': extra})
            r = self.rep(c)
            R.check(r not in reps, what + ': two symmetry-equivalent structures',
                    lambda: {'first': reps[r], 'second': c, 'cell': self.cr.describe(),
                             'call': extra})
            reps[r] = c
        want = {self.rep(c) for c in space}
        R.check(set(reps) == want, what + ': a structure is missing',
                lambda: {'missing': sorted(want - set(reps))[:3], 'found': len(reps),
                         'expected': len(want), 'cell': self.cr.describe(), 'call': extra})
        R.outcome(len(want), len(space))
        return len(want)

    def snapshot(self, cell):
        return (cell.lattice.tolist(), cell.positions.tolist(), cell.numbers.tolist())


def subsets(idx, n):
    return combinations(idx, n)


def chunk(lst, n):
    """Deal lst into n units of similar weight."""
    return [lst[i::n] for i in range(n) if lst[i::n]]
