# coding: utf-8
"""Comparison of the structures a command wrote with the orbits it has to write."""
from math import sqrt
import os

from vmc import crystal as X
from vmc.cells import Crystal
from vmc.checks.c12 import min_d2
from vmc.isometry import same_crystal
from vmc.iokit import Z


def satisfies(cr, colours, trs):
    for ele, d in trs:
        pts = [p for (p, _), c in zip(cr.sites, colours) if c == Z[ele]]
        if not pts:
            continue
        m = sqrt(float(min_d2(cr.gram, pts)))
        assert abs(m - d) > 1e-2, 'threshold too close to a distance'
        if not m > d:
            return False
    return True


class Orbits(object):
    """Colourings of the sites of cr modulo its symmetry."""

    def __init__(self, cr):
        self.cr = cr
        self.perms = sorted(cr.perms())
        self.base = tuple(z for _, z in cr.sites)
        self._iso = {}

    def rep(self, col):
        return min(X.colour_apply(p, col) for p in self.perms)

    def wanted(self, colourings, mpr, trs):
        out = []
        for r in sorted(set(self.rep(c) for c in colourings)):
            if mpr and len(X.pure_translations(
                    [(p, c) for (p, _), c in zip(self.cr.sites, r)])) > 1:
                continue
            if satisfies(self.cr, r, trs):
                out.append(r)
        return out

    def atoms(self, col, vacancies):
        return [(p, c) for (p, _), c in zip(self.cr.sites, col) if c or vacancies]

    def _same(self, col, rows, at, vacancies):
        key = (col, vacancies)
        if key not in self._iso:
            a = self.atoms(col, vacancies)
            self._iso[key] = ([p for p, _ in a], [c for _, c in a],
                              sorted(X.pure_translations(a)) if a else [])
        p, n, t = self._iso[key]
        if sorted(set(n)) != sorted(set(z for _, z in at)):
            return False
        return same_crystal(self.cr.rows, p, n, t, rows, [q for q, _ in at],
                            [z for _, z in at], tol=8e-3)

    def judge(self, got, want, refined, vacancies, R, what, info):
        """got: [(rows, atoms)], want: orbit representatives, one structure each."""
        R.check(len(got) == len(want), what + ': wrong number of structures',
                lambda: dict(info, got=len(got), want=len(want)))
        left = {}
        if not refined:
            # sites are those of the parent: exact orbits (vacancies in a POSCAR are gaps)
            for rows, at in got:
                ok = all(abs(a - b) < 1e-3 for r, s in zip(rows, self.cr.rows.tolist())
                         for a, b in zip(r, s))
                R.check(ok, what + ': the lattice of a structure is not the parent\'s',
                        lambda: dict(info, lattice=rows))
                col = [0] * len(self.base)
                for p, z in at:
                    hit = None
                    for j, (q, _) in enumerate(self.cr.sites):
                        d = [a - float(b) for a, b in zip(p, q)]
                        if all(abs(x - round(x)) < 1e-3 for x in d):
                            hit = j
                    R.check(hit is not None and col[hit] == 0, what + ': an atom lies off the '
                            'sites of the parent', lambda: dict(info, atom=(p, z)))
                    col[hit] = z
                r = self.rep(tuple(col))
                left[r] = left.get(r, 0) + 1
            w = {}
            for r in want:
                r = self.rep(r)
                w[r] = w.get(r, 0) + 1
            R.check(left == w, what + ': not one structure of each kind',
                    lambda: dict(info, missing=[r for r in w if r not in left][:3],
                                 extra=[r for r in left if left[r] > w.get(r, 0)][:3]))
            return
        # refined cells: match up to isometry; each wanted one exactly once
        todo = list(want)
        for rows, at in got:
            for i, r in enumerate(todo):
                if self._same(r, rows, at, vacancies):
                    del todo[i]
                    break
            else:
                R.fail(what + ': a structure that is none of those wanted (or twice the same)',
                       dict(info, lattice=rows, atoms=at, unmatched=todo[:4]))
        R.check(not todo, what + ': a structure is missing', lambda: dict(info, missing=todo[:3]))
