# coding: utf-8
"""C03: two-species substitution is complete and irredundant."""
from itertools import product

from vmc.occ import cells, build, Model, subsets, chunk

ID = 'C03'
RULE = {
    'quick': 'every HNF supercell (index <= 4) with <= 5 sites of 25 parent crystals (8 more with vacancies) and 6 cells '
             'of 6..8 sites; whole cell and every target element; every pair (n1, n2) that fits (n1 + n2 <= 5 on the larger)',
    'thorough': 'HNF supercells of index <= 8 with <= 8 sites, 9 cells of 6..12 sites',
}
ASSUMPTIONS = ['the two substituting species differ and are not yet on the target sites',
               'reference: explicit orbits of all colourings under the exact symmetry group']

BIG = [('sc', (2, 2, 2)), ('nacl', (2, 2, 1)), ('graph', (3, 1, 1)), ('tet2', (2, 2, 1)),
       ('hcp', (2, 2, 1)), ('chir', (2, 1, 1))]
HUGE = [('sc', (3, 3, 1)), ('perov', (2, 1, 1)), ('fcc', (2, 2, 3))]


def units(tier):
    if tier == 'quick':
        return [['one', c[0], c[1], 5, 0] for c in cells(0, BIG)] + \
            [['many', x] for x in chunk(cells(5), 32)]
    return [['one', c[0], c[1], 6, v] for c in cells(0, BIG + HUGE) for v in range(4)] + \
        [['many', x] for x in chunk(cells(8, hnf_top=8), 200)]


PAIRS = [('Ti', 'G'), ('G', 'Sn'), ('Ga', 'Nb'), ('Pb', 'Be')]


def explore(name, h, variant, R, nmax, salt):
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.element import Specie
    cr, cell = build(name, h, variant)
    M = Model(cr, cell, R)
    k = len(M.base)
    before = M.snapshot(cell)
    gen = OccupyGenerator(cell)
    names = PAIRS[salt % len(PAIRS)]
    s1, s2 = [Specie.from_num(0) if x == 'G' else Specie(x) for x in names]
    if s1.Z in M.base or s2.Z in M.base:
        s1, s2 = Specie('Ru'), Specie('Te')
    targets = [None] + (sorted(set(M.base)) if len(set(M.base)) > 1 else [M.base[0]])
    for t in targets:
        idx = [i for i, c in enumerate(M.base) if t is None or c == t]
        for n1 in range(0, len(idx) + 1):
            for n2 in range(0, len(idx) - n1 + 1):
                if n1 + n2 > nmax:
                    continue
                if t is None:
                    g = gen.gen_nodup_trinary_alloy(s1, n1, s2, n2)
                else:
                    g = gen.gen_nodup_trinary_alloy(s1, n1, s2, n2, Specie.from_num(t))
                got = [M.read(c, R, 'gen_nodup_trinary_alloy') for c in g]
                space = []
                for a in subsets(idx, n1):
                    rest = [i for i in idx if i not in a]
                    c1 = M.put(M.base, a, s1.Z)
                    for b in subsets(rest, n2):
                        space.append(M.put(c1, b, s2.Z))
                cnt = M.one_per_orbit(got, space, R, 'gen_nodup_trinary_alloy',
                                      {'n1': n1, 'n2': n2, 'sp': names, 'target': t})
                R.state(name, h, variant, t, n1, n2)
                R.trans(len(space))
                R.trace()
                R.sample({'cell': [name, h], 'n1': n1, 'n2': n2, 'target': t,
                          'structures': cnt, 'colourings': len(space)})
    # a substituting species that sits on other, untouched sites already
    for t, o in product(sorted(set(M.base)), repeat=2):
        idx = [i for i, c in enumerate(M.base) if c == t]
        if t == o or (R.quick and len(idx) > 6):
            continue
        for a, b in ((o, 83), (83, o)):
            for n1, n2 in ((0, 1), (1, 0), (1, 1), (1, 2), (2, 1)):
                if n1 + n2 > len(idx):
                    continue
                got = [M.read(c, R, 'gen_nodup_trinary_alloy') for c in
                       gen.gen_nodup_trinary_alloy(Specie.from_num(a), n1, Specie.from_num(b),
                                                   n2, Specie.from_num(t))]
                space = [M.put(M.put(M.base, x, a), y, b) for x in subsets(idx, n1)
                         for y in subsets([i for i in idx if i not in x], n2)]
                M.one_per_orbit(got, space, R, 'gen_nodup_trinary_alloy',
                                {'n1': n1, 'n2': n2, 'species': [a, b], 'target': t})
                R.state(name, h, variant, 'other', t, a, b, n1, n2)
                R.trans(len(space))
    R.check(M.snapshot(cell) == before, 'the parent cell was modified', {'cell': [name, h]})


def run(unit, R):
    if unit[0] == 'one':
        _, name, h, nmax, v = unit
        explore(name, tuple(map(tuple, h)), v, R, nmax, h[0][0] + h[1][1])
    else:
        for i, (name, h) in enumerate(unit[1]):
            for v in ([i % 7] if R.quick else (0, 1, 2, 4, 5, 6)):
                explore(name, tuple(map(tuple, h)), v, R, 99, i)
