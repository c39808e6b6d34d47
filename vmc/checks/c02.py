# coding: utf-8
"""C02: one-shot non-duplicate substitution is complete and irredundant."""
from vmc.occ import cells, build, Model, subsets, chunk
from vmc.twins import BASES, tour

ID = 'C02'
RULE = {
    'quick': 'every HNF supercell (index <= 4) with <= 6 sites of 25 parent crystals (8 more with vacancies), plus 11 '
             'cells of 8..16 sites; every target element / Wyckoff letter / whole cell; every '
             'number of substituted sites (0..all; <= 4 above 10 sites)',
    'thorough': 'HNF supercells of index <= 8 with <= 9 sites, cells up to 18 sites',
}
ASSUMPTIONS = ['the substituting species is not yet on the substituted sites',
               'reference: explicit orbits of all colourings under the exact symmetry group']

BIG = [('sc', (2, 2, 2)), ('nacl', (2, 2, 1)), ('zns', (2, 2, 1)), ('graph', (2, 2, 1)),
       ('perov', (2, 1, 1)), ('fcc', (3, 2, 2)), ('hcp', (2, 2, 1)), ('bcc', (2, 2, 3)),
       ('chir', (2, 2, 1)), ('mono3', (1, 2, 2)), ('pmmm', (1, 1, 1))]
HUGE = [('sc', (2, 2, 4)), ('nacl', (2, 2, 2)), ('hex1', (3, 3, 1)), ('sc', (3, 3, 1)),
        ('dia', (2, 2, 2)), ('perov', (3, 1, 1))]


def units(tier):
    if tier == 'quick':
        cs = cells(6)
        big = BIG + [('sc', (2, 2, 4))]
        return [['one', c[0], c[1], 4, 0] for c in cells(0, big)] + \
            [['many', x] for x in chunk(cs, 40)] + [['twins', b] for b in sorted(BASES)]
    cs = cells(9, hnf_top=8)
    return [['one', c[0], c[1], 6, v] for c in cells(0, BIG + HUGE) for v in range(4)] + \
        [['many', x] for x in chunk(cs, 200)] + [['twins', b] for b in sorted(BASES)]


SPECKLES = ['G', 'Bi', 'H', 'Au']


def explore(name, h, variant, R, nmax, salt):
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.element import Specie
    cr, cell = build(name, h, variant)
    if not isinstance(name, str):
        name = 'twins'
    M = Model(cr, cell, R)
    k = len(M.base)
    before = M.snapshot(cell)
    gen = OccupyGenerator(cell)
    sp_name = SPECKLES[salt % len(SPECKLES)]
    if sp_name == 'G' and 0 in M.base:
        sp_name = 'Bi'
    sp = Specie(sp_name) if sp_name != 'G' else Specie.from_num(0)
    z = sp.Z
    top = k if k <= 10 else min(k, nmax)

    def one(call, idx, n, what):
        got = [M.read(c, R, what) for c in call()]
        space = [M.put(M.base, s, z) for s in subsets(idx, n)]
        cnt = M.one_per_orbit(got, space, R, what, {'n': n, 'sp': sp_name, 'sites': len(idx)})
        R.state(name, h, variant, what, tuple(idx), n, z)
        R.trans(len(space))
        R.trace()
        R.sample({'call': what, 'cell': [name, h], 'n': n, 'structures': cnt,
                  'colourings': len(space)})

    for n in range(0, top + 1):
        one(lambda: gen.gen_nodup_unitary(n, sp), list(range(k)), n, 'gen_nodup_unitary')
    for ez in sorted(set(M.base)):
        idx = [i for i, c in enumerate(M.base) if c == ez]
        ele = Specie.from_num(ez)
        for n in range(0, min(top, len(idx)) + 1):
            one(lambda: gen.gen_nodup_of_ele(ele, n, sp), idx, n, 'gen_nodup_of_ele')
    # target element -> another element already in the cell
    others = sorted(set(M.base))
    if len(others) > 1:
        for a in others:
            b = [x for x in others if x != a][0]
            idx = [i for i, c in enumerate(M.base) if c == a]
            for n in range(1, min(top, len(idx)) + 1):
                got = [M.read(c, R, 'gen_nodup_of_ele')
                       for c in gen.gen_nodup_of_ele(Specie.from_num(a), n, Specie.from_num(b))]
                space = [M.put(M.base, s, b) for s in subsets(idx, n)]
                M.one_per_orbit(got, space, R, 'gen_nodup_of_ele', {'ele': a, 'sp': b, 'n': n})
                R.state(name, h, variant, 'of_ele', a, b, n)
                R.trans(len(space))
    wy = list(cell.get_wyckoffs())
    letters = {}
    for i, w in enumerate(wy):
        letters.setdefault(w, []).append(M.m[i])
    for w in sorted(letters):
        idx = sorted(letters[w])
        for n in range(0, min(top, len(idx)) + 1):
            one(lambda: gen.gen_nodup(w, n, sp), idx, n, 'gen_nodup')
    R.check(M.snapshot(cell) == before, 'the parent cell was modified', {'cell': [name, h]})
    # asking again gives the same answer (no hidden state)
    n = min(2, top)
    a = sorted(M.rep(M.read(c, R, 'again')) for c in gen.gen_nodup_unitary(n, sp))
    b = sorted(M.rep(M.read(c, R, 'again')) for c in OccupyGenerator(cell).gen_nodup_unitary(n, sp))
    R.check(a == b, 'a generator that was used before answers differently', {'cell': [name, h]})


def run(unit, R):
    if unit[0] == 'one':
        _, name, h, nmax, v = unit
        explore(name, tuple(map(tuple, h)), v, R, nmax, len(h[0]) + h[0][0])
    elif unit[0] == 'twins':
        for key, step, cr in tour(lats=['cubP', 'ortP', 'hexP', 'tetP'], bases=[unit[1]]):
            explore(cr, (key, step), 0, R, 2, 2)
    else:
        for i, (name, h) in enumerate(unit[1]):
            h = tuple(map(tuple, h))
            for v in ([i % 7] if R.quick else (0, 1, 2, 4, 5, 6)):
                explore(name, h, v, R, 99, i)
