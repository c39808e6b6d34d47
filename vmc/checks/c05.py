# coding: utf-8
"""C05: the building blocks of the enumeration: raw enumerators, one-more-site steps,
duplicate filter, equivalence test."""
from itertools import product

from vmc.occ import cells, build, Model, subsets, chunk, diag

ID = 'C05'
RULE = {
    'quick': 'raw enumerators and one-more-site steps: every HNF supercell (index <= 4, <= 5 '
             'sites) of 25 parents (8 more with vacancies) and 5 cells of 8..12 sites, every subset size; duplicate '
             'filter: every input sequence of length <= 3 over all 2-colourings of 4-site cells '
             'and every ordered full listing rotation; equivalence: all ordered pairs of '
             '3-colourings of cells with <= 4 sites',
    'thorough': 'index <= 6 with <= 7 sites; filter sequences of length <= 4; equivalence on '
                'cells with <= 5 sites',
}
ASSUMPTIONS = ['substituting species not yet on the substituted sites for the raw enumerators']

BIG = [('sc', (2, 2, 2)), ('nacl', (2, 2, 1)), ('perov', (2, 1, 1)), ('fcc', (3, 2, 2)), ('pmmm', (1, 1, 1))]
SEQ = [('sc', (2, 2, 1)), ('nacl', (2, 1, 1)), ('graph', (1, 2, 1)), ('sc', (1, 1, 4)),
       ('tric2', (1, 2, 1)), ('mono1', (2, 2, 1))]
EQV = [('sc', (2, 2, 1)), ('hcp', (1, 1, 1)), ('nacl', (1, 1, 2)), ('mono3', (1, 1, 1)),
       ('chir', (1, 1, 1)), ('sc', (1, 1, 4)), ('bcc', (1, 2, 2)), ('tet2', (1, 2, 1))]


def units(tier):
    quick = tier == 'quick'
    out = []
    for name, d in SEQ:
        for part in range(8):
            out.append(['filter', name, d, 3 if quick else 4, part, 8])
    for name, d in EQV + ([] if quick else [('perov', (1, 1, 1)), ('sc', (1, 1, 5))]):
        out.append(['equiv', name, d])
    out += [['raw', x] for x in chunk(cells(5 if quick else 7, BIG, 4 if quick else 6),
                                      32 if quick else 120)]
    return out


def raw(name, h, variant, R, salt):
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.element import Specie
    from ababe.stru.scaffold import GeneralCell
    cr, cell = build(name, h, variant)
    M = Model(cr, cell, R)
    k = len(M.base)
    before = M.snapshot(cell)
    gen = OccupyGenerator(cell)
    spn = ['G', 'Bi', 'Mg'][salt % 3]
    if spn == 'G' and 0 in M.base:
        spn = 'Bi'
    sp = Specie.from_num(0) if spn == 'G' else Specie(spn)
    z = sp.Z
    wy = list(cell.get_wyckoffs())
    letters = {}
    for i, w in enumerate(wy):
        letters.setdefault(w, []).append(M.m[i])
    calls = [('gen_dup_unitary', lambda n: gen.gen_dup_unitary(n, sp), list(range(k)))]
    for e in sorted(set(M.base)):
        calls.append(('gen_dup_of_ele', lambda n, e=e: gen.gen_dup_of_ele(Specie.from_num(e), n, sp),
                      [i for i in range(k) if M.base[i] == e]))
    for w in sorted(letters):
        calls.append(('gen_dup', lambda n, w=w: gen.gen_dup(w, n, sp), sorted(letters[w])))
    for what, call, idx in calls:
        for n in range(0, min(len(idx), k if k <= 8 else 2) + 1):
            got = [M.read(c, R, what) for c in call(n)]
            want = [M.put(M.base, s, z) for s in subsets(idx, n)]
            R.check(sorted(got) == sorted(want),
                    what + ': not every choice of sites exactly once',
                    {'cell': [name, h], 'n': n, 'got': len(got), 'want': len(want)})
            R.state(name, h, variant, what, tuple(idx), n)
            R.trans(len(want))
            R.trace()
    # one more site: from every set of one or two parent structures
    def mk(colours):
        nums = cell.numbers.copy()
        for i, j in enumerate(M.m):
            nums[i] = colours[j]
        return GeneralCell(cell.lattice, cell.positions, nums)

    steps = [('unitary', lambda g: gen.gen_add_one_speckle_unitary(g, sp), list(range(k)))]
    for e in sorted(set(M.base)):
        steps.append(('ele', lambda g, e=e: gen.gen_add_one_speckle_of_ele(g, Specie.from_num(e), sp),
                      [i for i in range(k) if M.base[i] == e]))
    for w in sorted(letters):
        steps.append(('wy', lambda g, w=w: gen.gen_add_one_speckle(g, w, sp), sorted(letters[w])))
    for what, call, idx in steps:
        singles = [M.put(M.base, s, z) for n in range(0, min(3, len(idx)) + 1)
                   for s in subsets(idx, n)]
        inputs = [[c] for c in singles]
        inputs += [[a, b] for a in singles for b in singles] if len(singles) <= 8 else \
            [[singles[0], singles[-1]], singles[:4], singles]
        for inp in inputs:
            given = [mk(c) for c in inp]
            snap = [M.snapshot(c) for c in given]
            got = [M.read(c, R, what) for c in call(iter(given))]
            want = set()
            for c in inp:
                for i in idx:
                    if c[i] != z:
                        want.add(M.put(c, [i], z))
            R.check(sorted(got) == sorted(want),
                    'one more site (%s): not every successor exactly once' % what,
                    lambda: {'cell': [name, h], 'input': inp, 'got': sorted(got),
                             'want': sorted(want)})
            R.check([M.snapshot(c) for c in given] == snap, 'an input structure was modified',
                    {'cell': [name, h]})
            R.state(name, h, variant, 'add', what, tuple(idx), tuple(inp))
            R.trans(len(want))
            R.trace()
    R.check(M.snapshot(cell) == before, 'the parent cell was modified', {'cell': [name, h]})


def filt(name, d, depth, part, parts, R):
    """The duplicate filter on every input sequence."""
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.scaffold import GeneralCell
    from ababe.stru.element import Specie
    cr, cell = build(name, diag(*d), 0)
    M = Model(cr, cell, R)
    k = len(M.base)
    gen = OccupyGenerator(cell)
    z = 83

    def mk(colours):
        nums = cell.numbers.copy()
        for i, j in enumerate(M.m):
            nums[i] = colours[j]
        return GeneralCell(cell.lattice, cell.positions, nums)

    alpha = [M.put(M.base, [i for i in range(k) if b[i]], z) for b in product((0, 1), repeat=k)]
    pool = {c: mk(c) for c in alpha}
    seqs = []
    for n in range(0, depth + 1):
        seqs.extend(product(alpha, repeat=n))
    for r in range(len(alpha)):
        seqs.append(tuple(alpha[r:] + alpha[:r]))
        seqs.append(tuple((alpha[r:] + alpha[:r])[::-1]) * 2)
    for i, seq in enumerate(seqs):
        if i % parts != part:
            continue
        got = [M.read(c, R, 'filter') for c in gen.gen_2nodup_gen(iter([pool[c] for c in seq]))]
        M.one_per_orbit(got, seq, R, 'gen_2nodup_gen', {'sequence': seq})
        first = {}
        for c in seq:
            first.setdefault(M.rep(c), c)
        R.check(sorted(got) == sorted(first.values()),
                'gen_2nodup_gen: not the first representative of every class',
                {'sequence': seq, 'got': got})
        R.state(name, d, i)
        R.trans(len(seq))
        R.trace()
        R.sample({'cell': [name, d], 'sequence': seq, 'kept': got})


def equiv(name, d, R):
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.scaffold import GeneralCell
    cr, cell = build(name, diag(*d), 0)
    M = Model(cr, cell, R)
    k = len(M.base)
    gen = OccupyGenerator(cell)
    alpha = sorted(product((0, 5, 83), repeat=k))
    if k > 4:
        alpha = sorted(product((0, 83), repeat=k))
    pool = []
    for c in alpha:
        nums = cell.numbers.copy()
        for i, j in enumerate(M.m):
            nums[i] = c[j]
        pool.append(GeneralCell(cell.lattice, cell.positions, nums))
    for a, ca in zip(alpha, pool):
        for b, cb in zip(alpha, pool):
            want = M.rep(a) == M.rep(b)
            got = bool(gen.is_equivalent(ca, cb))
            R.check(got == want, 'is_equivalent is wrong',
                    {'a': a, 'b': b, 'cell': [name, d], 'got': got})
            R.trans()
        R.state(name, d, a)
        R.trace()
    # two cells that take one occupation after the other
    x, y = pool[0], GeneralCell(cell.lattice, cell.positions, cell.numbers.copy())
    walk = sorted(alpha, key=lambda a: (M.rep(a), a))
    for step, a in enumerate(walk):
        nums = cell.numbers.copy()
        for i, j in enumerate(M.m):
            nums[i] = a[j]
        p, q = (x, y) if step % 2 else (y, x)
        p.numbers = nums
        b = walk[step - 1] if step else alpha[0]
        want = M.rep(a) == M.rep(b)
        # the one that is changed next comes first in the last test
        for s, t in ((p, q), (q, p)):
            R.check(bool(gen.is_equivalent(s, t)) == want,
                    'is_equivalent is wrong after the numbers were reassigned',
                    {'a': a, 'b': b, 'cell': [name, d], 'step': step})
            R.trans()


def run(unit, R):
    if unit[0] == 'raw':
        for i, (name, h) in enumerate(unit[1]):
            raw(name, tuple(map(tuple, h)), i % 7, R, i)
    elif unit[0] == 'filter':
        filt(*(unit[1:] + [R]))
    else:
        equiv(unit[1], unit[2], R)
