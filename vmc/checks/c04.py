# coding: utf-8
"""C04: level-by-level substitution: each level complete and irredundant, however the
levels are read."""
from itertools import combinations

from vmc.occ import cells, build, Model, subsets, chunk, diag

ID = 'C04'
RULE = {
    'quick': 'levels: every HNF supercell (index <= 4) with <= 5 sites of 25 parents (8 more with vacancies) and 9 cells '
             'of 6..9 sites, whole cell / every element / every Wyckoff letter, up to one level '
             'past the last, with 0 or 1 site substituted beforehand; reading: on 5 cells every '
             'sequence of "ask for the next level" and "read one structure of level i" with at '
             'most 2 switches between readers (all sequences on the two smallest)',
    'thorough': 'levels up to 8..12 sites; reading schedules with at most 3 switches on 8 cells',
}
ASSUMPTIONS = ['single-threaded consumers',
               'reference: explicit orbits of all colourings under the exact symmetry group']

BIG = [('sc', (2, 2, 2)), ('nacl', (2, 2, 1)), ('graph', (3, 1, 1)), ('perov', (1, 1, 1)),
       ('hcp', (2, 2, 1)), ('chir', (2, 1, 1)), ('sc', (3, 3, 1)), ('mono3', (2, 1, 1)),
       ('pmmm', (1, 1, 1))]
HUGE = [('perov', (2, 1, 1)), ('fcc', (2, 2, 3)), ('hex1', (3, 3, 1)), ('zns', (3, 2, 1))]
SCHED = [('sc', (1, 1, 2)), ('sc', (1, 1, 3)), ('sc', (2, 2, 1)), ('tric2', (1, 1, 1)),
         ('mono3', (1, 1, 1))]
SCHED2 = [('nacl', (2, 1, 1)), ('ort2', (2, 1, 1)), ('sc', (1, 1, 4))]


def units(tier):
    quick = tier == 'quick'
    sch = []
    out = [['levels', [[c[0], c[1]]]] for c in cells(0, BIG if quick else BIG + HUGE)]
    out += [['levels', x] for x in chunk(cells(5 if quick else 8, hnf_top=4 if quick else 8),
                                         32 if quick else 200)]
    for name, d in SCHED if quick else SCHED + SCHED2:
        for mode in ('unitary', 'ele', 'wy'):
            sch.append(['sched', name, d, mode, 2 if quick else 3])
    return sch[::-1] + out


def level_space(M, start, idx, j, z):
    """All colourings with j of the sites idx (that are not z yet) turned into z."""
    free = [i for i in idx if start[i] != z]
    return [M.put(start, s, z) for s in subsets(free, j)]


def modes(cell, M, Specie, z):
    """(name, argument, substitutable model sites)"""
    k = len(M.base)
    out = [('unitary', None, list(range(k)))]
    for e in sorted(set(M.base)):
        if e != z:
            out.append(('ele', e, [i for i in range(k) if M.base[i] == e]))
    wy = list(cell.get_wyckoffs())
    letters = {}
    for i, w in enumerate(wy):
        letters.setdefault(w, []).append(M.m[i])
    for w in sorted(letters):
        out.append(('wy', w, sorted(letters[w])))
    return out


def start_gen(gen, mode, arg, n, sp, Specie):
    if mode == 'unitary':
        return gen.all_speckle_gen_unitary(n, sp)
    if mode == 'ele':
        return gen.all_speckle_gen_of_ele(n, Specie.from_num(arg), sp)
    return gen.all_speckle_gen(n, arg, sp)


def levels(name, h, variant, R, salt):
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.element import Specie
    from vmc.cells import Crystal
    cr0 = Crystal.parent(name).super(h)
    spname = ['G', 'Bi', 'Li'][salt % 3]
    sp = Specie.from_num(0) if spname == 'G' else Specie(spname)
    z = sp.Z
    starts = [None, 0]
    for pre in starts:
        cr = cr0
        if pre is not None:
            if len(cr0.sites) < 2:
                continue
            # the parent already holds one substituted site
            cr = Crystal(cr0.rows, cr0.gram,
                         [(p, z if i == pre else c) for i, (p, c) in enumerate(cr0.sites)])
        cell = cr.cell(variant)
        M = Model(cr, cell, R)
        before = M.snapshot(cell)
        gen = OccupyGenerator(cell)
        n0 = sum(1 for c in M.base if c == z)
        for mode, arg, idx in modes(cell, M, Specie, z):
            free = [i for i in idx if M.base[i] != z]
            top = len(free) + 1
            lv = 0
            for j, g in enumerate(start_gen(gen, mode, arg, n0 + top, sp, Specie), 1):
                got = [M.read(c, R, 'level') for c in g]
                space = level_space(M, M.base, idx, j, z)
                cnt = M.one_per_orbit(got, space, R, 'level %d of %s' % (j, mode),
                                      {'arg': arg, 'sp': spname, 'pre': pre})
                R.state(name, h, variant, pre, mode, arg, j)
                R.trans(len(space))
                lv += 1
                R.sample({'cell': [name, h], 'mode': [mode, arg], 'level': j, 'structures': cnt})
            R.check(lv == top, 'number of levels', {'got': lv, 'want': top, 'mode': mode})
            R.trace()
            # a smaller request gives exactly that many levels
            few = min(1, top)
            cnt = sum(1 for _ in start_gen(gen, mode, arg, n0 + few, sp, Specie))
            R.check(cnt == few, 'number of levels', {'got': cnt, 'want': few})
        R.check(M.snapshot(cell) == before, 'the parent cell was modified', {'cell': [name, h]})


def run_schedule(gen, mode, arg, n, sp, Specie, actions, M, R):
    """actions: list of -1 (ask for the next level) or i (read one of level i, a level
    that has been asked for).  Returns (per level list of colourings, ended flags)."""
    outer = start_gen(gen, mode, arg, n, sp, Specie)
    lv, got, ended = [], [], []
    for a in actions:
        if a == -1:
            try:
                lv.append(next(outer))
                got.append([])
                ended.append(False)
            except StopIteration:
                lv.append(None)
        else:
            try:
                got[a].append(M.read(next(lv[a]), R, 'level'))
            except StopIteration:
                ended[a] = True
    return got, ended


def schedules(sizes, bound):
    """All action sequences over the threads: outer (len(sizes) requests) and one reader
    per level (size+1 reads, the last one sees the end); a reader starts only after its
    level was asked for.  bound = number of switches away from a thread that could go on."""
    L = len(sizes)
    out = []
    left = [L] + [s + 1 for s in sizes]

    def enabled(i, asked):
        return left[i] > 0 and (i == 0 or i <= asked)

    def rec(seq, cur, used, asked):
        en = [i for i in range(L + 1) if enabled(i, asked)]
        if not en:
            out.append(list(seq))
            return
        for i in en:
            u = used + (1 if cur is not None and i != cur and cur in en else 0)
            if bound is not None and u > bound:
                continue
            left[i] -= 1
            seq.append(i - 1)
            rec(seq, i, u, asked + (1 if i == 0 else 0))
            seq.pop()
            left[i] += 1
    rec([], None, 0, 0)
    return out


def sched(name, d, mode, bound, R):
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.element import Specie
    cr, cell = build(name, diag(*d), 0)
    M = Model(cr, cell, R)
    gen = OccupyGenerator(cell)
    sp = Specie('Bi')
    for mo, arg, idx in modes(cell, M, Specie, sp.Z):
        if mo != mode:
            continue
        n = len(idx)
        spaces = [level_space(M, M.base, idx, j, sp.Z) for j in range(1, n + 1)]
        wants = [len({M.rep(c) for c in s}) for s in spaces]
        b = None if sum(wants) + 2 * n <= 8 else bound
        for actions in schedules(wants, b):
            got, ended = run_schedule(gen, mode, arg, n, sp, Specie, actions, M, R)
            R.check(len(got) == n and all(ended), 'a level did not end where it should',
                    {'schedule': actions, 'cell': [name, d], 'mode': mode})
            for j in range(n):
                M.one_per_orbit(got[j], spaces[j], R, 'level %d' % (j + 1),
                                {'schedule': actions, 'mode': mode})
            R.state(name, d, mode, arg, tuple(actions))
            R.trans(len(actions))
            R.trace()
            R.note('schedules')
        # levels that are never read do not disturb the ones that are
        for keep in range(n):
            outer = start_gen(gen, mode, arg, n, sp, Specie)
            lv = [g for g in outer]
            got = [M.read(c, R, 'level') for c in lv[keep]]
            M.one_per_orbit(got, spaces[keep], R, 'only level %d read' % (keep + 1))
            R.state(name, d, mode, arg, 'only', keep)
            R.trans(len(spaces[keep]))


def run(unit, R):
    if unit[0] == 'levels':
        for i, (name, h) in enumerate(unit[1]):
            h = tuple(map(tuple, h))
            for v in ([i % 7] if R.quick else (0, 1, 2, 4, 5, 6)):
                levels(name, h, v, R, i + h[0][0])
    else:
        sched(unit[1], unit[2], unit[3], unit[4], R)
