# coding: utf-8
"""C06: C60 decorations: permutation table, raw and non-duplicate enumeration."""
import json
import os
from itertools import combinations, product
from math import sqrt

from vmc.core import REPO

ID = 'C06'
RULE = {
    'quick': 'the 120 site permutations against the isometries of the shipped cage (exact set); '
             'all structures with <= 4 (B) or 3 (N, vacancy) substituted sites of the bare cage and from '
             'every inequivalent cage with one or two sites substituted before by another '
             'species (one more site); filter on all sequences of length <= 2 over 60 one-site '
             'and 30 two-site structures; 3 ways of reading the levels',
    'thorough': 'as quick, with all structures of <= 5 substituted sites (45718 classes at 5)',
}
ASSUMPTIONS = ['distances of the shipped coordinates agree within 0.02 A',
               'reference: backtracking search for all isometries of the 60 unwrapped positions']

_cache = {}


def cage():
    """Cage in the numbering of Structure: exact permutation group (image lists)."""
    if 'g' in _cache:
        return _cache['g']
    from ababe.stru.buckyball import Structure
    s = Structure([6] * 60)
    lat, pos, num = s.spg_cell
    lat, pos = lat.tolist(), pos.tolist()
    # the positions are those of the data file
    with open(os.path.join(REPO, 'ababe', 'stru', 'buckyball.json')) as f:
        data = json.load(f)
    a = sorted(tuple(round(x, 6) for x in p) for p in pos)
    b = sorted(tuple(round(x, 6) for x in p) for p in data['positions'])

    def cart(d):
        d = [x - round(x) for x in d]
        return [sum(d[i] * lat[i][j] for i in range(3)) for j in range(3)]

    def norm(v):
        return sqrt(sum(x * x for x in v))
    n = 60
    xyz = {0: [0.0, 0.0, 0.0]}
    queue = [0]
    for i in queue:
        for j in range(n):
            if j not in xyz:
                d = cart([pos[j][k] - pos[i][k] for k in range(3)])
                if norm(d) < 1.75:
                    xyz[j] = [xyz[i][k] + d[k] for k in range(3)]
                    queue.append(j)
    if len(xyz) != n:
        _cache['g'] = (None, None, a == b)
        return _cache['g']
    D = [[norm([xyz[i][k] - xyz[j][k] for k in range(3)]) for j in range(n)] for i in range(n)]
    order = queue
    res = []

    def rec(k, img, used):
        if k == n:
            res.append(tuple(img[i] for i in range(n)))
            return
        i = order[k]
        for c in range(n):
            if c in used:
                continue
            if all(abs(D[i][j] - D[c][img[j]]) < 0.02 for j in order[:k]):
                img[i] = c
                used.add(c)
                rec(k + 1, img, used)
                used.discard(c)
                del img[i]
    rec(0, {}, set())
    _cache['g'] = (res, D, a == b)
    return _cache['g']


def units(tier):
    out = [['levels', 'B', 4]] + [['filter', i, 8] for i in range(8)] + \
        [['raw'], ['table'], ['read', 0], ['read', 1], ['read', 2]]
    for sp in ('N', 'G'):
        out.append(['levels', sp, 3])
    for z in (7, 14):
        for part in range(4):
            out.append(['seeded', z, part, 4])
    if tier == 'thorough':
        out = [['levels', 'B', 5], ['levels', 'N', 5], ['levels', 'Si', 4]] + out
    return out


def apply(g, c):
    out = [None] * 60
    for i in range(60):
        out[g[i]] = c[i]
    return tuple(out)


def canon_set(group, subset):
    return min(tuple(sorted(g[i] for i in subset)) for g in group)


def col(a):
    return tuple(int(x) for x in a)


def classes(group, n):
    """Representatives of all n-subsets of the 60 sites."""
    cur = {()}
    for k in range(n):
        nxt = set()
        for s in cur:
            for i in range(60):
                if i not in s:
                    nxt.add(canon_set(group, s + (i,)))
        cur = nxt
    return cur


def burnside(group, n):
    """Number of n-subsets modulo the group, from the cycle types (second opinion)."""
    tot = 0
    for g in group:
        seen, cyc = set(), []
        for i in range(60):
            if i not in seen:
                l, j = 0, i
                while j not in seen:
                    seen.add(j)
                    j = g[j]
                    l += 1
                cyc.append(l)
        poly = [1] + [0] * n
        for l in cyc:
            for d in range(n, l - 1, -1):
                poly[d] += poly[d - l]
        tot += poly[n]
    return tot // len(group)


def specie(name):
    from ababe.stru.element import Specie
    return Specie.from_num(0) if name == 'G' else Specie(name)


def run(unit, R):
    from ababe.stru.buckyball import Structure
    group, D, same = cage()
    R.check(group is not None and same, 'the cage is not the shipped C60 cage')
    R.check(len(group) == 120, 'reference: the cage should have 120 isometries', len(group))
    kind = unit[0]
    s = Structure([6] * 60)
    if kind == 'table':
        got = [col(p) for p in s.get_symmetry_permutation()]
        R.check(sorted(got) == sorted(set(group)),
                'the permutation table is not the symmetry group of the cage',
                {'distinct': len(set(got)), 'isometries': len(set(got) & set(group))})
        for p in got:
            R.state(p)
            R.trans(60)
        R.trace()
        # a structure built from decorated atoms keeps numbers aligned with positions
        for k in range(60):
            nums = [6] * 60
            nums[k] = 7
            t = Structure(nums)
            R.check(col(t.spg_cell[2]) == tuple(nums) and
                    t.spg_cell[1].tolist() == s.spg_cell[1].tolist(),
                    'numbers and positions are not aligned', k)
            from ababe.stru.element import Specie
            R.check(t.get_speckle_num(Specie('N')) == 1 and t.get_speckle_num(Specie('C')) == 59,
                    'get_speckle_num is wrong', k)
            R.state('align', k)
    elif kind == 'raw':
        for spn in ('B', 'G'):
            sp = specie(spn)
            for n in (0, 1, 2) if spn == 'G' else (0, 1, 2, 3):
                got = [col(a) for a in Structure.gen_speckle(sp, n)]
                want = set()
                for c in combinations(range(60), n):
                    w = [6] * 60
                    for i in c:
                        w[i] = sp.Z
                    want.add(tuple(w))
                R.check(len(got) == len(want) and set(got) == want,
                        'gen_speckle: not every choice exactly once', {'n': n, 'sp': spn})
                R.state(spn, n)
                R.trans(len(got))
                R.trace()
            # one more site on decorated cages
            import numpy as np
            for base in [(), (0,), (59,), (3, 17), (0, 30, 59)]:
                nums = [6] * 60
                for i in base:
                    nums[i] = sp.Z
                want = set()
                for i in range(60):
                    if i not in base:
                        w = list(nums)
                        w[i] = sp.Z
                        want.add(tuple(w))
                got = [col(a) for a in s.add_one_speckle_generator(iter([np.array(nums)]), sp)]
                R.check(len(got) == len(want) and set(got) == want,
                        'one more site: not every successor exactly once', {'base': base})
                for given in (nums, tuple(nums), np.array(nums)):
                    got = [col(a) for a in s.help_add_one_speckle(given, sp)]
                    R.check(len(got) == len(want) and set(got) == want and
                            list(given) == nums,
                            'one more site: not every successor exactly once',
                            {'base': base, 'given as': type(given).__name__})
                R.state(spn, base)
                R.trans(len(want))
    elif kind == 'filter':
        import numpy as np
        alpha = [(i,) for i in range(60)] + [(0, i) for i in range(1, 31)]
        def mk(c):
            a = [6] * 60
            for i in c:
                a[i] = 5
            return np.array(a)
        arrs = {c: mk(c) for c in alpha}
        back = {col(v): k for k, v in arrs.items()}
        can = {c: canon_set(group, c) for c in alpha}
        seqs = [()] + [(a,) for a in alpha] + [(a, b) for a in alpha for b in alpha] + \
            [tuple(alpha), tuple(reversed(alpha))]
        for qi, q in enumerate(seqs):
            if qi % unit[2] != unit[1]:
                continue
            got = [back[col(a)] for a in s.to_nodup_generator(iter([arrs[c] for c in q]))]
            cl = [can[c] for c in got]
            R.check(len(set(cl)) == len(cl) and set(cl) == {can[c] for c in q} and
                    all(c in q for c in got),
                    'the duplicate filter is wrong', {'input': q, 'output': got})
            R.state(q)
            R.trans(len(q))
            R.trace()
    elif kind == 'levels':
        sp, top = specie(unit[1]), unit[2]
        for n, g in enumerate(Structure.all_speckle_gen(s, top, sp)):
            seen = set()
            for a in g:
                c = col(a)
                R.check(len(c) == 60 and c.count(sp.Z) == n and c.count(6) == 60 - n,
                        'a structure with another composition', {'n': n, 'structure': c})
                k = canon_set(group, tuple(i for i in range(60) if c[i] == sp.Z))
                R.check(k not in seen, 'two equivalent structures', {'n': n, 'sites': k})
                seen.add(k)
                R.state(unit[1], n, k)
                R.trans()
            want = classes(group, n) if n <= 3 else None
            if want is not None:
                R.check(seen == want, 'a structure is missing', {'n': n, 'got': len(seen),
                                                                 'want': len(want)})
            R.check(len(seen) == burnside(group, n), 'number of structures',
                    {'n': n, 'got': len(seen), 'want': burnside(group, n)})
            R.outcome(n, len(seen))
            R.trace()
            R.sample({'species': unit[1], 'substituted': n, 'structures': len(seen)})
        R.check(n == top, 'number of levels', {'got': n, 'want': top})
    elif kind == 'seeded':
        # start from a cage that is decorated already
        z, part, parts = unit[1], unit[2], unit[3]
        sp = specie('B')
        starts = sorted(classes(group, 1)) + sorted(classes(group, 2))
        for i, st in enumerate(starts):
            if i % parts != part:
                continue
            nums = [6] * 60
            for j in st:
                nums[j] = z
            t = Structure(nums)
            gens = [[col(a) for a in g] for g in Structure.all_speckle_gen(t, 1, sp)]
            R.check(len(gens) == 2 and gens[0] == [tuple(nums)], 'levels of a decorated cage',
                    {'start': st})
            can = lambda c: min(apply(g, c) for g in group)
            got = [can(c) for c in gens[1]]
            want = set()
            for j in range(60):
                w = list(nums)
                w[j] = 5
                want.add(can(tuple(w)))
            R.check(len(got) == len(set(got)) and set(got) == want,
                    'decorated cage: not one structure per class',
                    {'start': st, 'got': len(got), 'want': len(want)})
            R.state(z, st)
            R.trans(60)
            R.trace()
    elif kind == 'read':
        sp = specie('B')
        want = [1, 1, 23, 303]
        outer = Structure.all_speckle_gen(s, 3, sp)
        if unit[1] == 0:
            lv = [g for g in outer]
            got = {}
            for j in (3, 1, 0, 2):
                got[j] = [col(a) for a in lv[j]]
        elif unit[1] == 1:
            lv = [g for g in outer]
            got = {j: [] for j in range(4)}
            live = list(range(4))
            while live:
                for j in list(live):
                    try:
                        got[j].append(col(next(lv[j])))
                    except StopIteration:
                        live.remove(j)
        else:
            got, prev = {}, None
            for j, g in enumerate(outer):
                # read one, ask for the next level, then finish the previous one
                got[j] = [col(next(g))]
                if prev is not None:
                    got[j - 1].extend(col(a) for a in prev)
                prev = g
            got[3].extend(col(a) for a in prev)
        for j in range(4):
            cl = {canon_set(group, tuple(i for i in range(60) if c[i] == 5)) for c in got[j]}
            R.check(len(got[j]) == len(cl) == want[j], 'levels depend on how they are read',
                    {'order': unit[1], 'level': j, 'got': len(got[j])})
            R.state(unit[1], j)
            R.trans(want[j])
        R.trace()
