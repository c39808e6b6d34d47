# coding: utf-8
"""C07: grid structures: raw and non-duplicate speckle enumeration."""
from itertools import combinations, product

from vmc import crystal as X
from vmc.grids import GRID_LAT, ODD, grid_gram, group, positions

ID = 'C07'
RULE = {
    'quick': 'all grids d x w x l with <= 6 sites (and 9 grids of 8..12 sites) on 8 lattices, <= 4 sites on an '
             'almost symmetric, a strongly skewed and a dense one; 11 to 101 sites along one axis (<= 2 speckles); '
             'every number of speckles (<= 4 above 8 sites); equality test: every pair of '
             'occupations (with equally many, <= 2, speckles above 3 sites) of 7 grids (<= 6 sites) on 5 lattices under 3 sets of operations, and of two '
             'grids of more than 1000 sites',
    'thorough': 'all grids with <= 9 sites, 13 grids of 10..18 sites; every number of speckles '
                '(<= 5 above 9 sites)',
}
ASSUMPTIONS = ['reference: explicit orbits under all exact symmetries of the periodic grid']
BIG = [(1, 3, 3), (2, 2, 2), (1, 2, 4), (1, 4, 2), (3, 1, 3), (1, 3, 4), (2, 2, 3), (3, 2, 2),
       (1, 1, 8)]
CHAIN = [(1, 1, 13), (12, 1, 1), (1, 11, 1), (1, 2, 12)]
HUGE = [(1, 4, 4), (2, 2, 4), (4, 1, 4), (3, 3, 2)]


def sizes(top):
    return [s for s in product(range(1, top + 1), repeat=3) if s[0] * s[1] * s[2] <= top]


def units(tier):
    ss = sizes(6) + BIG if tier == 'quick' else sizes(9) + \
        [b for b in BIG + HUGE if b[0] * b[1] * b[2] > 9]
    ss.sort(key=lambda s: -s[0] * s[1] * s[2])
    out = [[lat, s] for s in ss for lat in sorted(GRID_LAT)
           if lat not in ODD or s[0] * s[1] * s[2] <= (4 if tier == 'quick' else 6)]
    out += [[lat, s] for lat, s in product(('scc', 'fcc', 'triflat', 'tric'), CHAIN)]
    out += [['mono', (1, 1, 60)], ['scc', (101, 1, 1)]]
    for s in EQUAL if tier == 'quick' else EQUAL + [(1, 2, 4), (2, 2, 2), (1, 1, 7), (3, 1, 3)]:
        for lat in ('bcc', 'fcc', 'triflat', 'mono', 'tric') + (
                ('near', 'skew') if s[0] * s[1] * s[2] <= 4 else ()):
            out.append([lat, s, 'equal'])
    # more than a thousand sites
    out += [['scc', (7, 12, 12), 'long'], ['tric', (11, 10, 10), 'long']]
    out += [['all', s, 'tour'] for s in ((1, 2, 2), (2, 2, 1), (2, 1, 3), (2, 2, 2))]
    out += [[lat, s, 'bar'] for lat, s in (('bcc', (1, 2, 2)), ('tric', (2, 1, 3)))]
    # more than ten thousand placements
    out += [['tetra', (1, 1, 24), 'bar', [0, 1, 4]]]
    return out


def long_grid(lat, size, R):
    """Equality of grids of more than a thousand sites, two speckles anywhere on a coarse mesh."""
    import numpy as np
    from ababe.stru.scaffold import CStru
    from ababe.stru.sogen import is_stru_equal
    m = [list(r) for r in GRID_LAT[lat]]
    k = size[0] * size[1] * size[2]
    spots = [0, 1, 2, 3, 4, k // 3, k // 2, k // 2 + 1, k - 5, k - 4, k - 1]
    cs = {}
    for pr in combinations(spots, 2):
        a = np.full(k, 6, dtype=int)
        for i in pr:
            a[i] = 5
        cs[pr] = CStru.from_array(m, a.reshape(size))
    one = [(np.eye(3, dtype=int), np.zeros(3))]
    inv = [(-np.eye(3, dtype=int), np.zeros(3))]

    def minus(i):
        x = np.unravel_index(i, size)
        return int(np.ravel_multi_index([(-int(a)) % b for a, b in zip(x, size)], size))
    keys = sorted(cs)
    for i, a in enumerate(keys):
        for b in keys[i % 5::5]:
            R.check(bool(is_stru_equal(cs[a], cs[b], one)) == (a == b),
                    'is_stru_equal is wrong for a large grid', {'size': size, 'a': a, 'b': b})
            R.state(lat, size, a, b)
            R.trans()
        b = tuple(sorted(minus(x) for x in a))
        if b in cs:
            R.check(bool(is_stru_equal(cs[a], cs[b], inv)),
                    'is_stru_equal is wrong for a large grid', {'size': size, 'a': a, 'b': b})
            R.trans()
    R.trace()


BAR = """
import sys, json
from ababe.stru.sogen import gen_nodup_cstru
from ababe.stru.element import Specie
m, size, nums = json.loads(sys.argv[1])
k = size[0] * size[1] * size[2]
print(json.dumps([[[int(x) for x in c.get_array().flatten()] for c in
                   gen_nodup_cstru(m, Specie('C'), tuple(size), Specie('B'), n)]
                  for n in nums or range(k + 1)]))
"""


def bar(lat, size, nums, R):
    """The enumeration under the progress bar that is installed (elsewhere it is a stand-in)."""
    import json
    import subprocess
    import sys
    m = [list(r) for r in GRID_LAT[lat]]
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', BAR, json.dumps([m, size, nums])],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    R.check(p.returncode == 0, 'the enumeration fails under the installed progress bar',
            lambda: p.stderr.decode('utf-8', 'replace')[-1500:])
    got = json.loads(p.stdout.decode().strip().split('\n')[-1])
    grp = group(lat, size)
    k = len(positions(size))
    for step, n in enumerate(nums or range(k + 1)):
        classes = set()
        for c in combinations(range(k), n):
            a = tuple(5 if i in c else 6 for i in range(k))
            classes.add(min(X.colour_apply(g, a) for g in grp))
        reps = [min(X.colour_apply(g, tuple(a)) for g in grp) for a in got[step]]
        R.check(sorted(reps) == sorted(classes), 'wrong structures under the installed progress bar',
                {'lattice': lat, 'size': size, 'n': n})
        R.state(lat, size, n)
        R.trans()
    R.trace()


EQUAL = [(1, 1, 1), (1, 1, 3), (1, 2, 2), (2, 1, 3), (1, 4, 1), (3, 2, 1), (2, 2, 1)]


def equal(lat, size, R):
    """is_stru_equal against the orbits, for every pair of occupations with equally many
    speckles, under the full group, its rotations about the origin only, and the identity."""
    import numpy as np
    from ababe.stru.scaffold import CStru
    from ababe.stru.sogen import is_stru_equal
    m = [list(r) for r in GRID_LAT[lat]]
    k = size[0] * size[1] * size[2]
    pos = positions(size)
    where = {p: i for i, p in enumerate(pos)}
    gram = grid_gram(lat, size)
    ops = X.space_group_ops(gram, [(p, 1) for p in pos])
    one = [(w, t) for w, t in ops if not any(t) and
           all(w[i][j] == (i == j) for i in range(3) for j in range(3))]
    R.check(len(one) == 1, 'identity', None)
    for tag, some in (('all', ops), ('point', [o for o in ops if not any(o[1])]), ('one', one)):
        fl = [(np.array(w), np.array([float(x) for x in t])) for w, t in some]
        perms = set()
        for w, t in some:
            perms.add(tuple(where[tuple(
                (sum(w[i][j] * p[j] for j in range(3)) + t[i]) % 1 for i in range(3))]
                for p in pos))
        pair = ((29, 79), (1, 11), (5, 55))[(k + len(lat)) % 3]
        cs = {}
        for a in product(pair, repeat=k):
            cs[a] = CStru.from_array(m, np.array(a).reshape(size))
        for a, b in product(sorted(cs), repeat=2):
            if R.quick and k > 3 and (a.count(pair[1]) != b.count(pair[1]) or
                                      a.count(pair[1]) > 2):
                continue
            if R.quick and k > 4 and tag == 'one' and a != b:
                continue
            want = False
            for g in perms:              # b moved by an operation is a
                if all(a[g[i]] == b[i] for i in range(k)):
                    want = True
                    break
            got = is_stru_equal(cs[a], cs[b], fl)
            R.check(bool(got) == want, 'is_stru_equal is wrong',
                    {'lattice': lat, 'size': size, 'operations': tag, 'a': a, 'b': b,
                     'got': bool(got)})
            R.state(lat, size, tag, a, b)
            R.outcome('equal', want)
            R.trans()
        R.trace()


# the last two: decimal digits that run together (1, 11; 5, 55)
SP = [('B', 'G'), ('Cu', 'Au'), ('G', 'B'), ('H', 'Na'), ('Cs', 'B')]


def run(unit, R):
    from ababe.stru.scaffold import SitesGrid, CStru
    from ababe.stru.sogen import gen_nodup_cstru
    from ababe.stru.element import Specie, GhostSpecie
    lat, size = unit[0], tuple(unit[1])
    if len(unit) > 2:
        if unit[2] == 'tour':
            # grids of one size on every lattice, one after the other, and back
            lats = sorted(GRID_LAT)
            for lt in lats + lats[::-1]:
                run([lt, unit[1]], R)
            return
        if unit[2] == 'bar':
            return bar(lat, size, unit[3] if len(unit) > 3 else None, R)
        return {'equal': equal, 'long': long_grid}[unit[2]](lat, size, R)
    m = [list(r) for r in GRID_LAT[lat]]
    k = size[0] * size[1] * size[2]
    grp = group(lat, size)
    pos = positions(size)
    rep = {}
    sea_n, sp_n = SP[(k + len(lat) + size[0] + 2 * size[2]) % 5]
    sea, sp = [GhostSpecie() if x == 'G' else Specie(x) for x in (sea_n, sp_n)]
    full = 8 if R.quick else 9
    top = k if k <= full else (4 if R.quick else 5)
    if max(size) > 8:
        top = 2 if k <= 60 else 1
    for n in range(0, top + 1):
        want = set()
        for c in combinations(range(k), n):
            a = [sea.Z] * k
            for i in c:
                a[i] = sp.Z
            want.add(tuple(a))

        def read(cs):
            arr = cs.get_array()
            R.check(tuple(arr.shape) == size, 'shape of the grid changed', {'shape': arr.shape})
            b, p, num = cs.get_cell()
            flat = tuple(int(x) for x in num)
            R.check(flat == tuple(int(x) for x in arr.flatten()),
                    'cell and grid disagree', {'size': size})
            for r, s, e in zip(b.tolist(), m, size):
                R.check(all(abs(x - y * e) < 1e-9 for x, y in zip(r, s)), 'lattice of the grid',
                        {'size': size, 'lattice': b.tolist()})
            R.check(all(abs(x - float(y)) < 1e-9 for q, t in zip(p.tolist(), pos)
                        for x, y in zip(q, t)), 'positions of the grid', {'size': size})
            return flat
        got = [read(c) for c in CStru.gen_speckle(m, sea, size, sp, n)]
        R.check(len(got) == len(want) and set(got) == want,
                'gen_speckle: not every choice of sites exactly once',
                {'lattice': lat, 'size': size, 'n': n})
        g2 = [tuple(int(x) for x in s.to_array().flatten())
              for s in SitesGrid.gen_speckle(sea, size, sp, n)]
        R.check(len(g2) == len(want) and set(g2) == want,
                'SitesGrid.gen_speckle: not every choice of sites exactly once',
                {'size': size, 'n': n})
        out = [read(c) for c in gen_nodup_cstru(m, sea, size, sp, n)]

        def rp(c):
            r = rep.get(c)
            if r is None:
                orb = {X.colour_apply(g, c) for g in grp}
                r = min(orb)
                for o in orb:
                    rep[o] = r
            return r
        cl = [rp(c) for c in out if c in want]
        R.check(len(cl) == len(out), 'a structure outside the requested set',
                {'lattice': lat, 'size': size, 'n': n})
        R.check(len(set(cl)) == len(cl), 'two equivalent grid structures',
                {'lattice': lat, 'size': size, 'n': n, 'got': len(cl), 'classes': len(set(cl))})
        R.check(set(cl) == {rp(c) for c in want}, 'a grid structure is missing',
                {'lattice': lat, 'size': size, 'n': n, 'got': len(cl),
                 'want': len({rp(c) for c in want})})
        R.state(lat, size, n)
        R.trans(2 * len(want))
        R.trace()
        R.outcome(len(cl), len(want))
        R.sample({'lattice': lat, 'grid': size, 'speckles': n, 'structures': len(cl),
                  'colourings': len(want)})
