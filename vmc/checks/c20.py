# coding: utf-8
"""C20: grids of sites and the cells they stand for."""
from itertools import product

import numpy as np

from vmc import grids as G
from vmc.iokit import match
from vmc.seam import replaced

ID = 'C20'
RULE = {
    'quick': 'every grid shape with <= 8 sites (and 3 larger); every colouring over {vacancy, B, C} of '
             'shapes with <= 4 sites, one-hot colourings of the others; every write of every '
             'species at every site, in histories of 2 writes on shapes with <= 4 sites, with an '
             'independent copy taken before, between and after; every random fill of shapes with '
             '<= 6 sites; the cell on 8 lattices',
    'thorough': 'shapes with <= 12 sites; colourings of shapes with <= 6 sites',
}
ASSUMPTIONS = ['random fill draws from numpy.random.randint']
SP = [0, 5, 6]


def shapes(top):
    return [(a, b, c) for a in range(1, top + 1) for b in range(1, top + 1)
            for c in range(1, top + 1) if a * b * c <= top]


def units(tier):
    top = 8 if tier == 'quick' else 12
    out = [['grid', s] for s in shapes(top) + [(2, 3, 4), (3, 3, 2), (4, 1, 5)]]
    out += [['fill', s] for s in shapes(6)]
    out += [['edit', s] for s in shapes(4)]
    out += [['edit2', s] for s in shapes(8) if s[0] == 1]
    out.append(['eq'])
    out.append(['named'])
    return out


def colourings(n, R):
    if n <= (4 if R.quick else 6):
        return list(product(SP, repeat=n))
    out = [tuple(SP[(i + s) % 3] for i in range(n)) for s in range(3)]
    for i in range(n):
        for z in SP[1:]:
            out.append(tuple(z if j == i else 0 for j in range(n)))
    return out


def nest(col, s, f=lambda x: x):
    d, w, l = s
    return [[[f(col[(a * w + b) * l + c]) for c in range(l)] for b in range(w)] for a in range(d)]


def zlist(g):
    return [[[sp.Z for sp in row] for row in plane] for plane in g.sites]


def spoil(get, want, what, R, info):
    """What a caller does to an array it was given is not seen by the next one."""
    for x in get():
        x[...] = 77
    R.check([np.array(x).tolist() for x in get()] == want, what + ' changes with the array an earlier caller got',
            info)
    R.trans()


def grid_unit(s, R):
    from ababe.stru.element import Specie, GhostSpecie
    from ababe.stru.scaffold import SitesGrid, CStru
    from ababe.stru.scaffold2d import SitesGrid2d, CStru2d
    s = tuple(s)
    d, w, l = s
    n = d * w * l
    for z in SP:
        sp = Specie.from_num(z)
        sea = SitesGrid.sea(d, w, l, sp)
        R.check(zlist(sea) == nest([z] * n, s) and
                (sea.depth, sea.width, sea.length) == s, 'sea() is wrong', s)
    R.check(zlist(SitesGrid.sea(d, w, l)) == nest([0] * n, s), 'sea() is of vacancies', s)
    for k, col in enumerate(colourings(n, R)):
        arr = np.array(nest(col, s))
        g = SitesGrid(nest(col, s, Specie.from_num))
        g2 = SitesGrid.from_array(arr)
        info = {'shape': s, 'colouring': col}
        for x in (g, g2):
            R.check(x.to_array().tolist() == nest(col, s) and zlist(x) == nest(col, s) and
                    (x.depth, x.width, x.length) == s and
                    all(x[a, b, c].Z == col[(a * w + b) * l + c] for a in range(d)
                        for b in range(w) for c in range(l)),
                    'a grid does not hold the array it was made from', info)
            spoil(lambda: [x.to_array()], [nest(col, s)], 'a grid', R, info)
        arr[...] = 78
        R.check(g2.to_array().tolist() == nest(col, s), 'a grid changes with the array it was '
                'made from', info)
        arr = np.array(nest(col, s))
        R.check(g == g2 and not g == None, 'equality of grids', info)
        lat = sorted(G.GRID_LAT)[k % len(G.GRID_LAT)] if k >= 8 else sorted(G.GRID_LAT)[k]
        m = G.GRID_LAT[lat]
        cs, cs2 = CStru(m, g), CStru.from_array(m, arr)
        want = [(tuple(float(x) for x in p), z) for p, z in zip(G.positions(s), col)]
        for c in (cs, cs2):
            R.check(c.m == m and c.get_array().tolist() == nest(col, s) and
                    (c.depth, c.width, c.length) == s and
                    c.get_midpoint() == (d // 2, w // 2, l // 2), 'CStru accessors', info)
            bas, pos, num = c.get_cell()
            R.check(all(abs(bas[i][j] - m[i][j] * s[i]) < 1e-12 for i in range(3)
                        for j in range(3)) and
                    match(list(zip(pos.tolist(), [int(x) for x in num])), want, 1e-9, False),
                    'the cell of a grid is wrong', dict(info, lattice=lat, basis=bas.tolist(),
                                                        positions=pos.tolist()))
            old = [x.tolist() for x in (bas, pos)] + [[int(x) for x in num]]
            spoil(lambda: [np.asarray(x) for x in c.get_cell()], old, 'the cell of a grid', R, info)
            spoil(lambda: [c.get_array(), c.get_lattice(), c.get_positions()],
                  [nest(col, s)] + old[:2], 'a structure', R, info)
            R.check(c.get_array().tolist() == nest(col, s), 'a structure changes with the arrays '
                    'of its cell', info)
            bas, pos, num = c.get_cell()
            R.check(c.get_lattice().tolist() == bas.tolist() and
                    c.get_positions().tolist() == pos.tolist() and
                    [int(x) for x in c.get_atoms()] == [int(x) for x in num],
                    'lattice / positions / atoms differ from the cell', info)
            R.check(CStru.get_id_matrix((bas, pos, num), d, w, l).tolist() == nest(col, s),
                    'get_id_matrix() does not restore the grid', info)
            gc = c.get_gcell()
            R.check(gc.lattice.tolist() == bas.tolist() and
                    match(list(zip(gc.positions.tolist(), [int(x) for x in gc.numbers])), want,
                          1e-9, False), 'get_gcell() is another cell', info)
            R.trans(8)
        R.check(cs == cs2 and not cs == None and not cs == CStru(
            [[x * 2 for x in r] for r in m], g), 'equality of CStru', info)
        if d == 1:
            rows = nest(col, s)[0]
            q = SitesGrid2d([[Specie.from_num(z) for z in r] for r in rows])
            q2 = SitesGrid2d.from_array(np.array(rows))
            for x in (q, q2):
                R.check(x.get_array().tolist() == rows and (x.width, x.length) == (w, l),
                        'a 2-D grid does not hold its array', info)
                c = CStru2d([[2, 0], [1, 1.7]], x)
                R.check(c.get_array().tolist() == rows and c.m == [[2, 0], [1, 1.7]] and
                        (c.width, c.length) == (w, l) and
                        c.get_midpoint() == (w // 2, l // 2), 'CStru2d accessors', info)
                spoil(lambda: [x.get_array(), c.get_array()], [rows, rows], 'a 2-D grid', R, info)
                R.trans(3)
            R.check(q == q2 and not q == None, 'equality of 2-D grids', info)
            for z in SP:
                R.check(SitesGrid2d.sea(w, l, Specie.from_num(z)).get_array().tolist() ==
                        [[z] * l for _ in range(w)], '2-D sea() is wrong', info)
        R.state(s, col)
        R.trace()
    R.sample({'shape': s, 'colouring': col, 'lattice': lat})


def edit_unit(s, R, z2only=False):
    from ababe.stru.element import Specie
    from ababe.stru.scaffold import SitesGrid, CStru
    s = tuple(s)
    d, w, l = s
    n = d * w * l
    where = list(product(range(d), range(w), range(l)))
    starts = [tuple(SP[(i + k) % 3] for i in range(n)) for k in range(2)]
    depth = 1 if z2only else 2
    writes = [(p, z) for p in where for z in SP]
    for col in starts:
        for make in ('sites', 'sea', 'array'):
            for hist in product(writes, repeat=depth):
                if make == 'sea':
                    cur = [5] * n
                    g = SitesGrid.sea(d, w, l, Specie('B'))
                elif make == 'array':
                    cur = list(col)
                    g = SitesGrid.from_array(np.array(nest(col, s)))
                else:
                    cur = list(col)
                    g = SitesGrid(nest(col, s, Specie.from_num))
                copies = [(g.deepCopy(), list(cur))]
                for (a, b, c), z in hist:
                    g[a, b, c] = Specie.from_num(z)
                    cur[(a * w + b) * l + c] = z
                    R.check(g.to_array().tolist() == nest(cur, s) and g[(a, b, c)].Z == z,
                            'a write changes other sites', {'shape': s, 'history': hist})
                    R.check(all(x.to_array().tolist() == nest(y, s) for x, y in copies),
                            'a write to a grid shows in a deep copy',
                            {'shape': s, 'history': hist})
                    copies.append((g.deepCopy(), list(cur)))
                    R.trans(2)
                for x, y in copies:
                    R.check((x.depth, x.width, x.length) == s and x == SitesGrid.from_array(
                        np.array(nest(y, s))), 'a deep copy is not equal', {'shape': s})
                # writing to copies leaves the grid and the other copies alone
                for i, (x, y) in enumerate(copies):
                    x[where[-1]] = Specie('W')
                    y[n - 1] = 74
                    R.check(g.to_array().tolist() == nest(cur, s) and
                            all(u.to_array().tolist() == nest(v, s) for u, v in copies),
                            'a write to a deep copy shows elsewhere', {'shape': s})
                    R.trans()
                R.state(s, col, make, hist)
                R.trace()


def fill_unit(s, R):
    from ababe.stru.element import Specie
    from ababe.stru.scaffold import SitesGrid
    s = tuple(s)
    n = s[0] * s[1] * s[2]
    seen = {}
    for bits in product((0, 1), repeat=n):
        used = []

        def fake(low, high=None, size=None, dtype=int):
            lo, hi = (0, low) if high is None else (low, high)
            if size is None:
                size = ()
            if isinstance(size, int):
                size = (size,)
            k = 1
            for x in size:
                k *= x
            i = sum(used)
            used.append(k)
            vals = [lo + bits[(i + j) % n] % (hi - lo) for j in range(k)]
            return np.array(vals).reshape(size) if size else vals[0]
        for a, b in ((5, 0), (0, 6), (30, 16), (5, 5)):
            del used[:]
            with replaced(np.random, {'randint': fake}):
                g = SitesGrid.random_fill(Specie.from_num(a), s, Specie.from_num(b))
            arr = g.to_array()
            R.check(arr.shape == s and (g.depth, g.width, g.length) == s and
                    set(int(x) for x in arr.flat) <= {a, b},
                    'random_fill() puts other species or another shape',
                    {'shape': s, 'species': (a, b), 'got': arr.tolist()})
            seen.setdefault((a, b), set()).add(tuple(int(x) for x in arr.flat))
            R.state(s, bits, a, b)
            R.trans()
        R.trace()
    if used:
        for (a, b), got in seen.items():
            R.check(len(got) == (2 ** n if a != b else 1), 'random_fill() cannot reach every '
                    'filling', {'shape': s, 'species': (a, b), 'reached': len(got)})


NAMED = {'bcc': (0.5, [(0.75, 8), (1, 6), (2, 12)]), 'fcc': (0.25, [(0.5, 12), (1, 6), (1.5, 24)]),
         'scc': (1, [(1, 6), (2, 12), (3, 8)]), 'triflat': (20 * 0.75 ** 0.5, [(1, 6), (3, 6), (4, 6)])}


def named_unit(R):
    """The named lattices by what their names tell: volume and first shells of neighbours."""
    from ababe.stru.sogen import lat_dict
    for name, (vol, shells) in sorted(NAMED.items()):
        given = lat_dict(name)
        m = [[float(x) for x in r] for r in given]
        # what a caller does to the matrix is not seen by the next one
        for i, j in product(range(3), repeat=2):
            old = given[i][j]
            given[i][j] = 7.5
            again = [[float(x) for x in r] for r in lat_dict(name)]
            R.check(again == m, 'a named lattice changes with the matrix an earlier caller got',
                    {'name': name, 'entry': (i, j), 'lattice': again})
            given[i][j] = old
            R.trans()
        a, b, c = m
        det = sum(a[i] * (b[(i + 1) % 3] * c[(i + 2) % 3] - b[(i + 2) % 3] * c[(i + 1) % 3])
                  for i in range(3))
        info = {'name': name, 'lattice': m}
        R.check(abs(abs(det) - vol) < 1e-9, 'a named lattice has another cell', info)
        got = {}
        for k in product(range(-4, 5), repeat=3):
            d2 = sum(sum(k[i] * m[i][j] for i in range(3)) ** 2 for j in range(3))
            if 0 < d2 < 5:
                got[round(d2, 6)] = got.get(round(d2, 6), 0) + 1
            R.state(name, k)
        R.check(sorted(got.items())[:3] == shells, 'a named lattice is another one',
                lambda: dict(info, shells=sorted(got.items())[:4]))
        if name == 'triflat':
            flat = [sum(x * y for x, y in zip(a, v)) for v in (b, c)]
            R.check(flat == [0, 0] and abs(sum(x * x for x in a) - 400) < 1e-9,
                    'the flat lattice is not stacked 20 apart along its first axis', info)
        R.trans()
        R.trace()


def eq_unit(R):
    from ababe.stru.scaffold import SitesGrid, CStru
    from ababe.stru.scaffold2d import SitesGrid2d
    m = G.GRID_LAT['scc']
    all_ = []
    for s in shapes(3):
        n = s[0] * s[1] * s[2]
        for col in product(SP[:2], repeat=n):
            all_.append((s, col))
    for (s, a), (t, b) in product(all_, repeat=2):
        x = SitesGrid.from_array(np.array(nest(a, s)))
        y = SitesGrid.from_array(np.array(nest(b, t)))
        want = s == t and a == b
        R.check(bool(x == y) is want and bool(CStru(m, x) == CStru(m, y)) is want,
                'equality of grids is wrong', {'a': (s, a), 'b': (t, b)})
        if s[0] == 1 and t[0] == 1:
            p = SitesGrid2d.from_array(np.array(nest(a, s)[0]))
            q = SitesGrid2d.from_array(np.array(nest(b, t)[0]))
            R.check(bool(p == q) is want, 'equality of 2-D grids is wrong')
        R.state(s, a, t, b)
        R.trans(2)
    R.trace()


def run(unit, R):
    if unit[0] == 'grid':
        grid_unit(unit[1], R)
    elif unit[0] == 'fill':
        fill_unit(unit[1], R)
    elif unit[0] == 'edit':
        edit_unit(unit[1], R)
    elif unit[0] == 'edit2':
        edit_unit(unit[1], R, True)
    elif unit[0] == 'named':
        named_unit(R)
    else:
        eq_unit(R)
