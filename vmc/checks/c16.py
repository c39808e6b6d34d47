# coding: utf-8
"""C16: a ModifiedCell behaves as the sequence of sites its edit history describes."""
from itertools import permutations, product
import signal

import numpy as np

from vmc.cells import LAT
from vmc.iokit import match

ID = 'C16'
RULE = {
    'quick': 'every history of at most 3 edits out of 17 kinds (every valid index, 2 sites, every '
             'index subset, 5 slices) from 3 start cells (at most 2 edits on a second lattice); after each: length, iteration, '
             'indexing, positions, numbers, membership, conversion, and that a copy, the source '
             'cell and a twin stay apart; equality on every pair of states of depth <= 1 and every '
             'one-field change, every order of the sites and exchange of species; extension of a cell '
             'by its own sites in 6 ways after every first edit',
    'thorough': 'every history of at most 4 edits from 3 start cells',
}
ASSUMPTIONS = ['indices in range', 'distinct Site objects are inserted', 'cells keep >= 1 site '
               'when converted to a GeneralCell']

P1 = (0.125, 0.625, 0.375)
P2 = (0.875, 0.25, 0.75)
P3 = (-0.375, 1.25, 0.5)
ALPH = [(P1, 8), (P2, 0)]
START = [
    [((0.0, 0.0, 0.0), 30)],
    [((0.0, 0.0, 0.0), 30), ((0.25, 0.25, 0.25), 16)],
    [((0.5, 0.5, 0.0), 5), ((0.0, 0.0, 0.0), 5), ((0.25, 0.75, 0.5), 7)],
]
VEC = (0.5, -0.25, 1.0)
# slices (the last two: every other site, none)
CUTS = [(0, 2, None), (1, None, None), (None, -1, None), (None, None, 2), (1, 1, None)]


def ops(n, full):
    """The edits enabled on a cell of n sites."""
    out = []
    for k in range(len(ALPH)):
        out.append(('append', k))
        out.append(('append_site', k))
        for i in range(n + 1):
            out.append(('insert', i, k))
        for i in range(n):
            out.append(('set', i, k))
    out.append(('extend',))
    out.append(('append_sites',))
    out.append(('iadd',))
    out.append(('extend_gen',))
    out.append(('reverse',))
    for i in range(n):
        out.append(('del', i))
        out.append(('pop', i))
        out.append(('remove_site', i))
        out.append(('move', i))
        if full or i == n - 1:
            out.append(('position', i))
            out.append(('element', i))
    if full:
        out.append(('clear',))
        out.append(('insert', -1, 1))
        for i in range(n):
            out.append(('remove', i))
    if n and full:
        out.append(('del', -1))
        out.append(('set', -1, 0))
        out.append(('pop',))
        out.append(('remove_site',))
        out.append(('pop', -1))
        for bits in range(1 << min(n, 3 if full else 2)):
            out.append(('remove_sites', tuple(i for i in range(n) if bits >> i & 1)))
        for c in CUTS:
            out.append(('delslice',) + c)
        for c in CUTS[:3]:
            out.append(('setslice',) + c)
    return out


def model(seq, op, inv):
    s = list(seq)
    k = op[0]
    if k in ('append', 'append_site'):
        s.append(ALPH[op[1]])
    elif k == 'insert':
        s.insert(op[1], ALPH[op[2]])
    elif k == 'set':
        s[op[1]] = ALPH[op[2]]
    elif k in ('extend', 'append_sites', 'iadd', 'extend_gen'):
        s.extend(ALPH)
    elif k == 'reverse':
        s.reverse()
    elif k == 'del':
        del s[op[1]]
    elif k in ('pop', 'remove_site'):
        s.pop(op[1] if len(op) > 1 else -1)
    elif k == 'move':
        p, z = s[op[1]]
        d = np.matmul(np.array(VEC), inv)
        s[op[1]] = (tuple(float(a + b) for a, b in zip(p, d)), z)
    elif k == 'position':
        s[op[1]] = (P3, s[op[1]][1])
    elif k == 'element':
        s[op[1]] = (s[op[1]][0], 51)
    elif k == 'remove':
        s.remove(s[op[1]])
    elif k == 'clear':
        s = []
    elif k == 'delslice':
        del s[slice(*op[1:])]
    elif k == 'setslice':
        s[slice(*op[1:])] = ALPH
    elif k == 'remove_sites':
        s = [x for i, x in enumerate(s) if i not in op[1]]
    return s


def apply(m, op, R, seq):
    from ababe.stru.site import Site
    from ababe.stru.element import Specie
    k = op[0]

    def site(j):
        return Site(ALPH[j][0], ALPH[j][1])
    if k == 'append':
        m.append(site(op[1]))
    elif k == 'append_site':
        R.check(m.append_site(site(op[1])) is m, 'append_site() returns the cell')
    elif k == 'insert':
        m.insert(op[1], site(op[2]))
    elif k == 'set':
        m[op[1]] = site(op[2])
    elif k == 'extend':
        m.extend([site(0), site(1)])
    elif k == 'extend_gen':
        m.extend(site(j) for j in (0, 1))
    elif k == 'append_sites':
        R.check(m.append_sites([site(0), site(1)]) is m, 'append_sites() returns the cell')
    elif k == 'iadd':
        m += [site(0), site(1)]
    elif k == 'reverse':
        m.reverse()
    elif k == 'del':
        del m[op[1]]
    elif k == 'pop':
        s = m.pop(*op[1:])
        want = seq[op[1] if len(op) > 1 else -1]
        R.check(same((tuple(s.position), s.element.Z), want), 'pop() returns another site',
                {'op': op})
    elif k == 'remove_site':
        R.check(m.remove_site(*op[1:]) is m, 'remove_site() returns the cell')
    elif k == 'move':
        m.translate_sites(op[1], np.array(VEC))
    elif k == 'position':
        m[op[1]].position = P3
    elif k == 'element':
        m[op[1]].element = Specie.from_num(51)
    elif k == 'remove':
        # list.remove: the first equal site goes
        t = m[op[1]]
        m.remove(Site(t.position, t.element))
    elif k == 'clear':
        m.clear()
    elif k == 'delslice':
        del m[slice(*op[1:])]
    elif k == 'setslice':
        m[slice(*op[1:])] = [site(0), site(1)]
    elif k == 'remove_sites':
        R.check(m.remove_sites(list(op[1])) is m, 'remove_sites() returns the cell')


def same(a, b):
    return a[1] == b[1] and all(abs(x - y) < 1e-9 for x, y in zip(a[0], b[0]))


def observe(m, seq, lat, R, hist):
    info = lambda: {'history': hist, 'expected': seq,
                    'got': [(tuple(s.position), int(s.element.Z)) for s in m]}
    got = [(tuple(s.position), s.element.Z) for s in m]
    R.check(len(m) == len(seq) and len(got) == len(seq) and
            all(same(a, b) for a, b in zip(got, seq)), 'the sites are not the edited ones', info)
    for i, w in enumerate(seq):
        s, t = m[i], m[i - len(seq)]
        R.check(same((s.position, s.element.Z), w) and same((t.position, t.element.Z), w),
                'indexing gives another site', info)
        R.check(s in m, 'a site of the cell is not found in it', info)
    for c in CUTS:
        cut = [(tuple(s.position), s.element.Z) for s in m[slice(*c)]]
        R.check(len(cut) == len(seq[slice(*c)]) and all(map(same, cut, seq[slice(*c)])),
                'a slice gives other sites', info)
    R.check(np.array_equal(m.lattice, lat), 'the lattice changed', info)
    if seq:
        ps, ns = m.positions.tolist(), m.numbers.tolist()
        R.check(len(ps) == len(seq) == len(ns) and
                all(same((p, z), w) for p, z, w in zip(ps, ns, seq)),
                'positions / numbers are not those of the sites', info)
        g = m.to_gcell()
        R.check(np.array_equal(g.lattice, lat) and
                match(list(zip(g.positions.tolist(), [int(x) for x in g.numbers])), seq, 1e-9,
                      False), 'to_gcell() has other sites', info)
    R.trans(3)


def query(m, seq, R, hist):
    """Every view of the cell, so that a later edit finds whatever was kept of it."""
    R.check(len(m) == len(seq) and [s.element.Z for s in m] == [z for _, z in seq],
            'the sites are not the edited ones', {'history': hist, 'expected': seq})
    if seq:
        m.positions, m.numbers
        m.to_gcell()
        m.copy()
        m == m
        m.get_cartesian_from_frac(m.positions)
        m.get_frac_from_cart(m.positions)
        for i in range(len(seq)):
            m[i] in m, m[i - len(seq)]
        if len(hist) < 2:
            m.get_points_incell_insphere([0.0, 0.0, 0.0], 0.01)


def make(seq, lat):
    from ababe.stru.scaffold import ModifiedCell
    return ModifiedCell(lat, np.array([p for p, _ in seq]), np.array([z for _, z in seq]))


def units(tier):
    out = []
    for s in range(len(START)):
        for lat in ('tric', 'hexP'):
            for o in range(len(ops(len(START[s]), True))):
                out.append(['hist', s, lat, o])
    out.append(['eq'])
    out.append(['convert'])
    out.append(['self'])
    return out


def hist_unit(s, latname, first, R):
    lat = LAT[latname][0]
    inv = np.linalg.inv(lat)
    depth = (3 if R.quick else 4) if latname == 'tric' else 2
    start = START[s]

    def replay(hist, look=False):
        m = make(start, lat.copy())
        seq = list(start)
        for op in hist:
            if look:
                query(m, seq, R, hist)
            apply(m, op, R, seq)
            seq = model(seq, op, inv)
        return m, seq

    def go(hist):
        m, seq = replay(hist)
        observe(m, seq, lat, R, hist)
        # the same history on a cell that is looked at before every edit
        if len(hist) < (3 if R.quick else 4):
            m, seq = replay(hist, True)
            observe(m, seq, lat, R, ['look'] + hist)
        R.state(s, latname, tuple(hist))
        if len(hist) <= (1 if R.quick else 2):
            # a copy and its source do not see each other's edits
            for op in ops(len(seq), False):
                c = m.copy()
                apply(c, op, R, seq)
                observe(m, seq, lat, R, hist + [('copy',), op])
                c2 = m.copy()
                m2, _ = replay(hist)
                c3 = m2.copy()
                apply(m2, op, R, seq)
                observe(c3, seq, lat, R, hist + [('copied',), op])
                R.check(c2 == m and m == c2, 'a copy differs from its source', {'history': hist})
        if len(hist) == depth:
            R.trace()
            return
        # the last level uses the reduced alphabet
        for op in ops(len(seq), len(hist) + 1 < depth):
            go(hist + [op])
    go([ops(len(start), True)[first]])
    R.sample({'start': start, 'first edit': ops(len(start), True)[first]})


def eq_unit(R):
    for latname in ('tric', 'cubP'):
        lat = LAT[latname][0]
        inv = np.linalg.inv(lat)
        states = []
        for st in START:
            seqs = [st] + [model(st, op, inv) for op in ops(len(st), True)]
            for q in seqs:
                if q and q not in states:
                    states.append(q)
            # the same sites in another order, the same species exchanged
            for order in permutations(range(len(st))):
                for q in ([st[i] for i in order],
                          [(p, st[i][1]) for (p, _), i in zip(st, order)],
                          [(st[i][0], z) for (_, z), i in zip(st, order)]):
                    if q not in states:
                        states.append(q)
            # the same sites, each given as another periodic image
            for i, s in product(range(len(st)), ((1, 0, 0), (0, -1, 0), (2, 0, -1))):
                q = list(st)
                q[i] = (tuple(x + y for x, y in zip(st[i][0], s)), st[i][1])
                if q not in states:
                    states.append(q)
        cells = [make(q, lat) for q in states]
        for (a, ca), (b, cb) in product(list(zip(states, cells)), repeat=2):
            want = len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            R.check((ca == cb) is want and (ca != cb) is (not want),
                    'equality of two cells is wrong', {'a': a, 'b': b, 'want': want})
            R.trans()
            R.state(latname, tuple(a), tuple(b))
        for q in states:
            m = make(q, lat)
            R.check(m == make(q, lat.copy()), 'equal cells compare unequal', q)
            for i in range(3):
                for j in range(3):
                    l2 = lat.copy()
                    l2[i][j] += 0.05
                    R.check(not m == make(q, l2), 'cells on different lattices compare equal', q)
            for i in range(len(q)):
                for ax in range(3):
                    p = list(q[i][0])
                    p[ax] += 0.05
                    R.check(not m == make(q[:i] + [(tuple(p), q[i][1])] + q[i + 1:], lat),
                            'cells with a moved site compare equal', q)
                R.check(not m == make(q[:i] + [(q[i][0], q[i][1] + 1)] + q[i + 1:], lat),
                        'cells with another element compare equal', q)
            R.trans(10)
    R.trace()


def endless(*a):
    from vmc.core import Violation
    raise Violation('extending a cell by its own sites does not end')


def self_unit(R):
    """A cell extended by its own sites, in every way, as a list is."""
    lat = LAT['tric'][0]
    inv = np.linalg.inv(lat)
    for st in START:
        for op in [None] + ops(len(st), True):
            for how in ('extend', 'append_sites', 'iadd', 'iter', 'reversed', 'slice'):
                m = make(st, lat.copy())
                seq = list(st)
                if op is not None:
                    apply(m, op, R, seq)
                    seq = model(seq, op, inv)
                if not seq:
                    continue
                add = list(seq)
                # an endless extension is stopped by its processor time, before it fills memory
                signal.signal(signal.SIGVTALRM, endless)
                signal.setitimer(signal.ITIMER_VIRTUAL, 2.0)
                if how == 'extend':
                    m.extend(m)
                elif how == 'append_sites':
                    R.check(m.append_sites(m) is m, 'append_sites() returns the cell')
                elif how == 'iadd':
                    m += m
                elif how == 'iter':
                    m.extend(iter(m))
                elif how == 'reversed':
                    m.extend(reversed(m))
                    add.reverse()
                else:
                    m.extend(m[:])
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                observe(m, seq + add, lat, R, [op, ('self', how)])
                R.state('self', str(st), op, how)
                R.trace()


def convert_unit(R):
    from ababe.stru.scaffold import ModifiedCell, GeneralCell
    for latname in sorted(LAT):
        lat = LAT[latname][0]
        for st in START:
            pos = np.array([p for p, _ in st])
            num = np.array([z for _, z in st])
            g = GeneralCell(lat.copy(), pos.copy(), num.copy())
            before = (g.lattice.tolist(), g.positions.tolist(), g.numbers.tolist())
            seq = list(zip([tuple(p) for p in g.positions.tolist()], g.numbers.tolist()))
            inv = np.linalg.inv(lat)
            for op in ops(len(seq), True):
                m = ModifiedCell.from_gcell(g)
                observe(m, seq, lat, R, ['from_gcell'])
                apply(m, op, R, seq)
                observe(m, model(seq, op, inv), lat, R, ['from_gcell', op])
                R.check((g.lattice.tolist(), g.positions.tolist(), g.numbers.tolist()) == before,
                        'editing a ModifiedCell changes the GeneralCell it came from', op)
                # and back: editing on does not reach the converted cell
                m = ModifiedCell.from_gcell(g)
                g2 = m.to_gcell()
                apply(m, op, R, seq)
                R.check((g2.lattice.tolist(), g2.positions.tolist(), g2.numbers.tolist()) ==
                        before, 'editing a ModifiedCell changes the GeneralCell made from it', op)
                R.state(latname, str(st), op)
    R.trace()


def run(unit, R):
    if unit[0] == 'hist':
        hist_unit(unit[1], unit[2], unit[3], R)
    elif unit[0] == 'eq':
        eq_unit(R)
    elif unit[0] == 'self':
        self_unit(R)
    else:
        convert_unit(R)
