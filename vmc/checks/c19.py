# coding: utf-8
"""C19: the element table, species and sites."""
from itertools import product

import numpy as np

from vmc.iokit import SYMBOLS, Z

ID = 'C19'
RULE = 'every element of the table (H..Ba, Hf..Ra and the vacancy G) through every constructor, ' \
       'every ordered pair of them for equality, every atomic number that is not in the table, ' \
       'every pair of sites over 8 positions x all elements x 3 ways to name the element'
ASSUMPTIONS = ['reference: IUPAC symbols, atomic numbers and standard atomic weights (to 0.03)']

MASS = '''1.008 4.0026 6.94 9.0122 10.81 12.011 14.007 15.999 18.998 20.180 22.990 24.305 26.982
28.085 30.974 32.06 35.45 39.95 39.098 40.078 44.956 47.867 50.942 51.996 54.938 55.845 58.933
58.693 63.546 65.38 69.723 72.630 74.922 78.971 79.904 83.798 85.468 87.62 88.906 91.224 92.906
95.95 98.906 101.07 102.906 106.42 107.868 112.414 114.818 118.710 121.760 127.60 126.904 131.293
132.905 137.327'''.split()
MASS2 = '''178.49 180.948 183.84 186.207 190.23 192.217 195.084 196.967 200.592 204.38 207.2
208.980 208.982 209.987 222.018 223.02 226.025'''.split()
WEIGHT = {i + 1: float(m) for i, m in enumerate(MASS)}
WEIGHT.update({i + 72: float(m) for i, m in enumerate(MASS2)})


# one coordinate changed at a time, exchanged coordinates, another periodic image
POS = [(0.25, 0.5, 0.75), (0.0, 0.0, 0.0), (0.25, 0.75, 0.5), (-1.0, 0.0, 2.0), (0.25, 0.5, 0.5),
       (0.25, 0.25, 0.75), (0.5, 0.5, 0.75), (0.25, 0.5, -0.25)]


def units(tier):
    return [['table'], ['pairs']] + [['sites', i] for i in range(len(POS))]


def numbers():
    return [0] + sorted(WEIGHT)


def run(unit, R):
    from ababe.stru.element import Specie, GhostSpecie
    from ababe.stru.site import Site
    if unit[0] == 'table':
        for z in numbers():
            sym = SYMBOLS[z]
            for num in (z, np.int64(z)):
                for sp in (Specie(sym), Specie.from_num(num)):
                    R.check(sp.Z == z and sp.symbol == sym and sp.name == sym,
                            'an element is wrong', {'Z': z, 'got': (sp.symbol, sp.Z)})
                    if z:
                        R.check(abs(sp.atom_mass - WEIGHT[z]) < 0.03, 'an atomic mass is wrong',
                                {'element': sym, 'mass': sp.atom_mass})
                    R.trans(4)
                R.check(Specie.to_name(num) == sym, 'to_name() is wrong', z)
            R.check(isinstance(Specie.from_num(z), GhostSpecie) == (z == 0),
                    'the vacancy is a GhostSpecie, and nothing else is', z)
            R.state(z)
        for bad in [-1] + [z for z in range(1, 130) if z not in WEIGHT]:
            for f in (Specie.from_num, Specie.to_name):
                try:
                    got = f(bad)
                except Exception:
                    got = None
                # an element the table lacks: no answer, or the right one
                name = getattr(got, 'symbol', got)
                R.check(got is None or 0 < bad < len(SYMBOLS) and name == SYMBOLS[bad],
                        'a wrong element for a number outside the table',
                        {'number': bad, 'got': name})
                R.trans()
            R.state('bad', bad)
        for bad in ('Xx', 'cu', 'ZN', '', 'g', 'Gg', 'H ', '29', 'Carbon'):
            try:
                got = Specie(bad)
            except Exception:
                got = None
            R.check(got is None, 'a species for a name that is no element', {'name': bad})
            R.state('bad', bad)
            R.trans()
        g = GhostSpecie()
        R.check(g.Z == 0 and g.symbol == 'G' and g.atom_mass == 0 and g.atom_radius == 0 and
                g == Specie('G') and Specie('G') == g and not g != Specie.from_num(0),
                'the vacancy is wrong')
        R.trace()
    elif unit[0] == 'pairs':
        sps = [(z, Specie.from_num(z)) for z in numbers()]
        names = [(z, Specie(SYMBOLS[z])) for z in numbers()]
        for (a, x), (b, y) in product(sps, names):
            R.check((x == y) is (a == b) and (y == x) is (a == b) and
                    (x != y) is (a != b) and (y != x) is (a != b),
                    'equality of species is wrong', {'a': a, 'b': b})
            R.state(a, b)
            R.trans(4)
        for z, x in sps:
            for other in (z, SYMBOLS[z], None, [x]):
                R.check(not x == other and x != other, 'a species equals something else', z)
        R.trace()
    else:
        pos = POS
        p = pos[unit[1]]
        for z in numbers():
            makers = [z, SYMBOLS[z], Specie.from_num(z)]
            for mk in makers:
                for form in (tuple(p), list(p)):
                    s = Site(form, mk)
                    R.check(s.position == p and isinstance(s.position, tuple) and
                            isinstance(s.element, Specie) and s.element.Z == z,
                            'a site is not what it was made from', {'position': p, 'element': z})
                    R.trans()
                for q in pos:
                    for z2 in (z, 0, 8, 30):
                        for mk2 in (z2, SYMBOLS[z2], Specie.from_num(z2)):
                            R.check((Site(p, mk) == Site(q, mk2)) is (p == q and z == z2),
                                    'equality of sites is wrong', {'a': (p, z), 'b': (q, z2)})
                            R.trans()
                        R.state(p, z, q, z2)
                    # edits: exactly the edited field changes
                    s = Site(p, mk)
                    s.position = list(q)
                    R.check(s.position == q and s.element.Z == z, 'setting a position', (p, q, z))
                    s.element = Specie('O')
                    R.check(s.position == q and s.element == Specie('O') and
                            Specie.from_num(z).Z == z, 'setting an element', (p, q, z))
                    R.trans(2)
        R.trace()
