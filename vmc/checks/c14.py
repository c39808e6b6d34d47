# coding: utf-8
"""C14: POSCAR files: what is written, what is read, and the round trip."""
from itertools import product
import os

import numpy as np

from vmc import crystal as X
from vmc.cells import PARENTS, Crystal, LAT
from vmc.iokit import parse_poscar, close_rows, match, formula, cell_list, SYMBOLS, Z

ID = 'C14'
RULE = {
    'quick': 'written: HNF supercells (index <= 2, 3 on small parents) of 25 parents, 4 '
             'descriptions, with and without vacancies, direct and cartesian, both writers, two '
             'zooms out of five, and lattices with components down to -2346 and up to 99999; read: every combination of 7 lattices (one left-handed) x 6 scale lines x 11 coordinate-mode '
             'lines x 4 species layouts x 3 layouts of blanks, and x empty or numeric comment line, '
             'velocities after the coordinates, selective dynamics, carriage returns, numbers with exponents or without zeros (3 modes); every element of the table once',
    'thorough': 'supercells to index 4 (<= 12 sites), 10 lattices, every pair of elements',
}
ASSUMPTIONS = ['VASP-5 files (species line present, one scale factor)',
               'precision: 6 decimals written, 4 decimals kept on reading']

SCALES = ['1', '1.0', '2.5', '0.5', '-64', '-200.0']
MODES = ['direct', 'Direct', 'D', 'd', 'DIRECT', 'cartesian', 'Cartesian', 'C', 'c', 'K', ' cart']
LAYOUTS = [(['Zn', 'S'], [1, 1]), (['Sn'], [3]), (['Zn', 'S', 'Zn'], [1, 2, 1]),
           (['O', 'Ti', 'Ba'], [3, 1, 1])]
BLANKS = ['plain', 'blank lines', 'labels and tabs']
MORE = ['empty comment', 'velocities', 'selective dynamics', 'selective', 'carriage returns', 'number as comment',
        'exponents', 'bare numbers']
LATS = ['cubP', 'fcc', 'bcc', 'hexP', 'mono', 'tric', 'skew', 'wild']
ELEMENTS = [s for s in SYMBOLS if s != 'G']


def units(tier):
    out = []
    for lat in LATS if tier == 'quick' else LATS + ['rho', 'tetI', 'ortC']:
        for sc in range(len(SCALES)):
            out.append(['read', lat, sc])
    for name in sorted(PARENTS):
        out.append(['write', name, 12 if tier != 'quick' else 6 if name != 'pmmm' else 9])
    out += [['elements', tier], ['wide']]
    return out


def bare(x):
    # .25, -.125, 1., 0
    t = ('%.8f' % x).rstrip('0')
    return t.replace('0.', '.', 1) if t.lstrip('-').startswith('0.') and len(t.lstrip('-')) > 2 \
        else t if t.lstrip('-') != '0.' else '0'


def render(rows, scale, syms, counts, pos, mode, blank):
    lines = ['some comment 7', scale]
    num = {'exponents': lambda x: '%+.9E' % x, 'bare numbers': bare}.get(
        blank, lambda x: '%.7f' % x)
    for r in rows:
        lines.append('   '.join(num(x) if blank in MORE[-2:] else '%.8f' % x for x in r))
    lines.append('  '.join(syms))
    lines.append('  '.join(str(c) for c in counts))
    if blank.startswith('selective'):
        lines.append({'selective dynamics': 'Selective dynamics', 'selective': ' s'}[blank])
    lines.append(mode)
    labels = [s for s, c in zip(syms, counts) for _ in range(c)]
    for p, l in zip(pos, labels):
        if blank == 'labels and tabs':
            lines.append('\t' + '\t'.join('%.7f' % x for x in p) + '  ' + l)
        elif blank.startswith('selective'):
            lines.append(' '.join('%.7f' % x for x in p) + '  T F ' + 'TF'[len(lines) % 2])
        else:
            lines.append(' '.join(num(x) for x in p))
    if blank == 'blank lines':
        lines = [x for l in lines for x in (l, '   ')] + ['', '']
    if blank == 'empty comment':
        lines[0] = ''
    elif blank == 'number as comment':
        lines[0] = ' 12'
    elif blank == 'velocities':
        lines += [' '] + ['  0.00%d00000E+00  0.10000000E-02 -0.5E-03' % (i % 7)
                          for i in range(len(pos))]
    return ('\r\n' if blank == 'carriage returns' else '\n').join(lines) + \
        ('\n' if blank != 'labels and tabs' else '')


POS = [(0.0, 0.0, 0.0), (0.25, 0.25, 0.25), (0.5, 0.1234, 0.75), (-0.125, 0.3333, 1.5),
       (0.0625, 0.8, -0.4375)]


def read_unit(lat, sc, R):
    from ababe.io.vasp import VaspInput
    from ababe.io.io import GeneralIO
    rows = LAT[lat][0].tolist()
    scale = SCALES[sc]
    s = float(scale)
    f = s if s > 0 else (-s / abs(X.det3(rows))) ** (1.0 / 3)
    want_rows = [[x * f for x in r] for r in rows]
    path = os.path.join(os.environ['VMC_SCRATCH'], 'POSCAR_%s_%d' % (lat, sc))
    for mode, (syms, counts), blank in product(MODES, LAYOUTS, BLANKS + MORE):
        if R.quick and blank in MORE and mode not in ('direct', 'Cartesian', 'K'):
            continue
        k = sum(counts)
        frac = POS[:k]
        zs = [Z[y] for y, c in zip(syms, counts) for _ in range(c)]
        given = frac
        if mode.strip()[0] in 'cCkK':
            given = [X.vec_mat(p, rows) for p in frac]
        text = render(rows, scale, syms, counts, given, mode, blank)
        with open(path, 'w', newline='') as fh:
            fh.write(text)
        want = list(zip(frac, zs))
        lt, ps, nm = VaspInput.from_string(text)
        R.check(close_rows(lt.tolist(), want_rows, 1e-4 * max(1, f)),
                'POSCAR: lattice read wrongly', {'text': text, 'lattice': lt.tolist()})
        if s < 0:
            R.check(abs(abs(X.det3(lt.tolist())) + s) < 1e-3 * -s,
                    'POSCAR: a negative scale is the volume', {'text': text})
        R.check([int(z) for z in nm] == zs and
                all(abs(a - b) < 1.1e-4 for p, q in zip(ps.tolist(), frac) for a, b in zip(p, q)),
                'POSCAR: atoms read wrongly', {'text': text, 'positions': ps.tolist(),
                                               'numbers': [int(z) for z in nm]})
        for cell in (VaspInput(path).get_cell(), GeneralIO.from_file(path)):
            R.check(close_rows(cell.lattice.tolist(), want_rows, 1e-4 * max(1, f)) and
                    match(cell_list(cell), want, 1.1e-4),
                    'POSCAR: the cell read is not the one in the file', {'text': text})
        R.state(lat, scale, mode, tuple(syms), blank)
        R.trans(3)
        R.trace()
    os.remove(path)
    R.sample({'text': text})


def write_unit(name, top, R):
    from ababe.io.vasp import VaspOutput, VaspInput
    from ababe.stru.io import VaspPOSCAR
    base = Crystal.parent(name)
    hs = [h for n in range(1, 5) if n * len(base.sites) <= top and (n <= 2 or not R.quick or
                                                                    len(base.sites) <= 1)
          for h in X.all_hnfs(n)]
    path = os.path.join(os.environ['VMC_SCRATCH'], 'w_%s.vasp' % name)
    for i, h in enumerate(hs):
        cr0 = base.super(h)
        k = len(cr0.sites)
        for dec in range(3):
            # 0: as is; 1: one vacancy; 2: mixed, unsorted species
            col = [z for _, z in cr0.sites]
            if dec == 1:
                if k == 1:
                    continue
                col[i % k] = 0
            elif dec == 2:
                col = [(83, 1, 8, 0, 55)[(j + i) % 5] for j in range(k)]
                if not any(col):
                    continue
            cr = Crystal(cr0.rows, cr0.gram, [(p, c) for (p, _), c in zip(cr0.sites, col)])
            for v in (0, 1, 2, 3, 5):
                cell = cr.cell(v)
                rows = cell.lattice.tolist()
                want = [(p, z) for p, z in cell_list(cell) if z]
                atoms = [z for _, z in want]
                for W, direct, zoom in product((VaspOutput, VaspPOSCAR), (True, False),
                                               (1, (2, 2.8665, 0.52918, 12.5)[(i + dec + v) % 4])):
                    w = W(cell) if zoom == 1 and v else W(cell, zoom=zoom)
                    text = w.get_string(direct=direct)
                    try:
                        com, r2, at, syms, counts = parse_poscar(text)
                    except Exception as e:
                        R.fail('an invalid POSCAR is written', {'text': text, 'error': repr(e)})
                    R.check(close_rows(r2, [[x * zoom for x in r] for r in rows], 2e-6 * zoom) and
                            match(at, want, 5e-6, periodic=False),
                            'POSCAR written: not the structure of the cell',
                            {'text': text, 'lattice': rows, 'atoms': want, 'direct': direct})
                    R.check(com.strip() == formula(atoms) and
                            dict(zip(syms, counts)) == {SYMBOLS[z]: atoms.count(z)
                                                        for z in set(atoms)},
                            'POSCAR written: wrong composition lines', {'text': text})
                    if direct and zoom == 1:
                        R.check(str(w) == text and repr(w) == text,
                                'str() or repr() differs from get_string()')
                        if W is VaspOutput:
                            w.write_file(path)
                        else:
                            w.write(path)
                        with open(path) as fh:
                            R.check(fh.read() == text, 'the file differs from the string',
                                    {'text': text})
                        back = VaspInput(path).get_cell()
                        R.check(close_rows(back.lattice.tolist(), rows, 1e-4) and
                                match(cell_list(back), want, 1.1e-4),
                                'POSCAR round trip changes the structure', {'text': text})
                        R.trace()
                    R.state(name, h, dec, v, W.__module__, direct, zoom)
                    R.trans(2)
    os.remove(path)
    R.sample({'text': text})


def wide(R):
    """Lattices whose components need all the columns, or more."""
    from ababe.io.vasp import VaspOutput, VaspInput
    from ababe.stru.io import VaspPOSCAR
    from ababe.stru.scaffold import GeneralCell
    pos = np.array([[0.0, 0, 0], [0.5, 0.25, 0.125], [0.9375, 0.75, 0.0625]])
    for a in (-120.5, 1234.5, -2345.678901, 99999.25):
        for i, j in product(range(3), repeat=2):
            lat = np.diag([4.0, 5.0, 6.0])
            lat[i, j] = a
            if j and i != j:
                lat[i, j - 1] += a / 2
            if abs(X.det3(lat.tolist())) < 1:
                continue
            cell = GeneralCell(lat, pos, np.array([30, 16, 30]))
            want = cell_list(cell)
            for W, direct in product((VaspOutput, VaspPOSCAR), (True, False)):
                text = W(cell).get_string(direct=direct)
                try:
                    com, r2, at, syms, counts = parse_poscar(text)
                except Exception as e:
                    R.fail('an invalid POSCAR is written', {'text': text, 'error': repr(e)})
                R.check(close_rows(r2, lat.tolist(), 2e-6) and
                        match(at, want, 5e-6 + 1e-6 * 12, periodic=False),
                        'POSCAR written: not the structure of the cell',
                        {'text': text, 'lattice': lat.tolist(), 'atoms': want})
                lt, ps, nm = VaspInput.from_string(text)
                R.check(close_rows(lt.tolist(), lat.tolist(), 1e-4) and
                        match(list(zip(ps.tolist(), [int(z) for z in nm])), want, 1.1e-4),
                        'POSCAR round trip changes the structure', {'text': text})
                R.state('wide', a, i, j, W.__module__, direct)
                R.trans(2)
            R.trace()


def element_unit(tier, R):
    from ababe.io.vasp import VaspOutput, VaspInput
    from ababe.stru.scaffold import GeneralCell
    import json
    from vmc.core import REPO
    with open(os.path.join(REPO, 'ababe', 'stru', 'pt.json')) as f:
        known = set(json.load(f))
    els = [e for e in ELEMENTS if e in known]
    R.check(len(els) >= 70, 'elements are missing from the table', len(els))
    lat = np.array([[4.0, 0, 0], [0, 5.0, 0], [0, 0, 6.0]])
    pos = np.array([[0.0, 0, 0], [0.5, 0.25, 0.125]])
    pairs = [(a, els[(i + 7) % len(els)]) for i, a in enumerate(els)]
    if tier != 'quick':
        pairs = [(a, b) for a in els for b in els]
    for a, b in pairs:
        cell = GeneralCell(lat, pos, np.array([Z[a], Z[b]]))
        text = VaspOutput(cell).get_string()
        _, r2, at, syms, counts = parse_poscar(text)
        want = [([0.0, 0, 0], Z[a]), ([0.5, 0.25, 0.125], Z[b])]
        R.check(match(at, want, 1e-5, False), 'POSCAR written: wrong atoms', {'text': text})
        lt, ps, nm = VaspInput.from_string(text)
        R.check(match(list(zip(ps.tolist(), [int(z) for z in nm])), want, 1e-4, False),
                'POSCAR round trip changes the atoms', {'text': text})
        R.state(a, b)
        R.trans(2)
    R.trace()


def run(unit, R):
    if unit[0] == 'read':
        read_unit(unit[1], unit[2], R)
    elif unit[0] == 'wide':
        wide(R)
    elif unit[0] == 'write':
        write_unit(unit[1], unit[2], R)
    else:
        element_unit(unit[1], R)
