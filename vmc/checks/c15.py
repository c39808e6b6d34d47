# coding: utf-8
"""C15: YAML files (both writers, the reader) and the choice of the file format."""
from itertools import product
import contextlib
import io
import os

import yaml as pyyaml

from vmc import crystal as X
from vmc.cells import PARENTS, Crystal, LAT
from vmc.iokit import parse_poscar, close_rows, match, formula, cell_list

ID = 'C15'
RULE = {
    'quick': 'written: HNF supercells (<= 6 sites, index <= 2) of 25 parents, 4 descriptions, '
             'with and without vacancies and mixed species, both writers; read: 6 lattices x 6 '
             'zooms x 4 layouts x 4 YAML styles; format: every combination of 13 file names x 2 '
             'directories x 6 requested formats, both written and read back, and standard output',
    'thorough': 'supercells to index 4 (<= 12 sites), 11 lattices',
}
ASSUMPTIONS = ['reference: PyYAML safe loader', 'precision: 6 decimals written by io.yaml, '
               '4 decimals kept on reading', 'file names that name a format']
LATS = ['cubP', 'fcc', 'bcc', 'hexP', 'mono', 'tric']
ZOOMS = [1, 2, 2.5, 0.5, 1.0]
LAYOUTS = [[30, 16], [50, 50, 50], [0, 8, 0, 22], [83, 1, 56, 8, 8]]
POS = [(0.0, 0.0, 0.0), (0.25, 0.25, 0.25), (0.5, 0.1234, 0.75), (-0.125, 0.3333, 1.5),
       (0.0625, 0.8, -0.4375)]
STYLES = ['flow', 'block', 'default', 'ints']

# name -> the format it names
NAMES = {'a.yaml': 'yaml', 'A.YAML': 'yaml', 'b.yaml.bak': 'yaml', 'POSCAR.yaml': 'yaml',
         'c.vasp': 'vasp', 'C.VASP': 'vasp', 'POSCAR': 'vasp', 'POSCAR_7': 'vasp',
         'my_POSCAR': 'vasp', 'd.x.vasp': 'vasp', 'yaml_POSCAR': 'vasp', 'vasp.yaml': 'yaml',
         'POSCAR.vasp': 'vasp'}
DIRS = ['plain', 'run.yaml_POSCAR']
FMTS = [None, '', 'yaml', 'vasp', 'YAML', 'Vasp']


def units(tier):
    out = [['read', lat] for lat in (LATS if tier == 'quick' else sorted(LAT))]
    out += [['write', name, (6 if name != 'pmmm' else 9) if tier == 'quick' else 12]
            for name in sorted(PARENTS)]
    out += [['fmt', n] for n in sorted(NAMES)]
    return out


def load(text, R):
    try:
        d = pyyaml.safe_load(text)
        com, lat, pos, num, zoom = (d[k] for k in ('comment', 'lattice', 'positions',
                                                   'numbers', 'zoom'))
        at = [([float(x) for x in p], int(z)) for p, z in zip(pos, num)]
        assert len(pos) == len(num) and all(len(p) == 3 for p, _ in at)
        return com, [[float(x) * zoom for x in r] for r in lat], at
    except Exception as e:
        R.fail('an invalid YAML structure file is written', {'text': text, 'error': repr(e)})


def write_unit(name, top, R):
    from ababe.io.yaml import YamlOutput, YamlInput
    from ababe.io.io import GeneralIO
    from ababe.stru.io import YamlOutput as OldYaml
    base = Crystal.parent(name)
    hs = [h for n in range(1, 3 if R.quick else 5) if n * len(base.sites) <= top
          for h in X.all_hnfs(n)]
    path = os.path.join(os.environ['VMC_SCRATCH'], 'w_%s.yaml' % name)
    for i, h in enumerate(hs):
        cr0 = base.super(h)
        k = len(cr0.sites)
        for dec, v in product(range(3), (0, 1, 2, 3, 5)):
            col = [z for _, z in cr0.sites]
            if dec == 1:
                col[i % k] = 0
            elif dec == 2:
                col = [(83, 1, 8, 0, 55)[(j + i) % 5] for j in range(k)]
            cr = Crystal(cr0.rows, cr0.gram, [(p, c) for (p, _), c in zip(cr0.sites, col)])
            cell = cr.cell(v)
            rows, want = cell.lattice.tolist(), cell_list(cell)
            for w, tol in ((YamlOutput(cell), 1e-6), (OldYaml(cell), 1e-9),
                           (OldYaml(cell, zoom=2), 1e-9)):
                text = w.get_string()
                com, r2, at = load(text, R)
                f = 2 if getattr(w, 'zoom', 1) == 2 else 1
                R.check(close_rows(r2, [[x * f for x in r] for r in rows], f * tol) and
                        match(at, want, tol, periodic=False),
                        'YAML written: not the structure of the cell',
                        {'text': text, 'lattice': rows, 'sites': want})
                R.check((com or '') == formula([z for _, z in want]),
                        'YAML written: wrong comment', {'text': text})
                R.check(str(w) == text and repr(w) == text,
                        'str() or repr() differs from get_string()')
                (w.write_file if isinstance(w, YamlOutput) else w.write)(path)
                with open(path) as fh:
                    R.check(fh.read() == text, 'the file differs from the string')
                for back in (YamlInput(path).get_cell(), GeneralIO.from_file(path)):
                    R.check(close_rows(back.lattice.tolist(),
                                       [[x * f for x in r] for r in rows], 1e-4) and
                            match(cell_list(back), want, 1.1e-4),
                            'YAML round trip changes the structure', {'text': text})
                R.state(name, h, dec, v, type(w).__module__, f)
                R.trans(4)
                R.trace()
    os.remove(path)
    R.sample({'text': text})


def render(d, style):
    if style == 'flow':
        return pyyaml.dump(d, default_flow_style=True)
    if style == 'block':
        return '# a structure\n' + pyyaml.dump(d, default_flow_style=False)
    if style == 'ints':
        f = lambda x: int(x) if x == int(x) else x
        d = dict(d, lattice=[[f(x) for x in r] for r in d['lattice']],
                 positions=[[f(x) for x in r] for r in d['positions']])
        return '---\n' + pyyaml.dump(d)
    return pyyaml.dump(d)


def read_unit(lat, R):
    from ababe.io.yaml import YamlInput
    from ababe.io.io import GeneralIO
    rows = LAT[lat][0].tolist()
    # fine: needs many decimals before it is scaled
    path = os.path.join(os.environ['VMC_SCRATCH'], 'r_%s.yaml' % lat)
    fine = [[x / 17.0 for x in r] for r in rows]
    for zoom, nums, style, extra in product(ZOOMS + [25.5], LAYOUTS, STYLES, (False, True)):
        rows = fine if zoom == 25.5 else LAT[lat][0].tolist()
        pos = [list(p) for p in POS[:len(nums)]]
        d = {'lattice': rows, 'positions': pos, 'numbers': nums, 'zoom': zoom}
        if extra:
            d['comment'] = 'anything'
        text = render(d, style)
        want_rows = [[x * zoom for x in r] for r in rows]
        want = list(zip(pos, nums))
        lt, ps, nm = YamlInput.from_string(text)
        R.check(close_rows(lt.tolist(), want_rows, 1e-4), 'YAML: lattice read wrongly',
                {'text': text, 'lattice': lt.tolist()})
        R.check([int(z) for z in nm] == nums and
                all(abs(a - b) < 1.1e-4 for p, q in zip(ps.tolist(), pos) for a, b in zip(p, q)),
                'YAML: sites read wrongly', {'text': text, 'positions': ps.tolist()})
        with open(path, 'w') as fh:
            fh.write(text)
        for cell in (YamlInput(path).get_cell(), GeneralIO.from_file(path)):
            R.check(close_rows(cell.lattice.tolist(), want_rows, 1e-4) and
                    match(cell_list(cell), want, 1.1e-4),
                    'YAML: the cell read is not the one in the file', {'text': text})
        R.state(lat, zoom, tuple(nums), style, extra)
        R.trans(3)
        R.trace()
    os.remove(path)
    R.sample({'text': text})


def fmt_unit(name, R):
    from ababe.io.io import GeneralIO
    cell = Crystal.parent('zns').super(((1, 0, 0), (0, 1, 0), (0, 0, 2))).cell(0)
    rows, want = cell.lattice.tolist(), cell_list(cell)
    for d, fmt in product(DIRS, FMTS):
        folder = os.path.join(os.environ['VMC_SCRATCH'], 'f_%s_%s' % (name, d), d)
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, name)
        expect = fmt.lower() if fmt else NAMES[name]
        GeneralIO(cell).write_file(path, fmt)
        with open(path) as fh:
            text = fh.read()
        info = {'name': name, 'directory': d, 'fmt': fmt, 'text': text}
        try:
            if expect == 'yaml':
                com, r2, at = load(text, R)
            else:
                com, r2, at, _, _ = parse_poscar(text)
        except Exception as e:
            R.fail('the file is not written in the format asked for', info)
        R.check(close_rows(r2, rows, 2e-6) and match(at, want, 5e-6, False),
                'the file does not hold the structure', info)
        back = GeneralIO.from_file(path, fmt)
        R.check(close_rows(back.lattice.tolist(), rows, 1e-4) and
                match(cell_list(back), want, 1.1e-4), 'the file is not read back', info)
        R.check(os.listdir(folder) == [name], 'other files appear', info)
        os.remove(path)
        R.state(name, d, fmt)
        R.trans(2)
        R.trace()
    for fmt in ('yaml', 'vasp', 'YAML'):
        for arg in (None, ''):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                GeneralIO(cell).write_file(fname=arg, fmt=fmt)
            text = buf.getvalue()
            if fmt.lower() == 'yaml':
                com, r2, at = load(text, R)
            else:
                com, r2, at, _, _ = parse_poscar(text)
            R.check(close_rows(r2, rows, 2e-6) and match(at, want, 5e-6, False),
                    'standard output does not hold the structure', {'text': text})
            R.state(name, 'stdout', fmt, arg)
            R.trans()
    R.sample({'name': name, 'format': NAMES[name]})


def run(unit, R):
    {'read': read_unit, 'write': write_unit, 'fmt': fmt_unit}[unit[0]](*(unit[1:] + [R]))
