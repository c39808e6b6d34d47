# coding: utf-8
"""C25: runaba ocumaker / ocubiter: the files written are the inequivalent structures."""
from fractions import Fraction as F
from itertools import combinations, product
import os

from vmc import crystal as X
from vmc.cells import Crystal, PARENTS
from vmc.cli import names, workdir, invoke, read_structure, write_input, tree, dirs, \
    only_new
from vmc.clicheck import Orbits
from vmc.explore import explore
from vmc.iokit import SYMBOLS, Z
from vmc.occ import diag

ID = 'C25'
RULE = {
    'quick': 'ocumaker and ocubiter on 12 cells (1..8 sites, POSCAR and YAML input, three with vacancies) x every target '
             'element x speckle {vacancy, Sn} x every number (0 included) x {no, one, two} distance restrictions '
             'x refined / not x -S / -N x both output formats (last three rotated above 4 sites); '
             'file names: every pattern of at most 2 repeated random suffixes on 3 cells; rerun '
             'into the same directory name; option defaults; short, long and absent options agree; '
             '70 files of one composition',
    'thorough': '18 cells up to 12 sites, all combinations, 3 repeated suffixes',
}
ASSUMPTIONS = ['input coordinates are representable with 4 decimals (the readers keep 4)',
               'the speckle element is not in the input of ocumaker', 'suffix draws come from random.choices',
               'at least one atom is left']

# name -> (parent, hnf, restriction thresholds away from distances)
CELLS = {
    'cscl1': ('cscl', diag(1, 1, 1)), 'cscl2': ('cscl', diag(1, 1, 2)),
    'sc4': ('sc', diag(1, 2, 2)), 'sc2d': ('sc', ((1, 0, 0), (0, 1, 0), (0, 1, 2))),
    'perov': ('perov', diag(1, 1, 1)), 'tet4': ('tet2', diag(1, 2, 1)),
    'nacl4': ('nacl', diag(2, 1, 1)), 'mono3': ('mono3', diag(1, 1, 1)),
    'sc8': ('sc', diag(2, 2, 2)),
    # vacancies as an element of the input
    'hole5': ('perov-G', diag(1, 1, 1)), 'hole4': ('cscl-G', diag(1, 1, 2)),
    'hole3': ('mono3-g', diag(1, 1, 1)),
    # thorough
    'zns8': ('zns', diag(2, 2, 1)), 'perov2': ('perov', diag(1, 1, 2)), 'ort8': ('ort2', diag(2, 2, 1)),
    'tric4': ('tric2', diag(1, 1, 2)), 'bcc4': ('bcc', diag(1, 2, 2)), 'dia8': ('dia', diag(2, 2, 1)),
}
QUICK = ['cscl1', 'cscl2', 'sc4', 'sc2d', 'perov', 'tet4', 'nacl4', 'mono3', 'sc8', 'hole5',
         'hole4', 'hole3']


def units(tier):
    out = []
    for c in (QUICK if tier == 'quick' else sorted(CELLS)):
        for cmd in ('ocumaker', 'ocubiter'):
            for j in range(8):
                out.append(['enum', c, cmd, j])
    for c in ('cscl2', 'sc4', 'perov'):
        for cmd in ('ocumaker', 'ocubiter'):
            out.append(['names', c, cmd])
            out.append(['rerun', c, cmd])
    out.append(['defaults'])
    out += [['options', c] for c in ('sc2d', 'perov', 'tet4')]
    out += [['many', cmd] for cmd in ('ocumaker', 'ocubiter')]
    out.append(['known-thirds'])
    return out


def group():
    from ababe.cmdline import runabalib
    return runabalib.exec_from_cmdline


def call(cr, cmd, opts, infile, ch, R, info, variant=0):
    """Run once in a scratch directory -> structures written"""
    with workdir() as d:
        write_input(cr, infile, variant)
        before = tree(d)
        with names(ch):
            out, err = invoke(group(), [cmd, infile] + opts)
        R.check(err is None, '%s failed' % cmd, lambda: dict(info, error=repr(err)))
        return collect(d, before, infile, R, cmd, info)


def collect(d, before, infile, R, cmd, info):
    ds = [x for x in dirs(d)]
    R.check(len(ds) == 1 and ds[0].startswith('STRUCTURES_'), '%s: one output directory' % cmd,
            lambda: dict(info, directories=ds))
    files = tree(d)
    R.check([f for f in files if f in before] == before, '%s removed input files' % cmd, info)
    new = [f for f in files if f not in before]
    R.check(all(f.startswith(ds[0] + os.sep) for f in new),
            '%s wrote outside its directory' % cmd, lambda: dict(info, files=new))
    want_ext = '.' + info.get('outmode', 'vasp')
    R.check(all(f.endswith(want_ext) for f in new), '%s: wrong kind of files' % cmd,
            lambda: dict(info, files=new))
    got = []
    for f in new:
        rows, at = read_structure(os.path.join(d, f), R, cmd)
        zs = [z for _, z in at]
        name = 'STRUCTURE_%s_' % ''.join('%s%d' % (SYMBOLS[z], zs.count(z))
                                         for z in sorted(set(zs)) if z)
        R.check(os.path.basename(f).startswith(name), '%s: a file name does not tell the formula'
                % cmd, lambda: dict(info, file=f, formula=name))
        got.append((rows, at))
    return ds[0], got


def colourings(orb, cmd, ele, sp, n):
    idx = [i for i, z in enumerate(orb.base) if z == ele]
    sizes = [n] if cmd == 'ocubiter' else range(1, n + 1)
    for k in sizes:
        for sub in combinations(idx, k):
            col = list(orb.base)
            for i in sub:
                col[i] = sp
            yield tuple(col)


def thresholds(cr, ele, other):
    """restrictions whose thresholds avoid the distances of the parent"""
    from math import sqrt
    pts = sorted(set(p for p, _ in cr.sites))
    far = max(100.0, 7 * float(X.shortest_lattice_d2(cr.gram)))
    ds = set()
    for q in pts:
        dv = tuple(a - b for a, b in zip(q, pts[0]))
        for r2, _ in X.vectors_within(cr.gram, far, tuple(float(x) for x in dv)):
            if r2 > 1e-6:
                ds.add(round(sqrt(r2), 4))
    ds = sorted(ds)
    cuts = [(a + b) / 2 for a, b in zip(ds, ds[1:]) if b - a > 0.1]
    return [round(c, 3) for c in cuts[:4]]


def enum_unit(cname, cmd, part, R):
    parent, h = CELLS[cname]
    cr = Crystal.parent(parent).super(h)
    orb = Orbits(cr)
    k = len(cr.sites)
    num = 0
    for ele in sorted(set(orb.base)):
        size = orb.base.count(ele)
        cuts = thresholds(cr, ele, None)
        # a vacancy, a new species, and (ocubiter) one that other sites carry already
        anti = [z for z in sorted(set(orb.base)) if z != ele] if cmd == 'ocubiter' else []
        for sp in [z for z in (0, 50) if z not in orb.base] + anti:
            for n in range(0 if sp == 50 else 1, size + 1):
                if sp == 0 and n == size and set(orb.base) <= {0, ele}:
                    continue
                if k > 8 and n > 4:
                    continue
                trs_list = [[], [(SYMBOLS[sp or ele], cuts[0])]]
                trs_list.append([(SYMBOLS[sp or ele], cuts[1])])
                trs_list.append([(SYMBOLS[ele], cuts[1]), (SYMBOLS[sp or ele], cuts[0])])
                trs_list.append([(SYMBOLS[sp or ele], cuts[-1]), (SYMBOLS[ele], cuts[0])])
                if not n:
                    # no site at all: the input itself (ocubiter), nothing (ocumaker)
                    trs_list = trs_list[:2]
                combos = list(product((True, False), (True, False), ('vasp', 'yaml')))
                for ti, trs in enumerate(trs_list):
                    num += 1
                    if k > 4 and R.quick:
                        mine = [combos[(num + x) % 8] for x in (0, 3)]
                    else:
                        mine = combos
                    for refined, mpr, om in mine:
                        if cmd == 'ocumaker' and not mpr:
                            continue
                        num += 1
                        if num % 8 != part:
                            continue
                        infile = ('in.vasp', 'in.yaml', 'POSCAR_in')[num % 3]
                        if 0 in orb.base:
                            infile = 'in.yaml'
                        opts = ['--element', SYMBOLS[ele], '--speckle', SYMBOLS[sp], '-n', n,
                                '--outmode', om, '--refined' if refined else '--no-refined']
                        if cmd == 'ocubiter':
                            opts.append('-S' if mpr else '-N')
                        for e, d in trs:
                            opts += ['-r', e, d]
                        comment = None
                        if num % 5 == 0:
                            comment = 'cm'
                            opts += ['--comment', 'cm']
                        info = {'cell': cname, 'command': [cmd, infile] + opts, 'outmode': om}
                        ds, got = call(cr, cmd, opts, infile, None, R, info, (0, 1, 3)[num % 3])
                        if comment:
                            R.check(ds.startswith('STRUCTURES_cm_'), 'the comment names the '
                                    'directory', dict(info, directory=ds))
                        want = orb.wanted(colourings(orb, cmd, ele, sp, n), mpr, trs)
                        orb.judge(got, want, refined, om == 'yaml', R, cmd, info)
                        R.state(cname, cmd, ele, sp, n, str(trs), refined, mpr, om)
                        R.outcome(len(want))
                        R.trans(1 + len(got))
                        R.trace()
                        R.sample({'command': [cmd, infile] + opts, 'structures': len(want)})


def names_unit(cname, cmd, R):
    """Collisions of the random suffixes lose no structure."""
    parent, h = CELLS[cname]
    cr = Crystal.parent(parent).super(h)
    orb = Orbits(cr)
    ele = max(set(orb.base), key=orb.base.count)
    n = min(2, orb.base.count(ele))
    for om in ('vasp', 'yaml'):
        opts = ['-e', SYMBOLS[ele], '-s', 'Sn', '-n', n, '-o', om, '--no-refined']
        if cmd == 'ocubiter':
            opts.append('-N')
        info = {'cell': cname, 'command': [cmd] + opts, 'outmode': om}
        want = orb.wanted(colourings(orb, cmd, ele, 50, n), cmd == 'ocumaker', [])

        def body(ch):
            return call(cr, cmd, opts, 'in.vasp', ch, R, dict(info, draws=ch.trail))
        for ch, (ds, got) in explore(body, bound=2 if R.quick else 3):
            orb.judge(got, want, False, om == 'yaml', R, cmd, dict(info, draws=ch))
            R.state(cname, cmd, om, tuple(ch))
            R.trans(1 + len(got))
            R.trace()


def rerun_unit(cname, cmd, R):
    """A directory of the same name is replaced, never mixed with the new structures."""
    parent, h = CELLS[cname]
    cr = Crystal.parent(parent).super(h)
    orb = Orbits(cr)
    ele = max(set(orb.base), key=orb.base.count)
    size = orb.base.count(ele)
    for n1, n2 in product(range(1, min(size, 2) + 1), repeat=2):
        for om in ('vasp', 'yaml'):
            def opts(n, o):
                return ['-e', SYMBOLS[ele], '-s', 'Sn', '-n', n, '-o', o, '--no-refined', '-c',
                        'same']
            with workdir() as d:
                write_input(cr, 'in.vasp')
                with names(None):
                    o1, e1 = invoke(group(), [cmd, 'in.vasp'] + opts(n1, 'vasp'))
                with open('keep.txt', 'w') as f:
                    f.write('x')
                first = dirs(d)
                with names(None):
                    o2, e2 = invoke(group(), [cmd, 'in.vasp'] + opts(n2, om))
                info = {'cell': cname, 'command': [cmd] + opts(n2, om), 'outmode': om,
                        'rerun of': n1}
                R.check(e1 is None and e2 is None, '%s failed on a rerun' % cmd,
                        dict(info, errors=[repr(e1), repr(e2)]))
                only_new(d, first)
                ds, got = collect(d, ['in.vasp', 'keep.txt'], 'in.vasp', R, cmd, info)
                want = orb.wanted(colourings(orb, cmd, ele, 50, n2), True, [])
                orb.judge(got, want, False, om == 'yaml', R, cmd, info)
            R.state(cname, cmd, n1, n2, om)
            R.trans(2)
            R.trace()


def defaults_unit(R):
    """Only the input: vacancies on the (only) element, refined POSCARs of primitive
    structures, all numbers up to all sites but one (ocumaker)."""
    for cname in ('sc4', 'sc2d', 'sc8'):
        parent, h = CELLS[cname]
        cr = Crystal.parent(parent).super(h)
        orb = Orbits(cr)
        k = len(cr.sites)
        ele = orb.base[0]
        info = {'cell': cname, 'command': ['ocumaker'], 'outmode': 'vasp'}
        ds, got = call(cr, 'ocumaker', [], 'in.yaml', None, R, info)
        want = orb.wanted(colourings(orb, 'ocumaker', ele, 0, k - 1), True, [])
        orb.judge(got, want, True, False, R, 'ocumaker', info)
        for n in (1, 2):
            if n == k:
                continue
            info = {'cell': cname, 'command': ['ocubiter', '-n', n], 'outmode': 'vasp'}
            ds, got = call(cr, 'ocubiter', ['-n', n], 'in.vasp', None, R, info)
            want = orb.wanted(colourings(orb, 'ocubiter', ele, 0, n), True, [])
            orb.judge(got, want, True, False, R, 'ocubiter', info)
            R.state(cname, n)
        R.state(cname)
        R.trans(2)
        R.trace()


def canon(got):
    return sorted((tuple(round(x, 5) + 0.0 for r in rows for x in r),
                   tuple((z, tuple(round(x, 5) + 0.0 for x in p)) for p, z in at))
                  for rows, at in got)


def options_unit(cname, R):
    """What is not asked for is the same as the default asked for; short names mean the long."""
    parent, h = CELLS[cname]
    cr = Crystal.parent(parent).super(h)
    orb = Orbits(cr)
    ele = SYMBOLS[max(set(orb.base), key=orb.base.count)]
    for cmd, infile in product(('ocumaker', 'ocubiter'), ('in.vasp', 'in.yaml')):
        def run_(*o):
            info = {'cell': cname, 'command': [cmd, infile] + list(o)}
            if 'yaml' in o:
                info['outmode'] = 'yaml'
            R.state(cname, cmd, infile, o)
            R.trans()
            return canon(call(cr, cmd, list(o), infile, None, R, info, 1)[1]), info
        mid = ('--element', ele, '--speckle', 'Sn', '--number-speckle', 2)
        sets = [[mid, mid + ('--refined',), mid + ('--outmode', 'vasp'), mid + ('-o', 'vasp'),
                 ('-e', ele, '-s', 'Sn', '-n', 2, '-c', 'x')],
                [mid + ('--no-refined', '--outmode', 'yaml'), mid + ('--no-refined', '-o', 'yaml')],
                [mid + ('--dist-restrict', 'Sn', 1.5), mid + ('-r', 'Sn', 1.5)],
                [('-e', ele, '-n', 1, '-s', 'G'), ('-e', ele, '-n', 1)]]
        if cmd == 'ocubiter':
            sets[0] += [mid + ('-S',), mid + ('--move-supercell',)]
            sets.append([mid + ('-N',), mid + ('--no-move-supercell',)])
        for one in sets:
            first, i1 = run_(*one[0])
            for other in one[1:]:
                second, i2 = run_(*other)
                R.check(first == second, '%s: two ways to ask for the same give different files'
                        % cmd, lambda: dict(i1, other=i2['command']))
        R.trace()


def many_unit(cmd, R):
    """More files of one composition than there are one-letter suffixes."""
    base = Crystal.parent('tric2')
    pts = [(F(i, 8), F(i * i % 8, 8), F(i * i * i % 16 + i, 32)) for i in range(8)]
    cr = Crystal(base.rows, base.gram, [(p, 29) for p in pts])
    orb = Orbits(cr)
    n = 4
    info = {'cell': 'eight sites without symmetry', 'command': [cmd, '-e', 'Cu', '-s', 'Sn', '-n', n],
            'outmode': 'yaml'}
    ds, got = call(cr, cmd, ['-e', 'Cu', '-s', 'Sn', '-n', n, '--no-refined', '-o', 'yaml'],
                   'in.yaml', None, R, info)
    want = orb.wanted(colourings(orb, cmd, 29, 50, n), True, [])
    assert len(want) > 36
    orb.judge(got, want, False, True, R, cmd, info)
    R.state('many', cmd)
    R.trans(1 + len(got))
    R.trace()


def known_unit(R):
    """Known finding: the readers keep 4 decimals, so a cell divided in thirds loses
    symmetry and its enumeration holds duplicates."""
    cr = Crystal.parent('sc').super(diag(1, 1, 3))
    orb = Orbits(cr)
    info = {'cell': 'sc 1x1x3', 'command': ['ocubiter', '-e', 'Cu', '-s', 'Sn', '-n', 1, '-N'],
            'outmode': 'vasp'}
    ds, got = call(cr, 'ocubiter', ['-e', 'Cu', '-s', 'Sn', '-n', 1, '-N', '--no-refined'],
                   'in.vasp', None, R, info)
    want = orb.wanted(colourings(orb, 'ocubiter', 29, 50, 1), False, [])
    if len(got) == 2 and len(want) == 1:
        orb.judge(got[:1], want, False, False, R, 'ocubiter', info)
        orb.judge(got[1:], want, False, False, R, 'ocubiter', info)
        R.known.append(('thirds', 'ocubiter on simple cubic 1x1x3 writes 2 equivalent structures'))
    else:
        orb.judge(got, want, False, False, R, 'ocubiter', info)
    R.state('thirds')
    R.trans()


def run(unit, R):
    if unit[0] == 'enum':
        enum_unit(unit[1], unit[2], unit[3], R)
    elif unit[0] == 'options':
        options_unit(unit[1], R)
    elif unit[0] == 'many':
        many_unit(unit[1], R)
    elif unit[0] == 'names':
        names_unit(unit[1], unit[2], R)
    elif unit[0] == 'rerun':
        rerun_unit(unit[1], unit[2], R)
    elif unit[0] == 'defaults':
        defaults_unit(R)
    else:
        known_unit(R)
