# coding: utf-8
"""C27: runaba suplat: one file per inequivalent superlattice of the requested volume."""
from fractions import Fraction as F
from itertools import product
import os

from vmc import crystal as X
from vmc.cells import Crystal, PARENTS
from vmc.checks.c09 import orbit_rep, slab, SLAB
from vmc.cli import names, workdir, invoke, read_structure, write_input, tree, dirs
from vmc.explore import explore
from vmc.isometry import same_crystal
from vmc.occ import diag

ID = 'C27'
RULE = {
    'quick': 'volumes 1..3 (4 on four) of 9 primitive crystals and layered volumes 1..5 of 6 slabs, 2 '
             'output formats, POSCAR and YAML input; file names: every pattern of at most 2 '
             'repeated suffixes; every ordered pair of volumes run into the same directory; every '
             'non-primitive HNF supercell (index 2) of 6 crystals rejected',
    'thorough': 'volumes 1..5 of 12 crystals, layered 1..8',
}
ASSUMPTIONS = ['reference: exact space group of the input; each file is matched to a superlattice '
               'by a complete isometry search with one site marked',
               'suffix draws come from random.choices']
P3 = ['sc', 'fcc', 'bcc', 'cscl', 'nacl', 'tet2', 'ort2', 'mono1', 'tric2']
MORE = ['zns', 'perov', 'mono3']


def units(tier):
    out = []
    quick = tier == 'quick'
    for name in P3 if quick else P3 + MORE:
        top = (4 if name in ('sc', 'fcc', 'cscl', 'mono1') else 3) if quick else 5
        for n in range(top, 0, -1):
            out.append(['3d', name, n])
    for i in (0, 1, 2, 4, 6, 7):
        for n in range(1, 6 if quick else 9):
            out.append(['2d', i, n])
    for name in ('sc', 'cscl', 'tet2'):
        out.append(['names', name])
    out.append(['many', 'tric2'])
    out.append(['rerun', 'sc'])
    out.append(['rerun', 'nacl'])
    for name in ('sc', 'fcc', 'cscl', 'tet2', 'mono1', 'tric2'):
        out.append(['reject', name])
    return out


def group():
    from ababe.cmdline import runabalib
    return runabalib.exec_from_cmdline


def collect(d, keep, om, comment, R, info, n):
    ds = dirs(d)
    R.check(ds == ['SUPLAT_' + comment], 'suplat: one output directory',
            lambda: dict(info, directories=ds))
    files = tree(d)
    R.check([f for f in files if f in keep] == sorted(keep), 'suplat removed other files', info)
    new = [f for f in files if f not in keep]
    R.check(all(f.startswith(ds[0] + os.sep) and f.endswith('.' + om) for f in new),
            'suplat: wrong kind or place of files', lambda: dict(info, files=new))
    R.check(all(os.path.basename(f).startswith('SUPLAT_%d_' % n) for f in new),
            'suplat: a file name does not tell the volume', lambda: dict(info, files=new))
    return [read_structure(os.path.join(d, f), R, 'suplat') for f in new]


_marked = {}


def classes(cr, n, two):
    """inequivalent sublattices -> marked crystals"""
    ops = X.space_group_ops(cr.gram, cr.sites)
    rots = [list(map(list, w)) for w in {tuple(map(tuple, w)) for w, t in ops}]
    cache = {}
    all_h = X.all_hnfs_2d(n) if two else X.all_hnfs(n)
    out = []
    for r in sorted(set(orbit_rep(h, rots, cache) for h in all_h)):
        big = cr.super(r)
        z0 = big.sites[0][1]
        marked = [(p, 100 if i == 0 else z) for i, (p, z) in enumerate(big.sites)]
        out.append((r, big, z0, marked, sorted(X.pure_translations(marked))))
    return out


def judge(cr, n, two, got, R, info):
    todo = classes(cr, n, two)
    R.check(len(got) == len(todo), 'suplat: wrong number of superlattices',
            lambda: dict(info, got=len(got), want=len(todo)))
    want = len(todo)
    for rows, at in got:
        R.check(len(at) == n * len(cr.sites), 'suplat: wrong number of atoms',
                lambda: dict(info, atoms=at))
        hit = None
        for i, (r, big, z0, marked, trans) in enumerate(todo):
            for j, (_, z) in enumerate(at):
                if z != z0:
                    continue
                if same_crystal(big.rows, [p for p, _ in marked], [c for _, c in marked], trans,
                                rows, [p for p, _ in at],
                                [100 if k == j else c for k, (_, c) in enumerate(at)], tol=8e-3):
                    hit = i
                    break
            if hit is not None:
                break
        R.check(hit is not None, 'suplat: a file is no new superlattice of the input',
                lambda: dict(info, lattice=rows, atoms=at))
        del todo[hit]
    R.outcome(n, want)
    return want


def opts_for(n, om, two, comment):
    o = ['-v', n]
    if om != 'yaml' or n % 2:
        o += ['-o', om]
    if two:
        o.append('-L')
    if comment != 'default':
        o += ['-c', comment]
    return o


def many(name, R):
    """More files than there are one-letter suffixes."""
    cr = Crystal.parent(name)
    n = 6 if R.quick else 9
    o = ['-v', n, '-c', 'many']
    info = {'crystal': name, 'command': ['suplat', 'in.yaml'] + o}
    with workdir() as d:
        write_input(cr, 'in.yaml')
        with names(None):
            out, err = invoke(group(), ['suplat', 'in.yaml'] + o)
        R.check(err is None, 'suplat failed', lambda: dict(info, error=repr(err)))
        got = collect(d, ['in.yaml'], 'yaml', 'many', R, info, n)
    want = len(classes(cr, n, False))
    assert want > 36
    R.check(len(got) == want, 'suplat: wrong number of superlattices',
            lambda: dict(info, got=len(got), want=want))
    R.state('many', name, n)
    R.trans(1 + len(got))
    R.trace()


def run(unit, R):
    kind = unit[0]
    if kind == 'many':
        many(unit[1], R)
    elif kind in ('3d', '2d'):
        two = kind == '2d'
        cr = slab(unit[1]) if two else Crystal.parent(unit[1])
        n = unit[2]
        for om, infile in product(('yaml', 'vasp'), ('in.vasp', 'in.yaml')):
            comment = 'default' if infile == 'in.yaml' else 'cm'
            o = opts_for(n, om, two, comment)
            info = {'crystal': unit[1], 'command': ['suplat', infile] + o}
            with workdir() as d:
                write_input(cr, infile, 1 if infile == 'in.yaml' else 0)
                with names(None):
                    out, err = invoke(group(), ['suplat', infile] + o)
                R.check(err is None, 'suplat failed', lambda: dict(info, error=repr(err)))
                got = collect(d, [infile], om, comment, R, info, n)
            k = judge(cr, n, two, got, R, info)
            R.state(kind, unit[1], n, om, infile)
            R.trans(1 + len(got))
            R.trace()
        R.sample(dict(info, superlattices=k))
    elif kind == 'names':
        cr = Crystal.parent(unit[1])
        for om, n in product(('yaml', 'vasp'), (2, 3)):
            o = opts_for(n, om, False, 'x')
            info = {'crystal': unit[1], 'command': ['suplat'] + o}

            def body(ch):
                with workdir() as d:
                    write_input(cr, 'in.vasp')
                    with names(ch):
                        out, err = invoke(group(), ['suplat', 'in.vasp'] + o)
                    R.check(err is None, 'suplat failed', lambda: dict(info, error=repr(err)))
                    return collect(d, ['in.vasp'], om, 'x', R, info, n)
            for ch, got in explore(body, bound=2):
                R.check(len(got) == len(classes(cr, n, False)),
                        'suplat: files overwrite each other', dict(info, draws=ch, got=len(got)))
                if len(ch) <= 4:
                    judge(cr, n, False, got, R, dict(info, draws=ch))
                R.state(kind, unit[1], om, n, tuple(ch))
                R.trans(1 + len(got))
                R.trace()
    elif kind == 'rerun':
        cr = Crystal.parent(unit[1])
        for n1, n2, om in product((1, 2, 3), (1, 2, 3), ('yaml', 'vasp')):
            with workdir() as d:
                write_input(cr, 'in.vasp')
                os.makedirs('SUPLAT_other')
                with open('SUPLAT_other/keep', 'w') as f:
                    f.write('x')
                errs = []
                for n, m in ((n1, 'yaml'), (n2, om)):
                    with names(None):
                        errs.append(invoke(group(), ['suplat', 'in.vasp'] +
                                           opts_for(n, m, False, 'same'))[1])
                info = {'crystal': unit[1], 'volumes': [n1, n2], 'outmode': om}
                R.check(errs == [None, None], 'suplat failed on a rerun',
                        lambda: dict(info, errors=repr(errs)))
                R.check(os.path.exists('SUPLAT_other/keep'), 'suplat removed another directory',
                        info)
                os.remove('SUPLAT_other/keep')
                os.rmdir('SUPLAT_other')
                got = collect(d, ['in.vasp'], om, 'same', R, info, n2)
            judge(cr, n2, False, got, R, info)
            R.state(kind, unit[1], n1, n2, om)
            R.trans(2)
            R.trace()
    else:
        base = Crystal.parent(unit[1])
        for h in X.all_hnfs(2):
            cr = base.super(h)
            for infile, L in product(('in.vasp', 'in.yaml'), ([], ['-L'])):
                with workdir() as d:
                    write_input(cr, infile)
                    os.makedirs('SUPLAT_default')
                    with open('SUPLAT_default/keep', 'w') as f:
                        f.write('x')
                    with names(None):
                        out, err = invoke(group(), ['suplat', infile, '-v', 2] + L)
                    R.check(err is not None,
                            'suplat takes a cell that is not primitive',
                            lambda: {'crystal': unit[1], 'hnf': h, 'error': repr(err)})
                    R.check(tree(d) == sorted([infile, 'SUPLAT_default/keep']),
                            'suplat touches files although it rejects its input',
                            lambda: {'crystal': unit[1], 'hnf': h, 'files': tree(d)})
                R.state(kind, unit[1], h, infile, bool(L))
                R.trans()
        R.trace()
