# coding: utf-8
"""C26: runaba ocutenter / ocumakert: ternary substitutions written as files."""
from fractions import Fraction as F
from itertools import combinations, product
import gc
import os
import re

import yaml as pyyaml

from vmc.cells import Crystal
from vmc.cli import names, workdir, invoke, read_structure, tree, dirs, only_new
from vmc.clicheck import Orbits
from vmc.checks.c25 import canon, thresholds
from vmc.explore import explore
from vmc.iokit import SYMBOLS, Z
from vmc.occ import diag

ID = 'C26'
RULE = {
    'quick': 'ocutenter on 8 cells (3..8 sites, two with vacancies) x every target element x 3 speckle pairs x every '
             '(n1, n2) x {no, one, two} restrictions x refined / not x -S / -N x both formats '
             '(last three rotated), ocumakert on the same cells; zoom from the file, '
             'from the option and absent; reruns into the same directory name',
    'thorough': '12 cells up to 9 sites, all combinations',
}
ASSUMPTIONS = ['the speckle elements are different, and not the element they replace',
               'YAML settings file', 'at least one atom is left']

CELLS = {
    'perov': ('perov', diag(1, 1, 1)), 'sc4': ('sc', diag(1, 2, 2)),
    'cscl4': ('cscl', diag(1, 2, 1)), 'mono3': ('mono3', diag(1, 1, 1)),
    'hex3': ('hex1', ((1, 0, 0), (0, 1, 0), (0, 1, 3))), 'nacl6': ('nacl', diag(1, 1, 3)),
    # vacancies as an element of the input
    'hole5': ('perov-G', diag(1, 1, 1)), 'hole4': ('cscl-g', diag(1, 1, 2)),
    # thorough
    'sc8': ('sc', diag(2, 2, 2)), 'zns8': ('zns', diag(2, 2, 1)),
    'hcp6': ('hcp', diag(1, 3, 1)), 'chir6': ('chir', diag(1, 1, 2)),
}
QUICK = ['perov', 'sc4', 'cscl4', 'mono3', 'hex3', 'nacl6', 'hole5', 'hole4']
PAIRS = [('Sn', 'Ge'), ('Sn', 'G'), ('G', 'Sn')]


def units(tier):
    out = []
    for c in QUICK if tier == 'quick' else sorted(CELLS):
        for j in range(4):
            out.append(['tenter', c, j])
            out.append(['makert', c, j])
    for c in ('perov', 'sc4', 'hex3'):
        out.append(['zoom', c])
        out.append(['rerun', c])
    out.append(['defaults'])
    out += [['options', c] for c in ('sc4', 'hex3', 'mono3')]
    return out


def group():
    from ababe.cmdline import runabalib
    return runabalib.exec_from_cmdline


def scaled(cr, zoom):
    z = F(zoom)
    return Crystal(cr.rows * float(z), [[x * z * z for x in r] for r in cr.gram], cr.sites)


def tidy(rows):
    """As one writes them by hand: whole numbers without a point."""
    return [[int(x) if x == int(x) else x for x in r] for r in rows]


def settings(cr, path, zoom=None, comment=None, variant=0, whole=False):
    lat, pos, num = cr.arrays(variant)
    d = {'lattice': lat.tolist(), 'positions': pos.tolist(), 'numbers': [int(z) for z in num]}
    if whole:
        d['lattice'], d['positions'] = tidy(d['lattice']), tidy(d['positions'])
    if zoom is not None:
        d['zoom'] = zoom
    if comment is not None:
        d['comment'] = comment
    with open(path, 'w') as f:
        f.write(pyyaml.dump(d))


def collect(d, keep, om, R, cmd, info):
    ds = dirs(d)
    R.check(len(ds) == 1 and ds[0].startswith('STRUCTURES_'), '%s: one output directory' % cmd,
            lambda: dict(info, directories=ds))
    files = tree(d)
    new = [f for f in files if f not in keep]
    R.check([f for f in files if f in keep] == keep, '%s removed other files' % cmd, info)
    R.check(all(f.startswith(ds[0] + os.sep) and f.endswith('.' + om) for f in new),
            '%s: wrong kind or place of files' % cmd, lambda: dict(info, files=new))
    out = []
    for f in new:
        m = re.match(r'.*A(\d+)B(\d+)C(\d+)_', os.path.basename(f))
        R.check(m is not None, '%s: a file name does not tell the composition' % cmd,
                lambda: dict(info, file=f))
        out.append((tuple(int(x) for x in m.groups()),
                    read_structure(os.path.join(d, f), R, cmd)))
    return ds[0], out


def colourings(orb, ele, a, n1, b, n2):
    idx = [i for i, z in enumerate(orb.base) if z == ele]
    for s1 in combinations(idx, n1):
        for s2 in combinations([i for i in idx if i not in s1], n2):
            col = list(orb.base)
            for i in s1:
                col[i] = a
            for i in s2:
                col[i] = b
            yield tuple(col)


def judge(orb, out, wants, refined, om, R, cmd, info):
    """wants: {(n0, n1, n2): representatives}"""
    by = {}
    for key, st in out:
        by.setdefault(key, []).append(st)
    R.check(set(by) <= set(wants), '%s: a composition that was not asked for' % cmd,
            lambda: dict(info, got=sorted(by)))
    for key, want in wants.items():
        orb.judge(by.get(key, []), want, refined, om == 'yaml', R, cmd,
                  dict(info, composition=key))


def one(cr, orb, cmd, ele, pair, ns, trs, refined, mpr, om, R, num, cname):
    a, b = Z[pair[0]], Z[pair[1]]
    size = orb.base.count(ele)
    opts = ['--element', SYMBOLS[ele], '--speckle', pair[0], pair[1],
            '--outmode', om, '--refined' if refined else '--no-refined']
    if cmd == 'ocutenter':
        opts += ['-n', ns[0], ns[1], '-S' if mpr else '-N']
    for e, d in trs:
        opts += ['-r', e, d]
    comment = ('fromfile', None)[num % 2]
    if num % 3 == 0:
        opts += ['--comment', 'cm']
    info = {'cell': cname, 'command': [cmd, 'in.yaml'] + opts}
    with workdir() as d:
        settings(cr, 'in.yaml', None if num % 2 else 1, comment, (0, 1, 3)[num % 3], num % 5 < 2)
        with names(None):
            o, err = invoke(group(), [cmd, 'in.yaml'] + opts)
        R.check(err is None, '%s failed' % cmd, lambda: dict(info, error=repr(err)))
        ds, out = collect(d, ['in.yaml'], om, R, cmd, info)
    tag = 'cm' if num % 3 == 0 else (comment or 'default')
    R.check(ds.startswith('STRUCTURES_%s_' % tag), 'the comment names the directory',
            dict(info, directory=ds))
    if cmd == 'ocutenter':
        comps = [tuple(ns)]
    else:
        comps = [(x, y) for x in range(1, size - 1) for y in range(1, size - x)]
    wants = {(size - x - y, x, y): orb.wanted(colourings(orb, ele, a, x, b, y),
                                              mpr or cmd == 'ocumakert', trs)
             for x, y in comps}
    judge(orb, out, wants, refined, om, R, cmd, info)
    R.outcome(sum(len(v) for v in wants.values()))
    R.trans(1 + len(out))
    R.trace()
    R.sample({'command': [cmd, 'in.yaml'] + opts,
              'structures': sum(len(v) for v in wants.values())})


def enum_unit(kind, cname, part, R):
    parent, h = CELLS[cname]
    cr = Crystal.parent(parent).super(h)
    if part % 2:
        cr = cr.mirror()
    orb = Orbits(cr)
    combos = list(product((True, False), (True, False), ('vasp', 'yaml')))
    num = 0
    k = len(cr.sites)
    for ele in sorted(set(orb.base)):
        size = orb.base.count(ele)
        cuts = thresholds(cr, ele, None)
        if kind == 'tenter':
            nss = [(x, y) for x in range(0, size + 1) for y in range(0, size + 1 - x)
                   if x + y <= size]
        else:
            nss = [None]
        # one of the two may be an element that other sites carry already
        anti = [SYMBOLS[z] for z in sorted(set(orb.base)) if z != ele][:1]
        pairs = PAIRS if 0 not in orb.base else PAIRS[:1]
        for pi, pair in enumerate(pairs + [('Sn', x) for x in anti]):
            trs_list = [[], [(pair[pi == 2], cuts[0])],
                        [(SYMBOLS[ele], cuts[1]), (pair[pi == 2], cuts[0])],
                        [(pair[pi == 2], cuts[-1]), (SYMBOLS[ele], cuts[0])]]
            for ns in nss:
                if kind == 'tenter' and 'G' in pair and ns[pair.index('G')] == size and (
                        set(orb.base) <= {0, ele}):
                    continue
                if k > 6 and ns and sum(ns) > 4:
                    continue
                for trs in trs_list:
                    num += 1
                    mine = [combos[(num + x) % 8] for x in ((0, 3) if kind == 'tenter' else
                                                            (0, 3, 5))] if R.quick else combos
                    for refined, mpr, om in mine:
                        num += 1
                        if num % 4 != part:
                            continue
                        one(cr, orb, 'ocutenter' if kind == 'tenter' else 'ocumakert', ele, pair,
                            ns, trs, refined, mpr, om, R, num, cname)
                        R.state(kind, cname, ele, pair, ns, str(trs), refined, mpr, om)


def zoom_unit(cname, R):
    parent, h = CELLS[cname]
    base = Crystal.parent(parent).super(h)
    ele = max(set(z for _, z in base.sites), key=[z for _, z in base.sites].count)
    for fz, oz in product((None, 1, 2, F(1, 2)), (None, 1, 2, F(3, 2))):
        f = oz if oz is not None else (fz if fz is not None else 1)
        cr = scaled(base, f)
        orb = Orbits(cr)
        cut = thresholds(cr, ele, None)[0]
        size = orb.base.count(ele)
        for cmd, om, refined in product(('ocutenter', 'ocumakert'), ('vasp', 'yaml'),
                                        (True, False)):
            opts = ['--element', SYMBOLS[ele], '--speckle', 'Sn', 'Ge', '--outmode', om, '-r',
                    'Sn', cut, '--refined' if refined else '--no-refined']
            if oz is not None:
                opts += ['--zoom', float(oz)]
            if cmd == 'ocutenter':
                opts += ['-n', 1, 1]
                comps = [(1, 1)]
            else:
                comps = [(x, y) for x in range(1, size - 1) for y in range(1, size - x)]
            info = {'cell': cname, 'file zoom': str(fz), 'command': [cmd] + opts}
            with workdir() as d:
                settings(base, 'in.yaml', None if fz is None else float(fz), whole=refined == (om == 'vasp'))
                with names(None):
                    o, err = invoke(group(), [cmd, 'in.yaml'] + opts)
                R.check(err is None, '%s failed' % cmd, lambda: dict(info, error=repr(err)))
                ds, out = collect(d, ['in.yaml'], om, R, cmd, info)
            wants = {(size - x - y, x, y): orb.wanted(
                colourings(orb, ele, 50, x, 32, y), True, [('Sn', cut)]) for x, y in comps}
            judge(orb, out, wants, refined, om, R, cmd, info)
            R.state(cname, str(fz), str(oz), cmd, om, refined)
            R.trans(1 + len(out))
            R.trace()


def rerun_unit(cname, R):
    parent, h = CELLS[cname]
    cr = Crystal.parent(parent).super(h)
    orb = Orbits(cr)
    ele = max(set(orb.base), key=orb.base.count)
    size = orb.base.count(ele)
    pairs = [(x, y) for x in (0, 1, 2) for y in (1, 2) if x + y <= size]
    for n1, n2 in product(pairs, repeat=2):
        def opts(n, om):
            return ['ocutenter', 'in.yaml', '--element', SYMBOLS[ele], '--speckle', 'Sn', 'Ge',
                    '-n', n[0], n[1], '-N', '--no-refined', '--comment', 'same', '--outmode', om]
        with workdir() as d:
            settings(cr, 'in.yaml', 1)
            errs = []
            for n, om in ((n1, 'yaml'), (n2, 'vasp')):
                first = dirs(d)
                with names(None):
                    errs.append(invoke(group(), opts(n, om))[1])
            info = {'cell': cname, 'first': opts(n1, 'yaml'), 'then': opts(n2, 'vasp')}
            R.check(errs == [None, None], 'ocutenter failed on a rerun',
                    lambda: dict(info, errors=repr(errs)))
            only_new(d, first)
            ds, out = collect(d, ['in.yaml'], 'vasp', R, 'ocutenter', info)
        wants = {(size - sum(n2),) + n2: orb.wanted(
            colourings(orb, ele, 50, n2[0], 32, n2[1]), False, [])}
        judge(orb, out, wants, False, 'vasp', R, 'ocutenter', info)
        R.state(cname, n1, n2)
        R.trans(2)
        R.trace()
    # ocumakert too
    if size >= 3:
        with workdir() as d:
            settings(cr, 'in.yaml', 1)
            o = ['ocumakert', 'in.yaml', '--element', SYMBOLS[ele], '--speckle', 'Sn', 'Ge',
                 '--no-refined', '--comment', 'same']
            for _ in range(2):
                first = dirs(d)
                with names(None):
                    err = invoke(group(), o)[1]
                R.check(err is None, 'ocumakert failed on a rerun', repr(err))
            only_new(d, first)
            ds, out = collect(d, ['in.yaml'], 'vasp', R, 'ocumakert', {'cell': cname})
        wants = {(size - x - y, x, y): orb.wanted(colourings(orb, ele, 50, x, 32, y), True, [])
                 for x in range(1, size - 1) for y in range(1, size - x)}
        judge(orb, out, wants, False, 'vasp', R, 'ocumakert', {'cell': cname, 'rerun': True})
        R.state(cname, 'makert')


def options_unit(cname, R):
    """What is not asked for is the same as the default asked for; the files stay."""
    parent, h = CELLS[cname]
    cr = Crystal.parent(parent).super(h)
    ele = SYMBOLS[max(set(z for _, z in cr.sites), key=[z for _, z in cr.sites].count)]
    for cmd in ('ocutenter', 'ocumakert'):
        def run_(*o):
            o = [cmd, 'in.yaml'] + list(o)
            with workdir() as d:
                settings(cr, 'in.yaml', variant=1)
                with names(None):
                    err = invoke(group(), o)[1]
                R.check(err is None, '%s failed' % cmd, dict(command=o, error=repr(err)))
                gc.collect()
                om = 'yaml' if 'yaml' in o else 'vasp'
                ds, out = collect(d, ['in.yaml'], om, R, cmd, {'cell': cname, 'command': o})
            R.state(cname, tuple(o))
            R.trans()
            return sorted((k, canon([s])) for k, s in out)
        mid = ('--element', ele, '--speckle', 'Sn', 'Ge')
        num = ('--number-speckle', 1, 1)
        if cmd == 'ocutenter':
            sets = [[mid + ('-n', 1, 1), mid + num, mid + num + ('--refined',), mid + num + ('-S',),
                     mid + num + ('--outmode', 'vasp'), mid + num + ('--move-supercell',),
                     mid + num + ('--zoom', 1)],
                    [mid + num + ('-N',), mid + num + ('--no-move-supercell',)]]
        else:
            num = ()
            sets = [[mid, mid + ('--refined',), mid + ('--outmode', 'vasp'), mid + ('--zoom', 1)]]
        sets.append([mid + num + ('--dist-restrict', 'Sn', 4.5), mid + num + ('-r', 'Sn', 4.5)])
        for one in sets:
            first = run_(*one[0])
            for other in one[1:]:
                R.check(run_(*other) == first, '%s: two ways to ask for the same give different '
                        'files' % cmd, lambda: {'cell': cname, 'one': one[0], 'other': other})
        R.trace()


def defaults_unit(R):
    """Without --element on a one-element cell: refined POSCARs of primitive structures."""
    for cname in ('sc4', 'hex3'):
        parent, h = CELLS[cname]
        cr = Crystal.parent(parent).super(h)
        orb = Orbits(cr)
        ele = orb.base[0]
        size = len(orb.base)
        for cmd in ('ocutenter', 'ocumakert'):
            opts = ['--speckle', 'Sn', 'Ge'] + (['-n', 1, 1] if cmd == 'ocutenter' else [])
            with workdir() as d:
                settings(cr, 'in.yaml', whole=cname == 'sc4')
                with names(None):
                    err = invoke(group(), [cmd, 'in.yaml'] + opts)[1]
                info = {'cell': cname, 'command': [cmd] + opts}
                R.check(err is None, '%s failed' % cmd, dict(info, error=repr(err)))
                ds, out = collect(d, ['in.yaml'], 'vasp', R, cmd, info)
            comps = [(1, 1)] if cmd == 'ocutenter' else \
                [(x, y) for x in range(1, size - 1) for y in range(1, size - x)]
            wants = {(size - x - y, x, y): orb.wanted(
                colourings(orb, ele, 50, x, 32, y), True, []) for x, y in comps}
            judge(orb, out, wants, True, 'vasp', R, cmd, info)
            R.state(cname, cmd)
            R.trans()
    R.trace()


def run(unit, R):
    if unit[0] in ('tenter', 'makert'):
        enum_unit(unit[0], unit[1], unit[2], R)
    elif unit[0] == 'options':
        options_unit(unit[1], R)
    elif unit[0] == 'zoom':
        zoom_unit(unit[1], R)
    elif unit[0] == 'rerun':
        rerun_unit(unit[1], R)
    else:
        defaults_unit(R)
