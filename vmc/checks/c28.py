# coding: utf-8
"""C28: the runati commands: atclear, perturb, supcell, pcell."""
from fractions import Fraction as F
from itertools import product
from math import sqrt
import os

import numpy as np

from vmc import crystal as X
from vmc.cells import Crystal, PARENTS
from vmc.checks.c17 import dists, radii
from vmc.checks.c18 import Draws
from vmc.cli import workdir, invoke, read_structure, write_input, tree
from vmc.explore import explore
from vmc.iokit import SYMBOLS, match, parse_poscar
from vmc.isometry import same_crystal, cart, wrap0, dot
from vmc.seam import replaced

ID = 'C28'
RULE = {
    'quick': 'supcell: every a x b x c <= 6 on 8 crystals, 3 output modes, POSCAR and YAML input; '
             'pcell: every HNF supercell of index <= 4 (<= 8 sites) of 8 crystals, '
             '3 output modes; atclear: '
             'index-2 supercells with marked atoms, every pair of elements, radii around site '
             'distances, with and without refinement; perturb: 3 distances x every sequence of '
             'draws with at most 1 (1 site: 2) other than the first',
    'thorough': 'supcell a x b x c <= 16 on 14 crystals, pcell index <= 6, atclear on index-2 and '
                'index-4 supercells, perturb with 2 (3) other draws',
}
ASSUMPTIONS = ['input coordinates have at most four decimals (the readers round to four)',
               'the perturbation draws its vectors from numpy.random',
               'at least one atom is left by atclear']
NAMES = ['sc', 'fcc', 'cscl', 'nacl', 'zns', 'tet2', 'ort2', 'tric2']
MORE = ['bcc', 'perov', 'dia', 'mono1', 'mono3', 'chir']
INS = [('in.vasp', 'in'), ('d/x.y.yaml', 'x'), ('d/POSCAR', 'POSCAR'), ('b_1.yaml', 'b_1')]
MODES = ['vasp', 'yaml', 'stdio']


def dyadic(cr):
    """coordinates that four decimals hold exactly"""
    return all((x * 10000).denominator == 1 for p, _ in cr.sites for x in p)


def units(tier):
    quick = tier == 'quick'
    ns = NAMES if quick else NAMES + MORE
    out = []
    for name in ns:
        k = len(PARENTS[name][1])
        out.append(['supcell', name, 6 if quick else 16])
        for n in range(1, 5 if quick else 7):
            if n * k <= 8 and n not in (3, 6):
                out.append(['pcell', name, n])
        if k <= 3:
            out.append(['atclear', name, 2])
            if not quick:
                out.append(['atclear', name, 4])
        if k <= 2:
            out.append(['perturb', name])
    return out


def group():
    from ababe.cmdline import runatilib
    return runatilib.exec_from_cmdline


def go(cr, infile, variant, args, R, tag):
    """Run the command in a new directory -> (stdout, {file: structure})"""
    with workdir() as d:
        os.makedirs('d')
        if infile == 'd/POSCAR':
            write_input(cr, 'd/in.vasp', variant)
            os.rename('d/in.vasp', infile)
        else:
            write_input(cr, infile, variant)
        with open(infile) as f:
            before = f.read()
        out, err = invoke(group(), args[:1] + [infile] + args[1:])
        info = {'cell': cr.describe(), 'command': args[:1] + [infile] + args[1:], 'stdout': out}
        R.check(err is None, tag + ' failed', lambda: dict(info, error=repr(err)))
        with open(infile) as f:
            R.check(f.read() == before, tag + ' changed its input', info)
        new = [f for f in tree(d) if f != infile]
        return out, {f: read_structure(os.path.join(d, f), R, tag) for f in new}, info


def result(cr, infile, base, variant, args, mode, suffix, R, tag):
    out, files, info = go(cr, infile, variant, args, R, tag)
    if mode == 'stdio':
        R.check(not files, tag + ': wrote files', lambda: dict(info, files=sorted(files)))
        lines = out.split('\n')
        while lines and lines[0].startswith('PROCESSING'):
            del lines[0]
        try:
            _, rows, at, _, _ = parse_poscar('\n'.join(lines))
        except Exception as e:
            R.fail(tag + ': the standard output is no POSCAR', dict(info, error=repr(e)))
        return rows, at, info
    want = '%s_%s.%s' % (base, suffix, mode)
    R.check(sorted(files) == [want], tag + ': wrong output file',
            lambda: dict(info, files=sorted(files), want=want))
    rows, at = files[want]
    return rows, at, info


def same(cr, rows, at, R, tag, info):
    trans = sorted(X.pure_translations(cr.sites))
    R.check(same_crystal(cr.rows, [p for p, _ in cr.sites], [z for _, z in cr.sites], trans,
                         rows, [p for p, _ in at], [z for _, z in at], proper=True),
            tag + ': not the expected crystal',
            lambda: dict(info, lattice=rows, atoms=at, want=cr.describe()))
    return len(trans)


def supcell(name, top, R):
    base = Crystal.parent(name)
    i = 0
    for a, b, c in product(range(1, top + 1), repeat=3):
        if a * b * c > top:
            continue
        h = ((a, 0, 0), (0, b, 0), (0, 0, c))
        want = base.super(h)
        for mode in MODES:
            infile, bn = INS[i % 4]
            v = (0, 1, 3)[i % 3]
            i += 1
            args = ['supcell', '-s', a, b, c] + (['--outmode', mode]
                                                 if mode != 'stdio' or i % 2 else [])
            rows, at, info = result(base, infile, bn, v, args, mode, 'SUPC', R, 'supcell')
            R.check(all(abs(x - y) < 1e-4 for r, s in zip(rows, want.rows.tolist())
                        for x, y in zip(r, s)), 'supcell: wrong lattice',
                    lambda: dict(info, lattice=rows))
            R.check(match(at, want.sites, 2e-4), 'supcell: not the atoms of the crystal',
                    lambda: dict(info, atoms=at))
            R.state('supcell', name, h, mode, infile, v)
            R.trans()
            R.trace()
    R.sample(info)


def pcell(name, n, R):
    base = Crystal.parent(name)
    for i, h in enumerate(X.all_hnfs(n)):
        cr = base.super(h)
        if not dyadic(cr):
            continue
        for k, mode in enumerate(MODES if R.quick else MODES * 2):
            infile, bn = INS[(i + k) % 4]
            v = (0, 1, 3)[(i + k) % 3]
            if (i + k) % 2:
                cr = cr.mirror()
            args = ['pcell'] + (['--outmode', mode] if mode != 'stdio' or i % 2 else [])
            rows, at, info = result(cr, infile, bn, v, args, mode, 'PRIMC', R, 'pcell')
            t = same(cr, rows, at, R, 'pcell', info)
            R.check(len(at) * t == len(cr.sites), 'pcell: the cell is not primitive',
                    lambda: dict(info, atoms=at))
            R.state('pcell', name, h, mode, infile, v)
            R.trans()
            R.trace()
    R.sample({'crystal': name, 'n': n})


def atclear(name, n, R):
    base = Crystal.parent(name)
    for i, h in enumerate(X.all_hnfs(n)):
        cr = base.super(h)
        if not dyadic(cr):
            continue
        sites = [(p, 83 if j == i % len(cr.sites) else z) for j, (p, z) in enumerate(cr.sites)]
        cr = Crystal(cr.rows, cr.gram, sites)
        if i % 2:
            cr = cr.mirror()
        alld = {j: dists(cr, p) for j, (p, _) in enumerate(sites)}
        zs = sorted(set(z for _, z in sites))
        rs = radii([d for v in alld.values() for d in v], None)
        if R.quick:
            rs = rs[1:5:2] + rs[-1:]
        for m, (zc, zr, r) in enumerate(product(zs + [74], zs + [74], rs)):
            if 74 in (zc, zr) and r != rs[-1]:
                continue
            left = [s for j, s in enumerate(sites) if not (
                s[1] == zr and any(alld[k][j] < r for k, (_, z) in enumerate(sites) if z == zc))]
            if not left:
                continue
            want = Crystal(cr.rows, cr.gram, left)
            for ref in ([(m + i) % 2] if R.quick else [0, 1]):
                infile, bn = INS[(m + ref) % 4]
                v = (0, 1, 3)[m % 3]
                args = ['atclear', '-c', SYMBOLS[zc], '-r', repr(r), '-e', SYMBOLS[zr]]
                args += [] if ref and m % 3 else [['--no-refined'], ['--refined']][ref]
                rows, at, info = result(cr, infile, bn, v, args, 'vasp', 'ACLR', R, 'atclear')
                if ref:
                    t = same(want, rows, at, R, 'atclear', info)
                    R.check(len(at) * t == len(left), 'atclear: the refined cell is not primitive',
                            lambda: dict(info, atoms=at))
                else:
                    R.check(all(abs(x - y) < 1e-4 for a, b in zip(rows, cr.rows.tolist())
                                for x, y in zip(a, b)), 'atclear: wrong lattice',
                            lambda: dict(info, lattice=rows))
                    R.check(match(at, left, 2e-4), 'atclear: wrong atoms left',
                            lambda: dict(info, atoms=at, want=want.describe()))
                R.state('atclear', name, h, zc, zr, round(r, 6), ref)
                R.outcome(len(sites), len(left))
                R.trans()
                R.trace()
    R.sample({'crystal': name, 'n': n})


def perturb(name, R):
    cr = Crystal.parent(name)
    if len(name) % 2:
        cr = cr.mirror()
    k = len(cr.sites)
    rows0 = cr.rows.tolist()
    for di, dist in enumerate((0.0, 0.1, 0.6)):
        def body(ch):
            dr = Draws(ch)
            infile, bn = INS[(di + len(ch.prefix)) % 4]
            args = ['perturb'] + (['-r', dist] if dist else [])
            with replaced(np.random, dr.fakes()):
                rows, at, info = result(cr, infile, bn, (0, 1, 3)[di], args, 'vasp', 'PURB', R,
                                        'perturb')
            info['draws'] = dr.rows
            R.check(all(abs(x - y) < 1e-4 for a, b in zip(rows, rows0) for x, y in zip(a, b)),
                    'perturb: wrong lattice', lambda: dict(info, lattice=rows))
            todo = list(cr.sites)
            moves = []
            for p, z in at:
                hit = None
                for j, (q, w) in enumerate(todo):
                    e = cart(wrap0([x - float(y) for x, y in zip(p, q)]), rows0)
                    if w == z and abs(sqrt(dot(e, e)) - dist) < 1e-3:
                        hit = j
                        moves.append(tuple(round(x, 2) + 0.0 for x in e))
                        break
                R.check(hit is not None, 'perturb: an atom is not moved by the given distance',
                        lambda: dict(info, atoms=at, distance=dist))
                del todo[hit]
            R.check(not todo, 'perturb: atoms are lost', lambda: dict(info, atoms=at))
            R.trans()
            return tuple(moves)
        for ch, moves in explore(body, bound=(3 if k == 1 else 2) - (1 if R.quick else 0)):
            R.state('perturb', name, dist, tuple(ch))
            R.outcome(moves)
            R.trace()
    R.sample({'crystal': name, 'distances': [0.0, 0.1, 0.6]})


def run(unit, R):
    {'supcell': supcell, 'pcell': pcell, 'atclear': atclear, 'perturb': perturb}[unit[0]](
        *(unit[1:] + [R]))
