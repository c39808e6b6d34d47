# coding: utf-8
"""Running the command line in a scratch directory under controlled file-name draws,
and reading what it wrote."""
import contextlib
import io
import os
import random as _random
import shutil
import tempfile

import yaml as pyyaml

from vmc.iokit import parse_poscar
from vmc.seam import replaced

ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


class Names(object):
    """Answers of random.choices(): a new word, the last one again, or the first one again."""

    def __init__(self, ch):
        self.ch = ch
        self.used = []
        self.rng = _random.Random(7)
        self.states = []

    def word(self, population, k):
        population = list(population)
        opts = 1 + min(2, len(set(self.used)))
        c = self.ch.choose(opts) if self.ch is not None else 0
        if c == 1:
            i = self.used[-1]
        elif c == 2:
            i = self.used[0]
        else:
            i = max(self.used) + 1 if self.used else 0
        self.used.append(i)
        b = len(population)
        out = []
        for _ in range(k):
            out.append(population[i % b])
            i //= b
        return out[::-1]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        return self.word(population, k)

    def sample(self, population, k):
        w = self.word(population, k)
        return w if len(set(w)) == len(w) else [list(population)[(i + self.used[-1]) %
                                                len(population)] for i in range(k)]

    # words drawn letter by letter: a fresh letter, or the four last ones once more
    def choice(self, seq):
        return seq[self.below(len(seq))]

    def below(self, n):
        if len(self.states) >= 4 and self.ch is not None and self.ch.choose(2):
            self.rng.setstate(self.states[-4])
        self.states.append(self.rng.getstate())
        return self.rng.randrange(n)

    def randint(self, a, b):
        return a + self.below(b - a + 1)

    def randrange(self, start, stop=None, step=1):
        return self.choice(range(start) if stop is None else range(start, stop, step))


@contextlib.contextmanager
def names(ch):
    n = Names(ch)
    fakes = {k: getattr(n, k) for k in ('choices', 'choice', 'randint', 'randrange', 'sample')}
    fakes['SystemRandom'] = lambda *a: n
    with replaced(_random, fakes):
        yield n


@contextlib.contextmanager
def workdir():
    d = tempfile.mkdtemp(dir=os.environ['VMC_SCRATCH'])
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def only_new(d, old):
    """Take away the directories of earlier runs when a run made another one: then the names
    were drawn by other means than those under control."""
    now = dirs(d)
    if set(now) > set(old):
        for x in old:
            shutil.rmtree(os.path.join(d, x))


def invoke(group, args):
    """-> (standard output, exception or None)"""
    buf = io.StringIO()
    err = None
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
        try:
            group.main([str(a) for a in args], standalone_mode=False)
        except SystemExit as e:
            if e.code not in (0, None):
                err = e
        except Exception as e:
            err = e
    return buf.getvalue(), err


def read_structure(path, R, what):
    """(rows, [(frac, Z)]) of a written file; the format is the one its name tells."""
    with open(path) as f:
        text = f.read()
    try:
        if path.endswith('.yaml'):
            d = pyyaml.safe_load(text)
            rows = [[float(x) * d['zoom'] for x in r] for r in d['lattice']]
            at = [([float(x) for x in p], int(z)) for p, z in zip(d['positions'], d['numbers'])]
            assert len(d['positions']) == len(d['numbers'])
            return rows, at
        _, rows, at, _, _ = parse_poscar(text)
        return rows, at
    except Exception as e:
        R.fail(what + ': a file is not a valid %s structure' % path.rsplit('.', 1)[-1],
               {'file': path, 'text': text, 'error': repr(e)})


def write_input(cr, path, variant=0):
    """Write an exact crystal (atoms only in POSCAR) as an input file."""
    lat, pos, num = cr.arrays(variant)
    if path.endswith('.yaml'):
        text = pyyaml.dump({'comment': 'in', 'lattice': lat.tolist(), 'positions': pos.tolist(),
                            'numbers': [int(z) for z in num], 'zoom': 1})
    else:
        from vmc.iokit import SYMBOLS
        order = sorted(range(len(num)), key=lambda i: int(num[i]))
        zs = [int(num[i]) for i in order]
        kinds = sorted(set(zs))
        lines = ['in', '1.0'] + [' '.join('%.8f' % x for x in r) for r in lat.tolist()]
        lines += [' '.join(SYMBOLS[z] for z in kinds), ' '.join(str(zs.count(z)) for z in kinds),
                  'Direct']
        lines += [' '.join('%.8f' % x for x in pos[i]) for i in order]
        text = '\n'.join(lines) + '\n'
    with open(path, 'w') as f:
        f.write(text)


def tree(d):
    out = []
    for base, dirs, files in os.walk(d):
        for f in files:
            out.append(os.path.relpath(os.path.join(base, f), d))
    return sorted(out)


def dirs(d):
    return sorted(x for x in os.listdir(d) if os.path.isdir(os.path.join(d, x)))
