# coding: utf-8
"""Independent POSCAR reader / writer and comparison helpers for the I/O checks."""
from math import floor

from vmc import crystal as X

SYMBOLS = ('G H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn '
           'Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba '
           'La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi '
           'Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr').split()
Z = {s: i for i, s in enumerate(SYMBOLS)}


def parse_poscar(text):
    """Strict reference reader (VASP 5).  -> (comment, rows, [(frac, Z)])"""
    lines = text.split('\n')
    comment = lines[0]
    zoom = float(lines[1].split()[0])
    rows = [[float(x) for x in l.split()[:3]] for l in lines[2:5]]
    syms = lines[5].split()
    counts = [int(x) for x in lines[6].split()]
    assert len(syms) == len(counts)
    mode = lines[7].strip()
    if zoom < 0:
        s = (-zoom / abs(X.det3(rows))) ** (1.0 / 3)
    else:
        s = zoom
    zs = [Z[y] for y, c in zip(syms, counts) for _ in range(c)]
    body = lines[8:8 + len(zs)]
    assert len(body) == len(zs)
    assert all(not l.strip() for l in lines[8 + len(zs):])
    pos = [[float(x) for x in l.split()[:3]] for l in body]
    labels = [l.split()[3] if len(l.split()) > 3 else None for l in body]
    for lab, z in zip(labels, zs):
        assert lab is None or Z[lab] == z, 'label'
    if mode[0] in 'cCkK':
        inv = X.inv3(rows)
        pos = [X.vec_mat(p, inv) for p in pos]
    return comment, [[x * s for x in r] for r in rows], list(zip(pos, zs)), syms, counts


def close_rows(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol for r, s in zip(a, b) for x, y in zip(r, s))


def match(got, want, tol, periodic=True):
    """Bijection of (pos, z) lists within tol."""
    if len(got) != len(want):
        return False
    left = list(want)
    for p, z in got:
        for j, (q, w) in enumerate(left):
            if w != z:
                continue
            ok = True
            for a, b in zip(p, q):
                d = float(a) - float(b)
                if periodic:
                    d -= floor(d + 0.5)
                if abs(d) > tol:
                    ok = False
                    break
            if ok:
                del left[j]
                break
        else:
            return False
    return True


def formula(nums):
    out = ''
    for z in sorted(set(nums)):
        if z:
            out += '%s%d' % (SYMBOLS[z], nums.count(z))
    return out


def cell_list(cell):
    return [(p, int(z)) for p, z in zip(cell.positions.tolist(), cell.numbers.tolist())]
