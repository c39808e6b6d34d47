# coding: utf-8
"""Do two periodic structures describe the same crystal (up to rotation, translation,
choice of cell)?  Complete search, float tolerant."""
from itertools import product
from math import sqrt, floor, ceil

from vmc import crystal as X


def det(m):
    return X.det3(m)


def cart(p, rows):
    return tuple(sum(p[i] * rows[i][j] for i in range(3)) for j in range(3))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def wrap0(d):
    return [x - floor(x + 0.5) for x in d]


def same_crystal(rows_a, pos_a, num_a, trans_a, rows_b, pos_b, num_b, tol=5e-3, proper=None):
    """A is given with all its pure translations trans_a (fractional, incl. 0); B is any
    cell.  True iff some isometry maps crystal B onto crystal A.
    proper=True restricts to rotations (no mirror)."""
    ra = [[float(x) for x in r] for r in rows_a]
    rb = [[float(x) for x in r] for r in rows_b]
    pa = [[float(x) for x in p] for p in pos_a]
    pb = [[float(x) for x in p] for p in pos_b]
    va, vb = abs(det(ra)), abs(det(rb))
    if len(pb) == 0 or vb < 1e-9:
        return False
    # same density, species by species
    for z in set(num_a) | set(num_b):
        ca, cb = list(num_a).count(z), list(num_b).count(z)
        if abs(ca / va - cb / vb) > 1e-3 * max(ca / va, cb / vb):
            return False
    ga = X.gram_of(ra)
    gb = X.gram_of(rb)
    # candidate images of the three cell vectors of B among the translations of A
    cand = []
    for k in range(3):
        L = sqrt(gb[k][k])
        lst = []
        for t in trans_a:
            tf = tuple(float(x) for x in t)
            for q, n in X.vectors_within(ga, (L + tol) ** 2, tf, eps=0):
                if abs(sqrt(q) - L) <= tol:
                    lst.append(cart(tuple(n[i] + tf[i] for i in range(3)), ra))
        cand.append(lst)
    bins = {}
    zmin = min(set(num_b), key=lambda z: list(num_b).count(z))
    anchor = [p for p, z in zip(pb, num_b) if z == zmin][0]
    ia = X.inv3(ra)
    targets = [p for p, z in zip(pa, num_a) if z == zmin]

    def fits(img):
        # map fractional coordinates of B to cartesian of A: f -> f . img + shift
        a0 = cart(anchor, img)
        rel = [(tuple(x - y for x, y in zip(cart(p, img), a0)), z) for p, z in zip(pb, num_b)]
        for t in targets:
            tc = cart(t, ra)
            ok = True
            used = set()
            for d, z in rel:
                w = tuple(x + y for x, y in zip(tc, d))
                f = cart(w, ia)
                hit = False
                for j, (q, zq) in enumerate(zip(pa, num_a)):
                    if zq != z:
                        continue
                    e = wrap0([x - y for x, y in zip(f, q)])
                    if sqrt(dot(cart(e, ra), cart(e, ra))) < 4 * tol:
                        hit = True
                        break
                if not hit:
                    ok = False
                    break
            if ok:
                return True
        return False

    sb = det(rb) > 0
    for a in cand[0]:
        for b in cand[1]:
            if abs(dot(a, b) - gb[0][1]) > tol * (sqrt(gb[0][0]) + sqrt(gb[1][1])):
                continue
            for c in cand[2]:
                if abs(dot(a, c) - gb[0][2]) > tol * (sqrt(gb[0][0]) + sqrt(gb[2][2])) or \
                        abs(dot(b, c) - gb[1][2]) > tol * (sqrt(gb[1][1]) + sqrt(gb[2][2])):
                    continue
                img = [list(a), list(b), list(c)]
                dd = det(img)
                if abs(abs(dd) - vb) > 1e-2 * vb:
                    continue
                if proper and (dd > 0) != sb:
                    continue
                if fits(img):
                    return True
    return False
