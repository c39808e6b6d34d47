# coding: utf-8
"""Exact reference model of a periodic crystal (pure Python, rational arithmetic).

Nothing in this file imports ababe, numpy or spglib: it is the independent
oracle the checks compare the implementation with.

A model crystal is (gram, sites): `gram` is the 3x3 Gram matrix of the lattice
rows with Fraction entries, `sites` is a list of ((x, y, z) Fractions, Z).
"""
from fractions import Fraction as F
from itertools import product, permutations, combinations
from math import sqrt, ceil, floor


# ---------------------------------------------------------------- linear algebra
def mat_mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def vec_mat(v, m):
    return tuple(sum(v[i] * m[i][j] for i in range(len(v)))
                 for j in range(len(m[0])))


def mat_vec(m, v):
    return tuple(sum(m[i][j] * v[j] for j in range(len(v))) for i in range(len(m)))


def transpose(m):
    return [list(r) for r in zip(*m)]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inv3(m):
    d = det3(m)
    c = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a = [[m[r][s] for s in range(3) if s != j] for r in range(3) if r != i]
            minor = a[0][0] * a[1][1] - a[0][1] * a[1][0]
            c[j][i] = (minor if (i + j) % 2 == 0 else -minor) / d
    return c


def to_frac(m):
    return [[F(x) for x in r] for r in m]


def gram_of(rows):
    return [[sum(a * b for a, b in zip(r, s)) for s in rows] for r in rows]


def qform(g, v):
    return sum(v[i] * g[i][j] * v[j] for i in range(3) for j in range(3))


def bilin(g, u, v):
    return sum(u[i] * g[i][j] * v[j] for i in range(3) for j in range(3))


def wrap(p):
    return tuple(x - floor(x) for x in p)


# ---------------------------------------------------------------- short vectors
def coeff_bounds(gram, r2):
    """Per-axis bound on |coefficient| of any vector with squared length <= r2."""
    gi = inv3(gram)
    return [int(floor(sqrt(float(r2) * float(gi[i][i])) + 1e-6)) for i in range(3)]


def vectors_within(gram, r2, shift=(0, 0, 0), eps=1e-9):
    """All integer vectors n with |n + shift|^2 <= r2 (complete; exact bounds)."""
    gi = inv3(gram)
    rng = []
    for i in range(3):
        b = sqrt(max(float(r2), 0.0) * float(gi[i][i])) + 1e-6
        lo = int(ceil(-b - float(shift[i])))
        hi = int(floor(b - float(shift[i])))
        rng.append(range(lo, hi + 1))
    out = []
    for n in product(*rng):
        v = tuple(n[i] + shift[i] for i in range(3))
        q = qform(gram, v)
        if q <= r2 + eps:
            out.append((q, n))
    return out


def min_image_d2(gram, delta):
    """Exact squared distance from 0 to the coset delta + Z^3."""
    w = tuple(x - floor(x + F(1, 2)) if isinstance(x, F)
              else x - floor(x + 0.5) for x in delta)
    best = qform(gram, w)
    for q, n in vectors_within(gram, best, w):
        if q < best:
            best = q
    return best


def shortest_lattice_d2(gram):
    best = min(gram[i][i] for i in range(3))
    for q, n in vectors_within(gram, best):
        if n != (0, 0, 0) and q < best:
            best = q
    return best


# ---------------------------------------------------------------- point group
def lattice_rotations(gram):
    """All integer W (acting on column fractional coordinates) with W^T G W = G."""
    cols = []
    for k in range(3):
        cols.append([n for q, n in vectors_within(gram, gram[k][k], eps=0)
                     if q == gram[k][k]])
    out = []
    for c0 in cols[0]:
        for c1 in cols[1]:
            if bilin(gram, c0, c1) != gram[0][1]:
                continue
            for c2 in cols[2]:
                if bilin(gram, c0, c2) != gram[0][2] or bilin(gram, c1, c2) != gram[1][2]:
                    continue
                w = [[c0[i], c1[i], c2[i]] for i in range(3)]
                if abs(det3(w)) == 1:
                    out.append(w)
    return out


def space_group_ops(gram, sites, rots=None):
    """All (W, t) mapping the crystal on itself, t in [0,1)^3, exact."""
    if rots is None:
        rots = lattice_rotations(gram)
    table = {wrap(p): z for p, z in sites}
    assert len(table) == len(sites), 'overlapping sites'
    by_z = {}
    for p, z in sites:
        by_z.setdefault(z, []).append(p)
    anchor_z = min(by_z, key=lambda z: len(by_z[z]))
    anchor = by_z[anchor_z][0]
    ops = []
    for w in rots:
        a_img = mat_vec(w, anchor)
        imgs = [(mat_vec(w, p), z) for p, z in sites]
        seen = set()
        for q in by_z[anchor_z]:
            t = wrap(tuple(q[i] - a_img[i] for i in range(3)))
            if t in seen:
                continue
            seen.add(t)
            if all(table.get(wrap(tuple(p[i] + t[i] for i in range(3)))) == z
                   for p, z in imgs):
                ops.append((w, t))
    return ops


def op_permutation(w, t, sites, index):
    """image[i] = index of the site on which site i lands."""
    return tuple(index[wrap(tuple(a + b for a, b in zip(mat_vec(w, p), t)))]
                 for p, _ in sites)


def site_permutations(gram, sites, rots=None):
    """The permutation group of the sites induced by the space group (a set)."""
    index = {wrap(p): i for i, (p, _) in enumerate(sites)}
    return {op_permutation(w, t, sites, index)
            for w, t in space_group_ops(gram, sites, rots)}


def pure_translations(sites):
    """All t in [0,1)^3 mapping the (coloured) site set on itself."""
    table = {wrap(p): z for p, z in sites}
    by_z = {}
    for p, z in sites:
        by_z.setdefault(z, []).append(p)
    az = min(by_z, key=lambda z: len(by_z[z]))
    a = by_z[az][0]
    out = set()
    for q in by_z[az]:
        t = wrap(tuple(q[i] - a[i] for i in range(3)))
        if all(table.get(wrap(tuple(p[i] + t[i] for i in range(3)))) == z for p, z in sites):
            out.add(t)
    return out


# ---------------------------------------------------------------- colourings
def orbit_map(perms, states, apply):
    """Explicit-state closure: state -> orbit representative (smallest member)."""
    rep = {}
    for s in states:
        if s in rep:
            continue
        orb = {apply(p, s) for p in perms}
        orb.add(s)
        r = min(orb)
        for o in orb:
            rep[o] = r
    return rep


def colour_apply(perm, colours):
    """Move the colour on site i to site perm[i]."""
    out = [None] * len(colours)
    for i, c in enumerate(colours):
        out[perm[i]] = c
    return tuple(out)


# ---------------------------------------------------------------- HNFs
def hnf(mat):
    """Row-style Hermite normal form (upper triangular, 0 <= entries above the
    pivot < pivot) of a nonsingular integer matrix: canonical form of the
    row lattice."""
    m = [list(map(int, r)) for r in mat]
    n = 3
    for c in range(n):
        while True:
            nz = [r for r in range(c, n) if m[r][c] != 0]
            p = min(nz, key=lambda r: abs(m[r][c]))
            m[c], m[p] = m[p], m[c]
            done = True
            for r in range(c + 1, n):
                q = m[r][c] // m[c][c]
                m[r] = [x - q * y for x, y in zip(m[r], m[c])]
                if m[r][c] != 0:
                    done = False
            if done:
                break
        if m[c][c] < 0:
            m[c] = [-x for x in m[c]]
    for c in range(n):
        for r in range(c):
            q = m[r][c] // m[c][c]
            m[r] = [x - q * y for x, y in zip(m[r], m[c])]
    return tuple(tuple(r) for r in m)


def all_hnfs(n):
    """Every sublattice of Z^3 of index n, once."""
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        for c in range(1, n // a + 1):
            if (n // a) % c:
                continue
            f = n // a // c
            for b in range(c):
                for d in range(f):
                    for e in range(f):
                        out.append(((a, b, d), (0, c, e), (0, 0, f)))
    return out


def all_hnfs_2d(n):
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        c = n // a
        for b in range(c):
            out.append(((a, b, 0), (0, c, 0), (0, 0, 1)))
    return out


def expand(sites, h):
    """Reference supercell: sites of the parent crystal inside lattice h*A,
    in fractional coordinates of the supercell (Fractions, wrapped)."""
    hi = inv3(to_frac(h))
    n = abs(det3(h))
    cosets = set()
    for v in product(*[range(sum(abs(h[r][c]) for r in range(3))) for c in range(3)]):
        cosets.add(wrap(vec_mat(v, hi)))
        if len(cosets) == n:
            break
    out = []
    for p, z in sites:
        b = vec_mat(p, hi)
        for c in cosets:
            out.append((wrap(tuple(x + y for x, y in zip(b, c))), z))
    return out


def super_gram(gram, h):
    hf = to_frac(h)
    return mat_mul(mat_mul(hf, gram), transpose(hf))


# ---------------------------------------------------------------- tolerant matching of floats
def match_sites(float_pos, numbers, sites, tol=2e-4):
    """Bijection float sites -> reference sites (periodic, same Z), or None.
    Returns list m with m[i] = reference index of float site i."""
    used = set()
    res = []
    if len(float_pos) != len(sites):
        return None
    for p, z in zip(float_pos, numbers):
        hit = None
        for j, (q, zq) in enumerate(sites):
            if j in used or zq != z:
                continue
            ok = True
            for a, b in zip(p, q):
                d = float(a) - float(b)
                d -= floor(d + 0.5)
                if abs(d) > tol:
                    ok = False
                    break
            if ok:
                hit = j
                break
        if hit is None:
            return None
        used.add(hit)
        res.append(hit)
    return res


# ---------------------------------------------------------------- isometry invariants
def distance_fingerprint(rows, pos, numbers, rcut, decimals=3):
    """Isometry- and cell-independent fingerprint of an infinite crystal: for
    each species, the normalised multiset of (environment) where environment =
    sorted list of (rounded distance, species) of all neighbours within rcut."""
    gram = gram_of([[float(x) for x in r] for r in rows])
    env = []
    for p, z in zip(pos, numbers):
        lst = []
        for q, zq in zip(pos, numbers):
            sh = tuple(float(b) - float(a) for a, b in zip(p, q))
            for d2, n in vectors_within(gram, rcut * rcut, sh, eps=0):
                if d2 > 1e-8:
                    lst.append((sqrt(d2), int(zq)))
        lst.sort()
        env.append((int(z), lst))
    return env
