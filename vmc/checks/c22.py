# coding: utf-8
"""C22: random_walk_arrange grows a connected set of distinct positions, and can grow any."""
from itertools import combinations, permutations, product

from vmc.explore import explore
from vmc.rand import control

ID = 'C22'
RULE = {
    'quick': 'every labelled connected graph on 1..4 positions (up to 5: one labelling each of the 21 '
             'shapes), every start, every length 1..all, every sequence of random draws; the '
             'boron sheet up to 3 atoms and the fcc problem of 2 atoms with every draw, the sheet of 4 and the '
             'fcc problem of 3 atoms with at most 1 non-default draw; problems with every subset of '
             'their three methods',
    'thorough': 'all labelled connected graphs on 5 positions, sheet of 4 atoms with every draw',
}
ASSUMPTIONS = ['the wanted length does not exceed the number of reachable positions',
               'draws come from the random module', 'get_neighbors is symmetric']
PARTS = ('get_start_position', 'is_goal', 'get_neighbors')


def connected(n, edges):
    seen, todo = {0}, [0]
    while todo:
        a = todo.pop()
        for x, y in edges:
            for u, v in ((x, y), (y, x)):
                if u == a and v not in seen:
                    seen.add(v)
                    todo.append(v)
    return len(seen) == n


def graphs(n, labelled):
    out = []
    seen = set()
    pairs = list(combinations(range(n), 2))
    for bits in range(1 << len(pairs)):
        e = [p for i, p in enumerate(pairs) if bits >> i & 1]
        if not connected(n, e):
            continue
        if not labelled:
            key = min(tuple(sorted(tuple(sorted((pm[a], pm[b]))) for a, b in e))
                      for pm in permutations(range(n)))
            if key in seen:
                continue
            seen.add(key)
        out.append(e)
    return out


def units(tier):
    out = []
    for n in (1, 2, 3, 4):
        for e in graphs(n, True):
            out.append(['graph', n, e])
    for e in graphs(5, tier != 'quick'):
        out.append(['graph', 5, e])
    out += [['boron', k, None] for k in (1, 2, 3)] + [['boron', 4, 1 if tier == 'quick' else None]]
    out += [['partial'], ['sizes', 0, None]]
    out += [['fcc', 1, None], ['fcc', 2, None], ['fcc', 3, 1 if tier == 'quick' else 2]]
    return out


def growths(start, nb, length):
    """All sequences of distinct positions, each next to an earlier one."""
    out = set()

    def rec(path):
        if len(path) == length:
            out.add(tuple(path))
            return
        front = set(q for p in path for q in nb(p)) - set(path)
        for q in front:
            rec(path + [q])
    rec([start])
    return out


def judge(path, start, nb, length, R, info):
    R.check(len(path) == length, 'the arrangement has the wrong length', info)
    R.check(path[0] == start, 'the arrangement does not begin at the start', info)
    R.check(len(set(path)) == len(path), 'a position is used twice', info)
    for i, p in enumerate(path[1:], 1):
        R.check(any(p in nb(q) for q in path[:i]),
                'a position is not next to an earlier one', info)


def partial(R):
    """Problems that define only some of their three methods."""
    import contextlib
    import io
    from ababe.mlearn.arrange import ArrangeProblem, random_walk_arrange
    whole = {'get_start_position': lambda self: 0,
             'is_goal': lambda self, k: k == 2,
             'get_neighbors': lambda self, p: {1 - p}}
    for bits in range(8):
        P = type('P', (ArrangeProblem,), {k: whole[k] for i, k in enumerate(PARTS) if bits >> i & 1})
        buf = io.StringIO()
        end = None
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            try:
                end = random_walk_arrange(P())
            except SystemExit as e:
                end = ('exit', e.code)
        missing = [k for i, k in enumerate(PARTS) if not bits >> i & 1]
        info = {'defined': [k for k in PARTS if k not in missing], 'end': end,
                'output': buf.getvalue()}
        if missing:
            R.check(isinstance(end, tuple) and end[1] not in (0, None) and
                    any(k in buf.getvalue() for k in missing),
                    'a missing method is not reported', info)
            for k in missing:
                buf = io.StringIO()
                try:
                    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                        getattr(P(), k)(*([0] if k != 'get_start_position' else []))
                    end = None
                except SystemExit as e:
                    end = e.code
                R.check(end not in (0, None) and k in buf.getvalue(),
                        'a missing method is not reported',
                        {'method': k, 'output': buf.getvalue(), 'status': end})
                R.trans()
        else:
            R.check(end == [0, 1], 'a complete problem is not walked', info)
        R.state('partial', bits)
        R.trans()
    R.trace()


def run(unit, R):
    if unit[0] == 'partial':
        return partial(R)
    from ababe.mlearn import arrange
    kind, n, arg = unit
    if kind == 'graph':
        adj = {i: set() for i in range(n)}
        for a, b in arg:
            adj[a].add(b)
            adj[b].add(a)

        # positions as the code uses them
        # (also small integers, 0 among them)
        # (two different ones of one hash too: -1, -2)
        plain = [0]
        NAMES = [lambda i: (i, -i), lambda i: i, lambda i: -1 - i, lambda i: (-1 - i, n)]
        name = lambda i: NAMES[plain[0]](i)
        num = lambda p: [i for i in range(n) if name(i) == p][0]
        nb = lambda p: set(name(j) for j in adj[num(p)])
        for start, length in product(range(n), range(1, n + 1)):
            plain[0] = (start + length) % 4
            class Problem(arrange.ArrangeProblem):
                def get_start_position(self):
                    return name(start)

                def is_goal(self, k):
                    return k == length

                def get_neighbors(self, p):
                    return nb(p)

            def body(ch):
                with control(ch.choose):
                    return arrange.random_walk_arrange(Problem())
            got = set()
            for ch, path in explore(body):
                info = {'edges': arg, 'start': start, 'length': length, 'draws': ch,
                        'path': path}
                judge(path, name(start), nb, length, R, info)
                got.add(tuple(path))
                R.state(n, str(arg), start, length, tuple(ch))
                R.trans(len(path))
                R.trace()
            want = growths(name(start), nb, length)
            R.check(got == want, 'some arrangement can never be grown',
                    lambda: {'edges': arg, 'start': start, 'length': length,
                             'missing': sorted(want - got)[:3]})
            R.outcome(len(want))
        R.sample({'positions': n, 'edges': arg})
        return
    from ababe.mlearn import arrangeAgent as A
    if kind == 'sizes':
        # problems of several kinds and sizes alive in one process, asked in turn
        for order in permutations([('boron', 1), ('boron', 3), ('fcc', 2), ('fcc', 3)]):
            probs = [maker(A, k)(m) for k, m in order]
            for (k, m), prob in list(zip(order, probs)) + list(zip(order, probs))[::-1]:
                solve(prob, k, m, 0, R, arrange)
        return
    solve(maker(A, kind)(n), kind, n, arg, R, arrange)


def maker(A, kind):
    return A.Boron2dArrangeProblem if kind == 'boron' else A.FCC3dArrangeProblem


def solve(prob, kind, n, arg, R, arrange):
    if kind == 'boron':
        cells = list(product(range(n), repeat=2))
        m = [[2, 0], [1, 1.732058]]
        mid = (n // 2, n // 2)
    else:
        cells = list(product(range(n), repeat=3))
        m = [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]
        mid = (n // 2, n // 2, n // 2)
    coor = {p: [sum(p[i] * m[i][j] for i in range(len(m))) for j in range(len(m))]
            for p in cells}
    near = {p: set(q for q in cells if q != p and
                   sum((a - b) ** 2 for a, b in zip(coor[p], coor[q])) <= 2.1 ** 2)
            for p in cells}
    for p in cells:
        R.check(set(prob.get_neighbors(p)) == near[p], 'neighbours within 2.1 are wrong',
                {'problem': kind, 'n': n, 'position': p})
        R.trans()
    R.check(tuple(prob.get_start_position()) == mid, 'the walk starts at the middle site')
    for k in range(1, n + 2):
        R.check(bool(prob.is_goal(k)) == (k == n), 'is_goal() is wrong', {'n': n, 'k': k})

    def body(ch):
        with control(ch.choose):
            return arrange.random_walk_arrange(prob)
    got = set()
    for ch, path in explore(body, bound=arg):
        judge(path, mid, lambda p: near[p], n, R, {'problem': kind, 'n': n, 'draws': ch,
                                                   'path': path})
        got.add(tuple(path))
        R.state(kind, n, tuple(ch))
        R.trans(len(path))
        R.trace()
    if arg is None:
        want = growths(mid, lambda p: near[p], n)
        R.check(got == want, 'some arrangement can never be grown', {'problem': kind, 'n': n})
    R.sample({'problem': kind, 'atoms': n})
