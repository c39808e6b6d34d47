# coding: utf-8
"""C24: Monte Carlo tree search: every playout is greedy in Q + u, statistics are the
averages of what was seen, the most visited move is returned."""
from itertools import product
from math import sqrt

ID = 'C24'
RULE = {
    'quick': 'search: every game tree of depth <= 2 with 1..3 first moves and 0..2 replies, every '
             'assignment of winners (<= 3 ends; one deciding end above), x 4 prior patterns (one with a zero) x '
             'lambda 0, 1/2, 1 x 2 exploration constants x playout depth 1..3 x 1..6 playouts x 3 '
             'rollout limits (parameters rotated), each followed by every legal move and an unknown one and a second '
             'search; whole games (search, move, search ...; moves without search) on 6 full '
             'trees of depth 3..9; moves called 0, 1, 2 or None, (), \'x\'; absent options; nodes: every sequence of <= 5 backups over 3 nodes x 3 values',
    'thorough': 'all parameter combinations, up to 12 playouts, backups of length 7',
}
ASSUMPTIONS = ['policy, value and rollout functions are functions of the state',
               'ties between equal scores may be broken either way (within 1e-9)']
EPS = 1e-9


class Game(object):
    """A finite two-player game given as a tree {path: number of moves} and winners."""

    def __init__(self, shape, winners, log=None, path=()):
        self.shape = shape
        self.winners = winners
        self.path = path
        self.log = log

    def moves(self):
        return moves(self.shape, self.path)

    def do_move(self, a):
        if a not in self.moves():
            raise AssertionError('illegal move %r at %r' % (a, self.path))
        self.path = self.path + (a,)

    def get_current_player(self):
        return 1 if len(self.path) % 2 == 0 else -1

    def get_winner(self):
        return self.winners.get(self.path, 0) if not self.moves() else 0

    def copy(self):
        c = Game(self.shape, self.winners, self.log, self.path)
        if self.log is not None:
            self.log.append(c)
        return c


def moves(shape, path):
    if shape[0] == 'full':
        n = shape[1] if len(path) < shape[2] else 0
    elif len(path) == 0:
        n = len(shape)
    elif len(path) == 1:
        n = shape[num(path[0])]
    else:
        n = 0
    return [label(i) for i in range(n)]


# what the moves are called
NAMES = [(0, 1, 2), (None, (), 'x')]
NOW = [0]


def label(i):
    return NAMES[NOW[0]][i]


def num(a):
    return NAMES[NOW[0]].index(a)


def ends(shape):
    out = []
    for i, k in enumerate(shape):
        out += [(i, j) for j in range(k)] if k else [(i,)]
    return out


def priors(kind, acts, path):
    n = len(acts)
    if kind == 0:
        return [(a, 1.0 / n) for a in acts]
    idx = [num(a) for a in acts]
    if kind == 3:
        # a move of prior zero is a move
        return [(a, float(n == 1 or i > 0) / max(1, n - 1)) for a, i in zip(acts, idx)]
    w = [(a + 1 + len(path)) if kind == 1 else (n - a) * (n - a) for a in idx]
    s = float(sum(w))
    return [(a, x / s) for a, x in zip(acts, w)]


def value(kind, path):
    h = (len(path) * 7 + sum((i + 2) * (num(a) + 3) for i, a in enumerate(path)) * 5 + kind) % 9
    return (h - 4) / 4.0


class Node(object):
    def __init__(self, parent, prior):
        self.parent = parent
        self.prior = prior
        self.kids = None
        self.n = 0
        self.total = 0.0
        self.u = prior

    def score(self):
        return (self.total / self.n if self.n else 0.0) + self.u


class Model(object):
    """Reference search that follows the moves the code was seen to make."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.root = Node(None, 1.0)

    def playout(self, base, seen, evals, R, info):
        c = self.cfg
        path = base
        node = self.root
        trail = [node]
        k = 0
        for _ in range(c['L']):
            acts = moves(c['shape'], path)
            if not node.kids:
                if not acts:
                    break
                node.kids = {a: Node(node, p) for a, p in priors(c['prior'], acts, path)}
            R.check(k < len(seen), 'a playout stops before its depth', info)
            best = max(x.score() for x in node.kids.values())
            a = seen[k]
            R.check(a in node.kids and node.kids[a].score() >= best - EPS,
                    'a playout does not take the move of the largest Q + u', info)
            node = node.kids[a]
            trail.append(node)
            path = path + (a,)
            k += 1
        leaf = path
        lam = c['lmbda']
        v = value(c['value'], leaf)
        if lam < 1:
            R.check(all(e == leaf for e in evals) and evals,
                    'the value function is not asked about the leaf', info)
        # rollout
        z = 0
        if lam > 0:
            player = 1 if len(leaf) % 2 == 0 else -1
            for _ in range(c['limit']):
                acts = moves(c['shape'], path)
                if not acts:
                    break
                pr = priors((2 - c['prior']) % 4, acts, path)
                top = max(p for _, p in pr)
                R.check(k < len(seen) and any(a == seen[k] and p >= top - EPS for a, p in pr),
                        'a rollout does not follow its policy', info)
                path = path + (seen[k],)
                k += 1
            w = c['winners'].get(path, 0) if not moves(c['shape'], path) else 0
            z = 0 if w == 0 else (1 if w == player else -1)
        R.check(k == len(seen), 'a playout makes more moves than it should', info)
        val = (1 - lam) * (v if lam < 1 else 0) + lam * z
        for x in trail:
            x.n += 1
            x.total += val
            if x.parent is not None:
                x.u = c['c'] * x.prior * sqrt(x.parent.n) / (1 + x.n)

    def best(self):
        top = max(x.n for x in self.root.kids.values())
        return [a for a, x in self.root.kids.items() if x.n == top]

    def move(self, a):
        if self.root.kids and a in self.root.kids:
            self.root = self.root.kids[a]
            self.root.parent = None
        else:
            self.root = Node(None, 1.0)


def shapes():
    out = []
    for b in (1, 2, 3):
        out += list(product((0, 1, 2), repeat=b))
    return out


def units(tier):
    out = [['search', s] for s in shapes()]
    out += [['game', b, d] for b, d in ((1, 4), (2, 3), (2, 4), (3, 3), (2, 6), (1, 9))]
    out.append(['absent'])
    out += [['node', first, c] for first in range(9) for c in range(3)]
    return out


def winner_sets(es):
    if len(es) <= 3:
        for w in product((-1, 0, 1), repeat=len(es)):
            yield dict(zip(es, w))
    else:
        for i in range(len(es)):
            for a, b in ((1, -1), (-1, 1), (1, 0)):
                yield {e: (a if j == i else b) for j, e in enumerate(es)}


def configs(quick):
    allc = list(product((0, 1, 2, 3), (0.0, 0.5, 1.0), (0.3, 5.0), (1, 2, 3), (500, 1, 0)))
    return allc


def search_unit(shape, R):
    from ababe.mlearn.mcts import MCTS
    shape = tuple(shape)
    es = ends(shape)
    cfgs = configs(R.quick)
    count = 0
    plays = (1, 2, 3, 4, 6) if R.quick else (1, 2, 3, 4, 5, 6, 8, 12)
    for wi, winners in enumerate(winner_sets(es)):
        mine = cfgs if not R.quick else cfgs[wi % 8::8]
        NOW[0] = wi // 2 % 2
        winners = {tuple(label(i) for i in p): w for p, w in winners.items()}
        for prior, lam, c, L, limit in mine:
            count += 1
            for n in plays:
                cfg = {'shape': shape, 'winners': winners, 'prior': prior, 'lmbda': lam, 'c': c,
                       'L': L, 'limit': limit, 'value': (wi + count) % 5}
                evals = []

                def policy(s):
                    return priors(prior, s.moves(), s.path)

                def rollout(s):
                    return priors((2 - prior) % 4, s.moves(), s.path)

                def val(s):
                    evals.append((s, s.path))
                    return value(cfg['value'], s.path)

                def search(mcts, model, state, tag):
                    log = state.log
                    del log[:]
                    del evals[:]
                    base = state.path
                    got = mcts.get_move(state)
                    R.check(state.path == base, 'the search changes the state it was given', cfg)
                    R.check(len(log) == n, 'the number of playouts is wrong',
                            dict(cfg, playouts=n, seen=len(log)))
                    for s in log:
                        model.playout(base, list(s.path[len(base):]),
                                      [p for t, p in evals if t is s], R,
                                      lambda: dict(cfg, playouts=n, moves=[x.path for x in log],
                                                   at=s.path, phase=tag))
                        R.trans()
                    R.check(got in model.best(), 'not the most visited move is returned',
                            lambda: dict(cfg, playouts=n, got=got, best=model.best(), phase=tag,
                                         moves=[x.path for x in log]))
                    R.outcome(got, len(model.best()))
                    return got

                acts = moves(shape, ())
                nxt = acts + ['unknown'] if n >= 2 else acts[:1]
                if R.quick and n not in (3, 6):
                    nxt = nxt[-2:]
                for a in nxt:
                    mcts = MCTS(val, policy, rollout, lmbda=lam, c_puct=c, rollout_limit=limit,
                                playout_depth=L, n_playout=n)
                    model = Model(cfg)
                    st = Game(shape, winners, [])
                    search(mcts, model, st, 'first')
                    mcts.update_with_move(a)
                    model.move(a)
                    if a == 'unknown':
                        search(mcts, model, Game(shape, winners, []), 'after an unknown move')
                    elif moves(shape, (a,)):
                        search(mcts, model, Game(shape, winners, [], (a,)), 'after move %r' % (a,))
                    R.state(str(sorted(winners.items(), key=str)), prior, lam, c, L, limit, n, a)
                    R.trace()
    R.sample({'shape': shape, 'winners': [[list(k), v] for k, v in winners.items()]})


class Parity(dict):
    """Winner of every end of a full tree, by a rule."""

    def __init__(self, kind):
        dict.__init__(self)
        self.kind = kind

    def get(self, path, default=0):
        return (sum((i + 1) * (num(a) + 1) for i, a in enumerate(path)) + self.kind) % 3 - 1


def play(shape, kind, opts, skip, R, tag, maxmoves=99):
    """A whole game: search, move, search...; every `skip`-th move is not searched for."""
    from ababe.mlearn.mcts import MCTS
    full = {'lmbda': 0.5, 'c_puct': 5, 'rollout_limit': 500, 'playout_depth': 20,
            'n_playout': 10000}
    full.update(opts)
    prior = kind % 4
    NOW[0] = kind // 2 % 2
    cfg = {'shape': shape, 'winners': Parity(kind), 'prior': prior, 'lmbda': full['lmbda'],
           'c': full['c_puct'], 'L': full['playout_depth'], 'limit': full['rollout_limit'],
           'value': kind % 5}
    show = dict(cfg, winners='rule %d' % kind, options=opts, phase=tag)
    evals = {}

    def val(s):
        evals.setdefault(id(s), []).append(s.path)
        return value(cfg['value'], s.path)
    mcts = MCTS(val, lambda s: priors(prior, s.moves(), s.path),
                lambda s: priors((2 - prior) % 4, s.moves(), s.path), **opts)
    model = Model(cfg)
    path = ()
    step = 0
    while moves(shape, path) and step < maxmoves:
        step += 1
        if skip and step % skip == 0:
            a = moves(shape, path)[len(path) % len(moves(shape, path))]
        else:
            st = Game(shape, cfg['winners'], [], path)
            evals.clear()
            a = mcts.get_move(st)
            R.check(st.path == path, 'the search changes the state it was given', show)
            R.check(len(st.log) == full['n_playout'], 'the number of playouts is wrong',
                    lambda: dict(show, seen=len(st.log)))
            for i, s in enumerate(st.log):
                model.playout(path, list(s.path[len(path):]), evals.get(id(s), []), R,
                              lambda: dict(show, at=path, playout=i, moves=s.path))
                R.trans()
            R.check(a in model.best(), 'not the most visited move is returned',
                    lambda: dict(show, at=path, got=a, best=model.best()))
        mcts.update_with_move(a)
        model.move(a)
        path = path + (a,)
        R.state(str(shape), kind, tag, path)
    R.outcome(path)
    R.trace()


def game_unit(b, d, R):
    for kind in range(8 if R.quick else 16):
        for lam, L, n, skip in product((0.0, 0.5, 1.0), (1, 2, 4, 20), (1, 3, 7, 20), (0, 2, 3)):
            if R.quick and (kind + L + n + skip) % 3:
                continue
            play(('full', b, d), kind, {'lmbda': lam, 'playout_depth': L, 'n_playout': n,
                                        'c_puct': (0.3, 5, 1)[(kind + n) % 3],
                                        'rollout_limit': (500, 2, 0)[(kind + L) % 3]},
                 skip, R, '%s %s %s %s' % (lam, L, n, skip))


def absent_unit(R):
    """Options that are not given have their declared defaults."""
    play(('full', 2, 3), 1, {}, 0, R, 'no option')
    play(('full', 2, 3), 1, {'lmbda': 1}, 0, R, 'lmbda', 1)
    play(('full', 2, 24), 2, {'n_playout': 40}, 0, R, 'depth', 1)
    play(('full', 1, 540), 3, {'n_playout': 3}, 0, R, 'limit', 1)
    play(('full', 1, 520), 4, {'n_playout': 3}, 0, R, 'limit', 1)
    play(('full', 1, 519), 4, {'n_playout': 3}, 0, R, 'limit', 1)


def node_unit(first, ci, R):
    """Histories of backups on root - {a, b}, a - {c}."""
    from ababe.mlearn.mcts import TreeNode
    c = (0.5, 1, 5)[ci]
    vals = (-1.0, 0.25, 1.0)
    steps = [(x, v) for x in ('a', 'b', 'c') for v in vals]
    depth = 5 if R.quick else 7
    P = {'a': 0.25, 'b': 0.75, 'c': 0.5}

    def run_hist(hist):
        root = TreeNode(None, 1.0)
        R.check(root.is_root() and root.is_leaf(), 'a new node is a root and a leaf')
        root.expand([('a', P['a'])])
        act, a = root.select()
        root.expand([('b', P['b']), ('a', 0.99)])
        act2, b = root.select()
        R.check((act, act2) == ('a', 'b'), 'select() among unvisited children is not by prior')
        a.expand([('c', P['c'])])
        cc = a.select()[1]
        nodes = {'root': root, 'a': a, 'b': b, 'c': cc}
        par = {'a': 'root', 'b': 'root', 'c': 'a'}
        N = dict.fromkeys(nodes, 0)
        S = dict.fromkeys(nodes, 0.0)
        U = {'root': 1.0, 'a': P['a'], 'b': P['b'], 'c': P['c']}
        for who, v in hist:
            nodes[who].update_recursive(v, c)
            chain = [who]
            while chain[-1] != 'root':
                chain.append(par[chain[-1]])
            for x in reversed(chain):
                N[x] += 1
                S[x] += v
                if x != 'root':
                    U[x] = c * P[x] * sqrt(N[par[x]]) / (1 + N[x])
            # expanding again keeps what is known
            root.expand([('a', 0.9), ('b', 0.05)])
        want = {x: (S[x] / N[x] if N[x] else 0.0) + U[x] for x in nodes}
        for x in nodes:
            R.check(abs(nodes[x].get_value() - want[x]) < EPS, 'the score of a node is not '
                    'the average of its values plus the exploration bonus',
                    lambda: {'history': hist, 'node': x, 'got': nodes[x].get_value(),
                             'want': want[x], 'c_puct': c})
            R.check(nodes[x].is_root() == (x == 'root') and
                    nodes[x].is_leaf() == (x in 'bc'), 'is_root() / is_leaf()', hist)
        act, nd = root.select()
        R.check(want[act] >= max(want['a'], want['b']) - EPS and nd is nodes[act],
                'select() does not take the largest score', {'history': hist, 'c_puct': c})
        R.trans(len(hist))
        R.state(ci, tuple(hist))

    for n in range(depth):
        for rest in product(steps, repeat=n):
            run_hist([steps[first]] + list(rest))
            R.trace()
    R.sample({'c_puct': c, 'first': steps[first]})


def run(unit, R):
    if unit[0] == 'game':
        game_unit(unit[1], unit[2], R)
    elif unit[0] == 'absent':
        absent_unit(R)
    elif unit[0] == 'search':
        search_unit(unit[1], R)
    else:
        node_unit(unit[1], unit[2], R)
