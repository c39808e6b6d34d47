# coding: utf-8
"""C21: RandomPopSet behaves as a set, whatever the history and the random draws."""
from vmc.explore import explore
from vmc.rand import control

ID = 'C21'
RULE = {
    'quick': 'every history of at most 6 operations (5 from the full set; add, push, discard, random_pop with every '
             'draw, get_random with every draw) over 3 items, every history of at most 4 over 4 '
             'items with the whole set interface (remove, pop, clear, |=, &=, -=, ^=, constructors, sets made from sets), '
             'from empty and from two pre-filled sets, and one edit fewer with items that are false '
             '(0, ()) or share a hash (-1, -2); after each: size, membership, iteration; '
             'in every reachable state each member can be drawn',
    'thorough': 'histories of 7 (6) operations over 3 items, 5 over 4 items',
}
ASSUMPTIONS = ['hashable items', 'draws come from the random module']

SMALL = ['add', 'push', 'discard']


def units(tier):
    out = []
    for start in ((), (2,), (0, 1, 2)):
        for first in small_ops(3):
            d = 6 if len(start) < 3 else 5
            out.append(['core', start, first, d if tier == 'quick' else d + 1])
    for start in ((), (3, 1)):
        for first in full_ops(4):
            out.append(['full', start, first, 4 if tier == 'quick' else 5])
    out.append(['build'])
    # the same with items that are false and items of one hash, one edit fewer
    out += [[u[0] + '+'] + (u[1:3] + [u[3] - 1] if len(u) > 1 else []) for u in out]
    return out


# mixed kinds of hashable items, two of them positions as used by the arranger;
# items that are false, two different ones of one hash
ITEMS = {'': [(0, 1), 'x', (1, 0), 7], '+': [0, -1, -2, ()]}
NOW = ['']


def item(i):
    return ITEMS[NOW[0]][i]


def small_ops(n):
    return [['add', i] for i in range(n)] + [['discard', i] for i in range(n)] + \
        [['random_pop'], ['get_random'], ['push', 0]]


def full_ops(n):
    out = [['push', i] for i in range(n)] + [['remove', i] for i in range(n)] + \
        [['random_pop'], ['pop'], ['clear']]
    for k in ('ior', 'iand', 'isub', 'ixor'):
        out += [[k, [0, 1]], [k, [1, 2, 3]]]
    return out


def step(s, ref, op, R, hist):
    """Apply op to the code and to the reference; returns the new reference."""
    k = op[0]
    ref = set(ref)
    info = lambda: {'history': hist, 'before': sorted(map(repr, ref))}
    if k in ('add', 'push'):
        getattr(s, k)(item(op[1]))
        ref.add(item(op[1]))
    elif k == 'discard':
        s.discard(item(op[1]))
        ref.discard(item(op[1]))
    elif k == 'remove':
        x = item(op[1])
        try:
            s.remove(x)
            R.check(x in ref, 'remove() of an absent item succeeds', info)
        except KeyError:
            R.check(x not in ref, 'remove() of a member fails', info)
        ref.discard(x)
    elif k == 'random_pop':
        got = s.random_pop()
        if ref:
            R.check(got in ref, 'random_pop() returns something that is no member', info)
            ref.discard(got)
        else:
            R.check(got is None, 'random_pop() on an empty set returns an item', info)
    elif k == 'get_random':
        got = s.get_random()
        R.check(got in ref if ref else got is None,
                'get_random() returns something that is no member', info)
    elif k == 'pop':
        if ref:
            got = s.pop()
            R.check(got in ref, 'pop() returns something that is no member', info)
            ref.discard(got)
    elif k == 'clear':
        s.clear()
        ref = set()
    else:
        other = set(item(i) for i in op[1])
        if k == 'ior':
            s |= other
            ref |= other
        elif k == 'iand':
            s &= other
            ref &= other
        elif k == 'isub':
            s -= other
            ref -= other
        elif k == 'ixor':
            s ^= other
            ref ^= other
    return s, ref


def observe(s, ref, n, R, hist):
    info = lambda: {'history': hist, 'expected': sorted(map(repr, ref)),
                    'iterates': [repr(x) for x in s], 'len': len(s)}
    it = list(s)
    R.check(len(s) == len(ref) and len(it) == len(ref) and set(it) == ref and
            all((item(i) in s) == (item(i) in ref) for i in range(n)),
            'the set does not hold what was put into it', info)
    R.check((s == ref) and (s <= ref) and (s >= ref), 'comparison with a set', info)
    R.trans(2)


def copies(s, its, R):
    """A set made from another one, or from two, is a set of its own."""
    from ababe.mlearn.dsutils import RandomPopSet
    full = set(item(i) for i in range(4))
    makers = [('from a set', lambda: RandomPopSet(s), set(its)),
              ('|', lambda: s | s, set(its)), ('&', lambda: s & full, set(its)),
              ('| more', lambda: s | full, full), ('-', lambda: s - set(), set(its)),
              ('^', lambda: s ^ full, full - set(its))]
    for what, make, want in makers:
        for x in full:
            t = make()
            observe(t, want, 4, R, [what, its])
            t.discard(x)
            observe(t, want - {x}, 4, R, [what, its, 'discard'])
            observe(s, set(its), 4, R, [what, its, 'discard in the new one'])
            t.add(x)
            observe(t, want | {x}, 4, R, [what, its, 'add'])
            observe(s, set(its), 4, R, [what, its, 'add in the new one'])
            t = make()
            had = x in s
            s.discard(x)
            observe(t, want, 4, R, [what, its, 'discard in the old one'])
            s.add(x)
            observe(t, want, 4, R, [what, its, 'add in the old one'])
            if not had:
                s.discard(x)
            R.state(what, tuple(map(repr, its)), repr(x))


def run(unit, R):
    from ababe.mlearn.dsutils import RandomPopSet
    NOW[0] = unit[0][len(unit[0].rstrip('+')):]
    unit = [unit[0].rstrip('+')] + list(unit[1:])
    if unit[0] == 'build':
        for bits in range(16):
            its = [item(i) for i in range(4) if bits >> i & 1]
            for src in (its, set(its), tuple(its), dict.fromkeys(its)):
                s = RandomPopSet(set(src) if not isinstance(src, set) else src)
                observe(s, set(its), 4, R, ['build', its])
                copies(s, its, R)
                drawn = set()

                def body(ch):
                    with control(ch.choose, grain=max(1, len(its))):
                        t = RandomPopSet(set(src))
                        return t.get_random()
                for _, got in explore(body):
                    drawn.add(got)
                R.check(drawn == (set(its) or {None}), 'some member can never be drawn',
                        {'items': its, 'drawn': list(drawn)})
                R.state(bits, type(src).__name__)
        R.trace()
        return
    mode, start, first, depth = unit
    n = 3 if mode == 'core' else 4
    alphabet = small_ops(n) if mode == 'core' else full_ops(n)

    def body_for(hist):
        def body(ch):
            with control(ch.choose) as c:
                s = RandomPopSet(set(item(i) for i in start)) if start else RandomPopSet()
                ref = set(item(i) for i in start)
                before = ref
                for op in hist:
                    c.grain = max(1, len(ref))
                    before = ref
                    s, ref = step(s, ref, op, R, hist)
                observe(s, ref, n, R, hist)
                return frozenset(before), frozenset(before - ref), tuple(list(s))
        return body

    def go(hist):
        drawn = {}
        for ch, (before, gone, order) in explore(body_for(hist)):
            if hist[-1][0] == 'random_pop':
                drawn.setdefault(before, set()).update(gone)
            R.state(mode, tuple(start), str(hist), tuple(ch))
            R.outcome(order)
            R.trace()
        for before, gone in drawn.items():
            R.check(gone == before, 'some member can never be popped',
                    {'history': hist, 'members': list(before), 'popped': list(gone)})
        if len(hist) < depth:
            for op in alphabet:
                go(hist + [op])
    go([first])
    R.sample({'start': start, 'first': first})
