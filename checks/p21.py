""" Cost counters. """
from lib.harness import Scenario
from checks.common import *


def _counter(S, nm, labels, maxk):
    labs = S.subset(nm + 'l', labels)
    S.assume(len(labs) <= maxk)
    if len(labs) > 1 and S.flag(nm + 'rev'):        # the order in which labels are given must not matter
        labs = list(labs)[::-1]
    return {l: S.int(f'{nm}n{l}', 0, None, eager=(0, 1, 2)) for l in labs}


def _parts(S, d):
    v = c = a = 0
    for l, n in d.items():
        l = l.lower()
        if l in 'ch':
            c = c + n
        elif l == 'a':
            a = a + n
        else:
            v = v + n
    return v, c, a


def _raw(S, d):
    out = {}
    for l, n in d.items():
        out[l.lower()] = out.get(l.lower(), 0) + n
    return out


def counter(S):
    C = S.R.mo.MOSpaceCounter
    dx, dy = _counter(S, 'x', S.p['labels'], S.p['maxk']), _counter(S, 'y', S.p['labels'], S.p['maxk'])
    x, y = C(dict(dx)), C(dict(dy))
    for d, o in ((dx, x), (dy, y)):
        v, c, a = _parts(S, d)
        S.check(S.eq(o.overall_scaling, v + c + a), 'overall scaling counts every index once')
        p = o.parsed_counter
        S.check(S.all([len(p) == 3, S.eq(p[0], v), S.eq(p[1], c), S.eq(p[2], a)]), 'counts per space')
        raw = _raw(S, d)
        S.check(set(o.raw_counter) == set(raw), 'labels of the raw counter')
        S.check(S.all([S.eq(o.raw_counter[k], raw[k]) for k in raw]), 'raw counter adds both spins')
    (v1, c1, a1), (v2, c2, a2) = _parts(S, dx), _parts(S, dy)
    t1, t2 = v1 + c1 + a1, v2 + c2 + a2
    lt_ = S.any([t1 < t2, S.all([S.eq(t1, t2), S.any([v1 < v2, S.all([S.eq(v1, v2), S.any(
        [c1 < c2, S.all([S.eq(c1, c2), a1 < a2])])])])])])
    gt_ = S.any([t1 > t2, S.all([S.eq(t1, t2), S.any([v1 > v2, S.all([S.eq(v1, v2), S.any(
        [c1 > c2, S.all([S.eq(c1, c2), a1 > a2])])])])])])
    S.check(S.iff(x < y, lt_), 'cheaper: fewer indices, then fewer virtual, core, active')
    S.check(S.iff(x > y, gt_), 'more expensive')
    S.check(S.iff(x <= y, S.not_(gt_)), '<=')
    S.check(S.iff(x >= y, S.not_(lt_)), '>=')
    rx, ry = _raw(S, dx), _raw(S, dy)
    eq = set(rx) == set(ry) and S.all([S.eq(rx[k], ry[k]) for k in rx])
    S.check(S.iff(x == y, eq), '== compares the raw counts')
    S.check(S.iff(x != y, S.not_(eq)), '!= is the negation')


def invalid(S):
    C = S.R.mo.MOSpaceCounter
    lab = S.pick('lab', list('gphvcaGPHVCAxbZ0') + ['cc', ''])
    n = S.int('n', 0, None, eager=(1,))
    S.check(S.raises((ValueError,), lambda: C({lab: n, 'v': 1})) == (lab not in ALL), f'label {lab!r}')


def shared(S):
    """ SpaceCounter counts the indices shared by upper-lower and lower-upper, by space """
    R, typ = S.R, S.p['typ']
    if R.SpaceCounter_mod is None:
        raise RuntimeError(R.SpaceCounter_error)
    u1, l1 = idx_list(S, 'u', S.p['n1'][0], typ), idx_list(S, 'l', S.p['n1'][1], typ)
    u2, l2 = idx_list(S, 'U', S.p['n2'][0], typ), idx_list(S, 'L', S.p['n2'][1], typ)
    A = R.Tensor(make(S, typ, u1), make(S, typ, l1), name='A')
    B = R.SQ(make(S, typ, u2), make(S, typ, l2)) if S.flag('sq') else R.Tensor(make(S, typ, u2), make(S, typ, l2), name='B')
    c = R.SpaceCounter_mod.SpaceCounter(A, B)
    order = LOW if typ == 'so' else ALL
    S.check(len(c.upper) == len(order) and len(c.lower) == len(order), 'one entry per space')
    for got, xs, ys in ((c.upper, u1, l2), (c.lower, l1, u2)):
        for k, s in enumerate(order):
            want = 0
            for x in xs:
                if S.all([S.eq(x.space, s), S.any([same(S, x, y) for y in ys])]):
                    want += 1
            S.check(S.eq(got[k], want), f'shared indices of space {s}')
    S.check(c.n_upper == sum(c.upper) and c.n_lower == sum(c.lower) and c.size == c.n_upper + c.n_lower, 'sizes')
    t = c.transpose()
    S.check(list(t.upper) == list(c.lower) and list(t.lower) == list(c.upper) and t.n_upper == c.n_lower
            and t.n_lower == c.n_upper, 'transpose swaps both parts')
    d = R.SpaceCounter_mod.SpaceCounter(B, A)
    S.check(d == t, 'exchanging the tensors transposes the counter')
    S.check((c == t) == ((c.upper, c.lower) == (t.upper, t.lower)) and (c != t) == (not (c == t)), 'equality')
    S.check((c < t) == (t > c) and (c <= t) == (not c > t) and (c >= t) == (not c < t), 'order')


def shared_order(S):
    """ two counters of shared indices: comparisons follow (size, upper, lower) and exclude each other """
    R, SC = S.R, S.R.SpaceCounter_mod.SpaceCounter
    objs, keys, typs = [], [], []
    for nm in 'xy':
        typ = S.pick(nm + 't', ['so', 'si'])
        shu, shl = S.pick(nm + 'u', S.p['sets']), S.pick(nm + 'l', S.p['sets'])
        f = lambda s: [R.Index(x) for x in s.split()]
        A = R.Tensor(make(S, typ, f(shu) + f('g7')), make(S, typ, f(shl) + f('p8')), name='A')
        B = R.Tensor(make(S, typ, f(shl) + f('c9')), make(S, typ, f(shu) + f('v9')), name='B')
        objs.append(SC(A, B))
        vec = lambda s: [sum(x[0] == l for x in s.split()) for l in (LOW if typ == 'so' else ALL)]
        keys.append((len(shu.split()) + len(shl.split()), vec(shu), vec(shl)))
        typs.append(typ)
    x, y = objs
    if typs[0] != typs[1]:
        S.check(S.raises((ValueError, TypeError), lambda: x == y) and S.raises((ValueError, TypeError), lambda: x < y), 'counters of different kinds of indices')
        return
    a, b = keys
    S.check((x == y) == (a == b) and (x != y) == (a != b), 'equality of counters')
    S.check((x < y) == (a < b) and (x > y) == (a > b) and (x <= y) == (a <= b) and (x >= y) == (a >= b), 'order of counters')
    S.check(S.raises(TypeError, lambda: x == 1) and S.raises(TypeError, lambda: SC(1, 2)), 'other objects')


def scenarios(tier):
    t = tier == 'thorough'
    return [
        Scenario('counter', counter, 'up to two labels per counter, unbounded counts',
                 labels=['g', 'p', 'h', 'v', 'c', 'a', 'C', 'V', 'A', 'H'] if t else ['p', 'h', 'v', 'c', 'a', 'V', 'C'],
                 maxk=3 if t else 2),
        Scenario('counter-all', counter, 'one label per counter, any label, unbounded counts', labels=list(ALL), maxk=1),
        Scenario('shared-order', shared_order, 'pairs of counters with up to two shared indices each way', lazy=False, sets=['', 'v0', 'a0', 'c0 v1', 'a0 a1', 'h0 a0'] if t else ['', 'v0', 'a0', 'c0 v1']),
        Scenario('invalid', invalid, 'labels', n=1),
        Scenario('shared-so', shared, 'one/two indices, any space and number', typ='so', n1=(2, 1), n2=(1, 2) if t else (1, 1)),
        Scenario('shared-si', shared, 'one index each, any space and number', typ='si', n1=(1, 1), n2=(1, 1)),
    ]
