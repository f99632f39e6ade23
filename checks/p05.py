""" Contractions of a product of normal-ordered operators = generalised Wick theorem. """
from lib.harness import Scenario
from checks.wickcheck import *

ASSUMPTIONS = ['operator labels are pairwise different except for the diagonal scenario',
               'contractions that vanish by orbital space are ignored on both sides']


def general(S):
    R = S.R
    ops = make_ops(S, S.p['spec'])
    if S.p.get('perm'):
        ops = [ops[k] for k in S.perm('order', len(ops))]
    max_cu = S.pick('max_cu', S.p['max_cu'])
    expand = S.pick('expand', S.p['expand'])
    n = sum(op.n_ops for op in ops)
    if S.p.get('window') == 'sym':
        lo, hi = S.int('lo', 0, n, eager=(0, 2)), S.int('hi', 0, n + 2, eager=(2, 99))
    else:
        lo, hi = S.pick('win', S.p['window'])
    got = code_result(S, R.sqc.compute_operator_contractions_general(ops, max_cu, hi, lo, expand, *pool_args(S)))
    want, sp, _ = reference(ops, max_cu if max_cu >= 1 else 10 ** 3, expand)
    compare(S, got, want, sp, lo, hi, f'contractions up to cumulant level {max_cu}')


def elementary(S):
    """ the elementary contractions are exactly the non-vanishing ones, each once """
    R = S.R
    ops = make_ops(S, S.p['spec'])
    max_cu = S.pick('max_cu', S.p['max_cu'])
    cat = R.sqc.compute_elementary_contractions_categorized(ops, max_cu)
    flat = R.sqc.compute_elementary_contractions_list(ops, max_cu)
    sp = spaces_of(ops)
    where = {}
    for o, op in enumerate(ops):
        for i in op.cre_ops:
            where['u', tok(i)] = o
        for i in op.ann_ops:
            where['l', tok(i)] = o
    def k3(t):
        return (kind_of(R, t), tuple(sorted(tok(i) for i in t.upper_indices)), tuple(sorted(tok(i) for i in t.lower_indices)))
    def live(ts):
        return [k for k in map(k3, ts) if not zero_block(*k, sp)]
    got = live(flat)
    S.check(len(set(got)) == len(got), 'an elementary contraction is repeated')
    want = set()
    plain = [([(sp[tok(i)], tok(i)) for i in op.cre_ops], [(sp[tok(i)], tok(i)) for i in op.ann_ops]) for op in ops]
    for sign, blocks, cre, ann, opsets in O.wick(plain, max_cu, 0, 10 ** 6):
        if len(blocks) == 1:
            k, u, l = blocks[0]
            want.add((k, tuple(sorted(x[1] for x in u)), tuple(sorted(x[1] for x in l))))
    S.check(set(got) == want, f'elementary contractions: missing {sorted(want - set(got))[:3]}, extra {sorted(set(got) - want)[:3]}')
    S.check(sorted(live([t for c in cat.values() for t in c])) == sorted(got), 'categorised and flat lists agree')
    for key, ts in cat.items():
        for t in ts:
            k = [where['u', tok(i)] for i in t.upper_indices] + [where['l', tok(i)] for i in t.lower_indices]
            S.check(sorted(key[:len(key) // 2]) == sorted(k[:len(k) // 2]) and
                    sorted(key[len(key) // 2:]) == sorted(k[len(k) // 2:]), f'category {key} of {k3(t)}')


def scenarios(tier):
    t = tier == 'thorough'
    A, G = ['a'], ['g', 'p', 'h', 'v', 'c', 'a']
    one = ([G], [G])
    E = [True, False]
    w = 'sym'
    sh = [3, 0, 2, 5, 1, 4, 7, 6, 9, 8, 11, 10]
    out = [
        Scenario('pair-1x1', general, 'two one-body operators, any spaces',
                 spec=[one, one], max_cu=[2] if not t else [1, 2], expand=[False], window=w if t else [(0, 99)], numbers=sh),
        Scenario('pair-1x1-window', general, 'two one-body operators, any window of open indices',
                 spec=[([['a', 'h']], [['g', 'v']]), ([['a', 'p']], [['a', 'c']])], max_cu=[1, 2], expand=[False], window=w, numbers=sh),
        Scenario('pair-1x1-expand', general, 'two one-body operators',
                 spec=[one, one] if t else [([G], [['h', 'a']]), ([['g', 'c']], [G])], max_cu=[2], expand=[True], window=[(0, 99)], numbers=sh),
        Scenario('nonconserving', general, 'unequal numbers of creators and annihilators',
                 spec=[([['p', 'a'], ['g']], []), ([], [['h', 'v']]), ([['a']], [['g'], ['a', 'p']])],
                 max_cu=[1, 3], expand=[False], window=w, numbers=sh),
        Scenario('pair-2x1', general, 'two-body with one-body operator',
                 spec=[([['g', 'h'], ['p']], [['g'], ['a', 'v']]), ([['a', 'p']], [['a', 'c', 'g']])],
                 max_cu=[1, 2, 3], expand=[False], window=w, numbers=sh),
        Scenario('pair-2x2', general, 'two two-body active operators up to the four-body cumulant',
                 spec=[([A, ['a', 'h']], [A, A]), ([A, A], [A, ['a', 'p']])], max_cu=[2, 4] if not t else [1, 2, 3, 4], expand=[False],
                 window=[(0, 99)] if not t else [(0, 99), (2, 4)], numbers=sh),
        Scenario('triple-1', general, 'three one-body operators in any order',
                 spec=[([['a', 'h']], [A]), ([A], [['g', 'p']]), ([['g']], [A])], max_cu=[1, 3], expand=E, window=[(0, 4)], numbers=sh, perm=True),
        Scenario('single', general, 'one operator alone', spec=[([G, ['a']], [['a'], ['g', 'c']])], max_cu=[1, 2], expand=E,
                 window=w, numbers=sh),
        Scenario('diagonal', general, 'a diagonal operator a^k_k', spec=[([['a', 'h']], [0]), ([A], [['a', 'p']])], max_cu=[2], expand=[False],
                 window=w, numbers=sh),
        Scenario('elem-1x1', elementary, 'elementary contractions of two one-body operators', spec=[one, one] if t else [([G], [['a', 'h']]), ([['g', 'v']], [G])], max_cu=[2], numbers=sh),
        Scenario('elem-2x2x1', elementary, 'elementary contractions of three operators',
                 spec=[([A, ['h', 'v']], [A, ['c', 'g']]), ([A, A], [A, A]), ([['p', 'a']], [['a', 'h']])], max_cu=[1, 3, 4] if not t else [1, 2, 3, 4, 5], numbers=sh),
        Scenario('elem-quad', elementary, 'elementary contractions of four and five operators', spec=[([A], [A]), ([['a', 'h']], [A]), ([A], [A]), ([A], [['a', 'p']])], max_cu=[3, 4], numbers=sh),
        Scenario('pair-3x3', general, 'two three-body active operators', spec=[([A] * 3, [A] * 3)] * 2, max_cu=[2] if not t else [1, 2, 3], expand=[False],
                 window=[(0, 99)], numbers=sh),
        Scenario('processes', general, 'worker processes, batch sizes and completion orders',
                 spec=[([['p', 'a']], [['h']]), ([A], [['p']]), ([['h', 'a']], [A])], max_cu=[1, 3], expand=E, window=[(0, 99), (2, 4)], numbers=sh,
                 np=[2, 5], bs=[0, 1, 7], direct=False),
    ]
    if t:
        out += [Scenario('quad-1', general, 'four one-body operators', spec=[([A], [A])] * 3 + [([['a', 'p']], [A])], max_cu=[1, 2, 4],
                         expand=[False], window=[(0, 99)], numbers=sh),
                Scenario('pair-3x2', general, 'three-body with two-body active operators', spec=[([A] * 3, [A] * 3), ([A] * 2, [A] * 2)],
                         max_cu=[1, 2, 3], expand=[False], window=[(0, 99), (0, 4)], numbers=sh),
                Scenario('pair-1x1-free', general, 'two one-body operators, all index orders',
                         spec=[([['a', 'h']], [['a', 'p']]), ([['g', 'a']], [['a', 'v']])], max_cu=[2], expand=E, window=w, numbers=[3, 2, 1, 0])]
    return out
