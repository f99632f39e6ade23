""" Connected contractions = connected part of the Wick expansion with at least one pairwise contraction. """
from lib.harness import Scenario
from checks.wickcheck import *

ASSUMPTIONS = ['operator labels are pairwise different',
               'contractions that vanish by orbital space are ignored on both sides']
KEY = 'four-operator-order'


def category(block, where):
    kind, u, l = block
    return tuple(sorted(where['u', x] for x in u)) + tuple(sorted(where['l', x] for x in l))


def incremental(blocks, where):
    """ known finding: the code grows the connected set in ascending order of category and never reorders """
    seen = set()
    for c in sorted((category(b, where) for b in blocks), key=lambda c: (len(c), c)):
        if seen and not (seen & set(c)):
            return False
        seen |= set(c)
    return True


def connected(S):
    R = S.R
    ops = make_ops(S, S.p['spec'])
    if S.p.get('perm'):
        ops = [ops[k] for k in S.perm('order', len(ops))]
    max_cu = S.pick('max_cu', S.p['max_cu'])
    expand = S.pick('expand', S.p['expand'])
    n = sum(op.n_ops for op in ops)
    if S.p.get('window') == 'sym':
        lo, hi = S.int('lo', 0, n, eager=(0, 2)), S.int('hi', 0, n + 2, eager=(2, 99))
    else:
        lo, hi = S.pick('win', S.p['window'])
    where = {}
    for o, op in enumerate(ops):
        for i in op.cre_ops:
            where['u', tok(i)] = o
        for i in op.ann_ops:
            where['l', tok(i)] = o
    direct = S.p.get('direct', True)
    if direct:
        res = R.sqc.compute_operator_contractions_connected(ops, max_cu, hi, lo, expand, *pool_args(S))
    else:
        res = R.sqc.compute_operator_contractions(ops, max_cu, hi, lo, True, expand, *pool_args(S))
    got = code_result(S, res)
    n_ops = len(ops)

    def accept(opsets, blocks):
        return any(len(b[1]) == 1 for b in blocks) and O.connected(n_ops, opsets)
    want, sp, _ = reference(ops, max_cu if max_cu >= 1 else 10 ** 3, expand, accept)
    if n_ops >= 4:
        # K and L of an expanded hole density have the categories of the hole density itself
        late = {k for k in want if not incremental(k[0], where)}
        missed = [k for k in late if got.get(k, 0) != want[k]]
        compare(S, {k: v for k, v in got.items() if k not in late}, {k: v for k, v in want.items() if k not in late},
                sp, lo, hi, f'connected contractions of {n_ops} operators up to cumulant level {max_cu}')
        S.check(all(got.get(k, 0) in (0, want[k]) for k in late), 'sign of a connected contraction')
        inside = S.any([S.all([lo <= m, m <= hi]) for m in {n_open(k) for k in missed}])
        S.check(S.not_(inside), f'connected contractions are missing: {describe(missed, got, want)}', key=KEY)
    else:
        compare(S, got, want, sp, lo, hi, f'connected contractions up to cumulant level {max_cu}')


def scenarios(tier):
    t = tier == 'thorough'
    A, G = ['a'], ['g', 'p', 'h', 'v', 'c', 'a']
    one = ([G], [G])
    E = [True, False]
    w = 'sym'
    sh = [3, 0, 2, 5, 1, 4, 7, 6, 9, 8, 11, 10]
    out = [
        Scenario('pair-1x1', connected, 'two one-body operators, any spaces', spec=[one, one], max_cu=[2] if not t else [1, 2], expand=[False],
                 window=[(0, 99)] if not t else w, numbers=sh),
        Scenario('pair-1x1-window', connected, 'two one-body operators, any window of open indices',
                 spec=[([['a', 'h']], [['g', 'v']]), ([['a', 'p']], [['a', 'c']])], max_cu=[1, 2], expand=[True], window=w, numbers=sh),
        Scenario('pair-2x1', connected, 'two-body with one-body operator',
                 spec=[([['g', 'h'], ['p']], [['g'], ['a', 'v']]), ([['a', 'p']], [['a', 'c', 'g']])],
                 max_cu=[1, 2, 3], expand=[False], window=w, numbers=sh, direct=False),
        Scenario('pair-2x2', connected, 'two two-body active operators up to the four-body cumulant',
                 spec=[([A, ['a', 'h']], [A, A]), ([A, A], [A, ['a', 'p']])], max_cu=[2, 4] if not t else [1, 2, 3, 4], expand=[False],
                 window=[(0, 99)], numbers=sh),
        Scenario('triple-1', connected, 'three one-body operators in any order, any window',
                 spec=[([['a', 'h']], [A]), ([A], [['g', 'p']]), ([['g']], [A])], max_cu=[1, 2, 3], expand=[False], window=w, numbers=sh, perm=True),
        Scenario('triple-expand', connected, 'three one-body operators', spec=[([['a', 'h']], [A]), ([A], [['g', 'v']]), ([['p', 'c']], [A])],
                 max_cu=[2], expand=[True], window=[(0, 99)], numbers=sh),
        Scenario('triple-211', connected, 'a two-body and two one-body operators',
                 spec=[([A], [A]), ([['a', 'g'], A], [A, ['h']]), ([['p']], [A])], max_cu=[1, 2] if not t else [1, 2, 3, 4], expand=[False], window=[(0, 6)], numbers=sh),
        Scenario('quad-1', connected, 'four one-body active operators', spec=[([A], [A])] * 3 + [([['a', 'h']], [A])],
                 max_cu=[1, 2], expand=[False], window=[(0, 99), (0, 2)], numbers=sh),
        Scenario('quad-cu4', connected, 'four one-body active operators, cumulants over all operators', spec=[([A], [A])] * 4,
                 max_cu=[4] if not t else [3, 4], expand=[False], window=[(0, 0)] if not t else [(0, 2)], numbers=sh),
        Scenario('triple-221', connected, 'two two-body and a one-body active operator, complete contractions', spec=[([A, A], [A, A]), ([A, A], [A, A]), ([A], [A])],
                 max_cu=[2], expand=[False], window=[(0, 0)], numbers=sh),
        Scenario('pair-3x3', connected, 'two three-body active operators', spec=[([A] * 3, [A] * 3)] * 2, max_cu=[2] if not t else [1, 2, 3], expand=[False],
                 window=[(0, 99)], numbers=sh),
        Scenario('pair-1x4', connected, 'a one-body and a four-body active operator up to the four-body cumulant', spec=[([A], [A]), ([A] * 4, [A] * 4)], max_cu=[4] if not t else [3, 4, 5], expand=[False],
                 window=[(0, 0)] if not t else [(0, 2)], numbers=sh, perm=True),
        Scenario('processes', connected, 'worker processes, batch sizes and completion orders',
                 spec=[([['p', 'a']], [['h']]), ([A], [['p']]), ([['h', 'a']], [A])], max_cu=[1, 3], expand=E, window=[(0, 99), (2, 4)], numbers=sh,
                 np=[2, 5], bs=[0, 1, 7], direct=False),
    ]
    if t:
        out += [Scenario('triple-222', connected, 'three two-body operators', spec=[([A, A], [A, A])] * 3, max_cu=[1], expand=[False],
                         window=[(0, 4)], numbers=sh),
                Scenario('nonconserving', connected, 'unequal numbers of creators and annihilators',
                         spec=[([['p', 'a'], ['g']], []), ([], [['h', 'v']]), ([['a']], [['g'], ['a', 'p']])],
                         max_cu=[1, 3], expand=E, window=w, numbers=sh)]
    return out
