""" Antisymmetric sorting: sorted result, sign = parity, exact rearrangement; spin-adapted lists stay put. """
from lib.harness import Scenario
from lib import oracle as O
from checks.common import *

ASSUMPTIONS = ['index numbers are unbounded non-negative integers without leading zeros']


def canon_list(S):
    kind, n = S.p['kind'], S.p['n']
    xs = idx_list(S, 'x', n, kind)
    I = make(S, kind, xs)
    out, sign = I.canonicalize()
    S.check(type(out) is type(I), 'type of the sorted list')
    S.check(seq_same(S, I, xs), 'the original list is changed by sorting')
    if kind == 'sa':
        S.check(S.all([seq_same(S, out, xs), S.eq(sign, 1)]), 'spin-adapted indices must keep their order')
        return
    S.check(is_rearrangement(S, xs, out), 'sorted list is a rearrangement of the input')
    S.check(sorted_strict(S, out), 'sorted list is ascending')
    S.check(sign_even(S, inversions(S, xs), sign), 'sign is the parity of the rearrangement')


def canon_pair(S):
    kind, nu, nl, what = S.p['kind'], S.p['nu'], S.p['nl'], S.p['what']
    us, ls = idx_list(S, 'u', nu, kind), idx_list(S, 'l', nl, kind)
    R = S.R
    up, lo = make(S, kind, us), make(S, kind, ls)
    if what == 'pair':
        obj = R.IndicesPair(up, lo)
    elif what == 'op':
        obj = R.SQ(up, lo)
    elif what == 'tensor':
        obj = R.Tensor(up, lo, name='X', priority=7)
    elif what == 'H':
        S.assume(sum(i.is_beta() for i in us) == sum(i.is_beta() for i in ls))
        obj = R.HamiltonianTensor(up, lo)
    else:
        S.assume(sum(i.is_beta() for i in us) == sum(i.is_beta() for i in ls))
        obj = R.Cumulant(up, lo, name='Y', priority=5)
    out, sign = obj.canonicalize()
    S.check(isinstance(out, type(obj)), 'class of the sorted object')
    if what in ('tensor', 'H', 'L'):
        S.check(out.name == obj.name and out.priority == obj.priority, 'name and priority kept')
    S.check(S.all([seq_same(S, obj.upper_indices, us), seq_same(S, obj.lower_indices, ls)]), 'input unchanged')
    S.check(out.indices_type is obj.indices_type, 'indices type kept')
    if kind == 'sa':
        S.check(S.all([seq_same(S, out.upper_indices, us), seq_same(S, out.lower_indices, ls), S.eq(sign, 1)]),
                'spin-adapted pair must keep its order')
        return
    for x, y, n in ((us, out.upper_indices, 'upper'), (ls, out.lower_indices, 'lower')):
        S.check(is_rearrangement(S, x, y), f'{n} indices are a rearrangement')
        S.check(sorted_strict(S, y), f'{n} indices ascending')
    S.check(sign_even(S, inversions(S, us) + inversions(S, ls), sign), 'sign is the product of both parities')


def reorder(S):
    """ longer lists: every order of a chosen set of indices (eager) """
    R, what = S.R, S.p['what']
    kind, us, ls = S.pick('set', S.p['sets'])
    us, ls = us.split(), ls.split()
    if S.flag('swap'):
        us, ls = ls, us
    low = what != 'list' and not S.p.get('both') and S.flag('low')
    pu = S.perm('pu', len(us)) if not low else list(range(len(us)))
    pl = S.perm('pl', len(ls)) if low or S.p.get('both') else list(range(len(ls)))
    up, lo = [R.Index(us[k]) for k in pu], [R.Index(ls[k]) for k in pl]
    sign_ref = O.parity(pu) * O.parity(pl)
    if what == 'list':
        out, sign = make(S, kind, up).canonicalize()
        S.check([str(i) for i in out] == us and sign == sign_ref, f'order and parity of {up}')
        return
    obj = R.IndicesPair(make(S, kind, up), make(S, kind, lo)) if what == 'pair' else \
        R.SQ(make(S, kind, up), make(S, kind, lo)) if what == 'op' else R.Tensor(make(S, kind, up), make(S, kind, lo), name='X')
    out, sign = obj.canonicalize()
    S.check([str(i) for i in out.upper_indices] == us and [str(i) for i in out.lower_indices] == ls, f'order of {up} {lo}')
    S.check(sign == sign_ref, f'parity of {up} {lo}')


SETS = [('so', 'g1 g10', 'p0 h3 v2 c1 a0'), ('so', 'v9 v10 v11', 'c0 c1 a1'), ('so', 'v0 c0 a0', 'g0 p5 h2'), ('so', 'a2 a9 a10 a11', ''),
        ('so', 'v0', 'c0 c1 c2'), ('si', 'a1', 'c0 C0 A10'), ('so', 'g0 g1', 'c0 c1 c2 c3'),
        ('si', 'v1 a0 V0 C0', 'a10 A9 A10'), ('si', 'g2 G2', 'p0 a0 P0 H0 C0'), ('asymm', 'c0 C0', 'h1 v1 a1 G9 A10')]


def permutation_count(S):
    """ parity of the permutation count between two orderings, composition, and rejection """
    n, kind = S.p['n'], S.p['kind']
    xs = idx_list(S, 'x', n, kind)
    p = S.perm('p', n)
    I, J = make(S, kind, xs), make(S, kind, [xs[k] for k in p])
    inv = sum(1 for i in range(n) for j in range(i + 1, n) if p[i] > p[j])
    S.check(I.is_permutation(J), 'a rearrangement must be recognised')
    S.check((I.count_permutations(J) - inv) % 2 == 0, 'parity of the permutation count')
    S.check((J.count_permutations(I) - inv) % 2 == 0, 'parity of the inverse permutation count')
    y = S.index('y', LABELS[kind], eager_hi=1)
    others = [y] + [xs[k] for k in p[1:]]
    distinct(S, others)
    K = make(S, kind, others)
    is_p = same(S, y, xs[p[0]])
    S.check(S.iff(I.is_permutation(K), is_p), 'is_permutation iff the same set of indices')
    if not is_p:
        S.check(S.raises((ValueError,), lambda: I.count_permutations(K)), 'unrelated lists must be rejected')


def repeated(S):
    """ a repeated index is rejected """
    kind, n = S.p['kind'], S.p['n']
    xs = S.indices('x', n, LABELS[kind], eager_hi=1)
    rep = S.any([same(S, xs[i], xs[j]) for i in range(n) for j in range(i)])
    S.check(S.iff(S.raises((ValueError,), lambda: make(S, kind, xs)), rep), 'repeated index rejected')


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for kind in ('so', 'si', 'sa', 'asymm'):
        for n in range(0, 6 if t else 5):
            out.append(Scenario(f'list-{kind}-{n}', canon_list, f'{kind} indices, length {n}, any space/number',
                                kind=kind, n=n))
        out.append(Scenario(f'repeated-{kind}', repeated, 'three indices, any space/number', kind=kind, n=3))
    for kind in ('so', 'si', 'sa'):
        for what in ('pair', 'op', 'tensor', 'H', 'L'):
            for nu, nl in ([(1, 2), (2, 2), (3, 1), (3, 2)] if t else [(1, 2), (2, 2)]):
                if what in ('H', 'L') and nu != nl:
                    continue
                out.append(Scenario(f'{what}-{kind}-{nu}{nl}', canon_pair, f'{what} with {nu} upper {nl} lower {kind} indices',
                                    kind=kind, nu=nu, nl=nl, what=what))
    for what in ('list', 'pair', 'op', 'tensor'):
        out.append(Scenario(f'reorder-{what}', reorder, 'every order of index sets of 0 to 5 members, one side at a time' + (', six, both sides' if t else ''),
                            lazy=False, what=what, sets=[x for x in SETS if x[0] != 'asymm' or what == 'list']))
        if t and what != 'list':
            out.append(Scenario(f'reorder-both-{what}', reorder, 'every order of both sides', lazy=False, what=what, both=True,
                                sets=[x for x in SETS if x[0] != 'asymm'] + [('so', 'p0 h3 v2 c1 a0 a10', '')]))
    for n in ((2, 3, 4) if t else (2, 3)):
        out.append(Scenario(f'count-{n}', permutation_count, f'{n} indices, all permutations', n=n, kind='si'))
    return out
