""" What index lists, pairs, tensors, operators and terms report about themselves follows from their indices. """
from math import factorial
from lib.harness import Scenario
from lib import oracle as O
from checks.common import *
from checks import termgen as G

ASSUMPTIONS = ['questions that are only defined for some kinds of objects are asked of those kinds']


def is_beta(S, i):
    return S.any([S.eq(i.space, s) for s in UP])


def kind_of(S, i, k):
    return S.any([S.eq(i.space, k), S.eq(i.space, k.upper())])


def has(S, xs, i):
    return S.any([same(S, i, x) for x in xs])


def agree(S, got, want, msg):
    S.check(S.iff(got, want) if not S.concrete else bool(got) == bool(want), msg)


def lists(S):
    """ sizes, membership, spin content """
    R, kind = S.R, S.p['kind']
    n = S.pick('n', S.p['n'])
    xs = idx_list(S, 'i', n, kind)
    a = make(S, kind, xs)
    S.check(len(a) == n and a.size == n, 'number of indices')
    S.check(seq_same(S, a.indices, xs) if n else a.indices == [], 'the indices in order')
    if n:
        k = S.pick('k', list(range(n)))
        S.check(S.all([same(S, a[k], xs[k]), same(S, a[k - n], xs[k])]), 'item')
        S.check(seq_same(S, a[k:], xs[k:]), 'slice')
    y = S.indices('y', 1, LABELS[kind], 0, None, 1)[0]
    agree(S, y in a, has(S, xs, y), 'membership')
    st = a.indices_set
    S.check(len(st) == n and bool(S.all([has(S, list(st), x) for x in xs])), 'set of the indices')
    nb = [bool(is_beta(S, i)) for i in xs]
    S.check(a.n_beta() == sum(nb), 'number of beta indices')
    if kind == 'si':
        S.check(tuple(a.spin_count) == (n - sum(nb), sum(nb)) and a.n_alpha() == n - sum(nb), 'numbers of indices of either spin')
        S.check(seq_same(S, a.alpha_indices, [x for x, b in zip(xs, nb) if not b]), 'alpha indices in order')
        S.check(seq_same(S, a.beta_indices, [x for x, b in zip(xs, nb) if b]), 'beta indices in order')
        agree(S, a.spin_pure, sum(nb) in (0, n), 'all of one spin')
    else:
        for q in ('alpha_indices', 'beta_indices', 'spin_count', 'spin_pure'):
            S.check(S.raises(TypeError, lambda: getattr(a, q)), f'{q} of a list without spin')


def two_lists(S):
    R, kind = S.R, S.p['kind']
    n, m = S.pick('n', S.p['n'])
    xs, ys = idx_list(S, 'i', n, kind), idx_list(S, 'j', m, kind)
    a, b = make(S, kind, xs), make(S, kind, ys)
    common = [has(S, ys, x) for x in xs]
    agree(S, a.any_overlap(b), S.any(common), 'common indices')
    agree(S, a.is_permutation(b), S.all(common) if n == m else False, 'same indices in another order')
    clash = bool(S.any(common))
    try:
        c = a + b
    except ValueError:
        S.check(clash, 'lists without common indices are joined')
    else:
        S.check(not clash, 'lists with common indices cannot be joined')
        S.check(type(c) is type(a), 'joined lists keep their kind')
        S.check(seq_same(S, c, list(xs) + list(ys)), 'joined lists keep the order')
    S.check(bool(seq_same(S, a, xs)) and bool(seq_same(S, b, ys)), 'joining changes nothing')


def counts(S):
    """ number of indices in given spaces """
    kind = S.p['kind']
    n = S.pick('n', S.p['n'])
    xs = idx_list(S, 'i', n, kind)
    a = make(S, kind, xs)
    which = [S.pick(f'w{k}', S.p.get('which', LABELS['si'])) for k in range(S.pick('m', [0, 1, 2]))]
    if len(which) == 2:
        S.assume(which[0] < which[1])
    got = a.count_index_space(which)
    want = sum(1 if bool(S.any([S.eq(i.space, w) for w in which])) else 0 for i in xs)
    S.check(got == want, f'indices in {which}')


def counts_long(S):
    """ longer lists, spaces and numbers fixed by a chosen pattern """
    kind = S.p['kind']
    pat = S.pick('pattern', S.p['patterns'])
    if kind == 'so':
        pat = pat.lower()
    num = {}
    xs = []
    for s in pat:
        num[s] = num.get(s, 6) + 1
        xs.append(S.R.Index(f'{s}{num[s]}'))
    order = S.pick('order', ['given', 'rev', 'shuf'])
    if order != 'given':
        xs = xs[::-1] if order == 'rev' else [xs[k] for k in sorted(range(len(xs)), key=lambda k: (k * 5 + 2) % 13)]
    a = make(S, kind, xs)
    which = S.pick('which', [[], ['a'], ['A'], ['g', 'c'], ['v', 'V'], ['c', 'a', 'v'], ['A', 'a', 'C']])
    S.check(a.count_index_space(which) == sum(1 for i in xs if str(i.space) in which), f'indices of {xs} in {which}')
    S.check(a.n_beta() == sum(1 for i in xs if str(i.space).isupper()), f'beta indices of {xs}')
    S.check(len(a) == len(xs) == len(a.indices_set), 'number of indices')
    if kind == 'si':
        n = a.n_beta()
        S.check(tuple(a.spin_count) == (len(xs) - n, n) and [str(i) for i in a.alpha_indices] == [str(i) for i in xs if str(i.space).islower()]
                and [str(i) for i in a.beta_indices] == [str(i) for i in xs if str(i.space).isupper()] and a.spin_pure == (n in (0, len(xs))), 'spin content')


def permutations_long(S):
    """ numbers of distinct permutations of longer lists: group sizes chosen """
    R, kind = S.R, S.p['kind']
    sizes = S.pick('sizes', S.p['sizes'])
    pool = [f'{"gpcav"[k % 5]}{k}' for k in range(sum(sizes))]
    xs = [R.Index(x) for x in pool]
    part, k, c = [], 0, factorial(len(xs))
    for m in sizes:
        part.append(xs[k:k + m])
        k += m
        c //= factorial(m)
    a = make(S, kind, xs)
    if kind == 'sa':
        c = 1
    S.check(a.n_multiset_permutation(part) == c, f'number of permutations of groups of sizes {sizes}')
    S.check(a.exist_permute_format(part) == (c > 1), 'permutations exist')
    if sum(sizes) <= 6:
        op = R.SQ(a, make(S, kind, [R.Index('v10'), R.Index('v11')]))
        two = S.flag('two')
        q = [[R.Index('v10'), R.Index('v11')]] if not two else [[R.Index('v10')], [R.Index('v11')]]
        S.check(op.n_multiset_permutation(part, q) == c * (2 if two and kind != 'sa' else 1), 'number of permutations of an operator')


def pairs(S):
    """ index pairs, operators and tensors """
    R, kind = S.R, S.p['kind']
    nu, nl = S.pick('n', S.p['n'])
    lb = S.p.get('labels') if kind != 'so' else None
    up, lo = idx_list(S, 'u', nu, kind, labels=lb), idx_list(S, 'l', nl, kind, labels=lb)
    U, L = make(S, kind, up), make(S, kind, lo)
    obj = S.pick('obj', ['op', 'tensor'] if kind != 'so' else ['pair', 'op', 'tensor'])
    p = {'pair': lambda: R.IndicesPair(U, L), 'op': lambda: R.SQ(U, L), 'tensor': lambda: R.Tensor(U, L, name='X')}[obj]()
    S.check((p.n_upper, p.n_lower, p.size) == (nu, nl, nu + nl), 'numbers of indices')
    S.check(p.is_empty() == (nu + nl == 0), 'empty')
    S.check(p.indices_type is type(U), 'kind of the indices')
    S.check(bool(seq_same(S, p.indices(), up + lo)) and bool(seq_same(S, p.indices(False), lo + up)), 'all indices')
    S.check(len(p.indices()) == nu + nl and bool(S.all([has(S, list(p.indices_set), x) for x in up + lo] + [has(S, up + lo, x) for x in p.indices_set])), 'set of the indices')
    dia = [x for x in up if bool(has(S, lo, x))]
    got = list(p.diagonal_indices())
    S.check(len(got) == len(dia) and bool(S.all([has(S, dia, x) for x in got])), 'indices on both sides')
    if nu == nl:
        S.check(p.n_body == nu, 'rank')
        nb = [sum(1 if bool(is_beta(S, i)) else 0 for i in side) for side in (up, lo)]
        agree(S, p.is_spin_conserving(), nb[0] == nb[1], 'spin conservation')
    else:
        S.check(S.raises(ValueError, lambda: p.n_body), 'rank of unequal sides')
        S.check(S.raises(ValueError, lambda: p.is_spin_conserving()), 'spin conservation of unequal sides')
    if obj == 'op':
        S.check((p.n_cre, p.n_ann, p.n_ops) == (nu, nl, nu + nl), 'numbers of operators')
        S.check(bool(seq_same(S, p.cre_ops, up)) and bool(seq_same(S, p.ann_ops, lo)), 'creators and annihilators')
        S.check(p.is_particle_conserving() == (nu == nl), 'particle conservation')
        bad = [kind_of(S, i, 'c') for i in up] + [kind_of(S, i, 'v') for i in lo]
        if nu + nl:
            bad.append(S.all([kind_of(S, i, 'a') for i in up + lo]))
        agree(S, p.is_possible_excitation(), S.not_(S.any(bad)), 'possible excitation')


def amplitudes(S):
    """ amplitudes with only active indices; common indices of two tensors """
    R, kind = S.R, S.p['kind']
    n = S.pick('n', S.p['n'])
    hs, ps = (['h', 'c', 'a'], ['p', 'v', 'a']) if kind == 'so' else (['c', 'a', 'C', 'A'], ['v', 'a', 'V', 'A'])
    up, lo = idx_list(S, 'u', n, kind, labels=hs), idx_list(S, 'l', n, kind, labels=ps)
    if S.flag('down'):
        up, lo = lo, up
    if kind == 'si':
        S.assume(sum(1 if bool(is_beta(S, i)) else 0 for i in up) == sum(1 if bool(is_beta(S, i)) else 0 for i in lo))
    t = R.ClusterAmplitude(make(S, kind, up), make(S, kind, lo))
    agree(S, t.is_all_active(), S.all([kind_of(S, i, 'a') for i in up + lo]), 'only active indices')
    ou, ol = idx_list(S, 'x', 1, kind, labels=hs), idx_list(S, 'y', 1, kind, labels=ps)
    if kind == 'si':
        S.assume(bool(is_beta(S, ou[0])) == bool(is_beta(S, ol[0])))
    o = R.ClusterAmplitude(make(S, kind, ou), make(S, kind, ol), name='S')
    agree(S, t.any_overlapped_indices(o), S.any([has(S, ou, x) for x in up] + [has(S, ol, x) for x in lo]), 'common indices on the same side')


def permutations(S):
    """ numbers of distinct permutations """
    from checks.p19 import set_partitions
    R, kind = S.R, S.p['kind']
    sides, parts, cnt = [], [], []
    for k, nm in enumerate('ul'):
        n = S.pick(f'n{k}', S.p['n'])
        xs = idx_list(S, nm, n, kind)
        p = S.pick(f'p{k}', set_partitions(list(range(n))))
        sides.append(make(S, kind, xs))
        parts.append([[xs[i] for i in g] for g in p])
        c = factorial(n)
        for g in p:
            c //= factorial(len(g))
        cnt.append(1 if kind == 'sa' else c)
    for s, p, c in zip(sides, parts, cnt):
        S.check(s.n_multiset_permutation(p) == c, 'number of permutations')
        S.check(s.exist_permute_format(p) == (c > 1), 'permutations exist')
    op = R.SQ(*sides)
    S.check(op.n_multiset_permutation(*parts) == cnt[0] * cnt[1], 'number of permutations of an operator')
    S.check(op.exist_permute_format(*parts) == (cnt[0] * cnt[1] > 1), 'permutations of an operator exist')


def terms(S):
    R, typ = S.R, S.p.get('typ', 'so')
    sk = G.Skel(S.pick('shape', S.p['shapes']))
    lab = G.labels(S, sk, S.p['spaces'], perm=S.pick('perm', ['shuf', 'dense']), shift=S.pick('shift', [0, 9]))
    G.valid(S, sk, lab, typ)
    c = G.coefficient(S)
    t = G.term(R, sk, lab, c, typ)
    S.check(t.n_tensors == len(sk.tensors) == len(t.list_of_tensors), 'number of tensors')
    want = {f'{s}{n}' for s, n in lab.values()}
    S.check({str(i) for i in t.indices_set} == want and len(t.indices_set) == len(want), 'indices of a term')
    cnt = {}
    for _, u, l in sk.tensors:
        for i in tuple(u) + tuple(l):
            cnt[i] = cnt.get(i, 0) + 1
    nxt = {}
    for s, n in lab.values():
        nxt[s] = max(nxt.get(s, 0), n + 1)
    S.check(all(t.next_index_number[s] >= nxt.get(s, 0) for s in LABELS['si']), 'next free numbers')
    S.check(t.is_possible_excitation() == t.sq_op.is_possible_excitation(), 'possible excitation')
    if len(sk.op[0]) == len(sk.op[1]):
        S.check(t.n_body == len(sk.op[0]), 'rank of a term')
    S.check(S.not_(t.is_void()), 'a term with a coefficient is not zero')
    v = t.void()
    S.check(bool(v.is_void()) and v.n_tensors == 0 and v.sq_op.is_empty(), 'the empty term')
    S.check(v.sq_op.indices_type is t.sq_op.indices_type, 'kind of the empty term')
    S.check(t.n_tensors == len(sk.tensors) and bool(S.eq(t.coeff, c)), 'asking for the empty term changes nothing')
    t.void_self()
    S.check(bool(t.is_void()) and t.n_tensors == 0 and t.sq_op.is_empty() and not t.indices_set and not t.diagonal_indices, 'emptied term')
    e = R.Term.make_empty(typ)
    S.check(bool(e.is_void()) and e.n_tensors == 0 and e.sq_op.is_empty() and not e.indices_set and e.sq_op.indices_type is t.sq_op.indices_type, 'empty term')
    S.check(t == e and v == e, 'there is one empty term')


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for kind in ('so', 'si', 'sa', 'asymm'):
        out += [Scenario(f'lists-{kind}', lists, 'lists of up to three (four) indices', kind=kind, n=[0, 1, 2, 3] if not t else [0, 1, 2, 3, 4]),
                Scenario(f'two-lists-{kind}', two_lists, 'two lists of up to two (three) indices', kind=kind, n=[(0, 0), (0, 1), (1, 1), (2, 1), (2, 2)] + ([(1, 3), (3, 2), (3, 3)] if t else [])),
                Scenario(f'counts-{kind}', counts, 'up to two (three) indices and two spaces', kind=kind, n=[0, 1, 2], which=LABELS['si'] if t or kind == 'so' else list('aCVg')),
                Scenario(f'pairs-{kind}', pairs, 'pairs with up to two (three) indices a side', kind=kind, labels=None if t else list('gcavCAV'),
                         n=[(0, 0), (1, 0), (1, 1), (1, 2)] + ([(2, 2)] if t or kind in ('so', 'si') else [])),
                Scenario(f'permutations-{kind}', permutations, 'up to three indices a side, any partition', kind=kind, n=[0, 1, 2] if not t else [0, 1, 2, 3])]
    for kind in ('so', 'si', 'sa', 'asymm'):
        out += [Scenario(f'counts-long-{kind}', counts_long, 'lists of four to eight indices', kind=kind, lazy=False,
                         patterns=['aaaa', 'aAaAa', 'ccccvvvv', 'cCvVaA', 'gpphhaa', 'AAAAAA', 'vaVvaVaC']),
                Scenario(f'permutations-long-{kind}', permutations_long, 'groups of up to seven indices in up to six groups', kind=kind, lazy=False,
                         sizes=[(1, 1, 1, 1), (2, 1, 1, 1), (1, 1, 2, 1), (3, 1, 1), (2, 2, 1), (1, 4), (5,), (1, 1, 1, 1, 1), (2, 2, 2), (1, 2, 3), (3, 3), (4, 2), (1, 1, 1, 1, 2), (1, 1, 1, 1, 1, 1), (3, 2, 2)])]
    out += [Scenario(f'amplitudes-{k}', amplitudes, 'amplitudes of rank one and two', kind=k, n=[1, 2]) for k in ('so', 'si')]
    sh = ['H:01/23 T:23/01', 'H:0/1 a:1/0', 'H:01/23 T:34/10 a:2/4', 'T:0/2 T:1/3 a:23/01', 'H:01/23 T:2/0 a:31/']
    out += [Scenario('terms', terms, 'terms', text=True, shapes=sh, spaces={'0': 'va', '1': 'v', '2': 'ca', '3': 'c', '4': 'c'}),
            Scenario('terms-si', terms, 'spin-integrated terms', text=True, typ='si', shapes=['H:0/1 a:1/0', 'H:01/23 T:23/01'], spaces={'0': 'vV', '1': 'vV', '2': 'cC', '3': 'aA'}),
            Scenario('terms-sa', terms, 'spin-adapted terms', text=True, typ='sa', shapes=['H:0/1 a:1/0', 'H:01/23 T:23/01'], spaces={'0': 'va', '1': 'v', '2': 'c', '3': 'a'})]
    return out
