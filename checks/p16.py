""" Spin integration: spin-orbital objects and the spin-labelled pieces they are split into. """
from itertools import product
from lib.harness import Scenario
from lib import oracle as O
from checks.common import *
from checks.termgen import *

ASSUMPTIONS = ['coefficients are real numbers with 0.001 <= |c| <= 1000',
               'tensors conserve the spin projection, are Hermitian, and amplitudes with only active indices are zero',
               'values are compared as polynomials in the tensor elements over the listed finite spin-orbital sets']


def lower_same(S, i, j):
    """ j is i with some spin """
    return S.all([S.eq(S.rank(j.space) - S.rank(i.space), 6 if j.is_beta() else 0), S.eq(i.number, j.number)])


def indices_cases(S):
    R = S.R
    n = S.pick('n', S.p['n'])
    a = make(S, 'so', S.p.get('pinned', [])[:n] or idx_list(S, 'i', n, 'so'))
    nb = S.pick('nb', [None] + list(range(n + 1)))
    out = list(a.generate_spin_cases() if nb is None else a.generate_spin_cases(nb))
    want = [s for s in product((False, True), repeat=n) if nb is None or sum(s) == nb]
    got = []
    for x in out:
        S.check(isinstance(x, R.IndicesSpinIntegrated) and len(x) == n, 'spin-integrated lists of the same length')
        S.check(S.all([lower_same(S, i, j) for i, j in zip(a, x)]), 'every index keeps its orbital and number')
        got.append(tuple(bool(j.is_beta()) for j in x))
    S.check(sorted(got) == sorted(want), 'every spin assignment appears exactly once')
    S.check(S.raises(ValueError, lambda: list(a.generate_spin_cases(n + 1))), 'too many beta indices are refused')


def pair_cases(S):
    R = S.R
    nu, nl = S.pick('n', S.p['n'])
    con = S.flag('conserve')
    kind = S.pick('kind', S.p.get('kinds', ['pair', 'op', 'X', 'H', 'T']))
    pinned = S.p.get('pinned')
    up, lo = ([S.R.Index(i) for i in pinned[k:k + m]] for k, m in ((0, nu), (len(pinned) // 2, nl))) if pinned else (idx_list(S, 'u', nu, 'so', labels=['h', 'c', 'a'] if kind == 'T' else None), idx_list(S, 'l', nl, 'so', labels=['p', 'v', 'a'] if kind == 'T' else None))
    U, L = make(S, 'so', up), make(S, 'so', lo)
    mk = {'pair': lambda: R.IndicesPair(U, L), 'op': lambda: R.SQ(U, L), 'X': lambda: R.Tensor(U, L, name='Q', priority=3), 'H': lambda: R.HamiltonianTensor(U, L), 'T': lambda: R.ClusterAmplitude(U, L, name='S')}
    if kind in 'HT':
        S.assume(nu == nl and con)          # these conserve spin by construction
    p = mk[kind]()
    if con and nu != nl:
        S.check(S.raises(ValueError, lambda: list(p.generate_spin_cases(True))), 'unequal numbers of indices cannot conserve spin')
        return
    out = list(p.generate_spin_cases(con)) if not con or S.flag('explicit') else list(p.generate_spin_cases())
    want = [s for s in product((False, True), repeat=nu + nl) if not con or sum(s[:nu]) == sum(s[nu:])]
    got = []
    for x in out:
        S.check(type(x) is type(p) and x.indices_type is R.IndicesSpinIntegrated, 'same class, spin-integrated labels')
        S.check(S.all([x.n_upper == nu, x.n_lower == nl]), 'same numbers of indices')
        S.check(S.all([lower_same(S, i, j) for i, j in zip(list(up) + list(lo), x.indices())]), 'every index keeps its position, orbital and number')
        if kind in 'HTX':
            S.check(x.name == p.name and x.priority == p.priority, 'name and priority are kept')
        got.append(tuple(bool(j.is_beta()) for j in x.indices()))
    S.check(sorted(got) == sorted(want), 'every spin block appears exactly once')


def refuse(S):
    R = S.R
    typ = S.pick('typ', ['si', 'sa'])
    n = S.pick('n', [1, 2])
    l = [f'g{k}' for k in range(n)]
    I = make(S, typ, l)
    S.check(S.raises(TypeError, lambda: list(I.generate_spin_cases())), 'only spin-orbital lists')
    P = R.IndicesPair(I, make(S, typ, [f'h{k}' for k in range(n)]))
    S.check(S.raises(TypeError, lambda: list(P.generate_spin_cases())), 'only spin-orbital pairs')
    t = R.Term([R.HamiltonianTensor(l, [f'h{k}' for k in range(n)], typ)], R.SQ([f'h{k}' for k in range(n)], l, typ))
    S.check(S.raises(TypeError, lambda: list(t.generate_spin_cases_naive())), 'only spin-orbital terms')


def terms(S):
    R = S.R
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', [S.p.get('perm', 'shuf'), 'dense']))
    valid(S, sk, lab)
    c = coefficient(S)
    t = term(R, sk, lab, c)
    before = t.hash_term()
    sizes = S.p['sizes']
    Mo, Mi = O.Model(sizes, spin=True, so=True), O.Model(sizes, spin=True)
    out = list(t.generate_spin_cases_naive())
    S.check(all(x.sq_op.indices_type is R.IndicesSpinIntegrated for x in out), 'spin-integrated terms')
    O.same_value(S, [(c, Mo.value(ref(sk, lab)))], O.terms_value(R, Mi, out), f'sum of spin cases of {show(lab)}')
    S.check(t.hash_term() == before and S.eq(t.coeff, c), 'the original term is changed')
    # number of pieces: spin assignments of all indices that conserve the spin of every tensor and of the operator
    n = 0
    for s in product((0, 1), repeat=len(sk.ids)):
        spin = dict(zip(sk.ids, s))
        n += all(sum(spin[i] for i in u) == sum(spin[i] for i in l) for _, u, l in sk.tensors)
    S.check(len(out) == n, f'one piece per spin-conserving assignment of {show(lab)}')


def scenarios(tier):
    t = tier == 'thorough'
    one = {'c': 1, 'a': 1, 'v': 1}
    return [
        Scenario('indices', indices_cases, 'lists up to 4 (5)', n=[0, 1, 2, 3, 4, 5] if t else [0, 1, 2, 3, 4]),
        Scenario('indices-large', indices_cases, 'lists up to 7 (9), fixed labels', n=[5, 6, 7, 8, 9] if t else [5, 6, 7], pinned='c0 h10 a2 c11 h4 v5 p1 a12 g13 v14'.split(), lazy=False),
        Scenario('pairs', pair_cases, 'pairs, operators and tensors up to two-body (three-body)',
                 n=[(0, 0), (1, 1), (2, 2), (1, 2), (2, 0)] + ([(3, 3), (2, 3)] if t else [])),
        Scenario('pairs-large', pair_cases, 'pairs, operators and tensors up to four-body (five-body), fixed labels', kinds=['pair', 'op', 'X', 'H', 'T'], lazy=False,
                 pinned='c0 h10 a2 c11 h4 v5 p1 a12 a13 v14'.split() if t else 'c0 h10 a2 c11 v5 p1 a12 v14'.split(),
                 n=[(3, 3), (4, 4), (3, 4), (4, 3)] if not t else [(5, 5), (5, 4), (4, 5)]),
        Scenario('refuse', refuse, 'other index types'),
        Scenario('one', terms, 'single tensors', shapes=['H:0/1 a:1/0', 'H:01/23 a:23/01', 'H:01/23 a:32/01', 'T:02/13 a:31/02'],
                 spaces={'0': 'cag', '1': 'gvp', '2': 'cah', '3': 'avg'}, sizes={'c': 1, 'a': 1, 'v': 1}),
        Scenario('HT', terms, 'integral and amplitude', shapes=['H:01/23 T:23/01', 'H:01/23 T:34/10 a:2/4', 'H:01/23 T:2/0 a:3/1', 'H:01/23 T:2/0 T:3/1'],
                 spaces={'0': 'vap', '1': 'vg', '2': 'ca', '3': 'hc', '4': 'ca'}, sizes={'c': 1, 'a': 2, 'v': 1} if t else one),
        Scenario('two-body-op', terms, 'two-body operator from two tensors', shapes=['H:01/23 T:34/15 a:52/04', 'T:0/1 T:2/3 a:31/02'],
                 spaces={'0': 'ca', '1': 'va', '2': 'ca', '3': 'v', '4': 'ca', '5': 'v'}, sizes=one),
        Scenario('density', terms, 'with densities', shapes=['H:02/13 L:3/2 a:1/0', 'H:01/23 L:23/45 T:45/01', 'H:0/1 L:1/2 T:2/3 a:3/0', 'H:01/23 K:2/0 T:3/1'],
                 spaces={'0': 'pa', '1': 'pg', '2': 'ha', '3': 'ha', '4': 'h', '5': 'h'}, sizes={'c': 1, 'a': 1, 'v': 1} if not t else {'c': 1, 'a': 2, 'v': 1}),
        Scenario('three-body', terms, 'three-body tensors', shapes=['T:012/345 a:543/120'] + (['H:012/345 T:345/012'] if t else []),
                 spaces={'0': 'c', '1': 'c', '2': 'ca', '3': 'v', '4': 'v', '5': 'va'}, sizes={'c': 2, 'a': 1, 'v': 2}),
    ]
