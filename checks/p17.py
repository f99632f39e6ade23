""" Singlet spin adaptation. """
from fractions import Fraction
from itertools import permutations
from math import comb
from lib.harness import Scenario
from lib import oracle as O
from checks.termgen import *

ASSUMPTIONS = ['coefficients are real numbers with 0.001 <= |c| <= 1000',
               'a singlet quantity is the antisymmetrised product of a spin-free quantity with unit spin functions: '
               'A(p1 s1 ..; q1 t1 ..) = sum over permutations P of sign(P) A(p; P q) prod delta(s_i, t_P(i)); the same holds for the operator, '
               'whose spin-free symbol is invariant under exchange of upper/lower pairs',
               'a spin-mixed operator block stands for all orders of its spins: it is divided by the square of the number of orders',
               'values are compared as polynomials in the spin-free tensor elements over the listed finite orbital sets']


def antisym(up, lo):
    """ [(sign, spatial up, spatial lo)] of the singlet definition; up/lo: [(label, number)], uppercase = beta """
    out = []
    for p in permutations(range(len(lo))):
        if all(up[i][0].isupper() == lo[p[i]][0].isupper() for i in range(len(up))):
            f = lambda x: (x[0].lower(), x[1])
            out.append((O.parity(p), tuple(map(f, up)), tuple(f(lo[k]) for k in p)))
    return out


class Singlet(O.Model):
    """ spin-labelled expressions of singlet tensors, as polynomials in spin-free elements """

    def element(self, t, up, lo):
        if t.kind in 'KC' or len(up) == 1:
            if [e.isupper() for e, _ in up] != [e.isupper() for e, _ in lo]:
                return ()
            f = lambda x: tuple((e.lower(), n) for e, n in x)
            return self.base.element(t, f(up), f(lo))
        acc = {}
        for s, u, l in antisym(up, lo):
            for c, v in self.base.element(t, u, l):
                acc[v] = acc.get(v, 0) + s * c
        return tuple((c, v) for v, c in acc.items() if c)


def pair_sort(cre, ann):
    pr = sorted(zip(cre, ann))
    return tuple(x for x, _ in pr), tuple(x for _, x in pr)


def fold(val, expand):
    out = {}
    for (cre, ann), d in val.items():
        ops = antisym(cre, ann) if expand else [(1, cre, ann)]
        for s, c, a in ops:
            o = out.setdefault(pair_sort(c, a), {})
            for m, k in d.items():
                o[m] = o.get(m, 0) + s * k
    return {o: {m: k for m, k in d.items() if k} for o, d in out.items()}


def terms(S):
    R = S.R
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', S.p.get('perm', ['shuf', 'dense'])))
    valid(S, sk, lab, 'si')
    c = coefficient(S)
    t = term(R, sk, lab, c, 'si')
    before = t.hash_term()
    out = list(t.generate_singlet_adaptation(S.flag('alpha_major')) if S.flag('explicit') else t.generate_singlet_adaptation())
    S.check(all(x.sq_op.indices_type is R.IndicesSpinAdapted for x in out), 'spin-adapted terms')
    S.check(all(not i.is_beta() for x in out for i in x.indices_set), 'no spin labels are left')
    base = O.Model(S.p['sizes'], adapted=True)
    M = Singlet(S.p['sizes'])
    M.base = base
    n, nb = len(sk.op[0]), sum(lab[i][0].isupper() for i in sk.op[0])
    want = fold(M.value(ref(sk, lab)), True)
    got = [(k, fold(v, False)) for k, v in O.terms_value(R, base, out)]
    O.same_value(S, [(c / float(comb(n, nb) ** 2), want)], got, f'adaptation of {show(lab)}')
    S.check(t.hash_term() == before and S.eq(t.coeff, c), 'the original term is changed')


def pair(S):
    """ the adaptation of one block, any order of its labels """
    R = S.R
    n = S.pick('n', S.p['n'])
    up = [(S.pick(f'u{k}', ['p', 'P'] if k else ['p', 'G', 'a']), k) for k in range(n)]
    lo = [(S.pick(f'l{k}', ['h', 'H'] if k else ['h', 'C', 'A']), k) for k in range(n)]
    ou, ol = S.perm('ou', n), S.perm('ol', n)
    U, L = [up[k] for k in ou], [lo[k] for k in ol]
    kind = S.pick('kind', ['pair', 'op', 'H'])
    nu, nl = (sum(x[0].isupper() for x in side) for side in (U, L))
    mk = {'pair': lambda u, l: R.IndicesPair(u, l, 'si'), 'op': lambda u, l: R.SQ(u, l, 'si'), 'H': lambda u, l: R.Tensor(u, l, 'si', name='H')}[kind]
    f = lambda side: [f'{s}{k}' for s, k in side]
    p = mk(f(U), f(L))
    rep = {}
    back = {}
    for k, i in enumerate(p.indices()):
        j = R.Index(f'{i.space.lower()}{10 + k}')
        rep[i] = j
        back[(str(j.space), int(j.number))] = (str(i.space), int(i.number))
    major = S.flag('major')
    if nu != nl:
        S.check(S.raises(ValueError, lambda: list(p.generate_singlet_adaptation(rep, major))), 'a block that does not conserve spin is refused')
        return
    out = list(p.generate_singlet_adaptation(rep, major))
    want, got = {}, {}
    for s, u, l in antisym([(x[0], (x, 'u')) for x in U], [(x[0], (x, 'l')) for x in L]):
        key = tuple(sorted((a[1][0], b[1][0]) for a, b in zip(u, l)))
        want[key] = want.get(key, 0) + s
    for s, u, l in out:
        S.check(len(u) == n and len(l) == n, 'numbers of indices are kept')
        key = tuple(sorted((back[O.ix(a)], back[O.ix(b)]) for a, b in zip(u, l)))
        got[key] = got.get(key, 0) + s
    S.check({k: v for k, v in want.items() if v} == {k: v for k, v in got.items() if v}, f'adaptation of the block {U} {L}')
    nb = max(nu, n - nu) if major else min(nu, n - nu)
    for s, u, l in out:
        head = [back[O.ix(a)][0].isupper() for a in u]
        S.check(head.count(head[0]) >= n - head.count(head[0]) if major and head else True, 'the majority spin comes first')


def refuse(S):
    R = S.R
    typ = S.pick('typ', ['so', 'sa'])
    t = R.Term([R.HamiltonianTensor(['g0'], ['g1'], typ)], R.SQ(['g1'], ['g0'], typ))
    S.check(S.raises(TypeError, lambda: list(t.generate_singlet_adaptation(S.flag('m')))), 'only spin-integrated terms')


def scenarios(tier):
    t = tier == 'thorough'
    c, v, h, p, a = 'cC', 'vV', 'hH', 'pP', 'aA'
    return [
        Scenario('pair', pair, 'blocks up to three-body, any spins and orders', n=[0, 1, 2, 3] if not t else [0, 1, 2, 3, 4][:4]),
        Scenario('scalar', terms, 'no operator', shapes=['H:01/23 T:23/01', 'H:01/23 T:32/01', 'H:01/23 T:2/0 T:3/1', 'H:0/1 T:1/0'],
                 spaces={'0': v + 'aA', '1': v, '2': c + 'A', '3': c}, sizes={'c': 2, 'a': 1, 'v': 2}),
        Scenario('one-body', terms, 'one-body operator', shapes=['H:0/1 a:1/0', 'H:01/23 T:34/10 a:2/4', 'H:01/23 T:2/0 a:3/1'],
                 spaces={'0': v + 'a', '1': v, '2': c + 'A', '3': c, '4': c}, sizes={'c': 2, 'a': 1, 'v': 2}),
        Scenario('two-body', terms, 'two-body operator', shapes=['H:01/23 a:23/01', 'H:01/23 a:32/01', 'T:0/1 T:2/3 a:31/02', 'H:01/23 T:34/15 a:52/04', 'T:0/1 T:2/3 a:13/02'],
                 spaces={'0': c, '1': v, '2': c, '3': v, '4': c, '5': v}, sizes={'c': 2, 'a': 1, 'v': 2}, perm=['shuf', 'rev', 'dense']),
        Scenario('density', terms, 'with densities', shapes=['H:02/13 L:3/2 a:1/0', 'H:01/23 L:23/45 T:45/01', 'H:0/1 L:1/2 T:2/3 a:3/0'],
                 spaces={'0': p, '1': p, '2': h + 'a', '3': h, '4': h, '5': h}, sizes={'c': 1, 'a': 2, 'v': 1}),
        Scenario('three-body', terms, 'three-body operator or tensors', shapes=['T:012/345 a:543/120', 'T:01/34 T:2/5 a:345/012'] + (['H:012/345 T:345/012', 'T:0/3 T:1/4 T:2/5 a:345/012'] if t else []),
                 spaces={'0': c, '1': c, '2': c, '3': v, '4': v, '5': v}, sizes={'c': 2, 'a': 0, 'v': 2} if not t else {'c': 3, 'a': 0, 'v': 3}),
        Scenario('three-body-open', terms, 'three-body operator over four tensors, few spin labels', shapes=['T:012/345 H:3/6 H:4/7 H:5/8 a:678/012', 'T:345/012 H:6/3 H:7/4 H:8/5 a:012/678', 'T:01/34 H:3/6 T:2/5 H:4/7 a:675/012'],
                 spaces={'0': 'c', '1': 'cC', '2': 'c', '3': 'v', '4': 'vV', '5': 'v', '6': 'v', '7': 'vV', '8': 'v'}, sizes={'c': 2, 'a': 0, 'v': 2}, perm=['shuf']),
        Scenario('refuse', refuse, 'other index types'),
    ]
