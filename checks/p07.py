""" Hole density = Kronecker delta - one-body cumulant, term by term and in products. """
from lib.harness import Scenario
from lib import oracle as O
from checks.common import *

ASSUMPTIONS = ['tensor identities are decided in a finite orbital model with 1 core, 2 active, 1 virtual orbital']


def _value(S, M, items):
    """ [(sign, [tensors])] with the free indices as an operator-free product evaluated elementwise """
    out = []
    for sign, ts in items:
        ex = [O.ten_of(S.R, t) for t in ts]
        labels = []
        for t in ex:
            labels += [x for x in t.up + t.lo if x not in labels]
        out.append((sign, ex, labels))
    return out


def _elementwise(S, left, right, msg):
    """ compare sums of products of densities for every orbital assignment of their (free) indices """
    M = O.Model({'c': 1, 'a': 2, 'v': 1}, hermitian=False, spin=True)
    from itertools import product
    labels = []
    for _, ts in left + right:
        for t in ts:
            labels += [x for x in t.up + t.lo if x not in labels]
    for orbs in product(*[M.orbitals(s) for s, _ in labels]):
        env = dict(zip(labels, orbs))
        tot = {}
        for sgn, items in [(1, left), (-1, right)]:
            for c, ts in items:
                polys = {(): c * sgn}
                for t in ts:
                    el = M.element(t, tuple(env[i] for i in t.up), tuple(env[i] for i in t.lo))
                    new = {}
                    for m, k in polys.items():
                        for cc, v in el:
                            mm = tuple(sorted(m + ((v,) if v is not None else ())))
                            new[mm] = new.get(mm, 0) + k * cc
                    polys = new
                for m, k in polys.items():
                    tot[m] = tot.get(m, 0) + k
        S.check(all(S.zero(k) if not hasattr(k, 'e') else False for k in tot.values()), f'{msg} at {env}')


def single(S):
    R, typ = S.R, S.p['typ']
    u, l = S.index('u', LABELS[typ], 0, None, 11), S.index('l', LABELS[typ], 0, None, 10)
    S.assume(S.iff(u.is_beta(), l.is_beta()))
    S.assume(S.not_(same(S, u, l)))
    C = R.HoleDensity(make(S, typ, [u]), make(S, typ, [l]))
    out = C.expand()
    nK = [t for t in out if isinstance(t, R.Kronecker)]
    nL = [t for t in out if isinstance(t, R.Cumulant)]
    S.check(len(out) == len(nK) + len(nL) and len(nK) == 1 and len(nL) <= 1, 'delta and at most one cumulant')
    for t in out:
        S.check(S.all([seq_same(S, t.upper_indices, [u]), seq_same(S, t.lower_indices, [l])]), 'indices kept')
        S.check(t.indices_type is C.indices_type, 'indices type kept')
    virt = S.any([S.eq(u.space.lower(), 'v'), S.eq(l.space.lower(), 'v')])
    S.check(S.implies(virt, len(nL) == 0), 'no cumulant with a virtual index')
    su, sl = str(u.space), str(l.space)
    # a vanishing delta and cumulant make the whole density zero, both forms agree orbital by orbital
    left = [(1, [O.Ten('C', 'C', [(su, 0)], [(sl, 1)])])]
    right = [(1, [O.Ten('K', 'K', [(su, 0)], [(sl, 1)])])] + \
            [(-1, [O.Ten('L', 'L', [(su, 0)], [(sl, 1)])]) for _ in nL]
    _elementwise(S, left, right, f'C^{su}_{sl}')


def product_(S):
    """ a list of densities with several hole densities: sum of signed products """
    R = S.R
    ts, ex = [], []
    sh = S.pick('shift', S.p.get('shift', [0]))
    for k in range(S.p['n']):
        kind = S.pick(f'kind{k}', S.p['kinds'])
        u, l = S.pick(f'sp{k}', S.p['spaces'])
        if kind == 'C':
            ts.append(R.HoleDensity([f'{u}{2 * k + sh}'], [f'{l}{2 * k + 1 + sh}']))
        elif kind == 'L':
            ts.append(R.Cumulant([f'{u}{2 * k + sh}'], [f'{l}{2 * k + 1 + sh}']))
        else:
            ts.append(R.Cumulant([f'a{10 + 4 * k}', f'a{11 + 4 * k}'], [f'a{12 + 4 * k}', f'a{13 + 4 * k}']))
    res = list(R.sqc.expand_hole_densities(list(ts)))
    S.check(len(res) == len({tuple(sorted(map(str, l))) for _, l in res}), 'no product appears twice')
    S.check(all(not isinstance(t, R.HoleDensity) for _, l in res for t in l), 'no hole density left')
    left = [(1, [O.ten_of(R, t) for t in ts])]
    right = [(s, [O.ten_of(R, t) for t in l]) for s, l in res]
    small = [(c, [t for t in l if len(t.up) == 1]) for c, l in right]
    two = [tuple(sorted((t.up, t.lo) for t in l if len(t.up) == 2)) for c, l in right]
    S.check(all(x == tuple(sorted((t.up, t.lo) for t in left[0][1] if len(t.up) == 2)) for x in two),
            'higher cumulants untouched')
    _elementwise(S, [(1, [t for t in left[0][1] if len(t.up) == 1])], small, f'expansion of {ts}')


def scenarios(tier):
    t = tier == 'thorough'
    sp = [('g', 'g'), ('p', 'h'), ('a', 'a'), ('v', 'p'), ('p', 'p')]
    return [Scenario(f'single-{ty}', single, 'any two spaces', typ=ty) for ty in ('so', 'si')] + [
        Scenario('product4', product_, '4 factors', n=4, kinds=['C'], spaces=[('p', 'h'), ('v', 'p')], lazy=False),
        Scenario('product5', product_, '5 factors, few label choices', n=5, kinds=['C', 'L2'], spaces=[('a', 'a')], lazy=False),
        Scenario('product', product_, f'{3 if t else 2} factors', n=2, kinds=['C', 'L', 'L2'], spaces=sp, shift=[0, 9, 98])] + ([
            Scenario('product3', product_, '3 factors', n=3, kinds=['C', 'L'], spaces=sp[1:])] if t else [])
