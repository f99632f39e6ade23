""" Orbital-space algebra: which subspace survives on a cumulant, hole density or delta; label lookup. """
from lib.harness import Scenario
from lib.oracle import elem, ELEM
from checks.common import *


def _lab(S, x):
    """ concrete label of an index (the solver enumerates the feasible ones) """
    return str(x.space)


def _expected(kind, u, l):
    common = set(elem(u)) & set(elem(l))
    drop = {'L': 'vV', 'C': 'cC', 'K': ''}[kind]
    return common - set(drop)


def downgrade(S):
    R, kind, typ = S.R, S.p['kind'], S.p['typ']
    cls = {'L': R.Cumulant, 'C': R.HoleDensity, 'K': R.Kronecker}[kind]
    u, l = S.index('u', LABELS[typ], eager_hi=1), S.index('l', LABELS[typ], eager_hi=1)
    mixed = S.not_(S.iff(u.is_beta(), l.is_beta()))
    try:
        t = cls(make(S, typ, [u]), make(S, typ, [l]))
    except ValueError:
        S.check(mixed, 'spin-conserving density rejected')
        return
    S.check(S.not_(mixed), 'spin-violating density accepted')
    out = t.downgrade_indices()
    su, sl = _lab(S, u), _lab(S, l)
    want = _expected(kind, su, sl)
    out = str(out)
    if out == '':
        S.check(not want, f'{kind}^{su}_{sl} reported as zero')
    else:
        S.check(out in ALL and set(elem(out)) == want, f'{kind}^{su}_{sl} restricted to {out!r}, expected {sorted(want)}')


def labels(S):
    """ label of a set of elementary spaces of one spin: the label whose space is that set """
    R = S.R
    spin = S.pick('spin', ['cav', 'CAV'])
    sub = S.subset('sub', list(spin))
    S.assume(len(sub) > 0)
    out = R.mo.find_space_label(set(sub))
    if set(x.lower() for x in sub) == {'c', 'v'}:          # no label denotes this set: the label is of the spin asked for
        S.check(out in ALL and out.isupper() == sub[0].isupper(), f'spin of the label of {sub}: {out}')
        return
    S.check(out in ALL and set(elem(out)) == set(sub), f'label of {sub}: {out}')
    S.check(S.raises((ValueError,), lambda: R.mo.find_space_label(set())), 'empty set rejected')
    S.check(S.raises((ValueError,), lambda: R.mo.find_space_label(set(sub) | {'x'})), 'unknown label rejected')


def relation(S):
    """ every label denotes its own subspace, composite ones the union of their parts """
    s = S.pick('s', ALL)
    S.check(set(S.R.mo.space_relation[s]) == set(elem(s)), f'space of {s}')
    if s.islower():
        S.check(set(S.R.mo.space_relation_so[s]) == set(elem(s)), f'spin-orbital space of {s}')


def higher(S):
    """ cumulants of rank two and more never downgrade silently; other tensors neither """
    R = S.R
    xs = idx_list(S, 'x', 2, 'so')
    ys = idx_list(S, 'y', 2, 'so')
    t = R.Cumulant(make(S, 'so', xs), make(S, 'so', ys))
    S.check(S.raises((NotImplementedError,), t.downgrade_indices), 'two-body cumulant must not be downgraded')
    h = R.HamiltonianTensor(make(S, 'so', xs), make(S, 'so', ys))
    S.check(S.raises((NotImplementedError,), h.downgrade_indices), 'Hamiltonian must not be downgraded')


def count_space(S):
    """ counting indices by space """
    n, typ = S.p['n'], S.p['typ']
    xs = idx_list(S, 'x', n, typ)
    I = make(S, typ, xs)
    sel = S.subset('sel', S.p['labels'])
    got = I.count_index_space(sel)
    want = [S.any([S.eq(x.space, s) for s in sel]) for x in xs]
    S.check(S.eq(got, sum(1 if c else 0 for c in want)), f'number of indices in {sel}')


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario(f'{k}-{ty}', downgrade, 'any two spaces and numbers', kind=k, typ=ty)
           for k in 'LCK' for ty in ('so', 'si', 'sa')]
    out += [Scenario('labels', labels, 'all subsets of elementary spaces'),
            Scenario('relation', relation, 'all labels'),
            Scenario('higher', higher, 'two-body, any spaces'),
            Scenario('count', count_space, 'three indices, label subsets', n=3 if t else 2, typ='si',
                     labels=['c', 'v', 'a', 'C', 'G', 'p'] if t else ['c', 'v', 'A'])]
    return out
