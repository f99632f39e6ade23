""" Restriction of a term to excitations or to the diagonal blocks of its one-body operator. """
from lib.harness import Scenario
from lib import oracle as O
from checks.termgen import *
from checks.p14 import filt, spaces

ASSUMPTIONS = ['coefficients are real numbers with 0.001 <= |c| <= 1000',
               'values are compared as polynomials in the tensor elements over the listed finite orbital sets',
               'tensors are Hermitian and amplitudes with only active indices are zero, as in the canonical form',
               'the all-active part of an excitation may be kept or dropped']


def make(S):
    R = S.R
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', [S.p.get('perm', 'shuf'), 'dense']))
    typ = S.p.get('typ', 'so')
    valid(S, sk, lab, typ)
    c = coefficient(S)
    t = term(R, sk, lab, c, typ)
    M = O.Model(S.p.get('sizes', {'c': 1, 'a': 2, 'v': 1}), hermitian=True, spin=typ == 'si')
    return R, sk, lab, c, t, M


def excitation(S):
    R, sk, lab, c, t, M = make(S)
    sr = S.flag('sr')
    val = M.value(ref(sk, lab))
    S.assume(bool(val) or not S.p.get('nonzero'))
    before = t.hash_term()
    out = t.make_excitation(sr)
    cre, ann = ('v', 'c') if sr else ('av', 'ca')
    keep = lambda cr, an: all(x in cre for x in spaces(cr)) and all(x in ann for x in spaces(an))
    act = lambda cr, an: bool(cr + an) and set(spaces(cr + an)) == {'a'}
    got = O.terms_value(R, M, [out])
    want = filt(val, keep)
    O.same_value(S, [(c, filt(want, lambda *op: not act(*op)))], [(k, filt(v, lambda *op: not act(*op))) for k, v in got], f'excitation part of {show(lab)}')
    ga = [(k, filt(v, act)) for k, v in got]
    if any(v for _, v in ga):
        O.same_value(S, [(c, filt(want, act))], ga, f'active part of {show(lab)}')
    S.check(t.hash_term() == before and S.eq(t.coeff, c), 'the original term is changed')
    if not out.is_void():
        S.check(all(str(i.space).lower() in ('v' if sr else 'pva') for i in out.sq_op.cre_ops), 'creators are particles')
        S.check(all(str(i.space).lower() in ('c' if sr else 'hca') for i in out.sq_op.ann_ops), 'annihilators are holes')


def diagonal(S):
    R, sk, lab, c, t, M = make(S)
    sr = S.flag('sr')
    val = M.value(ref(sk, lab))
    before = t.hash_term()
    out = list(t.make_one_body_diagonal(sr))
    want = filt(val, lambda cr, an: cr[0][0] == an[0][0] and not (sr and 'a' in spaces(cr)))
    O.same_value(S, [(c, want)], O.terms_value(R, M, out), f'diagonal blocks of {show(lab)}')
    S.check(t.hash_term() == before and S.eq(t.coeff, c), 'the original term is changed')
    sp = []
    for x in out:
        if x.is_void():
            continue
        s = {i.space for i in x.sq_op.indices()}
        S.check(len(s) == 1 and str(list(s)[0]).lower() in 'cav', 'one elementary space per block')
        S.check(x.sq_op.size == 2 and len(set(x.sq_op.indices())) == 2, 'upper and lower index stay different')
        sp += list(s)
    S.check(len(sp) == len(set(sp)), 'every block appears once')
    # what was asked for before must not matter: the other restrictions of the same and of a fresh term
    t2 = term(R, sk, lab, c, S.p.get('typ', 'so'))
    for k, x in enumerate((t, t2)):
        for sr2 in (not sr, sr):
            want = filt(val, lambda cr, an: cr[0][0] == an[0][0] and not (sr2 and 'a' in spaces(cr)))
            O.same_value(S, [(c, want)], O.terms_value(R, M, list(x.make_one_body_diagonal(sr2))), f'diagonal blocks of {show(lab)} asked for again')


def refuse(S):
    R = S.R
    sk = Skel(S.pick('shape', ['H:01/23 a:23/01', 'H:01/23 T:23/01', 'H:01/23 a:230/1']))
    lab = labels(S, sk, {'0': 'p', '1': 'p', '2': 'h', '3': 'h'})
    t = term(R, sk, lab)
    S.check(S.raises(ValueError, lambda: list(t.make_one_body_diagonal(S.flag('sr')))), 'only one-body operators have diagonal blocks')


def scenarios(tier):
    t = tier == 'thorough'
    G = 'gphvca'
    return [
        Scenario('excitation-1', excitation, 'one-body operators, any labels', shapes=['H:0/1 a:1/0', 'H:02/13 T:3/2 a:1/0'], spaces={'0': G, '1': G, '2': 'p', '3': 'h'}, perm='rev'),
        Scenario('excitation-2', excitation, 'two-body operators', shapes=['H:01/23 a:23/01', 'H:41/23 T:0/4 a:32/10', 'T:0/2 T:1/3 a:32/01', 'H:04/25 T:51/43 a:32/10'],
                 spaces={'0': 'gha' if not t else G, '1': 'gc', '2': 'gp', '3': 'ga' if not t else 'gav', '4': 'p', '5': 'h'}, sizes={'c': 1, 'a': 2, 'v': 1}),
        Scenario('excitation-3', excitation, 'three-body tensors with contracted indices', shapes=['H:045/123 T:23/45 a:1/0', 'H:451/230 T:2/4 T:3/5 a:0/1'],
                 spaces={'0': 'g', '1': 'g', '2': 'c', '3': 'c', '4': 'v', '5': 'v'}, sizes={'c': 2, 'a': 1, 'v': 2}),
        Scenario('excitation-density', excitation, 'with densities', shapes=['H:02/13 L:3/2 a:1/0', 'H:02/13 L:3/4 T:4/2 a:1/0'.replace('T:4/2', 'T:4/2')],
                 spaces={'0': G, '1': G, '2': 'h' if not t else 'hp', '3': 'h', '4': 'h'}, nonzero=True),
        Scenario('excitation-scalar', excitation, 'no operator', shapes=['H:0/1 T:1/0'], spaces={'0': 'gp', '1': 'hc'}),
        Scenario('excitation-spin', excitation, 'spin-integrated labels', shapes=['H:0/1 a:1/0', 'H:01/23 a:23/01'],
                 spaces={'0': 'GHP', '1': 'GPC', '2': 'GP', '3': 'GV'}, typ='si', sizes={'c': 1, 'a': 1, 'v': 1}),
        Scenario('diagonal', diagonal, 'one-body operators, any labels', shapes=['H:0/1 a:1/0', 'H:02/13 T:3/2 a:1/0', 'H:02/13 L:3/2 a:1/0', 'H:23/14 T:40/23 a:1/0'],
                 spaces={'0': G, '1': G, '2': 'p', '3': 'h', '4': 'c'}, perm='rev'),
        Scenario('diagonal-spin', diagonal, 'spin-integrated labels', shapes=['H:0/1 a:1/0'], spaces={'0': 'GPHVCA', '1': 'GPHVCA'}, typ='si', sizes={'c': 1, 'a': 1, 'v': 1}),
        Scenario('refuse', refuse, 'operators that are not one-body'),
    ]
