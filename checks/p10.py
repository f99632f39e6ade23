""" Terms that differ only by dummy labels, slot order, tensor order or (Hermitian) transposition share one canonical form. """
from lib.harness import Scenario
from lib import oracle as O
from checks.termgen import *

ASSUMPTIONS = ['coefficients are real numbers with 0.001 <= |c| <= 1000 (floating point is modelled by the reals)']


def variant(S, sk, what, herm, typ):
    """ (skeleton with permuted slots, sign) """
    sign = 1
    new = Skel('H:/')
    new.ids = sk.ids

    def side(name, ids):
        nonlocal sign
        if 'slots' not in what or len(ids) < 2 or typ == 'sa':
            return ids
        p = S.perm(name, len(ids))
        sign *= O.parity(p)
        return tuple(ids[k] for k in p)
    new.tensors = []
    for k, (n, u, l) in enumerate(sk.tensors):
        u, l = side(f'u{k}', u), side(f'l{k}', l)
        if typ == 'sa' and 'slots' in what and len(u) > 1:
            p = S.perm(f'p{k}', len(u))
            u, l = tuple(u[q] for q in p), tuple(l[q] for q in p)
        if 'herm' in what and herm and n != 'K' and S.flag(f'h{k}'):
            u, l = l, u
        new.tensors.append((n, u, l))
    new.op = (side('cre', sk.op[0]), side('ann', sk.op[1]))
    return new, sign


def run(S):
    R, typ, what = S.R, S.p.get('typ', 'so'), S.p['what']
    sk = Skel(S.pick('shape', S.p['shapes']))
    herm = S.pick('herm', S.p.get('herm', [True]))
    lab = labels(S, sk, S.p['spaces'], perm=None)
    valid(S, sk, lab, typ)
    c = coefficient(S)
    first = term(R, sk, lab, c, typ).canonicalize(hermitian_tensor=herm)
    sk2, sign = variant(S, sk, what, herm, typ)
    lab2 = lab
    if 'labels' in what:
        p = S.perm('num', len(sk.ids))
        lab2 = {i: (lab[i][0], p[k]) for k, i in enumerate(sk.ids)}
    order = S.perm('order', len(sk.tensors)) if 'order' in what else None
    second = term(R, sk2, lab2, sign * c, typ, order).canonicalize(hermitian_tensor=herm)
    S.check(S.iff(first.is_void(), second.is_void()) if S.concrete else first.is_void() == second.is_void(),
            f'one of two equivalent terms vanishes ({show(lab)})')
    if first.is_void() and second.is_void():
        return
    S.check(first.hash_term() == second.hash_term(), f'canonical forms differ: {first.hash_term()} / {second.hash_term()}')
    S.check(S.all([first.comparison_tuple_weak() == second.comparison_tuple_weak(), S.eq(first.coeff, second.coeff)]),
            f'coefficients of equivalent terms differ ({first.hash_term()})')
    # canonical form of a canonical form
    third = R.Term(list(first.list_of_tensors), first.sq_op, first.coeff).canonicalize(hermitian_tensor=herm)
    S.check(S.all([third.hash_term() == first.hash_term(), S.eq(third.coeff, first.coeff)]), 'the canonical form is not a fixed point')


def scenarios(tier):
    t = tier == 'thorough'
    sp = {'0': 'va', '1': 'v', '2': 'ca', '3': 'c', '4': 'c', '5': 'v', '6': 'c', '7': 'v'}
    big = ['H:01/23 T:24/05 T:36/17 a:75/46', 'H:01/23 T:24/05 T:3/1 a:5/4', 'H:01/23 T:24/01 T:3/5 a:5/4', 'H:01/23 T:2/0 T:34/15 a:5/4']
    out = [
        Scenario('labels', run, 'every renumbering of the dummy labels', what=['labels'],
                 shapes=['H:01/23 T:23/01', 'H:01/23 T:2/0 T:3/1', 'T:0/1 T:2/3 a:31/02', 'H:01/23 T:24/01 a:3/4'], spaces=sp),
        Scenario('slots', run, 'every slot order', what=['slots'],
                 shapes=big[1:] + ['H:01/23 T:23/01', 'T:01/23 a:32/01', 'H:01/23 T:2/0 a:3/1'], spaces={**sp, '0': 'v', '2': 'c'} if not t else sp, herm=[False]),
        Scenario('transpose', run, 'transposed tensors and reordered tensor lists', what=['herm', 'order'],
                 shapes=big + ['H:01/23 T:2/0 T:3/1'], spaces=sp, herm=[True]),
        Scenario('mixed', run, 'labels, slots, transposition and order together', what=['labels', 'slots', 'herm', 'order'],
                 shapes=['H:01/23 T:2/0 a:3/1', 'T:0/1 T:2/3 a:31/02', 'H:01/23 a:23/01'] if not t else ['H:01/23 T:2/0 a:3/1', 'T:0/1 T:2/3 a:31/02', 'H:01/23 a:23/01', 'H:01/23 T:23/01', 'H:01/23 T:2/0 T:3/1'],
                 spaces={'0': 'va' if t else 'v', '1': 'v', '2': 'c', '3': 'ca' if t else 'c'}, herm=[True]),
        Scenario('densities', run, 'equivalent cumulants and amplitudes', what=['herm', 'order', 'slots'] if t else ['order', 'slots'],
                 shapes=['H:01/23 L:2/4 L:3/5 T:45/01', 'H:01/23 L:23/45 T:45/01'], spaces={'0': 'v', '1': 'va', '2': 'ah' if t else 'a', '3': 'a', '4': 'h', '5': 'a'}, herm=[True]),
        Scenario('spin-integrated', run, 'spin-integrated labels', what=['herm', 'order', 'slots'] if t else ['order', 'slots'], typ='si',
                 shapes=['H:01/23 T:23/01', 'H:01/23 T:2/0 T:3/1', 'T:0/2 T:1/3 a:23/01'], spaces={'0': 'vV', '1': 'vV', '2': 'cC', '3': 'cC'}, herm=[True]),
        Scenario('spin-adapted', run, 'spin-adapted labels', what=['labels', 'slots', 'order'], typ='sa',
                 shapes=['H:01/23 T:23/01', 'H:01/23 T:32/01', 'H:01/23 T:2/0 T:3/1'], spaces={'0': 'v', '1': 'va' if t else 'v', '2': 'c', '3': 'c'}, herm=[True]),
    ]
    return out
