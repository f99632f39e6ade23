""" Derivatives of a term with respect to cluster amplitudes. """
from lib.harness import Scenario
from lib import oracle as O
from checks.termgen import *

ASSUMPTIONS = ['the first derivative is that of an energy term (no open indices); n-body derivative operators carry the coefficient of the term',
               'the second derivative is taken of a term with one amplitude of the rank of its operator, in the same orbital block, '
               'and the indices shared by amplitude and operator sit in the same slots',
               'coefficients are real numbers with 0.001 <= |c| <= 1000']


def gradient(S):
    R, typ = S.R, S.p.get('typ', 'so')
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', S.p.get('perm', ['shuf', 'dense'])))
    valid(S, sk, lab, typ)
    M = O.Model(S.p['sizes'], hermitian=True, spin=typ == 'si')
    c = coefficient(S)
    t = term(R, sk, lab, c, typ)
    before = O.expr_of_term(R, t)
    out = list(t.gradient_t())
    want = []
    for k, (n, u, l) in enumerate(sk.tensors):
        if n in ('T', 'S', 'X'):
            rest = Skel('')
            rest.tensors, rest.op = sk.tensors[:k] + sk.tensors[k + 1:], (l, u)
            want.append((c, M.value(ref(rest, lab))))
    S.check(len(out) == len(want), 'one term for every amplitude')
    O.same_value(S, want, O.terms_value(R, M, out), f'the derivative is not the product rule, {show(lab)}')
    after = O.expr_of_term(R, t)
    S.check(repr(before.tensors) == repr(after.tensors), 'the energy term is changed')


def open_term(S):
    """ the first derivative of a term with open indices is not available """
    R = S.R
    sk = Skel(S.pick('shape', ['H:01/23 T:2/0 a:3/1', 'T:0/1 a:1/0', 'H:01/23 T:24/05 a:35/14']))
    lab = labels(S, sk, {'0': 'pva', '1': 'pva', '2': 'hca', '3': 'hca', '4': 'h', '5': 'p'}, default='hp')
    valid(S, sk, lab)
    t = term(R, sk, lab, 1.0)
    S.check(S.raises(NotImplementedError, lambda: list(t.gradient_t())), 'open indices are refused')


def hessian(S):
    R, typ = S.R, S.p.get('typ', 'so')
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', S.p.get('perm', ['shuf', 'dense'])))
    valid(S, sk, lab, typ)
    c = coefficient(S)
    nb = len(sk.op[0])
    amp = [(u, l) for n, u, l in sk.tensors if n == 'T' and len(u) == nb]
    t = term(R, sk, lab, c, typ)
    M = O.Model(S.p['sizes'], hermitian=True, t_active_zero=False, spin=typ == 'si')
    if len(amp) > 1:
        S.check(S.raises(NotImplementedError, t.diagonal_hessian_t), 'more than one candidate')
        return
    res = None
    if amp:
        u, l = amp[0]
        sp = lambda ids: [lab[i][0] for i in ids]
        # same block: excitation (creators on the lower indices) or the reverse
        if sp(u) == sp(sk.op[0]):
            pairs = list(zip(u + l, sk.op[0] + sk.op[1]))
        else:
            pairs = list(zip(u + l, sk.op[1] + sk.op[0]))
        S.assume(all(lab[a][0] == lab[b][0] for a, b in pairs))
        ops = sk.op[0] + sk.op[1]
        S.assume(all(a == b or a not in ops for a, b in pairs))
        to = {i: i for i in sk.ids}
        to.update(pairs)
        rest = Skel('')
        rest.tensors = [(n, tuple(to[i] for i in a), tuple(to[i] for i in b)) for n, a, b in sk.tensors if not (n == 'T' and len(a) == nb)]
        rest.op = sk.op
        # an antisymmetric tensor with one index twice on a side vanishes and is refused by the tensors
        S.assume(all(len(set(a)) == len(a) and len(set(b)) == len(b) for n, a, b in rest.tensors))
        res = M.value(ref(rest, lab))
    out = t.diagonal_hessian_t()
    if isinstance(out, R.Term):
        got = [(out.coeff, M.value(O.expr_of_term(R, out)))]
        op = out.sq_op
    else:
        k, ts, op = out
        got = [(k, M.value(O.expr_of(R, ts, op)))]
    if res is None:
        S.check(S.eq(got[0][0], 0.0), 'no amplitude of that rank: the derivative is zero')
    else:
        O.same_value(S, [(c, res)], got, f'the diagonal second derivative is wrong, {show(lab)}')
        S.check([O.ix(i) for i in op.cre_ops] == [lab[i] for i in sk.op[0]] and
                [O.ix(i) for i in op.ann_ops] == [lab[i] for i in sk.op[1]], 'the operator is kept')


def scenarios(tier):
    t = tier == 'thorough'
    one, two = {'c': 1, 'a': 2, 'v': 1}, {'c': 2, 'a': 2, 'v': 2}
    out = [
        Scenario('energy', gradient, 'closed products of an integral and amplitudes', shapes=['H:0/2 T:2/0', 'H:01/23 T:23/01', 'H:01/23 T:23/10', 'H:01/23 T:2/0 T:3/1', 'H:01/23 T:3/0 T:2/1'],
                 spaces={'0': 'pva', '1': 'va', '2': 'hca', '3': 'ca'}, sizes=two, perm=['shuf', 'rev', 'dense']),
        Scenario('energy3', gradient, 'three amplitudes', shapes=['H:01/23 T:2/0 T:34/15 T:5/4', 'H:01/23 T:24/05 T:3/1 T:5/4', 'H:01/23 T:2/0 T:3/1 T:4/5 S:5/4'],
                 spaces={'0': 'v', '1': 'va', '2': 'ca', '3': 'c', '4': 'ca', '5': 'va'} , sizes={'c': 2, 'a': 1, 'v': 2}),
        Scenario('energy-t3', gradient, 'three-body amplitudes', shapes=['H:01/23 T:234/015 T:5/4', 'H:01/23 T:5/4 T:234/015', 'H:01/23 S:5/4 T:234/015'],
                 spaces={'0': 'v', '1': 'v', '2': 'c', '3': 'c', '4': 'a', '5': 'va'}, sizes=two, perm=['shuf', 'rev']),
        Scenario('energy-t4', gradient, 'four-body integral', shapes=['H:0123/4567 T:4/0 T:567/123', 'H:0123/4567 T:45/01 T:67/23'],
                 spaces={'0': 'v', '1': 'v', '2': 'a', '3': 'v', '4': 'a', '5': 'c', '6': 'c', '7': 'c'}, sizes={'c': 3, 'a': 1, 'v': 3}, perm=['shuf']),
        Scenario('density', gradient, 'with densities', shapes=['H:01/23 L:2/4 T:43/01', 'H:01/23 L:23/45 T:45/01', 'H:01/23 L:2/4 T:4/0 T:3/1', 'H:0/1 L:1/2 C:3/0 T:2/3'],
                 spaces={'0': 'pa', '1': 'ga', '2': 'ga', '3': 'ha', '4': 'ha', '5': 'ha'}, sizes=one),
        Scenario('spin', gradient, 'spin-integrated energy', shapes=['H:0/2 T:2/0', 'H:01/23 T:23/01', 'H:01/23 T:2/0 T:3/1'], typ='si',
                 spaces={'0': 'vV', '1': 'vV', '2': 'cC', '3': 'cC'}, sizes=two, perm=['shuf', 'rev', 'dense']),
        Scenario('equal', gradient, 'an amplitude that appears twice', shapes=['H:0/2 T:2/0 T:3/1 T:3/1', 'T:2/0 T:2/0', 'T:23/01 T:23/01', 'H:0/2 T:2/0 T:3/1 S:3/1', 'T:2/0 T:3/1 T:2/0 T:3/1'],
                 spaces={'0': 'va', '1': 'va', '2': 'ca', '3': 'ca'}, sizes=two),
        Scenario('open', open_term, 'terms with open indices'),
        Scenario('second-1', hessian, 'one-body operators', shapes=['H:03/12 T:1/0 a:3/2', 'H:03/12 T:1/0 a:2/3', 'H:0/3 T:1/0 a:3/1', 'H:2/1 T:1/0 a:0/2', 'H:01/23 T:23/01', 'H:01/23 T:2/0 a:3/1',
                                                                   'H:01/23 T:24/05 a:35/14', 'H:01/23 T:2/0 T:3/4 a:4/1', 'H:01/23 T:24/15 a:35/04'],
                 spaces={'0': 'pav', '3': 'pav', '1': 'hca', '2': 'hca', '4': 'hc', '5': 'pv'}, sizes=one),
        Scenario('second-2', hessian, 'two-body operators', shapes=['H:56/01 T:23/14 a:04/23'.replace('H:56/01', 'H:1/0'), 'H:4/1 T:23/01 a:04/23', 'H:5/3 T:34/01 a:01/54'.replace('T:34', 'T:34'),
                                                                   'H:3/4 T:24/01 a:01/23', 'H:01/45 T:23/01 a:45/23', 'H:1/5 T:23/05 a:01/23', 'H:15/04 T:34/15 a:05/34'.replace('H:15/04', 'H:1/0') .replace('a:05', 'a:05'),
                                                                   'H:01/23 T:23/45 T:6/0 a:45/61', 'H:56/23 T:23/01 a:01/56'],
                 spaces={'0': 'va', '1': 'va', '2': 'ca', '3': 'ca', '4': 'vca', '5': 'vca', '6': 'ca'} if t else
                 {'0': 'v', '1': 'va', '2': 'c', '3': 'ca', '4': 'vca', '5': 'vca', '6': 'ca'}, sizes=two),
    ]
    if t:
        out.append(Scenario('energy4', gradient, 'doubles and singles products', shapes=['H:01/23 T:24/05 T:36/17 T:57/46'.replace('T:57/46', 'S:46/57') if False else 'H:01/23 T:24/05 T:35/14', 'H:01/23 T:24/05 T:36/17 S:57/46'],
                            spaces={'0': 'va', '1': 'v', '2': 'ca', '3': 'c', '4': 'ca', '5': 'va', '6': 'c', '7': 'v'}, sizes={'c': 2, 'a': 1, 'v': 2}, perm=['shuf', 'rev', 'dense']))
    return out
