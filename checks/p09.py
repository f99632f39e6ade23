""" Bringing a term to canonical form keeps its value. """
from lib.harness import Scenario
from lib import oracle as O
from checks.termgen import *

ASSUMPTIONS = ['coefficients are real numbers with 0.001 <= |c| <= 1000 (floating point is modelled by the reals)',
               'values are compared as polynomials in the tensor elements over the listed finite orbital sets',
               'with hermitian_tensor=True all tensors are taken invariant under exchange of upper and lower indices']


def methods(t, how, core, act, herm):
    if how == 'simple':
        return t.canonicalize_simple(core, act)
    if how == 'sympy':
        return t.canonicalize_sympy(core, act, herm)
    return t.canonicalize(core, act, herm)


def run(S):
    R, typ = S.R, S.p.get('typ', 'so')
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', S.p.get('perm', ['shuf', 'dense'])))
    how = S.pick('how', S.p.get('how', ['default']))
    herm = S.pick('herm', S.p.get('herm', [True, False]))
    core, act = S.pick('core', S.p.get('core', [True])), S.pick('act', S.p.get('act', [True]))
    M = O.Model(S.p['sizes'], hermitian=herm and how != 'simple', t_active_zero=act, spin=typ == 'si', adapted=typ == 'sa')
    valid(S, sk, lab, typ)
    val = M.value(ref(sk, lab))
    c = coefficient(S)
    t = term(R, sk, lab, c, typ)
    out = methods(t, how, core, act, herm)
    S.check(isinstance(out, R.Term), 'a term is returned')
    S.check(out.sq_op.indices_type is getattr(R, {'so': 'IndicesSpinOrbital', 'si': 'IndicesSpinIntegrated', 'sa': 'IndicesSpinAdapted'}[typ]),
            'the kind of indices is kept')
    O.same_value(S, [(c, val)], O.terms_value(R, M, [out]), f'canonical form ({how}) changes the value of {show(lab)}')
    # minimal labels: numbers of every space are 0, 1, ... without gaps
    if not out.is_void():
        by = {}
        for i in out.indices_set:
            by.setdefault(str(i.space), set()).add(int(i.number))
        S.check(all(v == set(range(len(v))) for v in by.values()), f'labels of {out.hash_term()} are not minimal')


def scenarios(tier):
    t = tier == 'thorough'
    two = {'c': 2, 'a': 2, 'v': 2}
    one = {'c': 1, 'a': 2, 'v': 1}
    out = [
        Scenario('one-tensor', run, 'a single tensor, all label orders', shapes=['H:0/1 a:1/0', 'H:01/23 a:23/01', 'H:01/23 a:32/01', 'T:01/23 a:32/10'],
                 spaces={'0': 'ca', '1': 'ca', '2': 'av', '3': 'av'}, sizes=two, perm=['all'], how=['default', 'simple'], herm=[True, False] if t else [True]),
        Scenario('HT', run, 'integral and amplitude', shapes=['H:01/23 T:23/01', 'H:01/23 T:34/10 a:2/4', 'H:01/23 T:2/0 a:3/1', 'H:12/03 T:03/12', 'H:01/23 T:34/15 a:52/04'],
                 spaces={'0': 'gv', '1': 'va', '2': 'ca', '3': 'hc', '4': 'ca' if t else 'c', '5': 'v'}, sizes=one, how=['default', 'simple', 'sympy']),
        Scenario('HTT', run, 'two equivalent amplitudes', shapes=['H:01/23 T:2/0 T:3/1', 'H:01/23 T:24/05 T:36/17 a:75/46', 'H:01/23 T:24/05 T:3/1 a:5/4', 'H:01/23 T:3/0 T:2/4 a:4/1',
                                                              'H:01/23 T:24/01 T:3/5 a:5/4'],
                 spaces={'0': 'va', '1': 'va', '2': 'ca', '3': 'ca', '4': 'ca', '5': 'va', '6': 'c', '7': 'va' if t else 'v'}, sizes=two, perm=['shuf', 'rev', 'dense']),
        Scenario('TT', run, 'products of one-body amplitudes', shapes=['T:0/1 T:2/3 a:31/02', 'T:0/1 T:2/3 T:4/5 a:315/042', 'T:0/1 T:2/3 a:13/20'],
                 spaces={'0': 'ca', '2': 'ca', '4': 'c', '1': 'av', '3': 'av', '5': 'v'}, sizes={'c': 2, 'a': 2, 'v': 2}, how=['default', 'simple']),
        Scenario('density', run, 'with one-body densities', shapes=['H:01/23 L:2/4 K:5/0 T:46/57 a:73/16', 'H:01/23 L:2/4 L:3/5 T:45/01', 'H:01/23 L:0/4 K:5/1 T:4/5 a:2/3'.replace('L:0/4', 'L:4/0').replace('T:4/5', 'T:6/5').replace('a:2/3', 'a:23/64') if False else 'H:01/23 L:4/0 K:5/1 T:67/45 a:23/67',
                                                                   'H:0/1 L:1/2 T:2/3 a:3/0'],
                 spaces={'0': 'ga', '1': 'gv', '2': 'ga', '3': 'hg', '4': 'ha', '5': 'pa', '6': 'h', '7': 'p'}, sizes=one, core=[True, False], act=[True], herm=[True]),
        Scenario('cu2', run, 'two-body cumulants', shapes=['H:01/23 L:23/45 T:45/01', 'H:01/23 L:24/65 T:5/0 T:6/1 a:3/4'.replace('a:3/4', 'a:3/4'), 'H:01/23 L:35/24 T:4/0 T:6/5 a:1/6'.replace('H:01/23', 'H:01/23') if False else 'H:01/23 L:23/54 T:56/17 T:4/0 a:7/6'],
                 spaces={'0': 'pa', '1': 'gv', '2': 'ga', '3': 'ha', '4': 'ha', '5': 'h', '6': 'h', '7': 'p'}, sizes=one, herm=[True, False]),
        Scenario('spin-integrated', run, 'spin-integrated labels', shapes=['H:01/23 T:23/01', 'H:01/23 T:24/05 a:35/41', 'T:0/2 T:1/3 a:23/01', 'T:0/2 T:1/3 a:32/01'],
                 spaces={'0': 'vV', '1': 'vV', '2': 'cC', '3': 'cC', '4': 'cC', '5': 'vV'}, sizes={'c': 2, 'a': 1, 'v': 2}, typ='si', how=['default', 'simple'], herm=[True]),
        Scenario('spin-adapted', run, 'spin-adapted labels', shapes=['H:01/23 T:23/01', 'H:01/23 T:32/01', 'H:01/23 T:24/05 a:35/14', 'T:0/2 T:1/3 a:32/01', 'H:01/23 T:2/0 T:3/1'],
                 spaces={'0': 'va', '1': 'v', '2': 'ca', '3': 'c', '4': 'c', '5': 'v'}, sizes={'c': 2, 'a': 1, 'v': 2}, typ='sa', how=['default', 'simple'], herm=[True, False]),
        Scenario('nonconserving', run, 'unequal numbers of creators and annihilators', shapes=['T:01/23 a:320/1', 'T:01/23 a:2/301', 'T:01/23 a:2031/', 'T:01/23 a:/1230', 'H:01/23 T:2/0 a:31/'],
                 spaces={'0': 'ca', '1': 'c', '2': 'v', '3': 'av'}, sizes={'c': 2, 'a': 2, 'v': 2}, how=['default', 'simple'], herm=[True, False], perm=['all'] if t else ['shuf', 'rev', None]),
    ]
    if t:
        out += [Scenario('HTTT', run, 'three amplitudes', shapes=['H:01/23 T:2/0 T:34/15 T:6/7 a:57/46', 'H:01/23 T:2/0 T:3/1 T:4/5 a:5/4', 'H:01/23 T:24/01 T:3/5 T:6/7 a:57/46'],
                         spaces={'0': 'v', '1': 'va', '2': 'c', '3': 'ca', '4': 'c', '5': 'v', '6': 'c', '7': 'v'}, sizes={'c': 2, 'a': 1, 'v': 2}),
                Scenario('three-body', run, 'three-body tensors', shapes=['H:012/345 T:345/012', 'T:012/345 a:543/120', 'H:01/23 T:245/016 a:36/45'.replace('a:36/45', 'a:36/45')],
                         spaces={'0': 'va', '1': 'v', '2': 'v', '3': 'ca', '4': 'c', '5': 'c', '6': 'v'}, sizes={'c': 3, 'a': 1, 'v': 3})]
    return out
