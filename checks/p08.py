""" Simplifying a term (cumulant labels, deltas, active amplitudes) keeps its value. """
from lib.harness import Scenario
from lib import oracle as O
from checks.termgen import *

ASSUMPTIONS = ['coefficients are real numbers with 0.001 <= |c| <= 1000 (floating point is modelled by the reals)',
               'terms have the shape contractions produce: densities are attached to amplitudes or integrals, not to each other',
               'values are compared as polynomials in the tensor elements over the listed finite orbital sets']


def run(S):
    R = S.R
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', S.p.get('perm', ['shuf', 'dense'])))
    valid(S, sk, lab)
    core = S.pick('core', S.p.get('core', [True, False]))
    act = S.pick('act', S.p.get('act', [True]))
    M = O.Model(S.p['sizes'], hermitian=False, t_active_zero=act)
    if S.p.get('nonzero'):
        S.assume(bool(M.value(ref(sk, lab))))       # terms that vanish by orbital space may be refused
    c = coefficient(S)
    t = term(R, sk, lab, c)
    before = [(c, M.value(ref(sk, lab)))]
    t.simplify(core, act)
    O.same_value(S, before, O.terms_value(R, M, [t]), f'simplify changes the value of {show(lab)}')
    S.check(not any(isinstance(x, R.Kronecker) for x in t.list_of_tensors), 'a Kronecker delta is left')
    for x in t.list_of_tensors:
        if isinstance(x, R.Cumulant):
            sp = {str(i.space).lower() for i in x.indices()}
            if x.n_body > 1:
                S.check(sp <= {'a'}, f'cumulant {x} is not restricted to active indices')
            else:
                S.check(sp <= ({'a', 'h'} if core else {'a', 'h', 'c'}), f'one-body cumulant {x} is not restricted to holes')
        if act and isinstance(x, R.ClusterAmplitude):
            S.check(any(str(i.space).lower() != 'a' for i in x.indices()), 'an all-active amplitude is left')
    # consistency of the bookkeeping users read
    used = set(t.sq_op.indices())
    for x in t.list_of_tensors:
        used |= set(x.indices())
    S.check(used <= set(t.indices_set) , 'every index is reported in indices_set')
    if t.is_void():
        return
    # a simplified term is still a valid term and simplifying it again changes nothing in value
    t2 = R.Term(list(t.list_of_tensors), t.sq_op, t.coeff)
    t2.simplify(core, act)
    O.same_value(S, before, O.terms_value(R, M, [t2]), 'simplifying twice')


METHODS = {'simplify': lambda t, **k: t.simplify(**k) or t, 'simple': lambda t, **k: t.canonicalize_simple(**k),
           'canonicalize': lambda t, **k: t.canonicalize(hermitian_tensor=False, **k),
           'sympy': lambda t, **k: t.canonicalize_sympy(hermitian_tensor=False, **k)}
ORDER = {'simplify': lambda t, a, b: t.simplify(a, b) or t, 'simple': lambda t, a, b: t.canonicalize_simple(a, b),
         'canonicalize': lambda t, a, b: t.canonicalize(a, b, False), 'sympy': lambda t, a, b: t.canonicalize_sympy(a, b, False)}


def run_methods(S):
    """ every way to simplify a term honours both switches, whatever the number of tensors """
    R = S.R
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm='dense')
    valid(S, sk, lab)
    core, act = S.pick('core', [True, False, None]), S.pick('act', [True, False, None])
    m = S.pick('method', S.p.get('methods', sorted(METHODS)))
    c = coefficient(S)
    t = term(R, sk, lab, c)
    n_cu = sum(isinstance(x, R.Cumulant) for x in t.list_of_tensors)
    opts = {k: v for k, v in (('simplify_core_cumulant', core), ('remove_active_amplitudes', act)) if v is not None}
    if core is not None and act is not None and S.flag('positional'):
        t = ORDER[m](t, core, act)
    else:
        t = METHODS[m](t, **opts)
    core, act = core is not False, act is not False     # both are on by default
    M = O.Model(S.p['sizes'], hermitian=False, t_active_zero=act)
    O.same_value(S, [(c, M.value(ref(sk, lab)))], O.terms_value(R, M, [t]), f'{m} with core={core} active={act} changes the value of {show(lab)}')
    S.check(not any(isinstance(x, R.Kronecker) for x in t.list_of_tensors), 'a Kronecker delta is left')
    if t.is_void():
        return
    cu = [x for x in t.list_of_tensors if isinstance(x, R.Cumulant)]
    if core:
        S.check(not any(str(i.space).lower() == 'c' for x in cu for i in x.indices()), f'{m}: a core cumulant is left')
    else:
        S.check(len(cu) == n_cu, f'{m}: cumulants are merged although asked not to')
    if act:
        S.check(not any(isinstance(x, R.ClusterAmplitude) and all(str(i.space).lower() == 'a' for i in x.indices())
                        for x in t.list_of_tensors), f'{m}: an all-active amplitude is left')


def scenarios(tier):
    t = tier == 'thorough'
    G = 'gphvca'
    small = {'c': 1, 'a': 2, 'v': 1}
    out = [
        Scenario('delta', run, 'one delta between two integrals, any spaces', shapes=['H:0/1 K:1/2 G:2/3 a:3/0', 'H:0/1 K:2/0 G:3/2 a:1/3'],
                 spaces={'1': G, '2': G, '0': G, '3': 'g'}, sizes=small),
        Scenario('cumulant', run, 'one one-body cumulant, any spaces', shapes=['H:0/1 L:1/2 G:2/3 a:3/0', 'H:0/1 L:2/0 G:3/2 a:1/3'],
                 spaces={'1': G, '2': G, '0': 'gc', '3': 'p'}, sizes=small),
        Scenario('operator', run, 'densities attached to the operator', shapes=['H:0/1 K:1/2 a:2/0', 'H:0/1 L:1/2 a:2/0', 'H:0/1 K:2/0 a:1/2'],
                 spaces={'1': G, '2': G, '0': G}, sizes=small),
        Scenario('two', run, 'two one-body densities sharing their tensors', shapes=['H:01/23 K:2/4 L:3/5 T:45/67 a:67/01', 'H:01/23 L:2/4 L:3/5 T:45/67 a:67/01',
                                                                             'H:01/23 K:2/4 K:5/0 T:4/5 a:3/1'],
                 spaces={'2': 'gha', '4': 'hca', '3': 'ghp' if t else 'gh', '5': 'ha', '0': 'ga', '1': 'v', '6': 'p', '7': 'v'}, sizes=small, core=[True] if not t else [True, False]),
        Scenario('cu2', run, 'a two-body cumulant', shapes=['H:01/23 L:23/45 T:45/67 a:67/01', 'H:01/23 L:26/45 T:4/6 T:5/7 a:37/01'],
                 spaces={'0': 'g', '1': 'c', '2': 'gh', '3': 'ga', '4': 'ha', '5': 'ha', '6': 'pa', '7': 'pv'}, sizes={'c': 1, 'a': 2, 'v': 1}, core=[True], act=[True, False]),
        Scenario('active-t', run, 'amplitudes that become active only', shapes=['H:0/1 K:1/2 T:2/3 a:3/0', 'H:01/23 L:2/4 K:5/0 T:4/5 a:3/1'],
                 spaces={'0': 'gap', '1': 'gap', '2': 'ha', '3': 'pa', '4': 'ha', '5': 'pa'}, sizes=small, act=[True, False], core=[True]),
        Scenario('diagonal', run, 'an operator with a repeated (diagonal) index contracted with an amplitude',
                 shapes=['H:0/0 K:1/0 T:2/1 a:0/2', 'H:0/0 L:1/0 T:2/1 a:0/2', 'H:0/0 L:0/2 K:1/0 T:2/1', 'H:0/0 T:2/1 a:01/02', 'H:0/0 L:01/02 T:2/1'],
                 spaces={'0': G, '1': 'pgva', '2': 'hca'}, sizes=small, nonzero=True),
        Scenario('methods', run_methods, 'simplify and the three canonical forms, with both switches on, off and left out; two to six tensors',
                 shapes=['H:0/1 L:1/2 T:2/3 a:3/0', 'H:0/1 T:2/3 L:1/2 K:3/0', 'H:01/23 L:2/4 L:3/5 T:45/67 a:67/01',
                         'H:01/23 L:2/4 K:3/5 T:4/6 T:5/7 a:67/01', 'H:01/23 L:2/4 L:3/5 K:6/0 K:7/1 T:45/67'],
                 spaces={'0': 'ap', '1': 'ch', '2': 'cah', '3': 'ha', '4': 'ca', '5': 'ha', '6': 'a', '7': 'pa'} if t else
                 {'0': 'a', '1': 'h', '2': 'cah', '3': 'ah', '4': 'ca', '5': 'ha', '6': 'a', '7': 'pa'}, sizes=small),
        Scenario('spin', run, 'beta labels', shapes=['H:0/1 K:1/2 T:2/3 a:3/0', 'H:0/1 L:1/2 G:2/3 a:3/0'],
                 spaces={'1': 'GHPA', '2': 'HCA', '3': 'PAV', '0': 'G'}, sizes=small, perm=['rev', 'dense']),
        Scenario('spin-2', run_si, 'two-body integrals, active indices of both spins beside the density',
                 shapes=['H:01/23 K:2/0 a:3/1', 'H:01/23 L:2/0 a:3/1', 'H:01/23 K:3/0 G:2/4 a:4/1', 'H:01/23 L:3/0 G:2/4 a:4/1', 'H:01/23 K:2/0 L:3/1', 'H:01/23 L:2/0 K:3/1'],
                 spaces={'0': 'gaPHA', '1': 'aA', '2': 'hpaGHA', '3': 'aA', '4': 'aA'}, sizes={'c': 1, 'a': 2, 'v': 1}, perm=['dense', 'shuf'] if t else ['dense']),
    ]
    for s in out:
        s.params['typ'] = 'so'
    out[-2].fn = run_si
    if t:
        out += [Scenario('cu3', run, 'a three-body cumulant', shapes=['H:01/23 L:234/567 T:56/84 T:7/9 a:89/01'.replace('T:7/9', 'G:7/9')],
                         spaces={**{str(i): 'gh' for i in range(2, 5)}, '4': 'p', '5': 'h', '6': 'ha', '7': 'g', '0': 'g', '1': 'g', '8': 'v', '9': 'v'},
                         sizes={'c': 1, 'a': 3, 'v': 1}, core=[True])]
    return out


def run_si(S):
    """ the same for spin-integrated labels """
    R = S.R
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', S.p.get('perm', ['shuf', 'dense'])))
    valid(S, sk, lab, 'si')
    M = O.Model(S.p['sizes'], hermitian=False, spin=True)
    c = coefficient(S)
    t = term(R, sk, lab, c, 'si')
    t.simplify()
    O.same_value(S, [(c, M.value(ref(sk, lab)))], O.terms_value(R, M, [t]), f'simplify changes the value of {show(lab)}')
    S.check(not any(isinstance(x, R.Kronecker) for x in t.list_of_tensors), 'a Kronecker delta is left')
    S.check(t.sq_op.indices_type is R.IndicesSpinIntegrated, 'index type')
