""" Operator builders and expansion of composite labels. """
from fractions import Fraction
from math import factorial
from lib.harness import Scenario
from lib import oracle as O
from checks.termgen import *

ASSUMPTIONS = ['hole and particle labels of a cluster operator differ', 'scale factors and coefficients are real numbers with 0.001 <= |c| <= 1000',
               'values are compared as polynomials in the tensor elements over the listed finite orbital sets']
SIZES = {'c': 1, 'a': 2, 'v': 1}


def filt(val, keep):
    return {op: d for op, d in val.items() if keep(*op)}


def spaces(orbs):
    return [e.lower() for e, _ in orbs]


def terms_check(S, M, ref, terms, msg):
    O.same_value(S, ref, O.terms_value(S.R, M, terms), msg)


def hamiltonian(S):
    R = S.R
    k = S.pick('k', S.p['k'])
    start = S.pick('start', [0, 1, 7, 10])
    typ = S.pick('typ', S.p['typ'])
    t = R.Term_mod.hamiltonian_operator(k, start, typ)
    S.check(isinstance(t, R.Term) and len(t.list_of_tensors) == 1 and isinstance(t.list_of_tensors[0], R.HamiltonianTensor), 'one Hamiltonian tensor')
    S.check(all(start <= i.number < start + 2 * k and i.space == 'g' for i in t.indices_set), 'labels follow the starting number')
    kind = {'spin-orbital': R.IndicesSpinOrbital, 'so': R.IndicesSpinOrbital, 'si': R.IndicesSpinIntegrated, 'sa': R.IndicesSpinAdapted}
    S.check(t.sq_op.indices_type is kind[typ], 'index type')
    M = O.Model(S.p['sizes'], hermitian=False, adapted=typ == 'sa')
    up, lo = [('g', 2 * i) for i in range(k)], [('g', 2 * i + 1) for i in range(k)]
    ref = O.Expr([O.Ten('H', 'H', up, lo)], lo, up)
    # the solver sees the factor as a symbolic real fixed by its definition
    f = Fraction(1, factorial(k) ** 2)
    terms_check(S, M, [(float(f), M.value(ref))], [t], f'{k}-body Hamiltonian')


def cluster(S):
    R = S.R
    k = S.pick('k', S.p['k'])
    start = S.pick('start', [0, 3])
    exc = S.flag('exc')
    h, p = S.pick('h', S.p['h']), S.pick('p', S.p['p'])
    S.assume(h != p)
    name = S.pick('name', ['T', 'S'])
    c = coefficient(S)
    t = R.Term_mod.cluster_operator(k, start=start, excitation=exc, name=name, scale_factor=c, hole_label=h, particle_label=p)
    S.check(len(t.list_of_tensors) == 1 and isinstance(t.list_of_tensors[0], R.ClusterAmplitude) and t.list_of_tensors[0].name == name, 'one amplitude of that name')
    S.check(all(start <= i.number < start + k for i in t.indices_set), 'labels follow the starting number')
    S.check(t.sq_op.indices_type is R.IndicesSpinOrbital, 'index type')
    M = O.Model(S.p['sizes'], hermitian=False, t_active_zero=False)
    hs, ps = [(h, 100 + i) for i in range(k)], [(p, 200 + i) for i in range(k)]
    ref = O.Expr([O.Ten('T', name, hs, ps)], ps if exc else hs, hs if exc else ps)
    terms_check(S, M, [(c * float(Fraction(1, factorial(k) ** 2)), M.value(ref))], [t], f'{k}-body cluster operator')


def clusters(S):
    R = S.R
    levels = S.pick('levels', [[1], [2], [1, 2], [2, 1], [1, 3], []])
    start, unitary, sr = S.pick('start', [0, 4]), S.flag('unitary'), S.flag('sr')
    ts = R.phys.cluster_operators(levels, start, unitary, sr)
    M = O.Model({'c': 2, 'a': 1, 'v': 2}, hermitian=False, t_active_zero=False)
    h, p = ('c', 'v') if sr else ('h', 'p')
    ref = []
    for k in levels:
        hs, ps = [(h, i) for i in range(k)], [(p, i) for i in range(k)]
        f = 1.0 / factorial(k) ** 2
        ref.append((f, M.value(O.Expr([O.Ten('T', 'T', hs, ps)], ps, hs))))
        if unitary:
            ref.append((-f, M.value(O.Expr([O.Ten('T', 'T', hs, ps)], hs, ps))))
    terms_check(S, M, ref, ts, 'sum of cluster operators')
    S.check(all(i.number >= start for t in ts for i in t.indices_set), 'labels follow the starting number')


def h_value(M, k):
    up, lo = [('g', i) for i in range(k)], [('g', k + i) for i in range(k)]
    return M.value(O.Expr([O.Ten('H', 'H', up, lo)], lo, up))


def zeroth(S):
    """ diagonal Fock, Dyall and Fink operators: block structure of the Hamiltonian """
    R = S.R
    what = S.pick('what', ['fock', 'dyall', 'fink'])
    sr = S.pick('sr', [False] if what == 'dyall' else [True, False])
    M = O.Model(SIZES, hermitian=True)
    f1 = filt(h_value(M, 1), lambda c, a: spaces(c) == spaces(a) and not (sr and 'a' in spaces(c)))
    ref = [(1.0, f1)]
    if what == 'fock':
        ts = R.Term_mod.diagonal_fock_operator(sr)
    elif what == 'dyall':
        ts = R.Term_mod.dyall_hamiltonian()
        ref.append((0.25, filt(h_value(M, 2), lambda c, a: set(spaces(c) + spaces(a)) == {'a'})))
    else:
        ts = R.Term_mod.fink_hamiltonian(sr)
        ref.append((0.25, filt(h_value(M, 2), lambda c, a: sorted(spaces(c)) == sorted(spaces(a)) and not (sr and 'a' in spaces(c)))))
    S.check(isinstance(ts, list), 'a list of terms')
    terms_check(S, M, ref, ts, what)
    if what != 'fink':
        S.check(all(len({i.space for i in t.sq_op.indices()}) == 1 for t in ts), 'one space per block')


def ddca(S):
    R = S.R
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm='shuf')
    typ = S.p.get('typ', 'so')
    valid(S, sk, lab, typ)
    c = coefficient(S)
    t = term(R, sk, lab, c, typ)
    start = S.pick('start', [0, 3])
    sr = S.flag('sr')
    M = O.Model(S.p.get('sizes', SIZES), hermitian=False, spin=typ == 'si', t_active_zero=False)
    val = M.value(ref(sk, lab))
    full = S.pick('full', S.p.get('full', [True, False]))
    n = len(sk.op[0]) + len(sk.op[1])
    if full:
        out = list(t.expand_composite_indices(sr, start))
        keep = lambda cr, an: not (sr and 'a' in spaces(cr + an))
    else:
        mc, mv = S.int('mc', 0, n, eager=(0, 1, 2)), S.int('mv', 0, n, eager=(0, 1, 2))
        out = list(t.make_ddca(mc, mv, sr, start))
        keep = lambda cr, an: not (sr and 'a' in spaces(cr + an)) and bool(spaces(cr + an).count('c') <= mc) and bool(spaces(cr + an).count('v') <= mv)
    terms_check(S, M, [(c, filt(val, keep))], out, f'blocks of {show(lab)}')
    S.check(S.eq(t.coeff, c) and M.value(O.expr_of_term(R, t)) == val, 'the original term is changed')
    seen = set()
    for x in out:
        sp = tuple(i.space for i in x.sq_op.indices())
        S.check(all(s.lower() in 'cav' for s in sp), 'every operator label is elementary')
        S.check(sp not in seen, 'every block appears once')
        seen.add(sp)
        S.check(all(i.number >= start for i in x.indices_set), 'labels follow the starting number')


def scenarios(tier):
    t = tier == 'thorough'
    so = ['spin-orbital', 'so']
    return [
        Scenario('hamiltonian', hamiltonian, 'rank 1 to 3', k=[1, 2, 3], typ=so, sizes={'c': 1, 'a': 2, 'v': 1}),
        Scenario('hamiltonian-4', hamiltonian, 'rank 4', k=[4], typ=['so'], sizes={'c': 1, 'a': 2, 'v': 1}),
        Scenario('hamiltonian-types', hamiltonian, 'spin-integrated and spin-adapted labels', k=[1, 2, 3] if t else [1, 2], typ=['si', 'sa'], sizes={'c': 1, 'a': 1, 'v': 1}),
        Scenario('cluster', cluster, 'rank 1 and 2, all hole and particle labels', k=[1, 2], h=['h', 'c', 'a'], p=['p', 'v', 'a'], sizes={'c': 2, 'a': 2, 'v': 2}),
        Scenario('cluster-3', cluster, 'rank 3' if not t else 'rank 3 and 4', k=[3, 4] if t else [3], h=['c', 'h'], p=['v'] if t else ['v', 'p'], sizes={'c': 3, 'a': 1, 'v': 3} if not t else {'c': 4, 'a': 0, 'v': 4}),
        Scenario('clusters', clusters, 'lists of ranks'),
        Scenario('zeroth', zeroth, 'diagonal Fock, Dyall, Fink'),
        Scenario('blocks-1', ddca, 'one-body operators, any labels and limits', shapes=['H:0/1 a:1/0', 'H:02/13 T:3/2 a:1/0', 'H:02/13 L:3/2 a:1/0'],
                 spaces={'0': 'gphvca', '1': 'gphvca', '2': 'p', '3': 'h'}),
        Scenario('blocks-2', ddca, 'two-body operators, any limits', shapes=['H:01/23 a:23/01', 'H:01/23 a:32/01', 'H:04/23 T:1/4 a:23/01'],
                 spaces={'0': 'gv', '1': 'gc' if not t else 'gphc', '2': 'gp', '3': 'ah', '4': 'p'}, sizes={'c': 1, 'a': 1, 'v': 1} if not t else SIZES),
        Scenario('blocks-spin', ddca, 'spin-integrated labels', shapes=['H:01/23 a:23/01'], spaces={'0': 'gp', '1': 'GV', '2': 'g', '3': 'GH'}, typ='si',
                 sizes={'c': 1, 'a': 1, 'v': 1}),
        Scenario('blocks-odd', ddca, 'operators that do not conserve particles', shapes=['H:01/23 a:230/1', 'H:01/23 a:2301/', 'H:01/23 a:2/301'],
                 spaces={'0': 'gp', '1': 'gh', '2': 'gc', '3': 'a'}),
    ]
